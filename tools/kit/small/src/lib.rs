//! The modules of akasa-core that need no MQTT codec, compiled in place from /repo.
#![allow(dead_code)]
pub mod protocols {
    #[path = "/repo/akasa-core/src/protocols/scram/mod.rs"]
    pub mod scram;
}
pub mod server {
    #[path = "/repo/akasa-core/src/server/proxy.rs"]
    pub mod proxy;
}
