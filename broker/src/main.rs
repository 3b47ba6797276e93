mod authn;
mod clock;
mod codec;
mod confcheck;
mod creds;
mod duel;
mod frame;
mod hist;
mod hookmon;
mod hooks;
mod hostile;
mod life;
mod limits;
mod model;
mod net;
mod noise;
mod props;
mod real;
mod smoke;
mod storm;
mod timers;
mod tls;
mod tp;
mod world;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    monlib::capture_panics();
    if std::env::var_os("MON_LOG").is_some() {
        struct L;
        impl log::Log for L {
            fn enabled(&self, _: &log::Metadata) -> bool {
                true
            }
            fn log(&self, r: &log::Record) {
                /// Long packets cut short.
                struct Short(String);
                impl std::fmt::Write for Short {
                    fn write_str(&mut self, s: &str) -> std::fmt::Result {
                        self.0.push_str(s);
                        if self.0.len() > 300 { Err(std::fmt::Error) } else { Ok(()) }
                    }
                }
                let mut s = Short(String::new());
                let _ = std::fmt::Write::write_fmt(&mut s, *r.args());
                eprintln!("[{}] {}", r.level(), s.0);
            }
            fn flush(&self) {}
        }
        static LG: L = L;
        log::set_logger(&LG).unwrap();
        log::set_max_level(if std::env::var("MON_LOG").is_ok_and(|x| x == "trace") { log::LevelFilter::Trace } else { log::LevelFilter::Debug });
    }
    match id.as_str() {
        "smoke" => smoke::run(),
        "storm" => props::storm(),
        // real sockets and clocks
        "C28" | "C31" => drop(props::dispatch(&id)),
        _ if props::known(&id) => monlib::lead(&id, 6, props::stormy(&id), || drop(props::dispatch(&id))),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}
