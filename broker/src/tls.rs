//! Committed test certificates and the TLS configurations made of them.
use rustls::pki_types::pem::PemObject;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use std::path::PathBuf;
use std::sync::{Arc, OnceLock};

pub fn dir() -> PathBuf {
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/certs"))
}
pub fn certs(name: &str) -> Vec<CertificateDer<'static>> {
    CertificateDer::pem_file_iter(dir().join(format!("{name}.pem"))).unwrap().map(|c| c.unwrap()).collect()
}
pub fn key(name: &str) -> PrivateKeyDer<'static> {
    PrivateKeyDer::from_pem_file(dir().join(format!("{name}.key"))).unwrap()
}

/// What a client presents: nothing, or the chain and key of these names.
pub fn client(present: Option<(&str, &str)>) -> Arc<rustls::ClientConfig> {
    let mut roots = rustls::RootCertStore::empty();
    for c in certs("ca") {
        roots.add(c).unwrap();
    }
    let b = rustls::ClientConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider()))
        .with_safe_default_protocol_versions()
        .unwrap()
        .with_root_certificates(roots);
    Arc::new(match present {
        None => b.with_no_client_auth(),
        Some((c, k)) => b.with_client_auth_cert(certs(c), key(k)).unwrap(),
    })
}

type Pair = (tokio_rustls::TlsAcceptor, Arc<rustls::ClientConfig>);

/// An acceptor without client certificates and a client that trusts it.
pub fn pair() -> Pair {
    static P: OnceLock<Pair> = OnceLock::new();
    P.get_or_init(|| {
        let s = rustls::ServerConfig::builder_with_provider(Arc::new(rustls::crypto::ring::default_provider()))
            .with_safe_default_protocol_versions()
            .unwrap()
            .with_no_client_auth()
            .with_single_cert(certs("server"), key("server"))
            .unwrap();
        (tokio_rustls::TlsAcceptor::from(Arc::new(s)), client(None))
    })
    .clone()
}
