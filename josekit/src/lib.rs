//! The part of josekit's interface that openid4vp's src/core/jwe.rs uses, with real ECDH-ES, the
//! Concat KDF and all six content encryptions of RFC 7518. The header is sent as the caller set it.
pub mod b64;
pub mod cipher;
pub mod jwe;
pub mod jwk;
pub mod jwt;

#[derive(Debug, Clone)]
pub struct JoseError(pub String);
impl std::fmt::Display for JoseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for JoseError {}
pub(crate) fn err<T>(s: impl Into<String>) -> Result<T, JoseError> {
    Err(JoseError(s.into()))
}
pub use serde_json::{Map, Number, Value};
