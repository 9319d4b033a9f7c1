use crate::{b64, cipher, err, jwk::Jwk, JoseError};
use rand::{rngs::OsRng, RngCore};
use serde_json::{Map, Value};
use sha2::{Digest, Sha256};

pub use alg::ecdh_es::EcdhEsJweAlgorithm;
pub const ECDH_ES: EcdhEsJweAlgorithm = EcdhEsJweAlgorithm::EcdhEs;

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct JweHeader {
    claims: Map<String, Value>,
}
impl JweHeader {
    pub fn new() -> Self {
        Self::default()
    }
    fn set(&mut self, k: &str, v: impl Into<String>) {
        self.claims.insert(k.into(), Value::String(v.into()));
    }
    pub fn set_token_type(&mut self, v: impl Into<String>) {
        self.set("typ", v)
    }
    pub fn set_content_type(&mut self, v: impl Into<String>) {
        self.set("cty", v)
    }
    pub fn set_algorithm(&mut self, v: impl Into<String>) {
        self.set("alg", v)
    }
    pub fn set_content_encryption(&mut self, v: impl Into<String>) {
        self.set("enc", v)
    }
    pub fn set_key_id(&mut self, v: impl Into<String>) {
        self.set("kid", v)
    }
    pub fn set_claim(&mut self, k: &str, v: Option<Value>) -> Result<(), JoseError> {
        if matches!(k, "alg" | "enc" | "typ" | "cty" | "kid" | "zip") && v.as_ref().is_some_and(|v| !v.is_string()) {
            return err(format!("The JWE {k} header claim must be a string."));
        }
        match v {
            Some(v) => self.claims.insert(k.into(), v),
            None => self.claims.shift_remove(k),
        };
        Ok(())
    }
    pub fn from_map(m: impl Into<Map<String, Value>>) -> Result<Self, JoseError> {
        let mut h = Self::new();
        for (k, v) in m.into() {
            h.set_claim(&k, Some(v))?;
        }
        Ok(h)
    }
    pub fn content_type(&self) -> Option<&str> {
        self.text("cty")
    }
    pub fn claim(&self, k: &str) -> Option<&Value> {
        self.claims.get(k)
    }
    fn text(&self, k: &str) -> Option<&str> {
        self.claims.get(k).and_then(Value::as_str)
    }
    pub fn algorithm(&self) -> Option<&str> {
        self.text("alg")
    }
    pub fn content_encryption(&self) -> Option<&str> {
        self.text("enc")
    }
    pub fn key_id(&self) -> Option<&str> {
        self.text("kid")
    }
    pub fn token_type(&self) -> Option<&str> {
        self.text("typ")
    }
    pub fn claims_set(&self) -> &Map<String, Value> {
        &self.claims
    }
    /// agreement PartyUInfo and PartyVInfo, set as bytes.
    pub fn set_agreement_partyuinfo(&mut self, v: impl AsRef<[u8]>) {
        let s = b64::encode(v.as_ref());
        self.set("apu", s)
    }
    pub fn set_agreement_partyvinfo(&mut self, v: impl AsRef<[u8]>) {
        let s = b64::encode(v.as_ref());
        self.set("apv", s)
    }
}

pub trait JweEncrypter {
    fn public(&self) -> &p256::PublicKey;
}
pub trait JweDecrypter {
    fn secret(&self) -> &p256::SecretKey;
}

pub mod alg {
    pub mod ecdh_es {
        use super::super::*;
        use std::marker::PhantomData;

        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum EcdhEsJweAlgorithm {
            EcdhEs,
        }
        #[derive(Debug, Clone)]
        pub struct EcdhEsJweEncrypter<C>(p256::PublicKey, PhantomData<C>);
        #[derive(Debug, Clone)]
        pub struct EcdhEsJweDecrypter<C>(p256::SecretKey, PhantomData<C>);
        impl<C> JweEncrypter for EcdhEsJweEncrypter<C> {
            fn public(&self) -> &p256::PublicKey {
                &self.0
            }
        }
        impl<C> JweDecrypter for EcdhEsJweDecrypter<C> {
            fn secret(&self) -> &p256::SecretKey {
                &self.0
            }
        }

        fn usable(jwk: &Jwk, op: &str) -> Result<(), JoseError> {
            if jwk.key_type() != "EC" || jwk.curve() != Some("P-256") {
                return err("The JWK must be a P-256 key.");
            }
            if !matches!(jwk.key_use(), None | Some("enc")) {
                return err("A parameter use must be enc.");
            }
            if jwk.key_operations().is_some_and(|o| !o.contains(&op)) {
                return err(format!("A parameter key_ops must contain {op}."));
            }
            if !matches!(jwk.algorithm(), None | Some("ECDH-ES")) {
                return err("A parameter alg must be ECDH-ES.");
            }
            Ok(())
        }
        pub(crate) fn coordinate(jwk: &Jwk, k: &str) -> Result<[u8; 32], JoseError> {
            jwk.parameter(k)
                .and_then(Value::as_str)
                .and_then(b64::decode)
                .and_then(|b| b.try_into().ok())
                .ok_or_else(|| JoseError(format!("The JWK {k} parameter is required.")))
        }
        impl EcdhEsJweAlgorithm {
            pub fn name(&self) -> &str {
                "ECDH-ES"
            }
            pub fn encrypter_from_jwk<C>(&self, jwk: &Jwk) -> Result<EcdhEsJweEncrypter<C>, JoseError> {
                usable(jwk, "deriveKey")?;
                Ok(EcdhEsJweEncrypter(public_key(jwk)?, PhantomData))
            }
            pub fn decrypter_from_jwk<C>(&self, jwk: &Jwk) -> Result<EcdhEsJweDecrypter<C>, JoseError> {
                usable(jwk, "deriveKey")?;
                let d = coordinate(jwk, "d")?;
                match p256::SecretKey::from_slice(&d) {
                    Ok(k) => Ok(EcdhEsJweDecrypter(k, PhantomData)),
                    Err(_) => err("invalid private key"),
                }
            }
        }
        pub(crate) fn public_key(jwk: &Jwk) -> Result<p256::PublicKey, JoseError> {
            let mut sec1 = vec![4];
            sec1.extend(coordinate(jwk, "x")?);
            sec1.extend(coordinate(jwk, "y")?);
            p256::PublicKey::from_sec1_bytes(&sec1).map_err(|_| JoseError("not a point of P-256".into()))
        }
    }
}

fn agree(enc: &str, header: &Map<String, Value>, s: &p256::SecretKey, p: &p256::PublicKey) -> Result<Vec<u8>, JoseError> {
    let Some(len) = cipher::key_len(enc) else {
        return err(format!("unsupported content encryption: {enc}"));
    };
    let z = p256::ecdh::diffie_hellman(s.to_nonzero_scalar(), p.as_affine());
    let party = |k: &str| {
        header
            .get(k)
            .and_then(Value::as_str)
            .and_then(b64::decode)
            .unwrap_or_default()
    };
    let mut info = vec![];
    for part in [enc.as_bytes().to_vec(), party("apu"), party("apv")] {
        info.extend((part.len() as u32).to_be_bytes());
        info.extend(part);
    }
    info.extend((len as u32 * 8).to_be_bytes());
    let mut key = vec![];
    let mut round = 1u32;
    while key.len() < len {
        key.extend(
            Sha256::new()
                .chain_update(round.to_be_bytes())
                .chain_update(z.raw_secret_bytes())
                .chain_update(&info)
                .finalize(),
        );
        round += 1;
    }
    key.truncate(len);
    Ok(key)
}

pub fn serialize_compact(payload: &[u8], header: &JweHeader, e: &dyn JweEncrypter) -> Result<String, JoseError> {
    let mut h = header.claims.clone();
    let Some(enc) = header.content_encryption().map(String::from) else {
        return err("The JWE header claim enc is required.");
    };
    // Whatever the caller put there, the header names the algorithm that was used.
    h.insert("alg".into(), Value::String("ECDH-ES".into()));
    let ephemeral = p256::SecretKey::random(&mut OsRng);
    let cek = agree(&enc, &h, &ephemeral, e.public())?;
    let point = sec1(&ephemeral.public_key());
    h.insert(
        "epk".into(),
        serde_json::json!({"kty": "EC", "crv": "P-256", "x": b64::encode(&point[1..33]), "y": b64::encode(&point[33..])}),
    );
    let head = b64::encode(serde_json::to_string(&h).unwrap().as_bytes());
    let mut iv = vec![0; cipher::iv_len(&enc)];
    OsRng.fill_bytes(&mut iv);
    let (ct, tag) = cipher::seal(&enc, &cek, &iv, head.as_bytes(), payload);
    Ok(format!("{head}..{}.{}.{}", b64::encode(&iv), b64::encode(&ct), b64::encode(&tag)))
}

fn sec1(p: &p256::PublicKey) -> Vec<u8> {
    p256::EncodedPoint::from(*p).as_bytes().to_vec()
}

pub fn deserialize_compact(s: impl AsRef<str>, d: &dyn JweDecrypter) -> Result<(Vec<u8>, JweHeader), JoseError> {
    let parts: Vec<&str> = s.as_ref().split('.').collect();
    let [head, "", iv, ct, tag] = parts[..] else {
        return err("not a compact ECDH-ES JWE");
    };
    let dec = |s: &str| b64::decode(s).ok_or_else(|| JoseError("not base64url".into()));
    let claims: Map<String, Value> = serde_json::from_slice(&dec(head)?).map_err(|e| JoseError(e.to_string()))?;
    let header = JweHeader { claims };
    if header.algorithm() != Some("ECDH-ES") {
        return err("unexpected alg");
    }
    let enc = header.content_encryption().unwrap_or_default().to_string();
    let epk = match header.claim("epk") {
        Some(Value::Object(m)) => alg::ecdh_es::public_key(&Jwk::from_map(m.clone())?)?,
        _ => return err("no epk"),
    };
    let cek = agree(&enc, &header.claims, d.secret(), &epk)?;
    match cipher::open(&enc, &cek, &dec(iv)?, head.as_bytes(), &dec(ct)?, &dec(tag)?) {
        Some(p) => Ok((p, header)),
        None => err("decryption failed"),
    }
}
