use crate::{
    err,
    jwe::{self, JweDecrypter, JweEncrypter, JweHeader},
    JoseError,
};
use serde_json::{Map, Value};

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct JwtPayload {
    claims: Map<String, Value>,
}
impl JwtPayload {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn from_map(claims: impl Into<Map<String, Value>>) -> Result<Self, JoseError> {
        let mut p = Self::new();
        for (k, v) in claims.into() {
            p.set_claim(&k, Some(v))?;
        }
        Ok(p)
    }
    pub fn set_claim(&mut self, k: &str, v: Option<Value>) -> Result<(), JoseError> {
        let Some(v) = v else {
            self.claims.shift_remove(k);
            return Ok(());
        };
        let ok = match k {
            "iss" | "sub" | "jti" => v.is_string(),
            "aud" => v.is_string() || v.as_array().is_some_and(|a| a.iter().all(Value::is_string)),
            "exp" | "nbf" | "iat" => v.is_number(),
            _ => true,
        };
        if !ok {
            return err(format!("The JWT {k} payload claim is ill-typed."));
        }
        self.claims.insert(k.into(), v);
        Ok(())
    }
    pub fn claim(&self, k: &str) -> Option<&Value> {
        self.claims.get(k)
    }
    pub fn claims_set(&self) -> &Map<String, Value> {
        &self.claims
    }
}

pub fn encode_with_encrypter(p: &JwtPayload, h: &JweHeader, e: &dyn JweEncrypter) -> Result<String, JoseError> {
    let text = serde_json::to_string(&p.claims).map_err(|e| JoseError(e.to_string()))?;
    jwe::serialize_compact(text.as_bytes(), h, e)
}

pub fn decode_with_decrypter(s: impl AsRef<str>, d: &dyn JweDecrypter) -> Result<(JwtPayload, JweHeader), JoseError> {
    let (b, h) = jwe::deserialize_compact(s.as_ref(), d)?;
    let claims: Map<String, Value> = serde_json::from_slice(&b).map_err(|e| JoseError(e.to_string()))?;
    Ok((JwtPayload::from_map(claims)?, h))
}
