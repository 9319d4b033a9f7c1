use crate::{err, JoseError};
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value};

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(try_from = "Map<String, Value>", into = "Map<String, Value>")]
pub struct Jwk {
    map: Map<String, Value>,
}

impl TryFrom<Map<String, Value>> for Jwk {
    type Error = JoseError;
    fn try_from(m: Map<String, Value>) -> Result<Self, JoseError> {
        Self::from_map(m)
    }
}
impl From<Jwk> for Map<String, Value> {
    fn from(j: Jwk) -> Self {
        j.map
    }
}

impl Jwk {
    pub fn from_map(map: Map<String, Value>) -> Result<Self, JoseError> {
        for (k, v) in &map {
            let ok = match k.as_str() {
                "kty" | "use" | "alg" | "kid" | "x5u" | "x5t" | "x5t#S256" => v.is_string(),
                "key_ops" | "x5c" => v.as_array().is_some_and(|a| a.iter().all(Value::is_string)),
                _ => true,
            };
            if !ok {
                return err(format!("The JWK {k} parameter is ill-typed."));
            }
        }
        if !map.contains_key("kty") {
            return err("The JWK kty parameter is required.");
        }
        Ok(Self { map })
    }
    pub fn new(key_type: &str) -> Self {
        Self { map: [("kty".to_string(), Value::String(key_type.into()))].into_iter().collect() }
    }
    pub fn set_parameter(&mut self, k: &str, v: Option<Value>) -> Result<(), JoseError> {
        let mut map = self.map.clone();
        match v {
            Some(v) => map.insert(k.into(), v),
            None => map.shift_remove(k),
        };
        *self = Self::from_map(map)?;
        Ok(())
    }
    pub fn set_key_id(&mut self, v: impl Into<String>) {
        self.map.insert("kid".into(), Value::String(v.into()));
    }
    pub fn set_algorithm(&mut self, v: impl Into<String>) {
        self.map.insert("alg".into(), Value::String(v.into()));
    }
    pub fn set_key_use(&mut self, v: impl Into<String>) {
        self.map.insert("use".into(), Value::String(v.into()));
    }
    pub fn from_bytes(b: impl AsRef<[u8]>) -> Result<Self, JoseError> {
        let map = serde_json::from_slice(b.as_ref()).map_err(|e| JoseError(e.to_string()))?;
        Self::from_map(map)
    }
    pub fn parameter(&self, k: &str) -> Option<&Value> {
        self.map.get(k)
    }
    fn text(&self, k: &str) -> Option<&str> {
        self.map.get(k).and_then(Value::as_str)
    }
    pub fn key_type(&self) -> &str {
        self.text("kty").unwrap_or("")
    }
    pub fn key_id(&self) -> Option<&str> {
        self.text("kid")
    }
    pub fn key_use(&self) -> Option<&str> {
        self.text("use")
    }
    pub fn algorithm(&self) -> Option<&str> {
        self.text("alg")
    }
    pub fn curve(&self) -> Option<&str> {
        self.text("crv")
    }
    pub fn key_operations(&self) -> Option<Vec<&str>> {
        Some(self.map.get("key_ops")?.as_array()?.iter().filter_map(Value::as_str).collect())
    }
}
impl AsRef<Map<String, Value>> for Jwk {
    fn as_ref(&self) -> &Map<String, Value> {
        &self.map
    }
}
