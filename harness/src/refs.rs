//! Independent reference implementations the oracles judge against. None of them calls the library.
use serde_json::{Map, Value as Json};
use sha2::{Digest, Sha256};

pub fn sha256(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}

const B64URL: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
const B64STD: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

fn enc64(alpha: &[u8; 64], b: &[u8], pad: bool) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(alpha[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else if pad {
                s.push('=');
            }
        }
    }
    s
}

/// Strict decoding: no padding, no foreign characters, zero trailing bits.
fn dec64(alpha: &[u8; 64], s: &str) -> Option<Vec<u8>> {
    let v: Vec<u32> = s
        .bytes()
        .map(|c| alpha.iter().position(|a| *a == c).map(|p| p as u32))
        .collect::<Option<_>>()?;
    let mut out = vec![];
    for c in v.chunks(4) {
        let mut n = 0u32;
        for i in 0..4 {
            n = n << 6 | c.get(i).copied().unwrap_or(0);
        }
        let bytes = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
        let k = match c.len() {
            4 => 3,
            3 => 2,
            2 => 1,
            _ => return None,
        };
        if bytes[k..].iter().any(|b| *b != 0) {
            return None;
        }
        out.extend_from_slice(&bytes[..k]);
    }
    Some(out)
}

pub fn b64url(b: &[u8]) -> String {
    enc64(B64URL, b, false)
}
pub fn b64std(b: &[u8]) -> String {
    enc64(B64STD, b, true)
}
pub fn unb64url(s: &str) -> Option<Vec<u8>> {
    dec64(B64URL, s)
}
pub fn unb64std_nopad(s: &str) -> Option<Vec<u8>> {
    dec64(B64STD, s)
}

/// application/x-www-form-urlencoded serialisation of one string (WHATWG).
pub fn form_encode(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        match b {
            b' ' => o.push('+'),
            b'*' | b'-' | b'.' | b'_' | b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' => o.push(b as char),
            _ => o += &format!("%{b:02X}"),
        }
    }
    o
}

fn form_decode_one(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'+' {
            out.push(b' ');
        } else if b[i] == b'%' && i + 2 < b.len() && hex(b[i + 1]).is_some() && hex(b[i + 2]).is_some() {
            out.push(hex(b[i + 1]).unwrap() << 4 | hex(b[i + 2]).unwrap());
            i += 2;
        } else {
            out.push(b[i]);
        }
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}

fn hex(c: u8) -> Option<u8> {
    (c as char).to_digit(16).map(|d| d as u8)
}

pub fn form_decode(s: &str) -> Vec<(String, String)> {
    s.split('&')
        .filter(|p| !p.is_empty())
        .map(|p| {
            let (k, v) = p.split_once('=').unwrap_or((p, ""));
            (form_decode_one(k), form_decode_one(v))
        })
        .collect()
}

/// Compact JWS made of the given header, payload text and signature bytes.
pub fn jws_parts(jwt: &str) -> Option<(&str, &str, &str)> {
    let v: Vec<&str> = jwt.split('.').collect();
    match v[..] {
        [a, b, c] => Some((a, b, c)),
        _ => None,
    }
}

pub fn jws_header(jwt: &str) -> Option<Map<String, Json>> {
    serde_json::from_slice(&unb64url(jws_parts(jwt)?.0)?).ok()
}
pub fn jws_payload(jwt: &str) -> Option<Map<String, Json>> {
    serde_json::from_slice(&unb64url(jws_parts(jwt)?.1)?).ok()
}

// --- CBOR (RFC 8949 core deterministic encoding) ---

pub fn cbor_head(major: u8, n: u64) -> Vec<u8> {
    let m = major << 5;
    if n < 24 {
        vec![m | n as u8]
    } else if n < 0x100 {
        vec![m | 24, n as u8]
    } else if n < 0x10000 {
        let mut v = vec![m | 25];
        v.extend((n as u16).to_be_bytes());
        v
    } else if n < 0x1_0000_0000 {
        let mut v = vec![m | 26];
        v.extend((n as u32).to_be_bytes());
        v
    } else {
        let mut v = vec![m | 27];
        v.extend(n.to_be_bytes());
        v
    }
}
pub fn cbor_text(s: &str) -> Vec<u8> {
    let mut v = cbor_head(3, s.len() as u64);
    v.extend(s.as_bytes());
    v
}
pub fn cbor_bytes(b: &[u8]) -> Vec<u8> {
    let mut v = cbor_head(2, b.len() as u64);
    v.extend(b);
    v
}
pub fn cbor_null() -> Vec<u8> {
    vec![0xf6]
}
pub fn cbor_array(items: &[Vec<u8>]) -> Vec<u8> {
    let mut v = cbor_head(4, items.len() as u64);
    for i in items {
        v.extend(i);
    }
    v
}

/// RFC 7638 thumbprint of an EC or RSA key, None if a required member is missing or the type is another.
/// Only for member values that need no JSON escaping.
pub fn thumbprint(jwk: &Map<String, Json>) -> Option<[u8; 32]> {
    let g = |k: &str| jwk.get(k).and_then(Json::as_str);
    let members: &[&str] = match g("kty")? {
        "EC" => &["crv", "kty", "x", "y"],
        "RSA" => &["e", "kty", "n"],
        _ => return None,
    };
    let mut s = String::from("{");
    for (i, m) in members.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s += &format!("\"{m}\":{}", serde_json::to_string(g(m)?).unwrap());
    }
    s.push('}');
    Some(sha256(s.as_bytes()))
}

/// The key a wallet must encrypt the response to: the first P-256 ECDH-ES key not marked for another use.
pub fn encryption_key(keys: &[Map<String, Json>]) -> Option<&Map<String, Json>> {
    keys.iter().find(|k| {
        let g = |m: &str| k.get(m).and_then(Json::as_str);
        g("alg") == Some("ECDH-ES") && g("crv") == Some("P-256") && matches!(g("use"), None | Some("enc"))
    })
}
