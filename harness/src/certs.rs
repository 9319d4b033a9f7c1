//! Keys and a minimal X.509 certificate writer (DER), so that certificates are deterministic and arbitrary.
use p256::ecdsa::{signature::Signer, SigningKey};
use rand::{rngs::StdRng, Rng};
use serde_json::{json, Value as Json};

pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    let n = body.len();
    if n < 128 {
        v.push(n as u8);
    } else if n < 256 {
        v.extend([0x81, n as u8]);
    } else if n < 65536 {
        v.extend([0x82, (n >> 8) as u8, n as u8]);
    } else {
        v.extend([0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8]);
    }
    v.extend(body);
    v
}
pub fn seq(items: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &items.concat())
}
fn oid(arcs: &[u64]) -> Vec<u8> {
    let mut b = vec![(arcs[0] * 40 + arcs[1]) as u8];
    for a in &arcs[2..] {
        let mut stack = vec![(a & 127) as u8];
        let mut x = a >> 7;
        while x > 0 {
            stack.push((x & 127) as u8 | 128);
            x >>= 7;
        }
        stack.reverse();
        b.extend(stack);
    }
    tlv(6, &b)
}
fn bitstring(b: &[u8]) -> Vec<u8> {
    tlv(3, &[&[0u8], b].concat())
}
fn name(cn: &str) -> Vec<u8> {
    seq(&[tlv(0x31, &seq(&[oid(&[2, 5, 4, 3]), tlv(0x0c, cn.as_bytes())]))])
}

#[derive(Clone, Debug, PartialEq)]
pub enum San {
    Dns(String),
    Uri(String),
    Email(String),
    Ip([u8; 4]),
    Dir(String),
}

impl San {
    fn der(&self) -> Vec<u8> {
        match self {
            San::Dns(s) => tlv(0x82, s.as_bytes()),
            San::Uri(s) => tlv(0x86, s.as_bytes()),
            San::Email(s) => tlv(0x81, s.as_bytes()),
            San::Ip(b) => tlv(0x87, b),
            San::Dir(s) => tlv(0xa4, &name(s)),
        }
    }
}

#[derive(Clone)]
pub enum Key {
    P256(SigningKey),
    P384(p384::ecdsa::SigningKey),
    K256(k256::ecdsa::SigningKey),
    Ed(ed25519_dalek::SigningKey),
    /// The shape of an RSA key: this modulus, and "signatures" as long as it, which only the monitors can check.
    Rsa(Vec<u8>),
}

impl Key {
    pub fn p256(rng: &mut StdRng) -> Key {
        Key::P256(SigningKey::random(rng))
    }
    pub fn p384(rng: &mut StdRng) -> Key {
        Key::P384(p384::ecdsa::SigningKey::random(rng))
    }
    pub fn k256(rng: &mut StdRng) -> Key {
        Key::K256(k256::ecdsa::SigningKey::random(rng))
    }
    pub fn ed(rng: &mut StdRng) -> Key {
        Key::Ed(ed25519_dalek::SigningKey::from_bytes(&rng.gen()))
    }
    pub fn rsa(rng: &mut StdRng) -> Key {
        let n = if rng.gen() { 256 } else { 512 };
        Key::Rsa((0..n).map(|_| rng.gen::<u8>() | 1).collect())
    }
    pub fn alg(&self) -> &'static str {
        match self {
            Key::P256(_) => "ES256",
            Key::P384(_) => "ES384",
            Key::K256(_) => "ES256K",
            Key::Ed(_) => "EdDSA",
            Key::Rsa(_) => "RS256",
        }
    }
    pub fn sign(&self, m: &[u8]) -> Vec<u8> {
        match self {
            Key::P256(k) => {
                let s: p256::ecdsa::Signature = k.sign(m);
                s.to_vec()
            }
            Key::P384(k) => {
                let s: p384::ecdsa::Signature = p384::ecdsa::signature::Signer::sign(k, m);
                s.to_vec()
            }
            Key::K256(k) => {
                let s: k256::ecdsa::Signature = k256::ecdsa::signature::Signer::sign(k, m);
                s.to_vec()
            }
            Key::Ed(k) => {
                let s: ed25519_dalek::Signature = ed25519_dalek::Signer::sign(k, m);
                s.to_vec()
            }
            Key::Rsa(n) => {
                let d = crate::refs::sha256(&[&n[..], m].concat());
                d.iter().cycle().zip(n).map(|(a, b)| a ^ b).collect()
            }
        }
    }
    pub fn verify(&self, m: &[u8], sig: &[u8]) -> bool {
        match self {
            Key::P256(k) => p256::ecdsa::Signature::from_slice(sig)
                .map(|s| p256::ecdsa::signature::Verifier::verify(k.verifying_key(), m, &s).is_ok())
                .unwrap_or(false),
            Key::P384(k) => p384::ecdsa::Signature::from_slice(sig)
                .map(|s| p384::ecdsa::signature::Verifier::verify(k.verifying_key(), m, &s).is_ok())
                .unwrap_or(false),
            Key::K256(k) => k256::ecdsa::Signature::from_slice(sig)
                .map(|s| k256::ecdsa::signature::Verifier::verify(k.verifying_key(), m, &s).is_ok())
                .unwrap_or(false),
            Key::Ed(k) => ed25519_dalek::Signature::from_slice(sig)
                .map(|s| ed25519_dalek::Verifier::verify(&k.verifying_key(), m, &s).is_ok())
                .unwrap_or(false),
            Key::Rsa(_) => self.sign(m) == sig,
        }
    }
    pub fn spki(&self) -> Vec<u8> {
        let ec = [1, 2, 840, 10045, 2, 1];
        match self {
            Key::P256(k) => seq(&[
                seq(&[oid(&ec), oid(&[1, 2, 840, 10045, 3, 1, 7])]),
                bitstring(k.verifying_key().to_encoded_point(false).as_bytes()),
            ]),
            Key::P384(k) => seq(&[
                seq(&[oid(&ec), oid(&[1, 3, 132, 0, 34])]),
                bitstring(k.verifying_key().to_encoded_point(false).as_bytes()),
            ]),
            Key::K256(k) => seq(&[
                seq(&[oid(&ec), oid(&[1, 3, 132, 0, 10])]),
                bitstring(k.verifying_key().to_encoded_point(false).as_bytes()),
            ]),
            Key::Ed(k) => seq(&[seq(&[oid(&[1, 3, 101, 112])]), bitstring(k.verifying_key().as_bytes())]),
            Key::Rsa(n) => seq(&[
                seq(&[oid(&[1, 2, 840, 113549, 1, 1, 1]), tlv(5, &[])]),
                bitstring(&seq(&[tlv(2, &[&[0], &n[..]].concat()), tlv(2, &[1, 0, 1])])),
            ]),
        }
    }
    /// Public JWK without alg/kid.
    pub fn jwk(&self) -> Json {
        use crate::refs::b64url;
        match self {
            Key::P256(k) => {
                let p = k.verifying_key().to_encoded_point(false);
                json!({"kty":"EC","crv":"P-256","x":b64url(p.x().unwrap()),"y":b64url(p.y().unwrap())})
            }
            Key::P384(k) => {
                let p = k.verifying_key().to_encoded_point(false);
                json!({"kty":"EC","crv":"P-384","x":b64url(p.x().unwrap()),"y":b64url(p.y().unwrap())})
            }
            Key::K256(k) => {
                let p = k.verifying_key().to_encoded_point(false);
                json!({"kty":"EC","crv":"secp256k1","x":b64url(p.x().unwrap()),"y":b64url(p.y().unwrap())})
            }
            Key::Ed(k) => json!({"kty":"OKP","crv":"Ed25519","x":b64url(k.verifying_key().as_bytes())}),
            Key::Rsa(n) => json!({"kty":"RSA","n":b64url(n),"e":"AQAB"}),
        }
    }
}

#[derive(Clone)]
pub struct Cert {
    pub der: Vec<u8>,
    pub sans: Vec<San>,
    pub key: Key,
    pub cn: String,
}

impl Cert {
    /// Self-made certificate for `key`, signed by `issuer` (ES256 label whatever the issuer's key type).
    pub fn new(rng: &mut StdRng, key: Key, sans: Vec<San>, cn: &str, issuer: &Key) -> Cert {
        Self::build(rng, key, sans, cn, issuer, false)
    }
    /// `odd`: with an explicit default value, which parsers take but which is not how they would write it.
    pub fn build(rng: &mut StdRng, key: Key, sans: Vec<San>, cn: &str, issuer: &Key, odd: bool) -> Cert {
        let alg = seq(&[oid(&[1, 2, 840, 10045, 4, 3, 2])]);
        let mut serial: Vec<u8> = (0..8).map(|_| rng.gen()).collect();
        serial[0] = serial[0] & 0x7f | 0x01;
        let mut exts = vec![];
        // basicConstraints of either sort, the SAN extension if any (critical or not), and others around them.
        let mut on = |p: f64| crate::gen::chance(rng, p);
        if on(0.9) {
            let ca = if on(0.3) { seq(&[tlv(1, &[0xff])]) } else { seq(&[]) };
            exts.push(seq(&[oid(&[2, 5, 29, 19]), tlv(1, &[0xff]), tlv(4, &ca)]));
        }
        if on(0.3) {
            exts.push(seq(&[oid(&[2, 5, 29, 15]), tlv(1, &[0xff]), tlv(4, &tlv(3, &[7, 0x80]))]));
        }
        if !sans.is_empty() {
            let gns: Vec<Vec<u8>> = sans.iter().map(San::der).collect();
            let mut ext = vec![oid(&[2, 5, 29, 17])];
            if odd {
                ext.push(tlv(1, &[0]));
            } else if on(0.3) {
                ext.push(tlv(1, &[0xff]));
            }
            ext.push(tlv(4, &seq(&gns)));
            exts.push(seq(&ext));
        }
        if on(0.3) {
            // subjectKeyIdentifier and a private extension that names a host too
            exts.push(seq(&[oid(&[2, 5, 29, 14]), tlv(4, &tlv(4, &[1; 20]))]));
            exts.push(seq(&[oid(&[1, 3, 6, 1, 4, 1, 99999, 1]), tlv(4, &tlv(0x16, b"ext.example"))]));
        }
        if on(0.06) {
            let n = if on(0.3) { 40_000 } else { 5_000 };
            exts.push(seq(&[oid(&[1, 3, 6, 1, 4, 1, 99999, 2]), tlv(4, &vec![7; n])]));
        }
        let by = if on(0.3) { cn } else { "Test Issuer" };
        let (from, to): (&[u8], &[u8]) = if on(0.2) { (b"010101000000Z", b"020101000000Z") } else { (b"240101000000Z", b"490101000000Z") };
        let tbs = seq(&[
            tlv(0xa0, &tlv(2, &[2])),
            tlv(2, &serial),
            alg.clone(),
            name(by),
            seq(&[tlv(0x17, from), tlv(0x17, to)]),
            name(cn),
            key.spki(),
            tlv(0xa3, &seq(&exts)),
        ]);
        let sig = match issuer {
            Key::P256(k) => {
                let s: p256::ecdsa::Signature = k.sign(&tbs);
                s.to_der().as_bytes().to_vec()
            }
            k => k.sign(&tbs),
        };
        Cert {
            der: seq(&[tbs, alg, bitstring(&sig)]),
            sans,
            key,
            cn: cn.into(),
        }
    }
    pub fn dns(&self) -> Vec<&str> {
        self.sans
            .iter()
            .filter_map(|s| match s {
                San::Dns(d) => Some(d.as_str()),
                _ => None,
            })
            .collect()
    }
    pub fn hash_id(&self) -> String {
        crate::refs::b64url(&crate::refs::sha256(&self.der))
    }
    pub fn parsed(&self) -> x509_cert::Certificate {
        use x509_cert::der::Decode;
        x509_cert::Certificate::from_der(&self.der).unwrap()
    }
}

pub fn domain(rng: &mut StdRng) -> String {
    let n = rng.gen_range(2..5);
    let mut v: Vec<String> = (0..n).map(|_| crate::gen::lower(rng, 2, 8)).collect();
    if crate::gen::chance(rng, 0.15) {
        v.insert(0, "*".into());
    }
    if crate::gen::chance(rng, 0.2) {
        let i = v.len() - 1;
        v[i] = crate::gen::ident(rng, 2, 12).replace('_', "-");
    }
    v.join(".")
}

/// A varied pool of certificates: none, one or several DNS names at various positions, other name types, other
/// key types, names shared between certificates with different keys.
pub fn pool(rng: &mut StdRng, n: usize) -> Vec<Cert> {
    let ca = Key::p256(rng);
    let shared = domain(rng);
    let mut out = vec![];
    for i in 0..n {
        let key = match i % 8 {
            5 => Key::p384(rng),
            6 => Key::k256(rng),
            7 => Key::ed(rng),
            _ => Key::p256(rng),
        };
        let d = domain(rng);
        let chance_long = crate::gen::chance(rng, 0.5);
        let mut sans = match (i + i / 8) % 7 {
            0 if chance_long => vec![San::Dns([&*"w".repeat(60); 3].join(".") + "." + &d)],
            0 => vec![San::Dns(d.clone())],
            1 => vec![San::Uri(format!("https://{d}")), San::Dns(d.clone()), San::Dns(domain(rng))],
            2 => vec![San::Uri(d.clone()), San::Email(format!("a@{d}")), San::Ip([127, 0, 0, 1])],
            3 => vec![San::Dns(shared.clone()), San::Dns(d.clone())],
            4 => {
                let mut v: Vec<San> = (0..rng.gen_range(3..9)).map(|_| San::Dns(domain(rng))).collect();
                v.push(San::Dns(shared.clone()));
                v
            }
            5 => vec![San::Email(d.clone()), San::Dns(format!("www.{d}")), San::Dir(d.clone())],
            6 if chance_long => (0..*crate::gen::pick(rng, &[40, 120, 300])).map(|_| San::Dns(domain(rng))).chain([San::Dns([&*"y".repeat(63); 3].join(".") + "." + &d)]).collect(),
            _ => vec![San::Dns(d.to_uppercase()), San::Dns(format!("{d}.")), San::Dns("x".repeat(63) + "." + &d)],
        };
        if i % 11 == 10 {
            sans.clear();
        }
        let cn = d.clone();
        out.push(Cert::new(rng, key, sans, &cn, &ca));
    }
    out
}
