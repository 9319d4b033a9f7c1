//! C01: the x509_san_dns and x509_hash request checks.
use crate::{
    certs::{self, Cert, San},
    ctx::{guard, Ctx},
    ensure,
    gen::{self, chance, pick},
    mocks::metadata,
    refs,
};
use openid4vp::core::{
    authorization_request::{
        verification::{
            verifier::{P256Verifier, Verifier},
            x509_hash, x509_san,
        },
        AuthorizationRequestObject,
    },
    metadata::WalletMetadata,
};
use rand::{rngs::StdRng, Rng};
use serde_json::{json, Map, Value as Json};
use std::cell::RefCell;
use x509_cert::{der::Encode, spki::SubjectPublicKeyInfoRef};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Policy {
    Accept,
    RefuseKey,
    RefuseSignature,
}

#[derive(Debug, Clone, PartialEq)]
enum Call {
    Key { spki: Vec<u8>, alg: String },
    Verify { key: Vec<u8>, payload: Vec<u8>, signature: Vec<u8> },
}

thread_local! {
    static CALLS: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
    static POLICY: RefCell<Policy> = const { RefCell::new(Policy::Accept) };
}

/// The monitor in the place of the caller's public key check.
struct Recorder(Vec<u8>);
impl Verifier for Recorder {
    fn from_spki(spki: SubjectPublicKeyInfoRef<'_>, algorithm: String) -> anyhow::Result<Self> {
        let der = spki.to_der()?;
        CALLS.with(|c| c.borrow_mut().push(Call::Key { spki: der.clone(), alg: algorithm }));
        if POLICY.with(|p| *p.borrow()) == Policy::RefuseKey {
            anyhow::bail!("refused key")
        }
        Ok(Recorder(der))
    }
    fn verify(&self, payload: &[u8], signature: &[u8]) -> anyhow::Result<()> {
        CALLS.with(|c| {
            c.borrow_mut().push(Call::Verify {
                key: self.0.clone(),
                payload: payload.into(),
                signature: signature.into(),
            })
        });
        if POLICY.with(|p| *p.borrow()) == Policy::RefuseSignature {
            anyhow::bail!("refused signature")
        }
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Scheme {
    San,
    Hash,
}

impl Scheme {
    fn name(self) -> &'static str {
        match self {
            Scheme::San => "x509_san_dns",
            Scheme::Hash => "x509_hash",
        }
    }
    fn run<V: Verifier>(
        self,
        m: &WalletMetadata,
        o: &AuthorizationRequestObject,
        j: String,
        roots: Option<&[x509_cert::Certificate]>,
    ) -> anyhow::Result<()> {
        match self {
            Scheme::San => x509_san::validate::<V>(m, o, j, roots),
            Scheme::Hash => x509_hash::validate::<V>(m, o, j, roots),
        }
    }
}

/// What the specification says about a request, from its final bytes alone.
enum Expect<'a> {
    Reject(&'static str),
    /// Bound to this certificate; whether it is accepted depends on its key and this signature.
    Bound { leaf: &'a Cert, alg: String, payload: Vec<u8>, signature: Vec<u8> },
    Unjudged,
}

fn expect<'a>(scheme: Scheme, pool: &'a [Cert], algs: &Json, client_id: Option<&str>, jwt: &str) -> Expect<'a> {
    use Expect::*;
    let Some(id) = client_id else { return Reject("no client_id") };
    let prefix = format!("{}:", scheme.name());
    let id = id.strip_prefix(&prefix).unwrap_or(id);
    let Some((h, b, s)) = refs::jws_parts(jwt) else { return Reject("not three parts") };
    let Some(header) = refs::jws_header(jwt) else { return Reject("header") };
    let Some(alg) = header.get("alg").and_then(Json::as_str) else { return Reject("alg") };
    let Some(list) = algs.as_array() else { return Reject("wallet lists no algorithms") };
    if list.iter().any(|a| !a.is_string()) {
        return Reject("wallet algorithms ill-typed");
    }
    if !list.iter().any(|a| a.as_str() == Some(alg)) {
        return Reject("alg not listed");
    }
    let Some(chain) = header.get("x5c").and_then(Json::as_array) else { return Reject("x5c") };
    let Some(leaf) = chain.first().and_then(Json::as_str) else { return Reject("x5c[0]") };
    let Some(der) = refs::unb64std_nopad(leaf.trim_end_matches('=')) else { return Reject("x5c[0] base64") };
    let Some(cert) = pool.iter().find(|c| c.der == der) else {
        // An altered certificate may still be a certificate; only its digest is certain to have changed.
        return match scheme {
            Scheme::Hash if refs::b64url(&refs::sha256(&der)) != id => Reject("certificate digest"),
            _ => Unjudged,
        };
    };
    let bound = match scheme {
        Scheme::San => cert.dns().contains(&id),
        Scheme::Hash => cert.hash_id() == id,
    };
    if !bound {
        return Reject("client_id not bound to the leaf certificate");
    }
    let Some(signature) = refs::unb64url(s) else { return Reject("signature encoding") };
    Bound {
        leaf: cert,
        alg: alg.into(),
        payload: format!("{h}.{b}").into_bytes(),
        signature,
    }
}

pub struct Case {
    pub scheme: Scheme,
    pub what: String,
    pub algs: Json,
    pub client_id: Option<String>,
    pub jwt: String,
    /// The trust anchors given, if any: always the certificates of the chain themselves, so that trust in the
    /// chain, which the library does not judge yet, could not be a reason to refuse.
    roots: Option<Vec<x509_cert::Certificate>>,
}

fn client_ids(rng: &mut StdRng, scheme: Scheme, chain: &[&Cert], pool: &[Cert]) -> (String, Option<String>) {
    let leaf = chain.first().copied().unwrap_or(&pool[0]);
    let own = |rng: &mut StdRng, c: &Cert| match scheme {
        Scheme::San => match c.dns()[..] {
            [] => c.cn.clone(),
            ref d => pick(rng, d).to_string(),
        },
        Scheme::Hash => c.hash_id(),
    };
    let (what, id) = match rng.gen_range(0..20) {
        0..=8 => ("own", own(rng, leaf)),
        9 => ("other certificate of the chain", {
            let c = chain.last().copied().unwrap_or(leaf);
            own(rng, c)
        }),
        10 => ("certificate not in the chain", {
            let c = pick(rng, pool);
            own(rng, c)
        }),
        11..=13 => {
            let o = own(rng, leaf);
            let n = o.chars().count();
            // Differences far into a long name, too.
            let m = match rng.gen_range(0..4) {
                0 if n > 1 => {
                    let keep: String = o.chars().take(rng.gen_range(n / 2..n)).collect();
                    let rest = n - keep.chars().count();
                    format!("{keep}{}", "z".repeat(rest))
                }
                1 if n > 1 => {
                    let skip = rng.gen_range(1..=n / 2);
                    format!("{}{}", "z".repeat(skip), o.chars().skip(skip).collect::<String>())
                }
                _ => gen::near_miss(rng, &o),
            };
            ("near miss", if m == o { gen::near_miss(rng, &o) } else { m })
        }
        14 => ("subject common name", leaf.cn.clone()),
        15 => {
            let v: Vec<String> = leaf
                .sans
                .iter()
                .filter_map(|s| match s {
                    San::Uri(u) | San::Email(u) | San::Dir(u) => Some(u.clone()),
                    San::Ip(b) => Some(b.map(|x| x.to_string()).join(".")),
                    San::Dns(_) => None,
                })
                .collect();
            ("non-DNS name", if v.is_empty() { "127.0.0.1".into() } else { pick(rng, &v).clone() })
        }
        16 => {
            let o = own(rng, leaf);
            let v = match scheme {
                Scheme::San => vec![
                    format!("sub.{o}"),
                    o.split_once('.').map(|p| p.1.to_string()).unwrap_or_default(),
                    format!("{o}."),
                    o.trim_end_matches('.').to_string(),
                    o.to_uppercase(),
                    o.to_lowercase(),
                    o.replacen("*", "www", 1),
                    format!("*.{}", o.split_once('.').map(|p| p.1.to_string()).unwrap_or_default()),
                    format!("https://{o}"),
                    format!("{o}:443"),
                    format!("{o}\u{0}.evil.example"),
                ],
                Scheme::Hash => vec![
                    format!("{o}="),
                    refs::b64std(&refs::sha256(&leaf.der)),
                    refs::sha256(&leaf.der).iter().map(|b| format!("{b:02x}")).collect(),
                    refs::b64url(&refs::sha256(refs::b64std(&leaf.der).as_bytes())),
                    refs::b64url(&refs::sha256(&leaf.key.spki())),
                    o[..42].to_string(),
                    o.to_lowercase(),
                    refs::b64url(&refs::sha256(&leaf.der)[..31]),
                ],
            };
            ("derived name", pick(rng, &v).clone())
        }
        17 => ("empty", String::new()),
        18 => ("text", gen::text(rng)),
        _ => return ("absent client_id".into(), None),
    };
    let p = scheme.name();
    let (pw, id) = match rng.gen_range(0..12) {
        0..=6 => ("", format!("{p}:{id}")),
        7..=8 => ("bare ", id),
        9 => ("double prefix ", format!("{p}:{p}:{id}")),
        10 => ("other prefix ", format!("{}:{id}", pick(rng, &["x509_san_dns", "x509_hash", "x509_san_uri", "did", "X509_HASH"]))),
        _ => ("colon ", format!("{p}::{id}")),
    };
    (format!("{pw}{what}"), Some(id))
}

pub fn case(rng: &mut StdRng, pool: &[Cert]) -> Case {
    let scheme = *pick(rng, &[Scheme::San, Scheme::Hash]);
    let mut n = *pick(rng, &[1usize, 1, 1, 2, 2, 3, 4, 5, 9, 0]);
    if chance(rng, 0.01) {
        n = *pick(rng, &[11, 17, 33, 70]);
    }
    let chain: Vec<&Cert> = (0..n).map(|_| pick(rng, pool)).collect();
    let (id_what, client_id) = client_ids(rng, scheme, &chain, pool);
    let mut what = vec![id_what];

    // algorithms
    let leaf_alg = chain.first().map(|c| c.key.alg()).unwrap_or("ES256");
    let alg: Json = match rng.gen_range(0..14) {
        0 => json!(*pick(rng, &["none", "HS256", "RS256", "es256", "ES256 ", "ES512", "", "ES25", "ES2567"])),
        1 if chance(rng, 0.5) => pick(rng, &[json!(null), json!(7), json!(["ES256"]), json!({"alg": "ES256"}), json!(true)]).clone(),
        2 => json!(*pick(rng, &["ES256", "ES384", "ES256K", "EdDSA"])),
        _ => json!(leaf_alg),
    };
    let mut list = gen::ids_list(rng, &["ES256", "ES384", "EdDSA", "none", "RS256", "es256", "ES256K", "PS256"], 5);
    if chance(rng, 0.02) {
        list.extend((0..rng.gen_range(10..80)).map(|i| format!("X{i}")));
    }
    if chance(rng, 0.75) {
        if let Some(a) = alg.as_str() {
            list.insert(rng.gen_range(0..=list.len()), a.into());
        }
    }
    let algs = match rng.gen_range(0..30) {
        0 => Json::Null, // left out of the metadata
        1 => json!("ES256"),
        2 => json!(["ES256", 7]),
        _ => json!(list),
    };

    // header
    let mut header = Map::new();
    if chance(rng, 0.97) {
        header.insert("alg".into(), alg);
    } else {
        what.push("no alg".into());
    }
    let x5c: Vec<Json> = chain.iter().map(|c| json!(refs::b64std(&c.der))).collect();
    match rng.gen_range(0..24) {
        0 => what.push("no x5c".into()),
        1 => {
            let v = match rng.gen_range(0..6) {
                0 => x5c.first().cloned().unwrap_or(json!("")),
                1 => json!({"0": x5c.first()}),
                2 => json!([x5c]),
                3 => json!(null),
                4 => json!([null, x5c.first()]),
                _ => json!([chain.first().map(|c| c.der.clone()), x5c.first()]),
            };
            what.push("x5c ill-typed".into());
            header.insert("x5c".into(), v);
        }
        2 if !chain.is_empty() => {
            // altered certificate bytes
            let mut d = chain[0].der.clone();
            match rng.gen_range(0..4) {
                0 => {
                    let i = rng.gen_range(0..d.len());
                    d[i] ^= 1 << rng.gen_range(0..8);
                }
                1 => d.push(rng.gen()),
                2 => {
                    d.truncate(rng.gen_range(0..d.len()));
                }
                _ => d.insert(0, 0x30),
            }
            let mut v = x5c.clone();
            v[0] = json!(refs::b64std(&d));
            what.push("altered certificate".into());
            header.insert("x5c".into(), json!(v));
        }
        3 if !chain.is_empty() => {
            let b = refs::b64std(&chain[0].der);
            let v = match rng.gen_range(0..4) {
                0 => format!(" {b}"),
                1 => format!("-----BEGIN CERTIFICATE-----{b}-----END CERTIFICATE-----"),
                2 => format!("{}\n{}", &b[..40], &b[40..]),
                _ => format!("!{b}"),
            };
            what.push("certificate not base64".into());
            let mut w = x5c.clone();
            w[0] = json!(v);
            header.insert("x5c".into(), json!(w));
        }
        _ => {
            header.insert("x5c".into(), json!(x5c));
        }
    }
    if chance(rng, 0.8) {
        header.insert("typ".into(), json!("oauth-authz-req+jwt"));
    }
    if chance(rng, 0.2) {
        // Members of the header that must not be mistaken for key material.
        let other = pick(rng, pool);
        header.insert("jwk".into(), other.key.jwk());
        header.insert("kid".into(), json!(gen::text(rng)));
        header.insert("x5t#S256".into(), json!(other.hash_id()));
    }
    if chance(rng, 0.01) {
        header.insert("long".into(), json!("h".repeat(*pick(rng, &[5_000, 9_000, 20_000, 70_000]))));
    }
    let mut payload = gen::json_map(rng, 1);
    if chance(rng, 0.05) {
        payload.insert("long".into(), json!("a".repeat(rng.gen_range(1000..20000))));
    }
    if chance(rng, 0.003) {
        payload.insert("longer".into(), json!("b".repeat(rng.gen_range(60_000..300_000))));
    }
    payload.insert("nonce".into(), json!("n"));
    if let Some(c) = &client_id {
        payload.insert("client_id".into(), json!(c));
    }
    let h = refs::b64url(gen::messy_json(rng, &json!(header)).as_bytes());
    let b = refs::b64url(gen::messy_json(rng, &json!(payload)).as_bytes());
    let signing = format!("{h}.{b}");
    let signer = match rng.gen_range(0..12) {
        0 => {
            what.push("signed by another certificate of the chain".into());
            chain.last().copied().unwrap_or(&pool[0])
        }
        1 => {
            what.push("signed by a stranger".into());
            pick(rng, pool)
        }
        _ => chain.first().copied().unwrap_or(&pool[0]),
    };
    let mut sig = signer.key.sign(signing.as_bytes());
    match rng.gen_range(0..24) {
        0 => {
            let i = rng.gen_range(0..sig.len());
            sig[i] ^= 1 << rng.gen_range(0..8);
            what.push("signature bit".into());
        }
        1 => {
            sig.truncate(rng.gen_range(0..sig.len()));
            what.push("signature truncated".into());
        }
        2 => {
            let n = if chance(rng, 0.5) { 1 } else { rng.gen_range(2..2000) };
            sig.extend((0..n).map(|_| rng.gen::<u8>() & 3));
            what.push("signature extended".into());
        }
        3 => {
            sig = vec![0; 64];
            what.push("zero signature".into());
        }
        4 => {
            sig = signer.key.sign(&[signing.as_bytes(), b"."].concat());
            what.push("signature over other bytes".into());
        }
        5 => {
            sig = signer.key.sign(b.as_bytes());
            what.push("signature over the payload only".into());
        }
        6 => {
            sig = signer.key.sign(serde_json::to_string(&payload).unwrap().as_bytes());
            what.push("signature over the decoded payload".into());
        }
        _ => {}
    }
    let mut jwt = format!("{signing}.{}", refs::b64url(&sig));
    match rng.gen_range(0..30) {
        0 => {
            let mut p2 = payload.clone();
            p2.insert("state".into(), json!(gen::text(rng) + "x"));
            jwt = format!("{h}.{}.{}", refs::b64url(serde_json::to_string(&p2).unwrap().as_bytes()), refs::b64url(&sig));
            what.push("payload replaced".into());
        }
        1 => {
            let mut h2 = header.clone();
            h2.insert("kid".into(), json!(gen::text(rng) + "y"));
            jwt = format!("{}.{b}.{}", refs::b64url(serde_json::to_string(&h2).unwrap().as_bytes()), refs::b64url(&sig));
            what.push("header replaced".into());
        }
        2 => {
            jwt = gen::near_miss(rng, &jwt);
            what.push("jwt near miss".into());
        }
        3 => {
            let v = [
                signing.clone(),
                format!("{jwt}."),
                format!("{jwt}.{b}"),
                format!(".{jwt}"),
                format!("{h}..{}", refs::b64url(&sig)),
                format!("{signing}."),
                format!("{jwt}="),
                String::new(),
                "..".into(),
                h.clone(),
                format!(" {jwt}"),
                format!("{jwt}\n"),
            ];
            jwt = pick(rng, &v).clone();
            what.push("jwt structure".into());
        }
        _ => {}
    }
    let roots = chance(rng, 0.3).then(|| chain.iter().map(|c| c.parsed()).collect());
    if roots.is_some() {
        what.push("with trust anchors".into());
    }
    Case { scheme, what: what.join(", "), algs, client_id, jwt, roots }
}

/// A request in which all is right but for one thing: the certificate of the client, its key and its signature are
/// there, only not where they have to be.
fn forged(rng: &mut StdRng, pool: &[Cert]) -> Case {
    let scheme = *pick(rng, &[Scheme::San, Scheme::Hash]);
    let usable: Vec<&Cert> = pool.iter().filter(|c| matches!(c.key, certs::Key::P256(_)) && !c.dns().is_empty()).collect();
    let client = *pick(rng, &usable);
    let other = *pick(rng, &usable);
    let id = match scheme {
        Scheme::San => pick(rng, &client.dns()).to_string(),
        Scheme::Hash => client.hash_id(),
    };
    let b64 = |c: &Cert| refs::b64std(&c.der);
    let (good, bad) = (b64(client), b64(other));
    let mut header = json!({"typ": "oauth-authz-req+jwt", "alg": "ES256"});
    let payload = json!({"client_id": id, "nonce": gen::ident(rng, 1, 20)});
    let body = serde_json::to_string(&payload).unwrap();
    let mut by = client;
    let mut over = None;
    let (what, x5c) = match rng.gen_range(0..24) {
        0 => ("junk first", json!(["MIIB", good])),
        1 => ("empty text first", json!(["", good])),
        2 => ("null first", json!([null, good])),
        3 => ("number first", json!([1, good])),
        4 => ("list in list", json!([[good]])),
        5 => ("text for list", json!(good)),
        6 => ("object for list", json!({"0": good})),
        7 => ("wrapped lines", json!([format!("{}\n{}", &good[..64], &good[64..])])),
        8 => ("PEM", json!([format!("-----BEGIN CERTIFICATE-----\n{good}\n-----END CERTIFICATE-----")])),
        9 => ("blank before", json!([format!(" {good}")])),
        10 => ("base64url", json!([refs::b64url(&client.der)])),
        11 => ("other first, signed by client", json!([bad, good])),
        12 => {
            by = other;
            ("other first, signed by it", json!([bad, good]))
        }
        13 => {
            by = other;
            ("client first, signed by the second", json!([good, bad]))
        }
        14 => ("client last of many", json!([bad, bad, bad, good])),
        15 => {
            by = other;
            header["jwk"] = other.key.jwk();
            ("jwk of the signer", json!([good]))
        }
        16 => {
            header["x5t#S256"] = json!(client.hash_id());
            ("thumbprint of the client", json!([bad, good]))
        }
        17 => {
            header["crit"] = json!(["b64"]);
            header["b64"] = json!(false);
            over = Some(body.clone());
            ("unencoded payload signed", json!([good]))
        }
        18 => {
            over = Some(refs::b64url(body.as_bytes()) + "=");
            ("padded payload signed", json!([good]))
        }
        19 => {
            header["kid"] = json!("1");
            by = other;
            ("index in kid", json!([good, bad]))
        }
        20 => {
            by = other;
            header["x5c "] = json!([bad]);
            header["X5C"] = json!([bad]);
            ("other spellings of x5c", json!([good]))
        }
        21 => ("two texts in one", json!([format!("{good}{bad}")])),
        22 => ("der after der", json!([refs::b64std(&[&client.der[..], &other.der[..]].concat())])),
        _ => ("genuine", json!([good, bad])),
    };
    header["x5c"] = x5c;
    let h = refs::b64url(serde_json::to_string(&header).unwrap().as_bytes());
    let b = refs::b64url(body.as_bytes());
    let sig = by.key.sign(format!("{h}.{}", over.as_ref().unwrap_or(&b)).as_bytes());
    let sig = refs::b64url(&sig);
    let (what, jwt) = match rng.gen_range(0..12) {
        0 => (format!("{what}, padded signature"), format!("{h}.{b}.{sig}==")),
        1 => (format!("{what}, line end"), format!("{h}.{b}.{sig}\n")),
        2 => (format!("{what}, further part"), format!("{h}.{b}.{sig}.{sig}")),
        _ => (what.to_string(), format!("{h}.{b}.{sig}")),
    };
    Case { scheme, what, algs: json!(["ES256"]), client_id: Some(format!("{}:{id}", scheme.name())), jwt, roots: None }
}

pub fn wallet(algs: &Json) -> WalletMetadata {
    let mut m = json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {"mso_mdoc": {}}});
    if !algs.is_null() {
        m["request_object_signing_alg_values_supported"] = algs.clone();
    }
    metadata(m)
}

/// A request object with that client_id; what else it says has no bearing on who signed it.
pub fn object(rng: &mut StdRng, client_id: Option<&str>) -> AuthorizationRequestObject {
    let mut o = match rng.gen_range(0..4) {
        0 => json!({"response_mode": *pick(rng, &["dc_api", "dc_api.jwt"]), "response_type": "vp_token", "nonce": "n"}),
        1 => json!({"response_mode": "direct_post.jwt", "response_type": "vp_token", "nonce": "n",
            "response_uri": gen::http_url(rng), "state": gen::text(rng), "client_metadata": {"jwks": {"keys": []}},
            "aud": gen::text(rng), "trusted": true, "x5c": []}),
        _ => json!({"response_mode": "direct_post", "response_type": "vp_token", "nonce": "n",
            "response_uri": "https://verifier.example/r"}),
    };
    if let Some(c) = client_id {
        o["client_id"] = json!(c);
    }
    serde_json::from_value(o).expect("request object")
}

/// A request right after one that was bound to its certificate: the same one, or one that borrows from it.
fn again(rng: &mut StdRng, mut c: Case) -> Case {
    let parts: Vec<&str> = c.jwt.splitn(3, '.').collect();
    let (h, b, s) = (parts[0].to_string(), parts[1].to_string(), parts[2].to_string());
    match rng.gen_range(0..5) {
        0..=1 => c.what += ", again",
        2 => {
            let mut p: Map<String, Json> = refs::unb64url(&b).and_then(|x| serde_json::from_slice(&x).ok()).unwrap_or_default();
            p.insert("state".into(), json!(gen::text(rng) + "x"));
            c.jwt = format!("{h}.{}.{s}", refs::b64url(serde_json::to_string(&p).unwrap().as_bytes()));
            c.what += ", again with another payload";
        }
        3 => {
            let mut p: Map<String, Json> = refs::unb64url(&h).and_then(|x| serde_json::from_slice(&x).ok()).unwrap_or_default();
            p.insert("kid".into(), json!(gen::text(rng) + "x"));
            c.jwt = format!("{}.{b}.{s}", refs::b64url(serde_json::to_string(&p).unwrap().as_bytes()));
            c.what += ", again with another header";
        }
        _ => {
            let mut sig = refs::unb64url(&s).unwrap_or_default();
            let n = sig.len();
            if n > 0 {
                sig[rng.gen_range(0..n)] ^= 1;
            }
            c.jwt = format!("{h}.{b}.{}", refs::b64url(&sig));
            c.what += ", again with another signature";
        }
    }
    c
}

pub fn c01(ctx: &mut Ctx) {
    ctx.rule = "request JWTs over a varied pool of leaf certificates, judged by an independent reading of their final bytes; distinct by (scheme, variation, verdict)".into();
    ctx.assumptions = vec![
        "ECDSA P-256 of the p256 crate and the x509-cert parser are trusted".into(),
        "chain trust to roots is not implemented by the library (trusted_roots is ignored) and is not judged".into(),
    ];
    for c in ["san/accepted", "hash/accepted"] {
        ctx.require(c, 100);
    }
    for c in ["san/rejected", "hash/rejected"] {
        ctx.require(c, 500);
    }
    ctx.require("recorded/bound", 200);
    let mut rng = ctx.fork_rng();
    let rounds = ctx.n(24, 160);
    let per = ctx.n(1500, 6000);
    for _ in 0..rounds {
        let mut pool = certs::pool(&mut rng, 24);
        for i in 0..4 {
            let (key, ca) = (if i < 2 { certs::Key::rsa(&mut rng) } else { certs::Key::p256(&mut rng) }, certs::Key::p256(&mut rng));
            let d = certs::domain(&mut rng);
            let c = Cert::build(&mut rng, key, vec![San::Dns(d.clone()), San::Dns(format!("n{i}.{d}"))], &d, &ca, i == 3);
            pool.push(c);
        }
        let mut before: Option<Case> = None;
        for _ in 0..per {
            let c = match before.take() {
                // What was accepted once is accepted again, and lends nothing to another request.
                Some(b) if chance(&mut rng, 0.3) => again(&mut rng, b),
                _ if chance(&mut rng, 0.1) => forged(&mut rng, &pool),
                _ => case(&mut rng, &pool),
            };
            let meta = wallet(&c.algs);
            // client_id "" etc. are all legitimate strings for a request object
            let obj = object(&mut rng, c.client_id.as_deref());
            let e = expect(c.scheme, &pool, &c.algs, c.client_id.as_deref(), &c.jwt);
            let s = if c.scheme == Scheme::San { "san" } else { "hash" };
            let show = || json!({"scheme": c.scheme.name(), "what": c.what, "client_id": c.client_id, "wallet_algs": c.algs, "jwt": c.jwt});

            // The bundled P-256 check.
            let got = guard(|| c.scheme.run::<P256Verifier>(&meta, &obj, c.jwt.clone(), c.roots.as_deref()));
            let (class, verdict) = match &e {
                Expect::Unjudged => (format!("{s}/unjudged"), got.map(|_| ())),
                Expect::Reject(why) => (
                    format!("{s}/rejected"),
                    got.and_then(|r| match r {
                        Ok(()) => Err(format!("accepted although: {why} ({})", c.what)),
                        Err(_) => Ok(()),
                    }),
                ),
                Expect::Bound { leaf, alg, payload, signature } => {
                    let good = alg == "ES256" && matches!(leaf.key, certs::Key::P256(_)) && leaf.key.verify(payload, signature);
                    (
                        format!("{s}/{}", if good { "accepted" } else { "rejected" }),
                        got.and_then(|r| match (r, good) {
                            (Ok(()), false) => Err(format!("accepted although the signature is not the leaf key's ({})", c.what)),
                            (Err(e), true) => Err(format!("genuine request rejected: {e:#} ({})", c.what)),
                            _ => Ok(()),
                        }),
                    )
                }
            };
            ctx.judge(&class, Some(&c.what), show, verdict);

            // The recording check in its place.
            let policy = *pick(&mut rng, &[Policy::Accept, Policy::Accept, Policy::RefuseKey, Policy::RefuseSignature]);
            CALLS.with(|x| x.borrow_mut().clear());
            POLICY.with(|p| *p.borrow_mut() = policy);
            let got = guard(|| c.scheme.run::<Recorder>(&meta, &obj, c.jwt.clone(), c.roots.as_deref()));
            let calls = CALLS.with(|x| x.borrow().clone());
            ctx.events(calls.len());
            let (class, verdict) = match &e {
                Expect::Unjudged => ("recorded/unjudged", got.map(|_| ())),
                Expect::Reject(why) => (
                    "recorded/rejected",
                    got.and_then(|r| match r {
                        Ok(()) => Err(format!("accepted with a plugged-in key check although: {why} ({})", c.what)),
                        Err(_) => Ok(()),
                    }),
                ),
                Expect::Bound { leaf, alg, payload, signature } => (
                    "recorded/bound",
                    got.and_then(|r| {
                        let spki = leaf.key.spki();
                        for call in &calls {
                            match call {
                                Call::Key { spki: k, alg: a } => {
                                    ensure!(*k == spki, "key check was given a key that is not the leaf certificate's ({})", c.what);
                                    ensure!(a == alg, "key check was given algorithm '{a}', the JWS has '{alg}'");
                                }
                                Call::Verify { key, payload: p, signature: sg } => {
                                    ensure!(*key == spki, "verification with a key that is not the leaf certificate's");
                                    ensure!(p == payload, "verification over other bytes than header.payload");
                                    ensure!(sg == signature, "verification of other signature bytes");
                                }
                            }
                        }
                        let keyed = calls.iter().any(|c| matches!(c, Call::Key { .. }));
                        let verified = calls.iter().any(|c| matches!(c, Call::Verify { .. }));
                        match (r, policy) {
                            (Ok(()), Policy::Accept) => {
                                ensure!(keyed && verified, "accepted without asking the key check");
                                Ok(())
                            }
                            (Ok(()), p) => Err(format!("accepted although the key check said {p:?}")),
                            (Err(e), Policy::Accept) => Err(format!("rejected although the key check accepted: {e:#} ({})", c.what)),
                            (Err(_), _) => Ok(()),
                        }
                    }),
                ),
            };
            ctx.judge(class, Some(&format!("{}/{policy:?}", c.what)), show, verdict);
            if matches!(e, Expect::Bound { .. }) {
                before = Some(c);
            }
            if ctx.saturated() {
                return;
            }
        }
    }
}
