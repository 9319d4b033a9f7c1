//! C21: hostile input at every public entry point. The monitor is the panic hook, the overflow checks and debug
//! assertions of the build, a clock, and (in check.sh) the exit status for aborts and stack overflows.
use super::{
    clients::{any_key, honest_wallet, vm_id},
    dcql, did,
    objects::formats,
    transcript::any_jwk,
    verifier::{request_param, uuid, KEYS},
    wallet::{base_payload, header, jwt_of, response, vp_json, vp_token, TYP},
    x509,
};
use crate::{
    certs::{self, Cert, San},
    ctx::{guard, Ctx},
    exec::block_on,
    gen::{self, chance, pick},
    mocks::*,
    refs,
};
use http::Response;
use openid4vp::{
    core::{
        authorization_request::{
            parameters::*,
            verification::{did::verify_with_resolver, verifier::P256Verifier, x509_hash, x509_san},
            AuthorizationRequest, AuthorizationRequestObject, RequestIndirection,
        },
        credential_format::*,
        dcql_query::DcqlQuery,
        iso_18013_7::{compute_jwk_thumbprint, get_encryption_jwk_thumbprint, DcApiHandover, Handover, SessionTranscript},
        metadata::{
            parameters::{verifier::*, wallet::*},
            WalletMetadata,
        },
        object::UntypedObject,
        response::{
            parameters::{IdToken, VpToken, VpTokenItem},
            AuthorizationResponse, UnencodedAuthorizationResponse,
        },
    },
    utils::NonEmptyVec,
    verifier::{
        client::{Client, DIDClient, X509HashClient, X509SanDnsClient},
        request_signer::P256Signer,
        session::{Outcome, Status},
        Verifier,
    },
    wallet::Wallet,
};
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Map, Value as Json};
use std::{
    collections::HashMap,
    sync::Arc,
    time::{Duration, Instant},
};
use url::Url;
use x509_cert::{der::Decode, Certificate};

// --- mutation ---

const MULTIBYTE: &[&str] = &["é", "日", "🦀", "\u{0}", "\u{301}", "İ", "\u{10ffff}"];

fn bytes(rng: &mut StdRng, max: usize) -> Vec<u8> {
    let n = rng.gen_range(0..=max);
    (0..n).map(|_| rng.gen()).collect()
}

/// Text in which hardly any byte offset is a character boundary.
fn wide(rng: &mut StdRng) -> String {
    let n = *pick(rng, &[1usize, 3, 8, 20, 40, 80, 150, 300, 700]);
    let lead = rng.gen_range(0..4);
    let c = *pick(rng, &['é', '€', '語', '\u{10348}', '🙂', '\u{301}']);
    let mut s = "abc"[..lead].to_string();
    s.extend(std::iter::repeat(c).take(n));
    s
}

pub fn mutate_text(rng: &mut StdRng, s: &str) -> String {
    let at = |rng: &mut StdRng| {
        let n = s.chars().count();
        let k = rng.gen_range(0..=n);
        s.char_indices().nth(k).map_or(s.len(), |c| c.0)
    };
    match rng.gen_range(0..16) {
        0..=2 => gen::near_miss(rng, s),
        14 => {
            let i = at(rng);
            format!("{}{}{}", &s[..i], wide(rng), &s[i..])
        }
        15 => {
            // One segment replaced.
            let c = *pick(rng, &[':', ':', '.', '/', '#', '?', '&', '=']);
            let mut parts: Vec<String> = s.split(c).map(String::from).collect();
            let i = rng.gen_range(0..parts.len());
            parts[i] = wide(rng);
            parts.join(&c.to_string())
        }
        3 => {
            let i = at(rng);
            format!("{}{}{}", &s[..i], pick(rng, MULTIBYTE), &s[i..])
        }
        4 => {
            let i = at(rng);
            s[..i].to_string()
        }
        5 => {
            let i = at(rng);
            s[i..].to_string()
        }
        6 => {
            let i = at(rng);
            format!("{}{}", pick(rng, MULTIBYTE), &s[i..])
        }
        7 => {
            let i = at(rng);
            format!("{}{}", &s[..i], pick(rng, MULTIBYTE))
        }
        8 => pick(rng, gen::NASTY).to_string(),
        9 => {
            let i = at(rng);
            format!("{}{}{}", &s[..i], pick(rng, gen::NASTY), &s[i..])
        }
        10 if chance(rng, 0.05) => s.repeat(rng.gen_range(2..2000usize)).chars().take(300_000).collect(),
        11 => {
            let c = *pick(rng, &[':', '.', '/', '#', '?', '&', '=', '%', '-', '~']);
            match rng.gen_range(0..4) {
                0 => s.replace(c, ""),
                1 => s.replace(c, &c.to_string().repeat(2)),
                2 => s.split(c).next().unwrap_or("").into(),
                _ => s.rsplit(c).next().unwrap_or("").into(),
            }
        }
        12 => gen::text(rng),
        _ => {
            let t = gen::near_miss(rng, s);
            gen::near_miss(rng, &t)
        }
    }
}

pub fn mutate_bytes(rng: &mut StdRng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..rng.gen_range(1..4) {
        let n = v.len();
        match rng.gen_range(0..8) {
            0 if n > 0 => v[rng.gen_range(0..n)] = rng.gen(),
            1 if n > 0 => v[rng.gen_range(0..n)] ^= 1 << rng.gen_range(0..8),
            2 if n > 0 => v.truncate(rng.gen_range(0..n)),
            3 if n > 0 => {
                v.remove(rng.gen_range(0..n));
            }
            4 => v.insert(rng.gen_range(0..=n), rng.gen()),
            5 if n > 0 => v[rng.gen_range(0..n)] = *pick(rng, &[0, 0xff, 0x7f, 0x80, 0x1b, 0x5b, 0x9b, 0xbf, 0xfb, 0x30, 0x84]),
            6 if n > 1 => {
                let i = rng.gen_range(0..n);
                let j = rng.gen_range(i..n);
                let part = v[i..j].to_vec();
                let k = rng.gen_range(0..=v.len());
                v.splice(k..k, part);
            }
            _ => v.extend(bytes(rng, 8)),
        }
    }
    v
}

fn odd_json(rng: &mut StdRng) -> Json {
    match rng.gen_range(0..14) {
        0 => json!(null),
        1 => json!(""),
        2 => json!([]),
        3 => json!({}),
        4 => json!(u64::MAX),
        5 => json!(-1),
        6 => serde_json::from_str(pick(rng, &["1e400", "-0.0", "1e-400", "123456789012345678901234567890", "0.1e1"])).unwrap_or(json!(0)),
        7 => json!({"$serde_json::private::Number": gen::text(rng)}),
        8 => json!({"$serde_json::private::RawValue": gen::text(rng)}),
        9 => {
            let mut v = json!(1);
            for _ in 0..rng.gen_range(1..100) {
                v = if chance(rng, 0.5) { json!([v]) } else { json!({"a": v}) };
            }
            v
        }
        10 => json!("a".repeat(rng.gen_range(0..20_000))),
        _ => gen::json_value(rng, 2),
    }
}

pub fn mutate_json(rng: &mut StdRng, v: &mut Json) {
    let here = chance(rng, 0.15);
    match v {
        Json::Object(m) if !here && !m.is_empty() => {
            let k = m.keys().nth(rng.gen_range(0..m.len())).unwrap().clone();
            match rng.gen_range(0..10) {
                0 => {
                    m.shift_remove(&k);
                }
                1 => {
                    let x = m.shift_remove(&k).unwrap();
                    m.insert(mutate_text(rng, &k), x);
                }
                2 => {
                    m.insert(gen::text(rng), odd_json(rng));
                }
                _ => mutate_json(rng, m.get_mut(&k).unwrap()),
            }
        }
        Json::Array(a) if !here && !a.is_empty() => {
            let i = rng.gen_range(0..a.len());
            match rng.gen_range(0..8) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let x = a[i].clone();
                    a.push(x);
                }
                2 => a.push(odd_json(rng)),
                _ => mutate_json(rng, &mut a[i]),
            }
        }
        Json::String(s) if !here => *s = mutate_text(rng, s),
        _ => {
            *v = match rng.gen_range(0..4) {
                0 => json!([v.clone()]),
                1 => json!({"a": v.clone()}),
                _ => odd_json(rng),
            }
        }
    }
}

fn mutated(rng: &mut StdRng, mut v: Json) -> Json {
    for _ in 0..*pick(rng, &[0usize, 1, 1, 1, 2, 3]) {
        mutate_json(rng, &mut v);
    }
    v
}

fn maybe<T>(rng: &mut StdRng, p: f64, t: T, f: impl FnOnce(&mut StdRng, T) -> T) -> T {
    if chance(rng, p) {
        f(rng, t)
    } else {
        t
    }
}

/// Change a JWT inside its parts or as text.
fn mutate_jwt(rng: &mut StdRng, jwt: &str) -> String {
    let parts: Vec<&str> = jwt.split('.').collect();
    match rng.gen_range(0..6) {
        0 => mutate_text(rng, jwt),
        1 => {
            let mut p: Vec<String> = parts.iter().map(|s| s.to_string()).collect();
            match rng.gen_range(0..3) {
                0 => {
                    p.pop();
                }
                1 => p.push(gen::text(rng)),
                _ => p.clear(),
            }
            p.join(".")
        }
        n => {
            let i = if n < 5 { 0 } else { rng.gen_range(0..parts.len()) };
            let mut p: Vec<String> = parts.iter().map(|s| s.to_string()).collect();
            let Some(raw) = refs::unb64url(parts[i]) else {
                return mutate_text(rng, jwt);
            };
            p[i] = match serde_json::from_slice::<Json>(&raw) {
                Ok(mut v) => {
                    // A certificate of the chain, its DER changed.
                    if let (true, Some(c)) = (chance(rng, 0.5), v.get_mut("x5c").and_then(|x| x.get_mut(0))) {
                        let der = c.as_str().map(|s| s.trim_end_matches('=')).and_then(refs::unb64std_nopad);
                        if let Some(der) = der {
                            *c = json!(refs::b64std(&mutate_bytes(rng, &der)));
                        }
                    } else {
                        mutate_json(rng, &mut v);
                    }
                    refs::b64url(v.to_string().as_bytes())
                }
                Err(_) => refs::b64url(&mutate_bytes(rng, &raw)),
            };
            p.join(".")
        }
    }
}

/// URLs of every sort the url crate lets through.
fn odd_url(rng: &mut StdRng) -> Url {
    loop {
        let base = match rng.gen_range(0..8) {
            0 => pick(rng, &["data:,x", "urn:a:b", "mailto:a@b", "openid4vp:", "openid4vp://", "file:///", "about:blank", "x:?a", "x:#", "https://[::1]/", "http://a/?", "blob:https://a/b", "javascript:1"]).to_string(),
            1..=3 => gen::http_url(rng).to_string(),
            4 => gen::endpoint(rng).to_string(),
            _ => {
                let u = gen::http_url(rng).to_string();
                mutate_text(rng, &u)
            }
        };
        if let Ok(u) = Url::parse(&base) {
            return u;
        }
    }
}

fn full_payload(rng: &mut StdRng) -> Map<String, Json> {
    let mut m = base_payload(rng);
    let keys: Vec<Json> = (0..rng.gen_range(0..4)).map(|_| Json::Object(any_jwk(rng))).collect();
    if chance(rng, 0.7) {
        m.insert(
            "client_metadata".into(),
            json!({"jwks": {"keys": keys}, "vp_formats_supported": formats(rng), "encrypted_response_enc_values_supported": ["A128GCM"],
                "redirect_uris": [gen::text(rng)], "client_name": gen::text(rng)}),
        );
    }
    if chance(rng, 0.4) {
        let mode = *pick(rng, &["direct_post.jwt", "dc_api.jwt", "direct_post", "dc_api", "fragment", "query.jwt", ""]);
        m.insert("response_mode".into(), json!(mode));
    }
    if chance(rng, 0.5) {
        m.insert("dcql_query".into(), dcql::query(rng));
    }
    for (k, v) in [
        ("transaction_data", json!([gen::text(rng)])),
        ("verifier_info", json!([{"format": "jwt", "data": gen::text(rng)}])),
        ("expected_origins", json!([gen::text(rng)])),
        ("request_uri_method", json!("post")),
        ("aud", json!("https://self-issued.me/v2")),
        ("client_id", json!(format!("{}:{}", pick(rng, ALL_PREFIXES), gen::text(rng)))),
        ("redirect_uri", json!(odd_url(rng).as_str())),
        ("vp_token", vp_json(&vp_token(rng))),
    ] {
        if chance(rng, 0.25) {
            m.insert(k.into(), v);
        }
    }
    m
}

fn wallet_metadata(rng: &mut StdRng) -> Json {
    json!({
        "issuer": "https://self-issued.me/v2",
        "authorization_endpoint": gen::endpoint(rng).as_str(),
        "response_types_supported": ["vp_token", gen::text(rng)],
        "response_modes_supported": ["direct_post"],
        "vp_formats_supported": formats(rng),
        "client_id_prefixes_supported": ALL_PREFIXES,
        "request_object_signing_alg_values_supported": ["ES256", "EdDSA", "none"],
        "authorization_encryption_alg_values_supported": ["ECDH-ES"],
        "authorization_encryption_enc_values_supported": ["A128GCM"],
        "x": gen::json_value(rng, 2),
    })
}

// --- entry points ---

pub struct World {
    pool: Vec<Cert>,
    vms: Vec<did::Vm>,
}

pub struct Job<'a> {
    case: Json,
    run: Box<dyn FnOnce() -> bool + 'a>,
}
fn job<'a>(case: Json, run: impl FnOnce() -> bool + 'a) -> Job<'a> {
    Job { case, run: Box::new(run) }
}

type Make = for<'a> fn(&mut StdRng, &'a World) -> Job<'a>;

fn touch_object(o: &AuthorizationRequestObject) {
    let _ = (o.client_id(), o.client_id_scheme(), o.is_id_token_requested(), o.response_mode(), o.response_type(), o.return_uri(), o.nonce());
    let _ = o.response_mode().is_jarm();
    if let Some(c) = o.client_id() {
        let _ = c.resolve_prefix();
    }
    if let Some(Ok(q)) = o.dcql_query() {
        touch_query(&q);
    }
    let _ = o.state();
    let _ = o.vp_formats();
    if let Ok(m) = o.client_metadata() {
        let _ = (m.jwks(), m.vp_formats(), m.encrypted_response_enc_values_supported());
        let _ = Json::from(m);
    }
    let _ = get_encryption_jwk_thumbprint(o);
    let _ = format!("{o:?}");
    let _ = serde_json::to_string(o);
    let _ = Json::from(UntypedObject::from(o.clone()));
}

fn touch_query(q: &DcqlQuery) {
    for c in q.credentials() {
        for cl in c.claims().into_iter().flat_map(|c| c.iter()) {
            let _ = (cl.namespace(), cl.element_identifier(), cl.claim_name(), cl.path());
        }
        let _ = (c.multiple(), c.require_cryptographic_holder_binding());
    }
    for s in q.credential_sets().into_iter().flat_map(|s| s.iter()) {
        let _ = s.is_required();
    }
    let _ = Json::from(q.clone());
}

fn query_string(rng: &mut StdRng) -> String {
    let mut pairs: Vec<(String, String)> = vec![("client_id".into(), format!("{}:{}", pick(rng, ALL_PREFIXES), gen::text(rng)))];
    match rng.gen_range(0..3) {
        0 => pairs.push(("request".into(), {
            let h = header(rng, Some(json!(TYP)));
            let p = Json::Object(full_payload(rng));
            jwt_of(rng, &h, &p)
        })),
        1 => pairs.push(("request_uri".into(), odd_url(rng).to_string())),
        _ => {
            for (k, v) in full_payload(rng) {
                pairs.push((k, v.as_str().map_or_else(|| v.to_string(), String::from)));
            }
        }
    }
    if chance(rng, 0.3) {
        pairs.push((gen::text(rng), gen::text(rng)));
    }
    if chance(rng, 0.2) {
        let p = pick(rng, &pairs).clone();
        pairs.push(p);
    }
    let s = pairs.iter().map(|(k, v)| format!("{}={}", refs::form_encode(k), refs::form_encode(v))).collect::<Vec<_>>().join("&");
    maybe(rng, 0.5, s, |r, s| mutate_text(r, &s))
}

fn e_query<'a>(rng: &mut StdRng, _: &'a World) -> Job<'a> {
    let q = query_string(rng);
    let end = odd_url(rng);
    job(json!({"query": q, "endpoint": end.as_str()}), move || {
        let r = AuthorizationRequest::from_query_params(&q);
        let mut u = end.clone();
        u.set_query(Some(&q));
        let v = AuthorizationRequest::from_url(u, &end);
        if let Ok(v) = v {
            let _ = v.to_url(end);
        }
        r.is_ok()
    })
}

fn e_url<'a>(rng: &mut StdRng, _: &'a World) -> Job<'a> {
    let mut u = odd_url(rng);
    let mut end = odd_url(rng);
    if chance(rng, 0.6) {
        // Something other than the query may still differ.
        end = u.clone();
        end.set_query(None);
        u.set_query(Some(&query_string(rng)));
        end.set_fragment(chance(rng, 0.2).then_some("f"));
    }
    job(json!({"url": u.as_str(), "endpoint": end.as_str()}), move || {
        let r = AuthorizationRequest::from_url(u.clone(), &end);
        let _ = AuthorizationRequest::from_url(u.clone(), &u);
        for ind in [
            RequestIndirection::ByValue { request: "a.b.c".into() },
            RequestIndirection::ByReference { request_uri: u.clone() },
            RequestIndirection::Direct(UntypedObject::default()),
        ] {
            let _ = AuthorizationRequest { client_id: Some("a".into()), request_indirection: ind }.to_url(end.clone());
        }
        r.is_ok()
    })
}

fn signed_case(rng: &mut StdRng, w: &World) -> (Json, String, Option<String>) {
    let (algs, jwt, id) = if chance(rng, 0.6) {
        let c = x509::case(rng, &w.pool);
        (c.algs, c.jwt, c.client_id)
    } else {
        let c = did::case(rng, &w.vms);
        (c.algs, c.jwt, c.client_id)
    };
    let jwt = maybe(rng, 0.7, jwt, |r, j| mutate_jwt(r, &j));
    let id = maybe(rng, 0.2, id, |r, i| i.map(|i| mutate_text(r, &i)));
    (algs, jwt, id)
}

fn odd_key(rng: &mut StdRng, w: &World) -> Json {
    let mut k = if chance(rng, 0.7) { pick(rng, &w.vms).key.jwk() } else { Json::Object(any_jwk(rng)) };
    for _ in 0..rng.gen_range(1..3) {
        let n = *pick(rng, &[0usize, 1, 16, 31, 32, 33, 36, 48, 64, 65, 300]);
        let b: Vec<u8> = (0..n).map(|_| rng.gen()).collect();
        match rng.gen_range(0..4) {
            0 => mutate_json(rng, &mut k),
            _ if k.is_object() => k[*pick(rng, &["x", "y", "x", "y", "n", "e", "k", "d"])] = json!(refs::b64url(&b)),
            _ => {}
        }
        if chance(rng, 0.2) && k.is_object() {
            k["crv"] = json!(*pick(rng, &["P-256", "P-384", "secp256k1", "Ed25519", "X25519", "Bls12381G2", ""]));
        }
        if chance(rng, 0.1) && k.is_object() {
            k["kty"] = json!(*pick(rng, &["EC", "OKP", "RSA", "oct", ""]));
        }
    }
    k
}

fn e_signature<'a>(rng: &mut StdRng, w: &'a World) -> Job<'a> {
    let (algs, jwt, id) = signed_case(rng, w);
    let m = x509::wallet(&algs);
    let o = x509::object(rng, id.as_deref());
    let trusted: Option<Vec<String>> = chance(rng, 0.3).then(|| vec![gen::text(rng), w.vms[0].did.clone()]);
    // The key comes from the peer's DID document: it may be anything that parses.
    let odd = chance(rng, 0.5).then(|| odd_key(rng, w));
    job(json!({"jwt": jwt, "client_id": id, "algs": algs, "key": odd}), move || {
        let a = x509_san::validate::<P256Verifier>(&m, &o, jwt.clone(), None).is_ok();
        let b = x509_hash::validate::<P256Verifier>(&m, &o, jwt.clone(), None).is_ok();
        let key = |v: &did::Vm| match odd.clone().map(serde_json::from_value) {
            Some(Ok(k)) => k,
            _ => serde_json::from_value(v.key.jwk()).unwrap(),
        };
        let keys = w.vms.iter().map(|v| (v.kid.clone(), key(v))).collect();
        let r = TestResolver { keys, probe: Probe::new() };
        let c = block_on(verify_with_resolver(&m, &o, jwt, trusted.as_deref(), r)).is_ok();
        a || b || c
    })
}

/// A resolver is the caller's: a panic inside it is not the library's.
struct Contained<R>(R);
static RESOLVER_PANICS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl<R: ssi_jwk::JWKResolver> ssi_jwk::JWKResolver for Contained<R> {
    async fn fetch_public_jwk(&'_ self, key_id: Option<&str>) -> Result<std::borrow::Cow<'_, ssi_jwk::JWK>, ssi_claims::ProofValidationError> {
        match crate::ctx::guard(|| block_on(self.0.fetch_public_jwk(key_id)).map(|k| k.into_owned())) {
            Ok(r) => r.map(std::borrow::Cow::Owned),
            Err(p) => {
                RESOLVER_PANICS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                Err(ssi_claims::ProofValidationError::Other(p))
            }
        }
    }
}

fn e_did_method<'a>(rng: &mut StdRng, w: &'a World) -> Job<'a> {
    // A real resolver (did:key) fed by the peer's kid.
    let (algs, jwt, _) = signed_case(rng, w);
    let did = if chance(rng, 0.5) {
        // A key of some registered kind, of any length, in one of the bases of did:key.
        let codec: &[u8] = *pick(rng, &[&[0xed, 1][..], &[0xe7, 1], &[0x80, 0x24], &[0x81, 0x24], &[0xec, 1], &[0xeb, 1], &[0xd1, 0xd6, 3], &[0x85, 0x24], &[0x80, 0x26], &[0x81, 0x26], &[0x82, 0x26], &[0x86, 0x26], &[0x87, 0x26]]);
        let n = *pick(rng, &[0usize, 1, 31, 32, 33, 34, 36, 48, 49, 64, 65, 96, 97]);
        let mut b = codec.to_vec();
        b.extend((0..n).map(|_| rng.gen::<u8>()));
        if chance(rng, 0.5) && n > 0 {
            b[codec.len()] = *pick(rng, &[2, 3, 4, 0]);
        }
        if chance(rng, 0.5) {
            format!("did:key:u{}", refs::b64url(&b))
        } else {
            format!("did:key:f{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>())
        }
    } else if chance(rng, 0.5) {
        let s = format!("did:key:z6Mk{}", gen::ident(rng, 8, 50));
        mutate_text(rng, &s)
    } else {
        let b = bytes(rng, 40);
        format!("did:key:z{}", refs::b64url(&b).replace(['-', '_', '0', 'O', 'I', 'l'], "1"))
    };
    let parts: Vec<&str> = jwt.split('.').collect();
    let mut h = refs::jws_header(&jwt).unwrap_or_default();
    h.insert("kid".into(), json!(format!("{did}#{}", if chance(rng, 0.7) { did.strip_prefix("did:key:").unwrap_or(&did).to_string() } else { gen::ident(rng, 1, 8) })));
    h.insert("alg".into(), json!("ES256"));
    let jwt = format!("{}.{}", refs::b64url(Json::Object(h).to_string().as_bytes()), parts[1..].join("."));
    let m = x509::wallet(&algs);
    let o = x509::object(rng, Some(&format!("decentralized_identifier:{did}")));
    job(json!({"jwt": jwt, "did": did}), move || {
        use ssi_dids::VerificationMethodDIDResolver;
        let resolver: VerificationMethodDIDResolver<did_method_key::DIDKey, ssi_verification_methods::AnyJwkMethod> = VerificationMethodDIDResolver::new(did_method_key::DIDKey);
        block_on(verify_with_resolver(&m, &o, jwt, None, Contained(resolver))).is_ok()
    })
}

/// A request signed as its client_id asks for, whose payload may be odd in any other respect.
fn signed_request(rng: &mut StdRng, w: &World) -> (Json, String, Option<String>) {
    let mut p = full_payload(rng);
    if chance(rng, 0.7) {
        p.shift_remove("redirect_uri");
        p.insert("response_mode".into(), json!(*pick(rng, &["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"])));
        p.insert("response_uri".into(), json!(gen::http_url(rng).as_str()));
        p.insert("response_type".into(), json!("vp_token"));
    }
    let p = Json::Object(p);
    let mut p = maybe(rng, 0.6, p, |r, p| mutated(r, p));
    let mut h = Map::new();
    h.insert("typ".into(), json!(TYP));
    let (key, id) = if chance(rng, 0.5) {
        let v = pick(rng, &w.vms);
        h.insert("kid".into(), json!(v.kid));
        (&v.key, format!("decentralized_identifier:{}", v.did))
    } else {
        let c = pick(rng, &w.pool);
        h.insert("x5c".into(), json!([refs::b64std(&c.der)]));
        (&c.key, format!("x509_hash:{}", refs::b64url(&refs::sha256(&c.der))))
    };
    h.insert("alg".into(), json!(key.alg()));
    if let Some(m) = p.as_object_mut() {
        m.insert("client_id".into(), json!(id));
    }
    let t = format!("{}.{}", refs::b64url(Json::Object(h).to_string().as_bytes()), refs::b64url(p.to_string().as_bytes()));
    let jwt = format!("{t}.{}", refs::b64url(&key.sign(t.as_bytes())));
    (json!([]), jwt, Some(id))
}

fn e_validate<'a>(rng: &mut StdRng, w: &'a World) -> Job<'a> {
    let md = wallet_metadata(rng);
    let md = maybe(rng, 0.4, md, |r, m| mutated(r, m));
    let (_, jwt, id) = if chance(rng, 0.5) {
        signed_request(rng, w)
    } else if chance(rng, 0.4) {
        signed_case(rng, w)
    } else {
        let h = header(rng, Some(json!(TYP)));
        let p = Json::Object(full_payload(rng));
        let p = mutated(rng, p);
        let j = jwt_of(rng, &h, &p);
        let id = p.get("client_id").and_then(Json::as_str).map(String::from);
        (json!([]), maybe(rng, 0.2, j, |r, j| mutate_jwt(r, &j)), id)
    };
    let via = rng.gen_range(0..4);
    let uri = odd_url(rng);
    let direct = Json::Object(full_payload(rng));
    let mut direct = mutated(rng, direct);
    let (mut jwt, mut id) = (jwt, id);
    if chance(rng, 0.25) {
        // Only the identifier is odd, and envelope and object agree on it.
        let base = format!("{}:{}", pick(rng, ALL_PREFIXES), gen::host(rng));
        let odd = mutate_text(rng, &base);
        let h = json!({"typ": TYP, "alg": "ES256", "kid": format!("{odd}#k"), "x5c": [refs::b64std(&pick(rng, &w.pool).der)]});
        let p = json!({"client_id": odd, "nonce": "n", "response_type": "vp_token", "response_mode": "direct_post", "response_uri": "https://a.example/r"});
        jwt = jwt_of(rng, &h, &p);
        direct = p;
        direct.as_object_mut().unwrap().remove("client_id");
        id = Some(odd);
    }
    let q = query_string(rng);
    let trusting = chance(rng, 0.2);
    let status = *pick(rng, &[200u16, 200, 200, 204, 302, 404, 500]);
    let body = if chance(rng, 0.8) { jwt.as_bytes().to_vec() } else { mutate_bytes(rng, jwt.as_bytes()) };
    job(json!({"wallet": md, "jwt": jwt, "client_id": id, "via": via, "uri": uri.as_str(), "direct": direct, "query": q}), move || {
        let Ok(md) = serde_json::from_value::<WalletMetadata>(md) else { return false };
        let end = md.authorization_endpoint().0.clone();
        let probe = Probe::new();
        let keys = w.vms.iter().map(|v| (v.kid.clone(), serde_json::from_value(v.key.jwk()).unwrap())).collect();
        let http = Http::answer(&probe, status, body);
        let wallet = if trusting { TestWallet::accepting(md, http, &probe) } else { honest_wallet(md, http, &probe, keys, None) };
        let url = if via == 3 {
            let mut u = end.clone();
            u.set_query(Some(&q));
            u
        } else {
            let ind = match via {
                0 => RequestIndirection::ByValue { request: jwt },
                1 => RequestIndirection::ByReference { request_uri: uri },
                _ => match serde_json::from_value::<UntypedObject>(direct) {
                    Ok(o) => RequestIndirection::Direct(o),
                    Err(_) => return false,
                },
            };
            let r = AuthorizationRequest { client_id: id, request_indirection: ind };
            match r.clone().to_url(end) {
                Ok(u) => {
                    let _ = block_on(r.validate(&wallet));
                    u
                }
                Err(_) => return block_on(r.validate(&wallet)).is_ok(),
            }
        };
        match block_on(wallet.validate_request(url)) {
            Ok(o) => {
                touch_object(&o);
                true
            }
            Err(e) => {
                let _ = format!("{e:#} {e:?}");
                false
            }
        }
    })
}

fn e_object<'a>(rng: &mut StdRng, _: &'a World) -> Job<'a> {
    let p = Json::Object(full_payload(rng));
    let p = mutated(rng, p);
    job(p.clone(), move || {
        let direct = serde_json::from_value::<UntypedObject>(p.clone()).ok().map(AuthorizationRequestObject::try_from);
        if let Some(Ok(o)) = &direct {
            touch_object(o);
        }
        match serde_json::from_str::<AuthorizationRequestObject>(&p.to_string()) {
            Ok(o) => {
                touch_object(&o);
                true
            }
            Err(_) => false,
        }
    })
}

fn e_raw_json<'a>(rng: &mut StdRng, _: &'a World) -> Job<'a> {
    // The text itself is broken, or deeply nested.
    let base = match rng.gen_range(0..4) {
        0 => Json::Object(full_payload(rng)).to_string(),
        1 => wallet_metadata(rng).to_string(),
        2 => dcql::query(rng).to_string(),
        _ => {
            let n = *pick(rng, &[10usize, 126, 127, 128, 129, 5_000, 100_000]);
            let k = *pick(rng, &["credentials", "vp_token", "client_metadata", "a"]);
            format!("{{\"{k}\":{}1{}}}", "[".repeat(n), "]".repeat(n))
        }
    };
    let t = maybe(rng, 0.7, base, |r, b| mutate_text(r, &b));
    job(json!(t), move || {
        let a = serde_json::from_str::<AuthorizationRequestObject>(&t).is_ok();
        let b = serde_json::from_str::<WalletMetadata>(&t).is_ok();
        let c = serde_json::from_str::<DcqlQuery>(&t).is_ok();
        let d = serde_json::from_str::<AuthorizationResponse>(&t).is_ok();
        let e = serde_json::from_str::<Status>(&t).is_ok();
        let f = serde_json::from_str::<VpToken>(&t).is_ok();
        let g = serde_json::from_str::<Handover>(&t).is_ok() || serde_json::from_str::<SessionTranscript>(&t).is_ok();
        a || b || c || d || e || f || g
    })
}

fn e_submit<'a>(rng: &mut StdRng, _: &'a World) -> Job<'a> {
    let mut p = full_payload(rng);
    if chance(rng, 0.5) {
        p.remove("redirect_uri");
        p.insert("response_mode".into(), json!(*pick(rng, &["direct_post", "direct_post.jwt"])));
        p.insert("response_uri".into(), json!(odd_url(rng).as_str()));
    }
    let o = serde_json::from_value::<AuthorizationRequestObject>(Json::Object(p.clone()));
    let r = response(rng);
    let status = rng.gen_range(100..1000u16);
    let status = *pick(rng, &[200, 200, 200, status]);
    let ok = json!({"redirect_uri": odd_url(rng).as_str(), "x": gen::json_value(rng, 2)});
    let body = match rng.gen_range(0..4) {
        0 => bytes(rng, 50),
        1 => mutate_bytes(rng, ok.to_string().as_bytes()),
        _ => mutated(rng, ok).to_string().into_bytes(),
    };
    let ct = gen::ident(rng, 1, 9);
    job(json!({"request": p, "status": status, "body": String::from_utf8_lossy(&body)}), move || {
        let Ok(o) = o else { return false };
        let probe = Probe::new();
        let http = Http {
            probe: probe.clone(),
            handler: Arc::new(move |_| Ok(Response::builder().status(status).header("content-type", &ct).body(body.clone())?)),
        };
        let w = TestWallet::accepting(permissive_metadata(), http, &probe);
        block_on(w.submit_response(o, r)).is_ok()
    })
}

fn e_form<'a>(rng: &mut StdRng, _: &'a World) -> Job<'a> {
    let tok = vp_json(&vp_token(rng));
    let tok = maybe(rng, 0.5, tok, |r, t| mutated(r, t));
    let mut s = match rng.gen_range(0..3) {
        0 => format!("response={}", refs::form_encode(&gen::text(rng))),
        1 => format!("vp_token={}", refs::form_encode(&tok.to_string())),
        _ => format!("vp_token={}&state={}", refs::form_encode(&tok.to_string()), refs::form_encode(&gen::text(rng))),
    };
    if chance(rng, 0.3) {
        s = mutate_text(rng, &s);
    }
    let b = if chance(rng, 0.4) { mutate_bytes(rng, s.as_bytes()) } else { s.into_bytes() };
    job(json!(String::from_utf8_lossy(&b)), move || {
        let _ = serde_json::from_value::<UntypedObject>(json!({"vp_token": tok})).map(UnencodedAuthorizationResponse::try_from);
        match AuthorizationResponse::from_x_www_form_urlencoded(&b) {
            Ok(AuthorizationResponse::Jwt(j)) => j.into_x_www_form_urlencoded().is_ok(),
            Ok(AuthorizationResponse::Unencoded(u)) => {
                let _ = serde_json::to_string(&u);
                let _ = Json::from(u.vp_token().clone());
                u.into_x_www_form_urlencoded().is_ok()
            }
            Err(_) => false,
        }
    })
}

fn e_cbor<'a>(rng: &mut StdRng, _: &'a World) -> Job<'a> {
    use refs::*;
    let ty = *pick(rng, &["OpenID4VPHandover", "OpenID4VPDCAPIHandover"]);
    let hash = bytes(rng, 40);
    let hash = if chance(rng, 0.7) { sha256(&hash).to_vec() } else { hash };
    let h = cbor_array(&[cbor_text(ty), cbor_bytes(&hash)]);
    let b = match rng.gen_range(0..8) {
        0 => h,
        1 => mutate_bytes(rng, &h),
        2 => cbor_array(&[cbor_null(), cbor_null(), h]),
        3 | 4 => mutate_bytes(rng, &cbor_array(&[cbor_null(), cbor_null(), h])),
        5 => {
            // Lengths that lie.
            let mut v = cbor_head(*pick(rng, &[2u8, 3, 4, 5]), *pick(rng, &[u64::MAX, u32::MAX as u64, 1 << 40, 1 << 62, 65536, 1 << 33]));
            v.extend(bytes(rng, 20));
            if chance(rng, 0.5) {
                let mut w = vec![0x83, 0xf6, 0xf6];
                w.extend(v);
                w
            } else if chance(rng, 0.5) {
                let mut w = vec![0x82];
                w.extend(cbor_text(ty));
                w.extend(v);
                w
            } else {
                v
            }
        }
        6 => {
            let n = *pick(rng, &[10usize, 255, 256, 257, 10_000, 200_000]);
            let mut v = vec![*pick(rng, &[0x81u8, 0x9f, 0xa1, 0xc1, 0xd8]); n];
            v.push(0xf6);
            v
        }
        _ => bytes(rng, 60),
    };
    let (a, n, u) = (gen::text(rng), gen::text(rng), gen::text(rng));
    let t = chance(rng, 0.5).then(|| bytes(rng, 64));
    job(json!({"cbor": b.iter().take(200).map(|b| format!("{b:02x}")).collect::<String>(), "len": b.len()}), move || {
        let x = ciborium::from_reader::<Handover, _>(&b[..]).is_ok();
        let y = ciborium::from_reader::<DcApiHandover, _>(&b[..]).is_ok();
        let z = ciborium::from_reader::<SessionTranscript, _>(&b[..]).is_ok();
        let w = ciborium::from_reader::<SessionTranscript<DcApiHandover>, _>(&b[..]).is_ok();
        if let Ok(h) = Handover::new(&a, &n, t.as_deref(), &u) {
            let _ = h.to_cbor_bytes();
            let _ = SessionTranscript::new(h).to_cbor_bytes();
        }
        if let Ok(h) = DcApiHandover::new(&a, &n, t.as_deref()) {
            let _ = SessionTranscript::new(h).to_cbor_bytes();
        }
        x || y || z || w
    })
}

fn e_jwk<'a>(rng: &mut StdRng, _: &'a World) -> Job<'a> {
    let k = Json::Object(any_jwk(rng));
    let k = mutated(rng, k);
    job(k.clone(), move || compute_jwk_thumbprint(&k).is_ok())
}

fn e_dcql<'a>(rng: &mut StdRng, _: &'a World) -> Job<'a> {
    let q = dcql::query(rng);
    let q = mutated(rng, q);
    job(q.clone(), move || match DcqlQuery::try_from(q) {
        Ok(q) => {
            touch_query(&q);
            true
        }
        Err(_) => false,
    })
}

fn e_metadata<'a>(rng: &mut StdRng, _: &'a World) -> Job<'a> {
    let m = wallet_metadata(rng);
    let m = mutated(rng, m);
    let (alg, prefix) = (gen::text(rng), gen::text(rng));
    job(m.clone(), move || {
        let Ok(mut w) = serde_json::from_value::<WalletMetadata>(m) else { return false };
        let _ = w.add_request_object_signing_alg_values_supported(ssi_jwk::Algorithm::ES256);
        let _ = w.add_client_id_prefixes_supported(&[ClientIdScheme(prefix)]);
        let _ = w.vp_formats_supported().is_claim_format_supported(&ClaimFormatDesignation::from(alg.as_str()));
        let _ = w.vp_formats_supported_mut().0.insert(ClaimFormatDesignation::from(alg), ClaimFormatPayload::AlgValues(vec![]));
        let _ = serde_json::to_string(&w);
        let _ = Json::from(UntypedObject::from(w));
        true
    })
}

fn e_typed<'a>(rng: &mut StdRng, _: &'a World) -> Job<'a> {
    let mut m = full_payload(rng);
    m.extend(wallet_metadata(rng).as_object().unwrap().clone());
    m.insert("id_token".into(), json!(gen::text(rng)));
    m.insert("jwks".into(), json!({"keys": [any_jwk(rng)]}));
    let v = mutated(rng, Json::Object(m));
    job(v.clone(), move || {
        let Ok(mut o) = serde_json::from_value::<UntypedObject>(v) else { return false };
        let mut n = 0;
        macro_rules! each {
            ($($t:ty),*) => {$(
                if let Some(Ok(t)) = o.get::<$t>() {
                    n += 1;
                    let _ = o.insert(t);
                }
                let _ = o.remove::<$t>();
            )*};
        }
        each!(ClientId, ClientMetadata, Nonce, Audience, RedirectUri, ResponseUri, ResponseMode, ResponseType, State,
            ExpectedOrigins, TransactionData, VerifierInfo, RequestUriMethod, VpFormats, JWKs,
            EncryptedResponseEncValuesSupported, Issuer, AuthorizationEndpoint, ResponseTypesSupported,
            ClientIdPrefixesSupported, RequestObjectSigningAlgValuesSupported, VpFormatsSupported,
            AuthorizationEncryptionAlgValuesSupported, AuthorizationEncryptionEncValuesSupported, IdToken, VpToken, DcqlQuery);
        n > 0
    })
}

fn e_text<'a>(rng: &mut StdRng, _: &'a World) -> Job<'a> {
    let t = if chance(rng, 0.5) {
        let f = *pick(rng, &["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt", "x509_san_dns:a.b", "redirect_uri:https://a/b"]);
        mutate_text(rng, f)
    } else {
        gen::text(rng)
    };
    let len = *pick(rng, &[0usize, 1, 2, 16, 255, 256, 70_000]);
    let seed: u64 = rng.gen();
    let v = odd_json(rng);
    job(json!({"text": t, "length": len}), move || {
        let d = ClaimFormatDesignation::from(t.as_str());
        let _ = (String::from(d.clone()), format!("{d} {d:?}"), serde_json::to_string(&d));
        let mut p = ClaimFormatPayload::AlgValues(vec![]);
        p.add_alg(t.clone());
        p.add_proof_type(t.clone());
        let mut p: Option<ClaimFormatPayload> = serde_json::from_value(v.clone()).ok();
        if let Some(p) = &mut p {
            p.add_alg(t.clone());
            p.add_proof_type(t.clone());
        }
        let _ = serde_json::from_value::<ClaimFormat>(v.clone()).map(|f| f.designation());
        let _ = VpTokenItem::try_from(v.clone());
        let _ = NonEmptyVec::<Json>::try_from(v.as_array().cloned().unwrap_or_default());
        let _ = serde_json::from_value::<Outcome>(v.clone());
        let _ = serde_json::from_value::<Status>(json!({"Complete": v}));
        let _ = ClientId(t.clone()).resolve_prefix();
        let _ = (ResponseMode::from(t.clone()).is_jarm(), ResponseType::from(t.clone()), Nonce::from(t));
        Nonce::random(&mut StdRng::seed_from_u64(seed), len).len() == len
    })
}

fn e_client<'a>(rng: &mut StdRng, w: &'a World) -> Job<'a> {
    let key = any_key(rng);
    let (vm, _) = vm_id(rng);
    let vm = maybe(rng, 0.6, vm, |r, v| mutate_text(r, &v));
    let n = rng.gen_range(0..4);
    let chain: Vec<Certificate> = (0..n)
        .filter_map(|_| {
            let c = pick(rng, &w.pool).clone();
            let der = if chance(rng, 0.6) { mutate_bytes(rng, &c.der) } else { c.der };
            Certificate::from_der(&der).ok()
        })
        .collect();
    let odd_chain: Vec<Certificate> = {
        let d = gen::text(rng).replace(|c: char| !c.is_ascii(), "x");
        let c = Cert::new(rng, key.clone(), vec![San::Dns(d.clone()), San::Uri(d)], "x", &key);
        Certificate::from_der(&c.der).ok().into_iter().collect()
    };
    let body = serde_json::from_value::<AuthorizationRequestObject>(Json::Object(full_payload(rng)));
    let known = chance(rng, 0.7);
    job(json!({"vm": vm, "chain": n}), move || {
        let probe = Probe::new();
        let signer = || Arc::new(TestSigner::new(&key, &probe));
        let mut clients: Vec<Box<dyn Client>> = vec![];
        let mut keys = HashMap::new();
        if known {
            keys.insert(vm.clone(), serde_json::from_value(key.jwk()).unwrap());
        }
        if let Ok(c) = block_on(DIDClient::new(vm, signer(), TestResolver { keys, probe: probe.clone() })) {
            clients.push(Box::new(c));
        }
        for ch in [chain, odd_chain] {
            if let Ok(c) = X509SanDnsClient::new(ch.clone(), signer()) {
                clients.push(Box::new(c));
            }
            if let Ok(c) = X509HashClient::new(ch, signer()) {
                clients.push(Box::new(c));
            }
        }
        if let certs::Key::P256(k) = &key {
            let _ = P256Signer::new(k.clone());
        }
        let mut ok = false;
        if let Ok(b) = body {
            for c in &clients {
                let _ = (c.id().resolve_prefix(), c.prefix());
                ok |= block_on(c.generate_request_object_jwt(&b)).is_ok();
            }
        }
        ok
    })
}

fn e_build<'a>(rng: &mut StdRng, _: &'a World) -> Job<'a> {
    let w = super::verifier::world(rng, true, false);
    let mut params = Map::new();
    let full = full_payload(rng);
    for _ in 0..rng.gen_range(0..5) {
        let k = *pick(rng, KEYS);
        let v = full.get(k).cloned().unwrap_or_else(|| json!(gen::text(rng)));
        params.insert(k.to_string(), mutated(rng, v));
    }
    let md = wallet_metadata(rng);
    let md = maybe(rng, 0.5, md, |r, m| mutated(r, m));
    let query = chance(rng, 0.8).then(|| dcql::small_query(rng));
    let (id, dc) = (uuid(rng), chance(rng, 0.3));
    let resp = response(rng);
    let bare = chance(rng, 0.1);
    let u = odd_url(rng);
    job(json!({"params": params, "wallet": md, "dc_api": dc}), move || {
        if bare {
            return block_on(Verifier::builder().by_reference(u.clone()).with_submission_endpoint(u).build()).is_ok();
        }
        let mut b = w.verifier.build_authorization_request();
        for (k, v) in params {
            b = request_param(b, &k, v);
        }
        if let Some(q) = query {
            b = b.with_dcql_query(DcqlQuery::try_from(q).unwrap());
        }
        let ok = if dc {
            block_on(b.build_dc_api()).is_ok()
        } else {
            match serde_json::from_value::<WalletMetadata>(md) {
                Ok(m) => block_on(b.build_with_session_id(id, m)).is_ok(),
                Err(_) => false,
            }
        };
        let _ = block_on(w.verifier.retrieve_authorization_request(id));
        let _ = block_on(w.verifier.verify_response(id, resp, |_, _| Box::pin(async { Outcome::Failure { reason: "x".into() } })));
        let _ = block_on(w.verifier.poll_status(id));
        ok
    })
}

const ENTRIES: &[(&str, usize, Make)] = &[
    ("query parameters", 4, e_query),
    ("request URL", 4, e_url),
    ("request signature", 6, e_signature),
    ("did:key resolution", 1, e_did_method),
    ("request validation", 8, e_validate),
    ("request object", 6, e_object),
    ("JSON text", 4, e_raw_json),
    ("response submission", 3, e_submit),
    ("authorization response", 4, e_form),
    ("CBOR", 4, e_cbor),
    ("JWK thumbprint", 2, e_jwk),
    ("DCQL query", 4, e_dcql),
    ("wallet metadata", 4, e_metadata),
    ("typed parameters", 3, e_typed),
    ("identifiers", 3, e_text),
    ("verifier client", 2, e_client),
    ("request building", 4, e_build),
];

/// No execution of this workload takes a hundredth of this.
const SLOW: Duration = Duration::from_secs(20);

pub fn c21(ctx: &mut Ctx) {
    RESOLVER_PANICS.store(0, std::sync::atomic::Ordering::Relaxed);
    ctx.rule = "inputs derived from valid ones by changes of text, JSON, DER and CBOR structure, at every public entry point; distinct by (entry point, accepted, input)".into();
    ctx.assumptions.push("the build has overflow checks and debug assertions on; aborts and stack overflows end the process and are reported by check.sh".into());
    for (name, ..) in ENTRIES {
        ctx.require(name, 50);
    }
    ctx.require("presentation into item", 20);
    presentation_numbers(ctx);
    let per = ctx.n(2_000, 40_000);
    let shards = 8;
    let seeds: Vec<u64> = (0..shards).map(|_| ctx.rng.gen()).collect();
    let rounds = ctx.n(4, 40);
    let mut tally = std::collections::BTreeMap::new();
    for round in 0..rounds {
        let results: Vec<Vec<(&str, bool, u64, Json, Result<(), String>)>> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds.iter().map(|seed| s.spawn(move || shard(*seed ^ (round as u64) << 32, per / rounds.max(1)))).collect();
            hs.into_iter().map(|h| h.join().expect("shard")).collect()
        });
        for (name, accepted, input, case, verdict) in results.into_iter().flatten() {
            let e = tally.entry(name).or_insert((0u64, 0u64));
            *(if accepted { &mut e.0 } else { &mut e.1 }) += 1;
            let k = format!("{accepted} {input}");
            ctx.judge(name, Some(&k), || case, verdict);
        }
        if ctx.saturated() {
            break;
        }
    }
    let tally: Map<String, Json> = tally.into_iter().map(|(k, (a, r))| (k.to_string(), json!({"accepted": a, "refused": r}))).collect();
    ctx.extra.insert("outcomes".into(), Json::Object(tally));
    ctx.extra.insert("panics_inside_the_caller's_resolver".into(), json!(RESOLVER_PANICS.load(std::sync::atomic::Ordering::Relaxed)));
}

const UNWRITABLE: [&str; 4] = ["1e5", "1e400", "1e-5", "18446744073709551616"];

/// Presentations holding numbers of every size, made into vp_token items.
fn presentation_numbers(ctx: &mut Ctx) {
    use ssi_claims::{data_integrity::{AnyDataIntegrity, AnySuite, DataIntegrity}, vc};
    type V2Special = vc::v2::syntax::JsonPresentation<vc::v2::SpecializedJsonCredential<json_syntax::Object>>;
    fn one<T: serde::de::DeserializeOwned + Into<VpTokenItem>>(ctx: &mut Ctx, name: &str, number: &str, text: &str) {
        let Ok(p) = serde_json::from_str::<T>(text) else { return };
        let got = guard(move || Into::<VpTokenItem>::into(p)).map(|_| ());
        match got {
            // The recorded finding is about exactly these numbers: ssi's serialiser fails for those
            // without a decimal point that are not 64-bit integers.
            Err(e) if UNWRITABLE.contains(&number) => ctx.violate(&format!("{name}-into-VpTokenItem:1e5"), format!("making a vp_token item of {text}: {e}"), json!({"presentation": text})),
            got => {
                ctx.judge("presentation into item", Some(&format!("{name} {number}")), || json!({"presentation": text}), got);
            }
        }
    }
    for number in ["1", "-1", "0", "18446744073709551615", "-9223372036854775808", "0.5", "1.0", "1.5e308", "1.5e-308", "2.0e-400", "9007199254740993"].iter().chain(&UNWRITABLE) {
        for v2 in [false, true] {
            let c = if v2 { "https://www.w3.org/ns/credentials/v2" } else { "https://www.w3.org/2018/credentials/v1" };
            let text = |proof: &str| format!(r#"{{"@context":["{c}"],"type":["VerifiablePresentation"]{proof},"weight":{number}}}"#);
            let bare = text("");
            let signed = text(r#","proof":{"type":"DataIntegrityProof","cryptosuite":"eddsa-2022","created":"2024-01-02T03:04:05Z","verificationMethod":"did:example:a#k","proofPurpose":"authentication","proofValue":"z1111111111111111111111"}"#);
            if v2 {
                one::<vc::v2::syntax::JsonPresentation>(ctx, "v2-JsonPresentation", number, &bare);
                one::<V2Special>(ctx, "v2-SpecializedJsonPresentation", number, &bare);
            } else {
                one::<vc::v1::syntax::JsonPresentation>(ctx, "v1-JsonPresentation", number, &bare);
            }
            one::<vc::AnyJsonPresentation>(ctx, "AnyJsonPresentation", number, &bare);
            one::<AnyDataIntegrity>(ctx, "AnyDataIntegrity", number, &signed);
            one::<DataIntegrity<vc::AnyJsonPresentation, AnySuite>>(ctx, "DataIntegrity", number, &signed);
        }
    }
}

fn shard(seed: u64, per: usize) -> Vec<(&'static str, bool, u64, Json, Result<(), String>)> {
    let mut rng = StdRng::seed_from_u64(seed);
    let w = World { pool: certs::pool(&mut rng, 16), vms: did::world(&mut rng) };
    let mut out = vec![];
    let mut sampled = 0;
    for i in 0..per {
        for (name, weight, make) in ENTRIES {
            for _ in 0..*weight {
                let j = match guard(|| make(&mut rng, &w)) {
                    Ok(j) => j,
                    Err(e) => {
                        // Preparing an input uses the library too (building a verifier, printing a URL).
                        out.push((*name, false, 0, Json::Null, Err(format!("while preparing: {e}"))));
                        continue;
                    }
                };
                let input = crate::ctx::hash_of(&j.case.to_string());
                let start = Instant::now();
                let r = guard(j.run);
                let took = start.elapsed();
                let (accepted, verdict) = match r {
                    Ok(a) if took < SLOW => (a, Ok(())),
                    Ok(a) => (a, Err(format!("took {took:?}"))),
                    Err(e) => (false, Err(e)),
                };
                let keep = verdict.is_err() || (i < 2 && sampled < 40);
                sampled += keep as usize;
                out.push((*name, accepted, input, if keep { j.case } else { Json::Null }, verdict));
            }
        }
    }
    out
}
