//! C22, C27: the verifier's identities and JWTs, and verifier against wallet end to end.
use super::{
    dcql,
    objects::{outcome, status_json},
    verifier::{request_param, uuid},
    wallet::{self, form_matches, TYP},
};
use crate::{
    certs::{self, Cert, Key, San},
    ctx::{guard, Ctx},
    ensure,
    exec::block_on,
    gen::{self, chance, pick},
    mocks::*,
    refs,
};
use anyhow::anyhow;
use http::Response;
use openid4vp::{
    core::{
        authorization_request::{
            verification::{did::verify_with_resolver, verifier::P256Verifier, x509_hash, x509_san},
            AuthorizationRequestObject,
        },
        dcql_query::DcqlQuery,
        metadata::WalletMetadata,
        response::AuthorizationResponse,
    },
    verifier::{
        client::{Client, DIDClient, X509HashClient, X509SanDnsClient},
        request_signer::{P256Signer, RequestSigner},
        session::SessionStore,
        Verifier,
    },
    wallet::Wallet,
};
use rand::{rngs::StdRng, Rng};
use ssi_claims::jws::JwsSigner;
use serde_json::{json, Map, Value as Json};
use std::{
    collections::HashMap,
    sync::{Arc, Mutex},
};
use url::Url;

pub fn any_key(rng: &mut StdRng) -> Key {
    match rng.gen_range(0..6) {
        0 if chance(rng, 0.2) => Key::Rsa((0..*pick(rng, &[256usize, 384, 512, 1024, 2048])).map(|_| rng.gen()).collect()),
        0 => Key::p384(rng),
        1 => Key::k256(rng),
        2 => Key::ed(rng),
        _ => Key::p256(rng),
    }
}

pub fn vm_id(rng: &mut StdRng) -> (String, String) {
    let did = match rng.gen_range(0..5) {
        0 => format!("did:web:{}.example:path", gen::lower(rng, 2, 6)),
        1 => format!("did:key:z6Mk{}", gen::ident(rng, 8, 30)),
        2 => format!("did:jwk:{}", gen::ident(rng, 8, 30)),
        3 => format!("did:{}:{}", gen::lower(rng, 1, 5), gen::text(rng).replace('#', "")),
        _ => format!("did:web:{}.example", gen::lower(rng, 2, 6)),
    };
    let frag = if chance(rng, 0.1) { String::new() } else { gen::ident(rng, 1, 20) };
    (did.clone(), format!("{did}#{frag}"))
}

pub enum Ident {
    Kid(String),
    Chain(Vec<Vec<u8>>),
}

/// What every JWT a client makes must satisfy.
fn check_jwt(client: &dyn Client, key: &Key, alg: &str, ident: &Ident, body: &AuthorizationRequestObject, probe: Option<&Probe>) -> Result<(), String> {
    let want = aro_json(body);
    if let Some(p) = probe {
        p.reset();
    }
    let jwt = block_on(client.generate_request_object_jwt(body)).map_err(|e| format!("no JWT: {e:#}"))?;
    let input = judge_jwt(&jwt, key, alg, ident, &want)?;
    if let Some(p) = probe {
        let signed: Vec<Json> = p.log().into_iter().filter(|e| e.0 == "signer.sign").map(|e| e.1).collect();
        ensure!(signed == vec![json!(input)], "the signer was asked to sign {signed:?}");
    }
    Ok(())
}

/// The signed text, if the JWT is what it has to be.
pub fn judge_jwt(jwt: &str, key: &Key, alg: &str, ident: &Ident, want: &Json) -> Result<String, String> {
    let parts: Vec<&str> = jwt.split('.').collect();
    ensure!(parts.len() == 3, "not a compact JWS: {jwt}");
    let header: Json = refs::unb64url(parts[0]).and_then(|b| serde_json::from_slice(&b).ok()).ok_or("the header is not base64url JSON")?;
    let payload: Json = refs::unb64url(parts[1]).and_then(|b| serde_json::from_slice(&b).ok()).ok_or("the payload is not base64url JSON")?;
    let sig = refs::unb64url(parts[2]).ok_or("the signature is not base64url")?;
    ensure!(header["typ"] == json!(TYP), "typ is {}", header["typ"]);
    ensure!(header["alg"] == json!(alg), "alg is {} instead of {alg}", header["alg"]);
    match ident {
        Ident::Kid(k) => {
            ensure!(header["kid"] == json!(k), "kid is {} instead of {k}", header["kid"]);
            ensure!(header.get("x5c").is_none(), "a DID client sends x5c");
        }
        Ident::Chain(c) => {
            let want: Vec<String> = c.iter().map(|d| refs::b64std(d)).collect();
            ensure!(header["x5c"] == json!(want), "x5c is {} instead of {want:?}", header["x5c"]);
            ensure!(header.get("kid").is_none(), "an X.509 client sends kid");
        }
    }
    ensure!(payload == *want, "the payload is {payload} instead of {want}");
    let input = format!("{}.{}", parts[0], parts[1]);
    ensure!(key.verify(input.as_bytes(), &sig), "the signature is not the signer's over these bytes");
    Ok(input)
}

pub fn body(rng: &mut StdRng, client_id: &str) -> AuthorizationRequestObject {
    let mut m: Map<String, Json> = wallet::base_payload(rng);
    m.insert("client_id".into(), json!(client_id));
    if chance(rng, 0.5) {
        m.insert("dcql_query".into(), dcql::small_query(rng));
    }
    serde_json::from_value(Json::Object(m)).unwrap()
}

pub fn c27(ctx: &mut Ctx) {
    ctx.rule = "clients of the three kinds over keys, verification methods and certificate chains of many shapes; distinct by (kind, key type, chain shape, defect)".into();
    ctx.assumptions.push("a resolved key that equals the signer's except for optional members, and verification methods with several '#', are not judged".into());
    for c in ["did: identity and JWT", "did: refused", "x509_san_dns: identity and JWT", "x509_san_dns: refused", "x509_hash: identity and JWT", "x509: empty chain", "P256Signer"] {
        ctx.require(c, 20);
    }
    let mut rng = ctx.fork_rng();
    for round in 0..ctx.n(1_200, 20_000) {
        // DID clients.
        let key = any_key(&mut rng);
        let probe = Probe::new();
        let mut signer = TestSigner::new(&key, &probe);
        let alg = if chance(&mut rng, 0.2) { gen::text(&mut rng) } else { key.alg().to_string() };
        signer.alg = Ok(alg.clone());
        let (did, mut vm) = vm_id(&mut rng);
        let jwk = |k: &Key| serde_json::from_value(k.jwk()).unwrap();
        let mut keys: HashMap<String, _> = HashMap::new();
        keys.insert(vm.clone(), jwk(&key));
        // Other verification methods of the same and of other DIDs, with other keys.
        let other = any_key(&mut rng);
        keys.insert(format!("{did}#other"), jwk(&other));
        keys.insert(format!("{did}x{}", &vm[did.len()..]), jwk(&other));
        keys.insert(did.clone(), jwk(&key));
        let defect = match rng.gen_range(0..12) {
            0 => {
                keys.insert(vm.clone(), jwk(&other));
                Some("resolver has another key")
            }
            1 => {
                keys.remove(&vm);
                Some("unknown verification method")
            }
            2 => {
                vm = did.clone();
                Some("no fragment")
            }
            3 => {
                signer.jwk = Err("no key".into());
                Some("signer has no key")
            }
            4 => {
                signer.jwk = Ok(jwk(&other));
                Some("signer has another key")
            }
            _ => None,
        };
        let b_fallback = body(&mut rng, "x");
        let mut b = b_fallback.clone();
        if defect.is_none() {
            b = body(&mut rng, &format!("decentralized_identifier:{did}"));
        }
        let v = guard(|| {
            let r = block_on(DIDClient::new(vm.clone(), Arc::new(signer), TestResolver { keys, probe: probe.clone() }));
            let asked: Vec<Json> = probe.log().into_iter().filter(|e| e.0 == "resolver").map(|e| e.1).collect();
            ensure!(asked.iter().all(|k| *k == json!(vm)), "the resolver was asked for {asked:?} instead of {vm}");
            match (r, defect) {
                (Ok(c), Some(d)) => Err(format!("accepted although: {d} (id {})", c.id().0)),
                (Err(_), Some(_)) => Ok(()),
                (Err(e), None) => Err(format!("refused: {e:#}")),
                (Ok(c), None) => {
                    ensure!(c.id().0 == format!("decentralized_identifier:{did}"), "the identity is {}", c.id().0);
                    ensure!(c.prefix().0 == "decentralized_identifier", "the prefix is {}", c.prefix().0);
                    check_jwt(&c, &key, &alg, &Ident::Kid(vm.clone()), &b, Some(&probe))?;
                    check_jwt(&c, &key, &alg, &Ident::Kid(vm.clone()), &b_fallback, Some(&probe))?;
                    check_jwt(&c, &key, &alg, &Ident::Kid(vm.clone()), &b, Some(&probe))
                }
            }
        });
        ctx.events(probe.log().len());
        let class = if defect.is_some() { "did: refused" } else { "did: identity and JWT" };
        ctx.judge(class, Some(&format!("{}/{defect:?}/{}", key.alg(), vm.split(':').nth(1).unwrap_or(""))), || json!({"vm": vm, "defect": defect, "alg": alg, "body": aro_json(&b)}), v.and_then(|r| r));
        // X.509 clients.
        let pool = certs::pool(&mut rng, if round % 20 == 0 { 24 } else { 4 });
        for _ in 0..3 {
            let n = *pick(&mut rng, &[1usize, 1, 2, 3, 4, 5, 12]);
            let mut chain: Vec<Cert> = (0..n).map(|_| pick(&mut rng, &pool).clone()).collect();
            if chance(&mut rng, 0.1) {
                // A subject alternative name extension that is not one.
                let k = Key::p256(&mut rng);
                let sans = vec![San::Dns("é.example".into()), San::Dns("ok.example".into())];
                chain[0] = Cert::new(&mut rng, k.clone(), sans, "ok.example", &k);
                chain[0].sans.clear();
            }
            let leaf = chain[0].clone();
            let signer_key = if chance(&mut rng, 0.9) { leaf.key.clone() } else { any_key(&mut rng) };
            let alg = signer_key.alg().to_string();
            let probe = Probe::new();
            let ders: Vec<Vec<u8>> = chain.iter().map(|c| c.der.clone()).collect();
            let parsed: Vec<_> = chain.iter().map(Cert::parsed).collect();
            let first = leaf.dns().first().map(|s| s.to_string());
            let kinds: Vec<&str> = leaf.sans.iter().map(|s| match s { San::Dns(_) => "d", San::Uri(_) => "u", San::Email(_) => "e", San::Ip(_) => "i", San::Dir(_) => "n" }).collect();
            let shape = format!("{n}/{}/{}", kinds.concat(), signer_key.alg());
            let case = || json!({"sans": format!("{:?}", leaf.sans), "chain": n});
            let b = body(&mut rng, &format!("x509_san_dns:{}", first.clone().unwrap_or_default()));
            let v = guard(|| {
                let r = X509SanDnsClient::new(parsed.clone(), Arc::new(TestSigner::new(&signer_key, &probe)));
                match (r, &first) {
                    (Ok(c), None) => Err(format!("a certificate without a DNS name gave the identity {}", c.id().0)),
                    (Err(_), None) => Ok(()),
                    (Err(e), Some(_)) => Err(format!("refused: {e:#}")),
                    (Ok(c), Some(d)) => {
                        ensure!(c.id().0 == format!("x509_san_dns:{d}"), "the identity is {} instead of {d}", c.id().0);
                        ensure!(c.prefix().0 == "x509_san_dns", "the prefix is {}", c.prefix().0);
                        check_jwt(&c, &signer_key, &alg, &Ident::Chain(ders.clone()), &b, Some(&probe))?;
                        check_jwt(&c, &signer_key, &alg, &Ident::Chain(ders.clone()), &b_fallback, Some(&probe))
                    }
                }
            });
            ctx.events(probe.log().len());
            let class = if first.is_some() { "x509_san_dns: identity and JWT" } else { "x509_san_dns: refused" };
            ctx.judge(class, Some(&shape), case, v.and_then(|r| r));
            let v = guard(|| {
                let c = X509HashClient::new(parsed.clone(), Arc::new(TestSigner::new(&signer_key, &probe))).map_err(|e| format!("refused: {e:#}"))?;
                ensure!(c.id().0 == format!("x509_hash:{}", leaf.hash_id()), "the identity is {} instead of {}", c.id().0, leaf.hash_id());
                ensure!(c.prefix().0 == "x509_hash", "the prefix is {}", c.prefix().0);
                check_jwt(&c, &signer_key, &alg, &Ident::Chain(ders.clone()), &b, Some(&probe))?;
                        check_jwt(&c, &signer_key, &alg, &Ident::Chain(ders.clone()), &b_fallback, Some(&probe))
            });
            ctx.events(probe.log().len());
            ctx.judge("x509_hash: identity and JWT", Some(&shape), case, v.and_then(|r| r));
        }
        if round % 10 == 0 {
            let k = Key::p256(&mut rng);
            let probe = Probe::new();
            let v = guard(|| {
                ensure!(X509SanDnsClient::new(vec![], Arc::new(TestSigner::new(&k, &probe))).is_err(), "an empty chain gave an x509_san_dns identity");
                ensure!(X509HashClient::new(vec![], Arc::new(TestSigner::new(&k, &probe))).is_err(), "an empty chain gave an x509_hash identity");
                Ok(())
            });
            ctx.judge("x509: empty chain", None, || json!("empty chain"), v.and_then(|r| r));
        }
        // The bundled signer.
        if round % 4 == 0 {
            let k = Key::p256(&mut rng);
            let Key::P256(sk) = &k else { unreachable!() };
            let msg: Vec<u8> = (0..rng.gen_range(0..200)).map(|_| rng.gen()).collect();
            let cert = Cert::new(&mut rng, k.clone(), vec![San::Dns("v.example".into())], "v", &k);
            let b = body(&mut rng, "x509_san_dns:v.example");
            let v = guard(|| {
                let s = P256Signer::new(sk.clone()).map_err(|e| format!("{e:#}"))?;
                let alg = RequestSigner::alg(&s).map_err(|e| e.to_string())?;
                ensure!(alg == "ES256", "a P-256 signer claims {alg}");
                let j = serde_json::to_value(RequestSigner::jwk(&s).map_err(|e| e.to_string())?).unwrap();
                ensure!(j == serde_json::to_value(s.jwk()).unwrap(), "two different keys are reported");
                for m in ["kty", "crv", "x", "y"] {
                    ensure!(j[m] == k.jwk()[m], "the signer's public key is {j}");
                }
                ensure!(j.get("d").is_none(), "the signer publishes its private key");
                for sig in [block_on(RequestSigner::sign(&s, &msg)), block_on(s.try_sign(&msg)).map_err(|e| e.to_string())?] {
                    ensure!(sig.len() == 64 && k.verify(&msg, &sig), "the signature does not verify under the signer's key");
                }
                let info = block_on(JwsSigner::fetch_info(&s)).map_err(|e| e.to_string())?;
                ensure!(info.algorithm.to_string() == alg && info.key_id.is_none(), "as a JWS signer it claims {:?} {:?}", info.algorithm, info.key_id);
                let sig = block_on(JwsSigner::sign_bytes(&s, &msg)).map_err(|e| e.to_string())?;
                ensure!(sig.len() == 64 && k.verify(&msg, &sig), "the JWS signature does not verify under the signer's key");
                let c = X509SanDnsClient::new(vec![cert.parsed()], Arc::new(s)).map_err(|e| format!("{e:#}"))?;
                check_jwt(&c, &k, "ES256", &Ident::Chain(vec![cert.der.clone()]), &b, None)
            });
            ctx.judge("P256Signer", Some(&round.to_string()), || json!({"message": msg}), v.and_then(|r| r));
        }
        if ctx.saturated() {
            return;
        }
    }
}

/// A wallet whose verification methods are the library's own checks.
pub fn honest_wallet(md: WalletMetadata, http: Http, probe: &Probe, keys: HashMap<String, ssi_jwk::JWK>, trusted: Option<Vec<String>>) -> TestWallet {
    let mut w = TestWallet::accepting(md, http, probe);
    w.real = Some(Arc::new(move |method, md, aro, jwt| {
        let jwt = jwt.ok_or_else(|| anyhow!("unsigned"))?;
        match method {
            "x509_san_dns" => x509_san::validate::<P256Verifier>(md, aro, jwt, None),
            "x509_hash" => x509_hash::validate::<P256Verifier>(md, aro, jwt, None),
            "decentralized_identifier" => block_on(verify_with_resolver(
                md,
                aro,
                jwt,
                trusted.as_deref(),
                TestResolver { keys: keys.clone(), probe: Probe::new() },
            )),
            m => Err(anyhow!("method {m} is not trusted")),
        }
    }));
    w
}

fn tamper(rng: &mut StdRng, jwt: &str, other_jwt: &str, evil: &Key, cert: &Cert) -> (&'static str, String) {
    let p: Vec<&str> = jwt.split('.').collect();
    let o: Vec<&str> = other_jwt.split('.').collect();
    let header: Json = serde_json::from_slice(&refs::unb64url(p[0]).unwrap()).unwrap();
    let payload: Json = serde_json::from_slice(&refs::unb64url(p[1]).unwrap()).unwrap();
    let enc = |j: &Json| refs::b64url(j.to_string().as_bytes());
    loop {
        let (what, t) = match rng.gen_range(0..16) {
            0 | 1 | 2 => {
                // One character of one part.
                let i = rng.gen_range(0..jwt.len());
                let mut b: Vec<u8> = jwt.bytes().collect();
                if b[i] == b'.' {
                    continue;
                }
                b[i] = *pick(rng, b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_");
                ("one character", String::from_utf8(b).unwrap())
            }
            3 => {
                let mut q = payload.clone();
                let k = *pick(rng, &["nonce", "response_uri", "state", "dcql_query", "response_mode"]);
                q[k] = match k {
                    "response_uri" => json!("https://evil.example/collect"),
                    "response_mode" => json!(if q[k] == json!("direct_post") { "dc_api" } else { "direct_post" }),
                    "dcql_query" => dcql::small_query(rng),
                    _ => json!("evil"),
                };
                ("payload member", format!("{}.{}.{}", p[0], enc(&q), p[2]))
            }
            4 => ("signature of another request", format!("{}.{}.{}", p[0], p[1], o[2])),
            5 => ("payload of another request", format!("{}.{}.{}", p[0], o[1], p[2])),
            6 => ("no signature", format!("{}.{}.", p[0], p[1])),
            7 => {
                let mut h = header.clone();
                h["alg"] = json!("none");
                ("alg none", format!("{}.{}.", enc(&h), p[1]))
            }
            8 => {
                let i = format!("{}.{}", p[0], p[1]);
                ("signed by another key", format!("{i}.{}", refs::b64url(&evil.sign(i.as_bytes()))))
            }
            9 => {
                // Signed by another key whose certificate replaces or precedes the chain.
                let mut h = header.clone();
                if h.get("x5c").is_none() {
                    continue;
                }
                if chance(rng, 0.5) {
                    h["x5c"] = json!([refs::b64std(&cert.der)]);
                } else {
                    let mut v = h["x5c"].as_array().unwrap().clone();
                    v.push(json!(refs::b64std(&cert.der)));
                    h["x5c"] = json!(v);
                }
                let i = format!("{}.{}", enc(&h), p[1]);
                ("another certificate", format!("{i}.{}", refs::b64url(&evil.sign(i.as_bytes()))))
            }
            10 => {
                let mut h = header.clone();
                if h.get("kid").is_none() {
                    continue;
                }
                h["kid"] = json!(*pick(rng, &["did:web:evil.example#k", "did:web:evil.example", "#k"]));
                let i = format!("{}.{}", enc(&h), p[1]);
                ("another kid", format!("{i}.{}", refs::b64url(&evil.sign(i.as_bytes()))))
            }
            11 => {
                let mut h = header.clone();
                h["typ"] = json!(*pick(rng, &["JWT", "oauth-authz-req", ""]));
                ("typ", format!("{}.{}.{}", enc(&h), p[1], p[2]))
            }
            12 => {
                let mut h = header.clone();
                h["x"] = json!(1);
                ("header member added", format!("{}.{}.{}", enc(&h), p[1], p[2]))
            }
            13 => {
                let mut q = payload.clone();
                q["x"] = json!(1);
                ("payload member added", format!("{}.{}.{}", p[0], enc(&q), p[2]))
            }
            14 => ("truncated", jwt[..rng.gen_range(0..jwt.len())].to_string()),
            _ => ("extended", format!("{jwt}{}", pick(rng, &["A", ".", ".AAAA", "="]))),
        };
        if t != jwt {
            return (what, t);
        }
    }
}

pub fn c22(ctx: &mut Ctx) {
    ctx.rule = "whole exchanges between the library's verifier and wallet, untouched and with one thing changed in transit; distinct by (client, indirection, mode, change)".into();
    ctx.assumptions.push("the wallet uses the library's own checks; the transport is simulated in process".into());
    let kinds = ["did", "x509_san_dns", "x509_hash"];
    for k in kinds {
        for v in ["value", "reference"] {
            ctx.require(&format!("{k} by {v}: accepted"), 20);
            ctx.require(&format!("{k} by {v}: altered"), 100);
        }
    }
    for c in ["response delivered", "envelope client_id altered"] {
        ctx.require(c, 50);
    }
    let mut rng = ctx.fork_rng();
    for round in 0..ctx.n(1_500, 15_000) {
        let kind = kinds[round % 3];
        let by_ref = (round / 3) % 2 == 0;
        let ed = kind == "did" && chance(&mut rng, 0.3);
        let key = if ed { Key::ed(&mut rng) } else { Key::p256(&mut rng) };
        let evil = if ed { Key::ed(&mut rng) } else { Key::p256(&mut rng) };
        let ca = Key::p256(&mut rng);
        let host = certs::domain(&mut rng).to_lowercase();
        let extra = certs::domain(&mut rng);
        let sans = vec![San::Uri("https://x.example".into()), San::Dns(host.clone()), San::Dns(extra)];
        let leaf = Cert::new(&mut rng, key.clone(), sans.clone(), &host, &ca);
        // The attacker's certificate names the same host when that is not what binds it, so that only the key differs.
        let evil_sans = if kind == "x509_hash" { sans } else { vec![San::Dns("evil.example".into())] };
        let evil_cert = Cert::new(&mut rng, evil.clone(), evil_sans, &host, &ca);
        let root = Cert::new(&mut rng, ca.clone(), vec![San::Dns("ca.example".into())], "ca", &ca);
        let probe = Probe::new();
        let did = format!("did:web:{host}");
        let vm = format!("{did}#k");
        let jwk = |k: &Key| -> ssi_jwk::JWK { serde_json::from_value(k.jwk()).unwrap() };
        let mut keys = HashMap::new();
        keys.insert(vm.clone(), jwk(&key));
        keys.insert("did:web:evil.example#k".to_string(), jwk(&evil));
        let signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync> = match &key {
            Key::P256(k) if chance(&mut rng, 0.5) && kind != "did" => Arc::new(P256Signer::new(k.clone()).unwrap()),
            _ => Arc::new(TestSigner::new(&key, &probe)),
        };
        let chain = if chance(&mut rng, 0.5) { vec![leaf.parsed()] } else { vec![leaf.parsed(), root.parsed()] };
        let client = guard(|| -> anyhow::Result<Arc<dyn Client + Send + Sync>> {
            Ok(match kind {
                "did" => Arc::new(block_on(DIDClient::new(vm.clone(), signer.clone(), TestResolver { keys: keys.clone(), probe: probe.clone() }))?),
                "x509_san_dns" => Arc::new(X509SanDnsClient::new(chain.clone(), signer.clone())?),
                _ => Arc::new(X509HashClient::new(chain.clone(), signer.clone())?),
            })
        });
        let client = match client {
            Ok(Ok(c)) => c,
            Ok(Err(e)) => {
                ctx.violate("setup", format!("the client was refused: {e:#}"), json!(kind));
                return;
            }
            Err(e) => {
                ctx.violate("setup", e, json!(kind));
                return;
            }
        };
        let store = TestStore { inner: Default::default(), probe: probe.clone() };
        let submit = gen::http_url(&mut rng);
        let submit = { let mut u = submit; u.set_fragment(None); u };
        let at = { let mut u = gen::http_url(&mut rng); u.set_fragment(None); let _ = u.set_username(""); let _ = u.set_password(None); u };
        let mut b = Verifier::builder().with_client(client.clone()).with_session_store(Arc::new(store.clone())).with_submission_endpoint(submit.clone());
        if by_ref {
            b = b.by_reference(at.clone());
        }
        let verifier = block_on(b.build()).unwrap();
        let endpoint = gen::endpoint(&mut rng);
        let md = metadata(json!({
            "authorization_endpoint": endpoint.as_str(),
            "vp_formats_supported": {"mso_mdoc": {}},
            "client_id_prefixes_supported": ALL_PREFIXES,
            "request_object_signing_alg_values_supported": ["ES256", "EdDSA"],
        }));
        let mode = *pick(&mut rng, &["direct_post", "direct_post", "dc_api", "direct_post.jwt", "dc_api.jwt"]);
        let build = |rng: &mut StdRng| {
            let id = uuid(rng);
            let q: DcqlQuery = serde_json::from_value(dcql::small_query(rng)).unwrap();
            let mut b = verifier.build_authorization_request().with_dcql_query(q);
            for (k, x) in [("nonce", json!(gen::text(rng))), ("response_type", json!("vp_token")), ("response_mode", json!(mode)), ("state", json!(gen::text(rng)))] {
                b = request_param(b, k, x);
            }
            if mode.ends_with(".jwt") {
                b = request_param(b, "client_metadata", json!({"vp_formats_supported": {"mso_mdoc": {}}, "jwks": {"keys": [{"kty": "EC", "crv": "P-256", "use": "enc", "alg": "ECDH-ES", "x": "a", "y": "b"}]}}));
            }
            if chance(rng, 0.3) {
                b = request_param(b, "x-app", gen::json_value(rng, 2));
            }
            guard(|| block_on(b.build_with_session_id(id, md.clone()))).and_then(|r| r.map_err(|e| format!("{e:#}"))).map(|u| (id, u))
        };
        let (id, url) = match build(&mut rng) {
            Ok(x) => x,
            Err(e) => {
                ctx.violate("setup", format!("the request could not be built: {e}"), json!({"client": kind, "mode": mode}));
                return;
            }
        };
        let session = block_on(store.inner.get_session(id)).unwrap();
        let other = match build(&mut rng) {
            Ok((i, _)) => block_on(store.inner.get_session(i)).unwrap().authorization_request_jwt,
            Err(_) => session.authorization_request_jwt.clone(),
        };
        let genuine = session.authorization_request_jwt.clone();
        let want = aro_json(&session.authorization_request_object);
        // The verifier's HTTP side.
        let delivered: Arc<Mutex<Vec<Json>>> = Default::default();
        let o = outcome(&mut rng);
        let served: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
        let handler: Handler = {
            let (verifier, delivered, o, served, submit, at) = (verifier.clone(), delivered.clone(), o.0.clone(), served.clone(), submit.clone(), at.clone());
            Arc::new(move |r| {
                let uri: Url = r.uri().to_string().parse()?;
                let seg: uuid::Uuid = uri.path_segments().and_then(|s| s.last().map(|x| x.to_string())).unwrap_or_default().parse()?;
                let base = |u: &Url| {
                    let mut u = u.clone();
                    u.path_segments_mut().unwrap().push(&seg.to_string());
                    u
                };
                match r.method().as_str() {
                    "GET" if uri == base(&at) => {
                        let jwt = block_on(verifier.retrieve_authorization_request(seg))?;
                        let jwt = served.lock().unwrap().clone().unwrap_or(jwt);
                        Ok(Response::builder().status(200).body(jwt.into_bytes())?)
                    }
                    "POST" if uri == base(&submit) => {
                        let resp = AuthorizationResponse::from_x_www_form_urlencoded(r.body())?;
                        let (d, o) = (delivered.clone(), o.clone());
                        block_on(verifier.verify_response(seg, resp, move |s, r| {
                            d.lock().unwrap().push(json!({"session": s.uuid.to_string(), "form": match &r {
                                AuthorizationResponse::Unencoded(u) => json!({"vp_token": wallet::vp_json(&u.vp_token), "state": u.state.as_ref().map(|s| s.0.clone())}),
                                AuthorizationResponse::Jwt(j) => json!({"response": j.response}),
                            }}));
                            Box::pin(async move { o })
                        }))?;
                        Ok(Response::builder().status(200).body(b"{}".to_vec())?)
                    }
                    m => Err(anyhow!("{m} {uri} is not served")),
                }
            })
        };
        let http = Http { probe: probe.clone(), handler };
        let trusted = if chance(&mut rng, 0.5) { Some(vec![did.clone(), "did:web:evil.example".into()]) } else { None };
        let w = honest_wallet(md.clone(), http, &probe, keys.clone(), trusted);
        let via = if by_ref { "reference" } else { "value" };
        let case = |what: &str| json!({"client": kind, "via": via, "mode": mode, "change": what, "url": url.as_str()});
        probe.reset();
        let v = guard(|| block_on(w.validate_request(Url::parse(url.as_str()).unwrap())).map_err(|e| format!("{e:#}"))).and_then(|r| {
            let aro = r.map_err(|e| format!("a genuine request was refused: {e}"))?;
            ensure!(aro_json(&aro) == want, "the wallet sees {} instead of {want}", aro_json(&aro));
            if by_ref {
                let s = block_on(verifier.poll_status(id)).map_err(|e| e.to_string())?;
                ensure!(status_json(&s) == json!("SentRequest"), "after the wallet fetched the request its status is {s:?}");
            }
            Ok(aro)
        });
        ctx.events(probe.log().len());
        let aro = v.as_ref().ok().cloned();
        ctx.judge(&format!("{kind} by {via}: accepted"), Some(&format!("{mode}/{}", endpoint.scheme())), || case("none"), v.map(|_| ()));
        // The response comes back unchanged.
        if let Some(aro) = aro {
            let resp = loop {
                let r = wallet::response(&mut rng);
                if matches!(r, AuthorizationResponse::Unencoded(_)) == (mode == "direct_post") || mode.starts_with("dc_api") {
                    break r;
                }
            };
            probe.reset();
            let want_form = match &resp {
                AuthorizationResponse::Unencoded(u) => json!({"vp_token": wallet::vp_json(&u.vp_token), "state": u.state.as_ref().map(|s| s.0.clone())}),
                AuthorizationResponse::Jwt(j) => json!({"response": j.response}),
            };
            let v = guard(|| block_on(w.submit_response(aro, resp.clone())).map_err(|e| format!("{e:#}"))).and_then(|r| {
                let d = delivered.lock().unwrap().clone();
                if mode.starts_with("dc_api") {
                    ensure!(d.is_empty() && probe.count("http") == 0, "a dc_api response was posted");
                    return Ok(());
                }
                r.map_err(|e| format!("submission failed: {e}"))?;
                ensure!(d == vec![json!({"session": id.to_string(), "form": want_form})], "the verifier received {d:?} instead of {want_form} for {id}");
                let body = probe.log().iter().find(|e| e.0 == "http").map(|e| e.1["body"].as_str().unwrap().to_string()).unwrap_or_default();
                form_matches(&body, &resp)?;
                let s = block_on(verifier.poll_status(id)).map_err(|e| e.to_string())?;
                ensure!(status_json(&s) == json!({"Complete": o.1}), "the recorded status is {s:?} instead of {}", o.1);
                Ok(())
            });
            ctx.events(probe.log().len());
            ctx.judge("response delivered", Some(&format!("{kind}/{via}/{mode}")), || case("response"), v);
        }
        // Altered in transit.
        for _ in 0..14 {
            let (what, t) = tamper(&mut rng, &genuine, &other, &evil, &evil_cert);
            let u = if by_ref {
                *served.lock().unwrap() = Some(t.clone());
                url.clone()
            } else {
                let mut u = url.clone();
                u.set_query(Some(&format!("client_id={}&request={}", refs::form_encode(&client.id().0), refs::form_encode(&t))));
                u
            };
            let v = guard(|| block_on(w.validate_request(u.clone())).map(|a| aro_json(&a)).map_err(|e| format!("{e:#}"))).and_then(|r| {
                ensure!(r.is_err(), "an altered request ({what}) was accepted: {t}");
                Ok(())
            });
            ctx.judge(&format!("{kind} by {via}: altered"), Some(&format!("{what}/{mode}/{t}")), || json!({"client": kind, "change": what, "jwt": t, "genuine": genuine}), v);
        }
        *served.lock().unwrap() = None;
        // The same JWT under another name.
        let own = client.id().0.clone();
        let name = match rng.gen_range(0..5) {
            0 => format!("redirect_uri:{submit}"),
            1 => own.split_once(':').unwrap().1.to_string(),
            2 => format!("pre-registered:{own}"),
            3 => format!("{}:{}", pick(&mut rng, ALL_PREFIXES), own.split_once(':').unwrap().1),
            _ => gen::near_miss(&mut rng, &own),
        };
        if name != own {
            let mut u = url.clone();
            let rest: Vec<String> = refs::form_decode(url.query().unwrap()).into_iter().filter(|p| p.0 != "client_id").map(|(k, v)| format!("{k}={}", refs::form_encode(&v))).collect();
            u.set_query(Some(&format!("client_id={}&{}", refs::form_encode(&name), rest.join("&"))));
            let v = guard(|| block_on(w.validate_request(u.clone())).is_ok()).and_then(|ok| {
                ensure!(!ok, "the request of {own} was accepted in the name of {name}");
                Ok(())
            });
            ctx.judge("envelope client_id altered", Some(&format!("{kind}/{via}/{name}")), || json!({"own": own, "name": name}), v);
        }
        if ctx.saturated() {
            return;
        }
    }
}
