//! C03, C04, C05, C06, C09, C10: what the wallet does with requests and responses.
use crate::{
    ctx::{guard, Ctx},
    ensure,
    exec::block_on,
    gen::{self, chance, pick},
    mocks::*,
    refs,
};
use http::Response;
use openid4vp::{
    core::{
        authorization_request::{AuthorizationRequest, AuthorizationRequestObject, RequestIndirection},
        object::UntypedObject,
        response::{
            parameters::{State, VpToken, VpTokenItem},
            AuthorizationResponse, JwtAuthorizationResponse, UnencodedAuthorizationResponse,
        },
    },
    wallet::Wallet,
};
use rand::{rngs::StdRng, Rng};
use serde_json::{json, Map, Value as Json};
use std::sync::Arc;

pub const TYP: &str = "oauth-authz-req+jwt";

pub fn jwt_of(rng: &mut StdRng, header: &Json, payload: &Json) -> String {
    let sig: Vec<u8> = if header["alg"] == "none" { vec![] } else { (0..64).map(|_| rng.gen()).collect() };
    format!(
        "{}.{}.{}",
        refs::b64url(gen::messy_json(rng, header).as_bytes()),
        refs::b64url(gen::messy_json(rng, payload).as_bytes()),
        refs::b64url(&sig)
    )
}

pub fn header(rng: &mut StdRng, typ: Option<Json>) -> Json {
    let mut h = json!({"alg": *pick(rng, &["ES256", "ES256", "EdDSA", "ES256K", "RS256", "PS256", "ES384", "HS256", "none"])});
    if let Some(t) = typ {
        h["typ"] = t;
    }
    if chance(rng, 0.3) {
        h["kid"] = json!(gen::text(rng));
    }
    h
}

/// A valid request object (response_mode given explicitly) without client_id and client_metadata.
pub fn base_payload(rng: &mut StdRng) -> Map<String, Json> {
    let mut m = Map::new();
    m.insert("nonce".into(), json!(gen::text(rng)));
    m.insert("response_type".into(), json!(*pick(rng, &["vp_token", "vp_token id_token", "other"])));
    if chance(rng, 0.7) {
        m.insert("response_mode".into(), json!("direct_post"));
        m.insert("response_uri".into(), json!(gen::http_url(rng).to_string()));
    } else {
        m.insert("response_mode".into(), json!("dc_api"));
    }
    if chance(rng, 0.3) {
        // Encrypted responses, with everything they need.
        let mode = format!("{}.jwt", m["response_mode"].as_str().unwrap());
        m.insert("response_mode".into(), json!(mode));
        let key = json!({"kty": "EC", "crv": "P-256", "use": "enc", "alg": "ECDH-ES", "kid": gen::text(rng),
            "x": refs::b64url(&[1; 32]), "y": refs::b64url(&[2; 32])});
        m.insert("client_metadata".into(), json!({"jwks": {"keys": [key]}, "client_name": gen::text(rng)}));
    }
    if chance(rng, 0.02) {
        m.insert("x-long".into(), json!("l".repeat(rng.gen_range(5_000..400_000))));
    }
    if chance(rng, 0.5) {
        m.insert("state".into(), json!(gen::text(rng)));
    }
    for _ in 0..rng.gen_range(0..3) {
        m.insert(format!("x-{}", gen::text(rng)), gen::json_value(rng, 2));
    }
    m
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    Value,
    Reference,
    Direct,
}

/// An envelope, and an HTTP stub that serves the JWT if it is passed by reference.
pub fn envelope(rng: &mut StdRng, via: Via, outer: Option<String>, jwt: &str, payload: &Map<String, Json>, probe: &Probe) -> (AuthorizationRequest, Http) {
    let ind = match via {
        Via::Value => RequestIndirection::ByValue { request: jwt.into() },
        Via::Reference => RequestIndirection::ByReference { request_uri: gen::http_url(rng) },
        Via::Direct => RequestIndirection::Direct(serde_json::from_value::<UntypedObject>(Json::Object(payload.clone())).unwrap()),
    };
    (AuthorizationRequest { client_id: outer, request_indirection: ind }, Http::answer(probe, 200, jwt.as_bytes().to_vec()))
}

fn some_client_id(rng: &mut StdRng) -> String {
    let tail = gen::text(rng);
    match rng.gen_range(0..14) {
        0..=7 => format!("{}:{tail}", pick(rng, ALL_PREFIXES)),
        8 => tail,
        9 => format!("origin:{tail}"),
        10 => format!(":{tail}"),
        11 => {
            let p = *pick(rng, ALL_PREFIXES);
            format!("{}:{tail}", gen::near_miss(rng, p))
        }
        12 => pick(rng, ALL_PREFIXES).to_string(),
        _ => format!("{}:{tail}", gen::lower(rng, 1, 8)),
    }
}

fn prefix_of(id: &str) -> Option<&str> {
    id.split_once(':').map(|p| p.0)
}

const KNOWN: &[(&str, &str)] = &[
    ("decentralized_identifier", "decentralized_identifier"),
    ("openid_federation", "openid_federation"),
    ("redirect_uri", "redirect_uri"),
    ("verifier_attestation", "verifier_attestation"),
    ("x509_san_dns", "x509_san_dns"),
    ("x509_hash", "x509_hash"),
];

const METHODS: &[&str] = &[
    "decentralized_identifier",
    "openid_federation",
    "preregistered",
    "redirect_uri",
    "verifier_attestation",
    "x509_san_dns",
    "x509_hash",
    "other",
];

fn wallet_with(prefixes: &Json, http: Http, probe: &Probe) -> TestWallet {
    let mut m = json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {"mso_mdoc": {}}});
    if !prefixes.is_null() {
        m["client_id_prefixes_supported"] = prefixes.clone();
    }
    TestWallet::accepting(metadata(m), http, probe)
}

pub fn c03(ctx: &mut Ctx) {
    ctx.rule = "valid requests with arbitrary client_ids, wallets with arbitrary prefix lists and verdicts; distinct by (path, prefix, listed, verdict)".into();
    for c in ["verified", "verification refused", "unsupported prefix", "origin", "unimplemented"] {
        ctx.require(c, 50);
    }
    let mut rng = ctx.fork_rng();
    for _ in 0..ctx.n(60_000, 600_000) {
        let via = *pick(&mut rng, &[Via::Value, Via::Reference, Via::Direct]);
        let id = if chance(&mut rng, 0.93) { Some(some_client_id(&mut rng)) } else { None };
        let mut payload = base_payload(&mut rng);
        if let Some(i) = &id {
            payload.insert("client_id".into(), json!(i));
        }
        let prefix = id.as_deref().and_then(prefix_of).map(str::to_string);
        let mut list = gen::ids_list(&mut rng, &["x509_hash", "x509_san_dns", "redirect_uri", "pre-registered", "origin", "", "x509"], 4);
        if let (Some(p), true) = (&prefix, chance(&mut rng, 0.75)) {
            list.insert(rng.gen_range(0..=list.len()), p.clone());
        } else if let (Some(p), true) = (&prefix, chance(&mut rng, 0.5)) {
            list.push(gen::near_miss(&mut rng, p));
        }
        let prefixes = match rng.gen_range(0..20) {
            0 => Json::Null,
            1 if prefix.is_some() => json!("x509_hash"),
            2 if prefix.is_some() => json!([prefix, 1]),
            _ => json!(list),
        };
        let supported = match &prefixes {
            Json::Null => prefix.as_deref().is_none_or(|p| p == "pre-registered"),
            Json::Array(a) => prefix.as_deref().is_none_or(|p| a.iter().all(Json::is_string) && a.iter().any(|x| x == p)),
            _ => false,
        };
        let h = header(&mut rng, Some(json!(TYP)));
        let jwt = jwt_of(&mut rng, &h, &Json::Object(payload.clone()));
        let outer = match via {
            Via::Direct => id.clone(),
            _ if chance(&mut rng, 0.7) => id.clone(),
            _ => None,
        };
        let mut direct = payload.clone();
        if via == Via::Direct && chance(&mut rng, 0.5) {
            direct.remove("client_id");
        }
        let probe = Probe::new();
        let (ar, _) = envelope(&mut rng, via, outer, &jwt, &direct, &probe);
        // The same request may come again, to a wallet that now decides otherwise.
        for _ in 0..if chance(&mut rng, 0.1) { 3 } else { 1 } {
            let probe = Probe::new();
            let mut wallet = wallet_with(&prefixes, Http::answer(&probe, 200, jwt.as_bytes().to_vec()), &probe);
            // The verdicts: any set of methods accepts.
            let accepting: Vec<&str> = METHODS.iter().copied().filter(|_| rng.gen_bool(0.6)).collect();
            let acc = accepting.clone();
            wallet.policy = Arc::new(move |m| acc.contains(&m));
            let bare = chance(&mut rng, 0.1);
            let ar = ar.clone();
            let got = guard(|| {
                if bare {
                    block_on(ar.validate(&BareWallet(wallet)))
                } else {
                    block_on(ar.validate(&wallet))
                }
            });
            let calls: Vec<Json> = probe.log().into_iter().filter(|e| e.0 == "verify").map(|e| e.1).collect();
            ctx.events(probe.log().len());
            let method = match prefix.as_deref() {
                None => "preregistered",
                Some(p) => KNOWN.iter().find(|k| k.0 == p).map(|k| k.1).unwrap_or("other"),
            };
            let class = if bare {
                "unimplemented"
            } else if prefix.as_deref() == Some("origin") {
                "origin"
            } else if !supported {
                "unsupported prefix"
            } else if accepting.contains(&method) {
                "verified"
            } else {
                "verification refused"
            };
            let show = || json!({"via": format!("{via:?}"), "client_id": id, "prefixes": prefixes, "accepting": accepting, "calls": calls});
            let verdict = got.and_then(|r| {
                if matches!(class, "unimplemented" | "origin" | "unsupported prefix") {
                    ensure!(r.is_err(), "a request of client '{id:?}' passed ({class}; wallet lists {prefixes})");
                    ensure!(calls.is_empty(), "verification method {} was called for client '{id:?}' ({class})", calls[0]["method"]);
                    return Ok(());
                }
                ensure!(calls.len() == 1, "{} verification methods were called for client '{id:?}': {:?}", calls.len(), calls.iter().map(|c| &c["method"]).collect::<Vec<_>>());
                let c = &calls[0];
                ensure!(c["method"] == method, "client '{id:?}' was verified by {}, not {method}", c["method"]);
                if method == "other" {
                    ensure!(c["prefix"].as_str() == prefix.as_deref(), "extension method got prefix {} for client '{id:?}'", c["prefix"]);
                }
                ensure!(c["request"] == Json::Object(payload.clone()), "the method was given another request object");
                ensure!(c["client_id"].as_str() == id.as_deref(), "the method was given client_id {} for '{id:?}'", c["client_id"]);
                let want = if via == Via::Direct { Json::Null } else { json!(jwt) };
                ensure!(c["jwt"] == want, "the method was not given the exact JWT received");
                match (r, class) {
                    (Ok(o), "verified") => {
                        ensure!(aro_json(&o) == Json::Object(payload.clone()), "another request object was returned");
                        Ok(())
                    }
                    (Err(_), "verification refused") => Ok(()),
                    (Ok(_), _) => Err(format!("the request passed although {method} refused it")),
                    (Err(e), _) => Err(format!("the request was refused although {method} accepted it: {e:#}")),
                }
            });
            ctx.judge(class, Some(&format!("{via:?}/{prefix:?}/{supported}/{}", accepting.contains(&method))), show, verdict);
            if ctx.saturated() {
                return;
            }
        }
    }
}

pub fn c04(ctx: &mut Ctx) {
    ctx.rule = "pairs of envelope and request object client_ids: equal, absent, near misses, prefix variants; distinct by pair".into();
    for c in ["agree", "differ", "one absent", "unsigned"] {
        ctx.require(c, 300);
    }
    let mut rng = ctx.fork_rng();
    for _ in 0..ctx.n(60_000, 600_000) {
        let via = *pick(&mut rng, &[Via::Value, Via::Value, Via::Reference, Via::Direct]);
        let mk = |rng: &mut StdRng| {
            let t = gen::text(rng);
            match rng.gen_range(0..6) {
                0 => t.replace(':', ""),
                1 => format!("{}:{}", pick(rng, ALL_PREFIXES), gen::webby(rng) + &gen::webby(rng)),
                _ => format!("{}:{t}", pick(rng, ALL_PREFIXES)),
            }
        };
        let inner = if chance(&mut rng, 0.9) { Some(mk(&mut rng)) } else { None };
        let outer = match (rng.gen_range(0..10), &inner) {
            (0, _) => None,
            (1..=4, Some(i)) => Some(i.clone()),
            (5..=6, Some(i)) => Some(gen::near_miss(&mut rng, i)),
            (7, Some(i)) => {
                let v = [
                    i.split_once(':').map(|p| p.1.to_string()).unwrap_or(format!("x509_hash:{i}")),
                    format!("{i}/"),
                    format!("{i} "),
                    i.to_lowercase(),
                    i.to_uppercase(),
                    gen::url_escape(i),
                    i.replace('+', " "),
                    i.replace(' ', "+"),
                    i.replace("%20", " "),
                    i.replace("https://", "http://"),
                    i.replace('\0', ""),
                    i.trim().to_string(),
                    format!("redirect_uri:{i}"),
                    i.split_once(':').map(|p| format!("{}:", p.0)).unwrap_or_default(),
                ];
                Some(pick(&mut rng, &v).clone())
            }
            _ => Some(mk(&mut rng)),
        };
        let mut payload = base_payload(&mut rng);
        if let Some(i) = &inner {
            payload.insert("client_id".into(), json!(i));
        }
        let h = header(&mut rng, Some(json!(TYP)));
        let jwt = jwt_of(&mut rng, &h, &Json::Object(payload.clone()));
        let probe = Probe::new();
        let (ar, http) = envelope(&mut rng, via, outer.clone(), &jwt, &payload, &probe);
        // Every prefix that occurs is supported, so that only the agreement decides.
        let mut list: Vec<String> = ALL_PREFIXES.iter().map(|s| s.to_string()).collect();
        for id in [&inner, &outer].into_iter().flatten() {
            list.extend(prefix_of(id).map(str::to_string));
        }
        let effective = if via == Via::Direct { outer.as_ref().or(inner.as_ref()) } else { inner.as_ref() };
        if effective.and_then(|i| prefix_of(i)) == Some("origin") {
            continue;
        }
        let wallet = wallet_with(&json!(list), http, &probe);
        let got = guard(|| block_on(ar.validate(&wallet)));
        ctx.events(probe.log().len());
        let agree = via == Via::Direct || inner.is_none() || outer.is_none() || inner == outer;
        let class = if via == Via::Direct {
            "unsigned"
        } else if inner.is_none() || outer.is_none() {
            "one absent"
        } else if agree {
            "agree"
        } else {
            "differ"
        };
        let mut want = payload.clone();
        if let (Via::Direct, Some(o)) = (via, &outer) {
            want.insert("client_id".into(), json!(o));
        }
        let want_id = want.get("client_id").and_then(Json::as_str).map(str::to_string);
        let verdict = got.and_then(|r| match (r, agree) {
            (Ok(_), false) => Err(format!("envelope client_id {outer:?} and request object client_id {inner:?} differ but the request passed")),
            (Err(e), true) => Err(format!("client_ids {outer:?} / {inner:?}: refused: {e:#}")),
            (Ok(o), true) => {
                ensure!(aro_json(&o) == Json::Object(want.clone()), "the returned request object is not the one received");
                ensure!(o.client_id().map(|c| c.0.clone()) == want_id, "client_id() returns {:?}, expected {want_id:?}", o.client_id());
                Ok(())
            }
            (Err(_), false) => Ok(()),
        });
        ctx.judge(class, Some(&format!("{via:?}/{inner:?}/{outer:?}")), || json!({"via": format!("{via:?}"), "envelope": outer, "object": inner}), verdict);
        if ctx.saturated() {
            return;
        }
    }
}

pub fn c05(ctx: &mut Ctx) {
    ctx.rule = "request object JWTs by value and by reference with all kinds of typ headers and envelope client_ids; distinct by (path, typ, exemption)".into();
    for c in ["right typ", "wrong typ", "no typ", "exempt"] {
        ctx.require(c, 300);
    }
    let mut rng = ctx.fork_rng();
    for _ in 0..ctx.n(60_000, 600_000) {
        let via = *pick(&mut rng, &[Via::Value, Via::Reference]);
        let typ: Option<Json> = match rng.gen_range(0..12) {
            0..=2 => Some(json!(TYP)),
            3 => None,
            4..=5 => Some(json!(gen::near_miss(&mut rng, TYP))),
            6 => Some(json!(*pick(&mut rng, &["JWT", "jwt", "application/oauth-authz-req+jwt", "OAUTH-AUTHZ-REQ+JWT", "oauth-authz-req", "oauth-authz-req+jwt ", "dc+sd-jwt", "", "oauth-authz-req+jwt;x", "oauth-authz-req%2Bjwt", "oauth-authz-req jwt"]))),
            7 => Some(json!(gen::text(&mut rng))),
            8 => Some(pick(&mut rng, &[json!(null), json!(1), json!(true), json!([TYP]), json!({"typ": TYP})]).clone()),
            _ => Some(json!(TYP)),
        };
        let t = gen::text(&mut rng);
        let inner = match rng.gen_range(0..8) {
            0 => None,
            1..=3 => Some(format!("redirect_uri:{t}")),
            _ => Some(format!("{}:{t}", pick(&mut rng, ALL_PREFIXES))),
        };
        let outer = match rng.gen_range(0..10) {
            0 => None,
            1 => Some(format!("redirect_uri:{t}")),
            2 => Some(pick(&mut rng, &["redirect_uri", "Redirect_uri:x", " redirect_uri:x", "x:redirect_uri:y", "redirect_uri2:x", "redirect_ur:x", "https://v.example/redirect_uri:", "redirect_uri%3Ax", ""]).to_string()),
            _ => inner.clone(),
        };
        let exempt = outer.as_deref().is_some_and(|o| o.starts_with("redirect_uri:"));
        let mut payload = base_payload(&mut rng);
        if let Some(i) = &inner {
            payload.insert("client_id".into(), json!(i));
        }
        let mut h = header(&mut rng, typ.clone());
        if chance(&mut rng, 0.2) {
            // A header that has the right value elsewhere.
            h["cty"] = json!(TYP);
            if typ.is_none() {
                h["Typ"] = json!(TYP);
            }
        }
        let jwt = jwt_of(&mut rng, &h, &Json::Object(payload.clone()));
        let probe = Probe::new();
        let (ar, http) = envelope(&mut rng, via, outer.clone(), &jwt, &payload, &probe);
        let wallet = wallet_with(&json!(ALL_PREFIXES), http.clone(), &probe);
        let resolved = guard(|| block_on(ar.resolve_request(&http)).map(|r| aro_json(&r.0)));
        let got = guard(|| block_on(ar.validate(&wallet)));
        let called = probe.count("verify");
        ctx.events(probe.log().len());
        let right = typ.as_ref().and_then(Json::as_str) == Some(TYP);
        let agree = inner.is_none() || outer.is_none() || inner == outer;
        let class = if right {
            "right typ"
        } else if exempt {
            "exempt"
        } else if typ.is_none() {
            "no typ"
        } else {
            "wrong typ"
        };
        let verdict = (|| {
            let resolved = resolved?;
            let got = got?;
            if right || (exempt && typ.as_ref().is_none_or(Json::is_string)) {
                let r = resolved.map_err(|e| format!("typ {typ:?}, envelope client {outer:?}: not processed: {e:#}"))?;
                ensure!(r == Json::Object(payload.clone()), "another request object was decoded");
                // Where the two client_ids differ, the refusal may come before the verification.
                ensure!(called == 1 || (called == 0 && !agree), "typ {typ:?}, envelope client {outer:?}: {called} verification calls");
                if agree {
                    got.map_err(|e| format!("typ {typ:?}, envelope client {outer:?}: refused: {e:#}"))?;
                }
            } else if !exempt {
                ensure!(resolved.is_err(), "typ {typ:?}, envelope client {outer:?}: the request object was decoded");
                ensure!(got.is_err(), "typ {typ:?}, envelope client {outer:?}: the request passed");
                ensure!(called == 0, "typ {typ:?}, envelope client {outer:?}: a verification method was called");
            }
            Ok(())
        })();
        ctx.judge(class, Some(&format!("{via:?}/{typ:?}/{exempt}")), || json!({"via": format!("{via:?}"), "typ": typ, "envelope": outer, "object": inner}), verdict);
        if ctx.saturated() {
            return;
        }
    }
}

fn strs(v: Option<&Json>) -> Option<Option<Vec<String>>> {
    match v {
        None => Some(None),
        Some(Json::Array(a)) => a.iter().map(|x| x.as_str().map(str::to_string)).collect::<Option<Vec<_>>>().map(Some),
        Some(_) => None,
    }
}

pub fn c06(ctx: &mut Ctx) {
    ctx.rule = "requests with arbitrary response modes, verifier key sets and encryption lists against arbitrary wallet lists, judged by a reference negotiation; distinct by the whole configuration".into();
    for c in ["encrypted/accepted", "encrypted/refused", "plain/accepted", "mode/refused"] {
        ctx.require(c, 300);
    }
    const ALGS: &[&str] = &["ECDH-ES", "ECDH-ES+A128KW", "RSA-OAEP", "ecdh-es", "ECDH-ES+A256KW"];
    const ENCS: &[&str] = &["A128GCM", "A256GCM", "A128CBC-HS256", "a128gcm", "A192GCM"];
    let mut rng = ctx.fork_rng();
    for _ in 0..ctx.n(120_000, 1_200_000) {
        let mode: Option<Json> = match rng.gen_range(0..14) {
            0 => None,
            1 => Some(json!(*pick(&mut rng, &["fragment", "query", "direct_post.jwt ", "dc_api.JWT", "", "DIRECT_POST", "jwt", "form_post.jwt"]))),
            2 => Some(pick(&mut rng, &[json!(null), json!(1), json!(["direct_post"])]).clone()),
            3 => Some(json!("direct_post")),
            4 => Some(json!("dc_api")),
            5..=9 => Some(json!("direct_post.jwt")),
            _ => Some(json!("dc_api.jwt")),
        };
        let m = mode.as_ref().and_then(Json::as_str);
        let encrypted = matches!(m, Some("direct_post.jwt" | "dc_api.jwt"));
        let plain = matches!(m, Some("direct_post" | "dc_api"));
        let mut payload = Map::new();
        payload.insert("nonce".into(), json!("n"));
        payload.insert("response_type".into(), json!("vp_token"));
        payload.insert("client_id".into(), json!("redirect_uri:x"));
        if let Some(m) = &mode {
            payload.insert("response_mode".into(), m.clone());
        }
        if !m.is_some_and(|m| m.starts_with("dc_api")) {
            payload.insert("response_uri".into(), json!("https://v.example/r"));
        }
        // keys
        let mut keys = vec![];
        let many = match rng.gen_range(0..100) {
            0 => 60,
            1..=15 => 12,
            _ => 4,
        };
        for _ in 0..rng.gen_range(0..many) {
            let mut k = match rng.gen_range(0..6) {
                0 => json!({"kty": "RSA", "n": "AQAB", "e": "AQAB"}),
                1 => json!({"kty": "OKP", "crv": "X25519", "x": "x"}),
                _ => json!({"kty": "EC", "crv": *pick(&mut rng, &["P-256", "P-384", "P-521"]), "x": "x", "y": "y"}),
            };
            match rng.gen_range(0..8) {
                0 => {}
                1 => k["use"] = json!("sig"),
                2 => k["use"] = pick(&mut rng, &[json!("ENC"), json!(null), json!(["enc"]), json!("encr"), json!("")]).clone(),
                _ => k["use"] = json!("enc"),
            }
            match rng.gen_range(0..8) {
                0 => {}
                1 => k["alg"] = pick(&mut rng, &[json!(null), json!(1), json!(["ECDH-ES"])]).clone(),
                _ => k["alg"] = json!(*pick(&mut rng, ALGS)),
            }
            if chance(&mut rng, 0.2) {
                k["key_ops"] = json!(["deriveKey"]);
            }
            keys.push(k);
        }
        let mut cm = Map::new();
        match rng.gen_range(0..20) {
            0 => {}
            1 => {
                cm.insert("jwks".into(), pick(&mut rng, &[json!(null), json!([]), json!({}), json!({"keys": {}}), json!({"keys": ["x"]}), json!("jwks")]).clone());
            }
            _ => {
                cm.insert("jwks".into(), json!({"keys": keys}));
            }
        }
        match rng.gen_range(0..12) {
            0 => {
                cm.insert("encrypted_response_enc_values_supported".into(), pick(&mut rng, &[json!("A128GCM"), json!(null), json!([1]), json!({})]).clone());
            }
            1..=4 => {}
            _ => {
                let l = gen::ids_list(&mut rng, ENCS, many);
                cm.insert("encrypted_response_enc_values_supported".into(), json!(l));
            }
        }
        let cm_present = chance(&mut rng, 0.95);
        if cm_present {
            payload.insert("client_metadata".into(), Json::Object(cm.clone()));
        }
        let mut wm = json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {"mso_mdoc": {}}, "client_id_prefixes_supported": ["redirect_uri"]});
        for (k, pool) in [("authorization_encryption_alg_values_supported", ALGS), ("authorization_encryption_enc_values_supported", ENCS)] {
            match rng.gen_range(0..10) {
                0..=2 => {}
                3 if chance(&mut rng, 0.3) => wm[k] = pick(&mut rng, &[json!("ECDH-ES"), json!([1]), json!({"a": 1})]).clone(),
                _ => {
                    let mut l = gen::ids_list(&mut rng, pool, many - 2);
                    l.push(pick(&mut rng, pool).to_string());
                    wm[k] = json!(l);
                }
            }
        }
        // Unencrypted requests must not be affected, so their metadata stays well-formed only as a JSON object.
        let probe = Probe::new();
        let h = header(&mut rng, Some(json!(TYP)));
        let jwt = jwt_of(&mut rng, &h, &Json::Object(payload.clone()));
        let via = *pick(&mut rng, &[Via::Value, Via::Reference, Via::Direct]);
        let mut direct = payload.clone();
        direct.remove("client_id");
        let (ar, http) = envelope(&mut rng, via, Some("redirect_uri:x".into()), &jwt, &direct, &probe);
        let wallet = TestWallet::accepting(metadata(wm.clone()), http, &probe);
        let got = guard(|| block_on(ar.validate(&wallet)));
        ctx.events(probe.log().len());
        let empty = Map::new();
        let meta = if cm_present { &cm } else { &empty };
        let want = if plain {
            true
        } else if !encrypted {
            false
        } else {
            (|| {
                let keys = meta.get("jwks")?.as_object()?.get("keys")?.as_array()?;
                if keys.iter().any(|k| !k.is_object()) {
                    return None;
                }
                let algs: Vec<&str> = keys.iter().filter(|k| k["use"] == "enc").filter_map(|k| k["alg"].as_str()).collect();
                if algs.is_empty() {
                    return None;
                }
                if let Some(l) = strs(wm.get("authorization_encryption_alg_values_supported"))? {
                    algs.iter().find(|a| l.iter().any(|x| x == **a))?;
                }
                let encs = strs(meta.get("encrypted_response_enc_values_supported"))?.unwrap_or(vec!["A128GCM".into()]);
                if let Some(l) = strs(wm.get("authorization_encryption_enc_values_supported"))? {
                    encs.iter().find(|e| l.contains(e))?;
                }
                Some(())
            })()
            .is_some()
        };
        let class = match (encrypted, plain, want) {
            (true, _, true) => "encrypted/accepted",
            (true, _, false) => "encrypted/refused",
            (_, true, _) => "plain/accepted",
            _ => "mode/refused",
        };
        let verdict = got.and_then(|r| match (r, want) {
            (Ok(_), true) | (Err(_), false) => Ok(()),
            (Ok(_), false) => Err(format!("response mode {mode:?}: passed without usable mutually supported encryption")),
            (Err(e), true) => Err(format!("response mode {mode:?}: refused: {e:#}")),
        });
        ctx.judge(class, Some(&format!("{mode:?}{cm:?}{wm}")), || json!({"mode": mode, "client_metadata": if cm_present { Some(&cm) } else { None }, "wallet": wm}), verdict);
        if ctx.saturated() {
            return;
        }
    }
}

pub fn c09(ctx: &mut Ctx) {
    ctx.rule = "request_uris and HTTP answers of all kinds behind a recording HTTP client; distinct by (path, answer kind, status)".into();
    for c in ["served", "bad status", "transport error", "not utf-8", "not a request object", "no network"] {
        ctx.require(c, 200);
    }
    let mut rng = ctx.fork_rng();
    let mut last_uri: Option<url::Url> = None;
    for _ in 0..ctx.n(50_000, 500_000) {
        let mut payload = base_payload(&mut rng);
        let t = gen::text(&mut rng);
        let id = format!("{}:{t}", pick(&mut rng, ALL_PREFIXES));
        payload.insert("client_id".into(), json!(id));
        let h = header(&mut rng, Some(json!(TYP)));
        let jwt = jwt_of(&mut rng, &h, &Json::Object(payload.clone()));
        let via = *pick(&mut rng, &[Via::Reference, Via::Reference, Via::Reference, Via::Value, Via::Direct]);
        let probe = Probe::new();
        let outer = if chance(&mut rng, 0.5) { Some(id.clone()) } else { None };
        let (mut ar, _) = envelope(&mut rng, via, outer, &jwt, &payload, &probe);
        let mut uri = String::new();
        if let RequestIndirection::ByReference { request_uri } = &mut ar.request_indirection {
            request_uri.set_fragment(None);
            // The same place may serve something else, or nothing, the next time.
            match &last_uri {
                Some(u) if chance(&mut rng, 0.3) => *request_uri = u.clone(),
                _ => last_uri = Some(request_uri.clone()),
            }
            uri = request_uri.to_string();
        }
        let ok_status = *pick(&mut rng, &[200u16, 200, 200, 201, 202, 203, 204, 206, 226, 299]);
        let (class, status, body, fail) = match rng.gen_range(0..12) {
            0 | 1 => {
                let s = *pick(&mut rng, &[100u16, 101, 199, 300, 301, 302, 304, 307, 400, 401, 403, 404, 410, 418, 429, 499, 500, 502, 503, 599, 600, 999]);
                ("bad status", s, jwt.clone().into_bytes(), false)
            }
            2 => ("transport error", ok_status, vec![], true),
            3 => {
                let mut b = jwt.clone().into_bytes();
                let i = rng.gen_range(0..=b.len());
                b.splice(i..i, pick(&mut rng, &[vec![0xff], vec![0xc0, 0x80], vec![0xed, 0xa0, 0x80], vec![0x80]]).clone());
                ("not utf-8", ok_status, b, false)
            }
            4 | 5 => {
                let p = Json::Object(payload.clone());
                let mut h2 = h.clone();
                let mut p2 = payload.clone();
                let b = match rng.gen_range(0..14) {
                    0 => String::new(),
                    1 => p.to_string(),
                    2 => format!("\"{jwt}\""),
                    3 => format!("{jwt}\n"),
                    4 => format!(" {jwt}"),
                    5 => jwt.rsplit_once('.').unwrap().0.to_string(),
                    6 => "<html></html>".into(),
                    7 => {
                        h2["typ"] = json!("JWT");
                        jwt_of(&mut rng, &h2, &p)
                    }
                    8 => {
                        p2.remove("nonce");
                        jwt_of(&mut rng, &h, &Json::Object(p2))
                    }
                    9 => {
                        p2.remove("response_type");
                        jwt_of(&mut rng, &h, &Json::Object(p2))
                    }
                    10 => jwt_of(&mut rng, &h, &json!([p])),
                    11 => format!("request={jwt}"),
                    12 => format!("{jwt}{jwt}"),
                    _ => format!("\u{feff}{jwt}"),
                };
                ("not a request object", ok_status, b.into_bytes(), false)
            }
            _ => ("served", ok_status, jwt.clone().into_bytes(), false),
        };
        // The exempt envelope is C05's; here typ must count.
        if class == "not a request object" && id.starts_with("redirect_uri:") && ar.client_id.is_some() {
            ar.client_id = None;
        }
        let class = if via == Via::Reference { class } else { "no network" };
        let http = Http {
            probe: probe.clone(),
            handler: {
                let body = body.clone();
                let ct = *pick(&mut rng, &["text/html", "application/oauth-authz-req+jwt", "application/json", "application/jwt", ""]);
                Arc::new(move |_| {
                    if fail {
                        anyhow::bail!("connection refused")
                    }
                    // Redirect-like and typed headers must not matter.
                    Ok(Response::builder().status(status).header("location", "https://evil.example/").header("content-type", ct).body(body.clone())?)
                })
            },
        };
        let through_validate = chance(&mut rng, 0.5);
        let wallet = wallet_with(&json!(ALL_PREFIXES), http.clone(), &probe);
        let got = guard(|| {
            if through_validate {
                block_on(ar.validate(&wallet)).map(|o| (o, None))
            } else {
                block_on(ar.resolve_request(&http)).map(|(o, j)| (o, Some(j)))
            }
        });
        let log = probe.log();
        ctx.events(log.len());
        let ex: Vec<Json> = log.iter().filter(|e| e.0 == "http").map(|e| e.1.clone()).collect();
        let verdict = got.and_then(|r| {
            if via == Via::Reference {
                ensure!(ex.len() == 1, "{} HTTP exchanges instead of one", ex.len());
                ensure!(ex[0]["method"] == "GET", "the request was fetched with {}", ex[0]["method"]);
                ensure!(ex[0]["uri"] == json!(uri), "fetched {} instead of {uri}", ex[0]["uri"]);
                ensure!(ex[0]["body_len"] == 0, "the GET has a body");
            } else {
                ensure!(ex.is_empty(), "{via:?} request touched the network: {}", ex[0]);
            }
            let good = matches!(class, "served" | "no network");
            match (r, good) {
                (Ok((o, j)), true) => {
                    ensure!(aro_json(&o) == Json::Object(payload.clone()), "another request object was returned");
                    if let Some(j) = j {
                        let want = if via == Via::Direct { None } else { Some(jwt.clone()) };
                        ensure!(j == want, "another JWT was returned");
                    }
                    Ok(())
                }
                (Err(_), false) => Ok(()),
                (Ok(_), false) => Err(format!("succeeded although the answer was: {class} (status {status})")),
                (Err(e), true) => Err(format!("failed although the request object was served (status {status}): {e:#}")),
            }
        });
        ctx.judge(class, Some(&format!("{via:?}/{status}/{}/{uri}", body.len())), || json!({"via": format!("{via:?}"), "uri": uri, "status": status, "body": String::from_utf8_lossy(&body)}), verdict);
        if ctx.saturated() {
            return;
        }
    }
}

pub fn vp_token(rng: &mut StdRng) -> VpToken {
    let mut t = VpToken::new();
    for _ in 0..*pick(rng, &[0usize, 1, 1, 1, 2, 3, 8]) {
        let n = if chance(rng, 0.01) { 40 } else { *pick(rng, &[0usize, 1, 1, 2, 3, 7]) };
        let mut items: Vec<VpTokenItem> = vec![];
        for _ in 0..n {
            let item = match rng.gen_range(0..20) {
                0..=1 => VpTokenItem::String(presentation(rng)),
                2..=10 => VpTokenItem::String(gen::text(rng)),
                // Two credentials may well give the same presentation text.
                11..=12 if !items.is_empty() => pick(rng, &items).clone(),
                _ => VpTokenItem::JsonObject(gen::json_map(rng, 2)),
            };
            items.push(item);
        }
        t.0.insert(gen::text(rng), items);
    }
    t
}

/// A presentation as wallets send them: SD-JWT with disclosures, mdoc device response, JWT.
fn presentation(rng: &mut StdRng) -> String {
    let max = match rng.gen_range(0..1000) {
        0..=4 => 200_000,
        5..=50 => 6_000,
        _ => 90,
    };
    let jwt = |rng: &mut StdRng| format!("{}.{}.{}", gen::ident(rng, 9, 30), gen::ident(rng, 9, max), gen::ident(rng, 86, 86));
    match rng.gen_range(0..3) {
        0 => jwt(rng),
        1 => gen::ident(rng, 8, max * 2),
        _ => {
            let mut s = jwt(rng) + "~";
            for _ in 0..rng.gen_range(0..5) {
                s += &gen::ident(rng, 10, 60);
                s.push('~');
            }
            if chance(rng, 0.5) {
                s += &jwt(rng);
            }
            s
        }
    }
}

/// The JSON of a vp_token, written without the library's serialisers.
pub fn vp_json(t: &VpToken) -> Json {
    let mut m = Map::new();
    for (k, v) in &t.0 {
        let items: Vec<Json> = v
            .iter()
            .map(|i| match i {
                VpTokenItem::String(s) => json!(s),
                VpTokenItem::JsonObject(o) => Json::Object(o.clone()),
            })
            .collect();
        m.insert(k.clone(), Json::Array(items));
    }
    Json::Object(m)
}

pub fn response(rng: &mut StdRng) -> AuthorizationResponse {
    if chance(rng, 0.5) {
        let state = if chance(rng, 0.6) { Some(State(gen::text(rng))) } else { None };
        let t = vp_token(rng);
        AuthorizationResponse::Unencoded(match state {
            Some(s) => UnencodedAuthorizationResponse::with_state(t, s),
            None => UnencodedAuthorizationResponse::new(t),
        })
    } else {
        let max = if chance(rng, 0.05) { 20_000 } else { 80 };
        let r = if chance(rng, 0.5) { gen::text(rng) } else { format!("{}..{}.{}.{}", gen::ident(rng, 5, 40), gen::ident(rng, 5, 16), gen::ident(rng, 5, max), gen::ident(rng, 5, 22)) };
        AuthorizationResponse::Jwt(JwtAuthorizationResponse { response: r })
    }
}

/// What a form body must decode to; JSON values are compared after parsing.
pub fn form_matches(body: &str, r: &AuthorizationResponse) -> Result<(), String> {
    let pairs = refs::form_decode(body);
    match r {
        AuthorizationResponse::Unencoded(u) => {
            let vp: Vec<&str> = pairs.iter().filter(|p| p.0 == "vp_token").map(|p| p.1.as_str()).collect();
            let st: Vec<&str> = pairs.iter().filter(|p| p.0 == "state").map(|p| p.1.as_str()).collect();
            ensure!(pairs.len() == vp.len() + st.len(), "foreign parameters in the form: {body}");
            ensure!(vp.len() == 1, "{} vp_token parameters", vp.len());
            let j: Json = serde_json::from_str(vp[0]).map_err(|e| format!("vp_token is not JSON: {e}"))?;
            ensure!(j == vp_json(&u.vp_token), "the form carries another vp_token: {} instead of {}", vp[0], vp_json(&u.vp_token));
            let want: Vec<&str> = u.state.iter().map(|s| s.0.as_str()).collect();
            ensure!(st == want, "the form carries state {st:?} instead of {want:?}");
        }
        AuthorizationResponse::Jwt(j) => {
            ensure!(pairs == vec![("response".to_string(), j.response.clone())], "the form carries {pairs:?} instead of the encrypted response");
        }
    }
    Ok(())
}

pub fn c10(ctx: &mut Ctx) {
    ctx.rule = "response modes x response forms x HTTP answers behind a recording HTTP client; distinct by (mode, form, answer kind, status)".into();
    for c in ["redirect", "no redirect", "bad status", "transport error", "not utf-8", "not json", "bad url", "wrong form", "dc_api"] {
        ctx.require(c, 100);
    }
    let mut rng = ctx.fork_rng();
    let mut last: Option<(url::Url, AuthorizationResponse)> = None;
    for _ in 0..ctx.n(100_000, 1_000_000) {
        let mode = *pick(&mut rng, &["direct_post", "direct_post", "direct_post.jwt", "direct_post.jwt", "dc_api", "dc_api.jwt"]);
        let mut uri = gen::http_url(&mut rng);
        uri.set_fragment(None);
        // The wallet may answer the same verifier again, with the same response too.
        let again = chance(&mut rng, 0.2);
        match &last {
            Some((u, _)) if again => uri = u.clone(),
            _ => {}
        }
        let mut o = json!({"response_type": "vp_token", "nonce": "n", "response_mode": mode, "client_id": "x509_hash:x",
            "state": gen::text(&mut rng), "request_uri": "https://other.example/", "client_metadata": {"redirect_uris": ["https://other.example/cb"]}});
        if mode.starts_with("direct") {
            o["response_uri"] = json!(uri.to_string());
        }
        let default_mode = mode == "direct_post" && chance(&mut rng, 0.2);
        if default_mode {
            o.as_object_mut().unwrap().remove("response_mode");
        }
        let Ok(o) = serde_json::from_value::<AuthorizationRequestObject>(o.clone()) else {
            ctx.violate("setup", "a valid request object was refused".into(), o);
            return;
        };
        let r = match last {
            Some((_, r)) if again && chance(&mut rng, 0.5) => r,
            _ => response(&mut rng),
        };
        last = Some((uri.clone(), r.clone()));
        let plain = matches!(r, AuthorizationResponse::Unencoded(_));
        let fits = plain == (mode == "direct_post");
        let good = if chance(&mut rng, 0.6) { 200u16 } else { rng.gen_range(200..300) };
        let target = gen::http_url(&mut rng);
        let custom = format!("{}:{}", gen::lower(&mut rng, 2, 8), gen::ident(&mut rng, 1, 8));
        let (class, status, body, fail) = match rng.gen_range(0..14) {
            0..=3 => {
                let t = if chance(&mut rng, 0.8) { target.to_string() } else { custom };
                let mut b = json!({"redirect_uri": t});
                for _ in 0..rng.gen_range(0..3) {
                    b[format!("x{}", gen::text(&mut rng))] = gen::json_value(&mut rng, 1);
                }
                if chance(&mut rng, 0.02) {
                    b["pad"] = json!("p".repeat(rng.gen_range(5_000..300_000)));
                }
                let b = if chance(&mut rng, 0.3) { serde_json::to_string_pretty(&b).unwrap() } else { gen::messy_json(&mut rng, &b) };
                ("redirect", good, b.into_bytes(), false)
            }
            4 | 5 => {
                let mut m = gen::json_map(&mut rng, 1);
                m.remove("redirect_uri");
                let t = target.to_string();
                let b = match rng.gen_range(0..8) {
                    6 => json!([{"redirect_uri": t}]).to_string(),
                    7 => pick(&mut rng, &[json!(null), json!(t), json!(200), json!(true), json!([]), json!(["redirect_uri", t]), json!({"data": {"redirect_uri": t}}), json!({"redirect_uris": [t]}), json!({"redirectUri": t}), json!({"location": t, "url": t})]).to_string(),
                    0 => String::new(),
                    1 => pick(&mut rng, &[" ", "\n", "\r\n\t "]).to_string(),
                    2 => "{}".into(),
                    3 => json!({"Redirect_uri": "https://x.example", "redirecturi": "https://x.example", "response": {"redirect_uri": "https://nested.example"}}).to_string(),
                    4 => json!({"response_code": "abc", "status": "ok"}).to_string(),
                    _ => Json::Object(m).to_string(),
                };
                ("no redirect", good, b.into_bytes(), false)
            }
            6 | 7 => {
                let s = match rng.gen_range(0..3) {
                    0 => rng.gen_range(100..200),
                    1 => rng.gen_range(300..600),
                    _ => *pick(&mut rng, &[100u16, 199, 300, 302, 303, 307, 308, 400, 401, 403, 404, 409, 500, 503, 599, 600, 999]),
                };
                ("bad status", s, pick(&mut rng, &[json!({"redirect_uri": target.to_string()}).to_string(), String::new(), "{}".into()]).clone().into_bytes(), false)
            }
            8 => ("transport error", good, vec![], true),
            9 => {
                let mut b = json!({"redirect_uri": target.to_string()}).to_string().into_bytes();
                let i = rng.gen_range(0..=b.len());
                b.insert(i, 0xff);
                ("not utf-8", good, b, false)
            }
            10 | 11 => {
                let t = target.to_string();
                let v = ["ok".to_string(), "<html/>".into(), t.clone(), format!("redirect_uri={t}"), format!("{{\"redirect_uri\":\"{t}\""), format!("{{redirect_uri: \"{t}\"}}"), "{}{}".into(), "{,}".into(), "\u{feff}".into(), "\u{0}".into(), "\u{200b}".into(), format!("\u{feff}{{\"redirect_uri\":\"{t}\"}}")];
                ("not json", good, pick(&mut rng, &v).clone().into_bytes(), false)
            }
            _ => {
                let v = ["", "/relative", "not a url", "https://", "http://[::1", "https://exa mple.com/", "://x", "https://x.example:99999/", "?a=b"];
                ("bad url", good, json!({"redirect_uri": *pick(&mut rng, &v)}).to_string().into_bytes(), false)
            }
        };
        let want_redirect = if class == "redirect" {
            serde_json::from_slice::<Json>(&body).unwrap()["redirect_uri"].as_str().and_then(|u| url::Url::parse(u).ok())
        } else {
            None
        };
        let class = if mode.starts_with("dc_api") {
            "dc_api"
        } else if !fits {
            "wrong form"
        } else {
            class
        };
        let probe = Probe::new();
        let http = Http {
            probe: probe.clone(),
            handler: {
                let body = body.clone();
                Arc::new(move |_| {
                    if fail {
                        anyhow::bail!("connection reset")
                    }
                    Ok(Response::builder().status(status).header("location", "https://evil.example/").body(body.clone())?)
                })
            },
        };
        let wallet = TestWallet::accepting(permissive_metadata(), http, &probe);
        let rr = r.clone();
        let got = guard(|| block_on(wallet.submit_response(o, rr)));
        let ex: Vec<Json> = probe.log().iter().filter(|e| e.0 == "http").map(|e| e.1.clone()).collect();
        ctx.events(probe.log().len());
        let verdict = got.and_then(|res| {
            match class {
                "wrong form" => {
                    ensure!(res.is_err(), "a {} response was submitted for {mode}", if plain { "plain" } else { "encrypted" });
                    ensure!(ex.is_empty(), "a refused response was sent: {}", ex[0]);
                    return Ok(());
                }
                "dc_api" => {
                    ensure!(ex.is_empty(), "a dc_api response was posted: {}", ex[0]);
                    ensure!(!matches!(res, Ok(Some(_))), "a dc_api response produced a redirect");
                    return Ok(());
                }
                _ => {}
            }
            ensure!(ex.len() == 1, "{} HTTP exchanges instead of one", ex.len());
            let e = &ex[0];
            ensure!(e["method"] == "POST", "submitted with {}", e["method"]);
            ensure!(e["uri"] == json!(uri.to_string()), "posted to {} instead of {uri}", e["uri"]);
            let ct: Vec<&str> = e["headers"].as_array().unwrap().iter().filter(|h| h[0] == "content-type").filter_map(|h| h[1].as_str()).collect();
            ensure!(ct.len() == 1 && ct[0].split(';').next().unwrap().trim() == "application/x-www-form-urlencoded", "content type {ct:?}");
            form_matches(e["body"].as_str().unwrap(), &r)?;
            match (class, res) {
                ("redirect", Ok(u)) => {
                    ensure!(u == want_redirect, "redirect {u:?} instead of {want_redirect:?}");
                    Ok(())
                }
                ("no redirect", Ok(u)) => {
                    ensure!(u.is_none(), "redirect {u:?} out of nothing");
                    Ok(())
                }
                ("redirect" | "no redirect", Err(e)) => Err(format!("accepted answer (status {status}) reported as error: {e:#}")),
                (c, Ok(_)) => Err(format!("success although the answer was: {c} (status {status})")),
                (_, Err(_)) => Ok(()),
            }
        });
        ctx.judge(class, Some(&format!("{mode}/{plain}/{status}/{}", String::from_utf8_lossy(&body))), || json!({"mode": mode, "response": serde_json::to_value(&r).unwrap(), "status": status, "answer": String::from_utf8_lossy(&body)}), verdict);
        if ctx.saturated() {
            return;
        }
    }
}
