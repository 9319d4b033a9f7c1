//! C02: the decentralized_identifier request check.
use crate::{
    certs::Key,
    ctx::{guard, Ctx},
    ensure,
    exec::block_on,
    gen::{self, chance, pick},
    mocks::{metadata, Probe, TestResolver},
    refs,
};
use openid4vp::core::authorization_request::verification::did::verify_with_resolver;
use rand::{rngs::StdRng, Rng};
use serde_json::{json, Map, Value as Json};
use std::collections::HashMap;

pub struct Vm {
    pub did: String,
    pub kid: String,
    pub key: Key,
}

/// Documents with several keys each, DIDs that are prefixes of one another, fragments shared between DIDs.
pub fn world(rng: &mut StdRng) -> Vec<Vm> {
    let base = format!("did:web:{}.example", gen::lower(rng, 3, 8));
    let dids = [
        base.clone(),
        format!("{base}.evil"),
        format!("{base}:path"),
        format!("did:key:z6Mk{}", gen::ident(rng, 8, 20)),
        format!("did:jwk:{}", gen::ident(rng, 20, 40)),
        base.to_uppercase(),
        format!("{base}%3A8443"),
        format!("did:ion:{}:{}", gen::ident(rng, 46, 46), gen::ident(rng, 300, 600)),
        "did:example:123".to_string(),
        format!("did:peer:2.{}", gen::ident(rng, 4000, 9000)),
    ];
    let frag = gen::ident(rng, 1, 6);
    let mut out = vec![];
    for (i, d) in dids.iter().enumerate() {
        for j in 0..3 {
            let key = match (i + j) % 4 {
                0 | 1 => Key::p256(rng),
                2 => Key::ed(rng),
                _ => Key::k256(rng),
            };
            let f = if j == 0 { frag.clone() } else { format!("{}{j}", gen::ident(rng, 1, 8)) };
            out.push(Vm { did: d.clone(), kid: format!("{d}#{f}"), key });
        }
    }
    out
}

#[derive(Clone)]
pub struct Case {
    pub what: String,
    pub algs: Json,
    pub client_id: Option<String>,
    pub trusted: Option<Vec<String>>,
    pub known: Vec<bool>,
    pub jwt: String,
}

pub fn case(rng: &mut StdRng, world: &[Vm]) -> Case {
    let mut what = vec![];
    let vm = pick(rng, world);
    let other = pick(rng, world);
    let kid: Option<Json> = match rng.gen_range(0..20) {
        0 => {
            what.push("kid without fragment");
            Some(json!(vm.did))
        }
        1 => {
            what.push("kid near miss");
            Some(json!(gen::near_miss(rng, &vm.kid)))
        }
        2 => {
            what.push("kid of another did");
            Some(json!(other.kid))
        }
        3 => {
            what.push("kid ill-typed");
            Some(pick(rng, &[json!(null), json!(1), json!([vm.kid]), json!({"kid": vm.kid})]).clone())
        }
        4 => {
            what.push("no kid");
            None
        }
        5 => {
            what.push("kid only fragment");
            Some(json!(vm.kid[vm.did.len()..]))
        }
        _ => Some(json!(vm.kid)),
    };
    let id = match rng.gen_range(0..14) {
        0 => {
            what.push("client_id near miss");
            gen::near_miss(rng, &vm.did)
        }
        1 => {
            what.push("client_id of another did");
            other.did.clone()
        }
        2 => {
            what.push("client_id is the kid");
            vm.kid.clone()
        }
        3 => {
            what.push("client_id prefix of the did");
            vm.did[..rng.gen_range(0..vm.did.len())].to_string()
        }
        4 => {
            what.push("client_id extends the did");
            format!("{}{}", vm.did, pick(rng, &[".evil", ":x", "/", "?a", " ", "#", "a"]))
        }
        5 => {
            what.push("client_id case");
            vm.did.to_uppercase()
        }
        _ => vm.did.clone(),
    };
    let client_id = match rng.gen_range(0..16) {
        0..=9 => Some(format!("decentralized_identifier:{id}")),
        10..=12 => {
            what.push("bare");
            Some(id)
        }
        13 => {
            what.push("other prefix");
            Some(format!("{}:{id}", pick(rng, &["did", "x509_hash", "decentralized_identifier:decentralized_identifier", "DECENTRALIZED_IDENTIFIER"])))
        }
        14 => {
            what.push("missing colon");
            Some(format!("decentralized_identifier{id}"))
        }
        _ => {
            what.push("no client_id");
            None
        }
    };
    let trusted = match rng.gen_range(0..8) {
        0 => {
            what.push("trusting nobody");
            Some(vec![])
        }
        1 => {
            what.push("trusting others");
            Some(world.iter().map(|v| v.did.clone()).filter(|d| *d != vm.did).collect())
        }
        2 => {
            what.push("trusting near misses");
            Some((0..4).map(|_| gen::near_miss(rng, &vm.did)).chain([vm.kid.clone(), String::new(), "*".into()]).collect())
        }
        3..=4 => {
            what.push("trusted");
            let n = if chance(rng, 0.1) { rng.gen_range(64..400) } else { rng.gen_range(0..4) };
            let mut v: Vec<String> = (0..n).map(|_| gen::text(rng)).collect();
            v.insert(rng.gen_range(0..=v.len()), vm.did.clone());
            Some(v)
        }
        _ => None,
    };
    let known: Vec<bool> = world.iter().map(|v| if v.kid == vm.kid { !chance(rng, 0.06) } else { chance(rng, 0.8) }).collect();
    let alg: Option<Json> = match rng.gen_range(0..16) {
        0 => {
            what.push("other alg");
            Some(json!(*pick(rng, &["ES256", "EdDSA", "ES256K", "HS256", "RS256", "PS256", "ES384"])))
        }
        1 => {
            what.push("alg none");
            Some(json!("none"))
        }
        2 => {
            what.push("alg odd");
            Some(pick(rng, &[json!("es256"), json!(""), json!("None"), json!(null), json!(3), json!(["ES256"]), json!("ES256 ")]).clone())
        }
        3 if chance(rng, 0.5) => {
            what.push("no alg");
            None
        }
        _ => Some(json!(vm.key.alg())),
    };
    let mut list = gen::ids_list(rng, &["ES256", "EdDSA", "ES256K", "HS256", "RS256", "es256", "PS256"], 5);
    if chance(rng, 0.03) {
        list.extend((0..rng.gen_range(30..300)).map(|_| gen::ident(rng, 1, 12)));
    }
    match &alg {
        Some(Json::String(a)) if chance(rng, if a == "none" { 0.2 } else { 0.8 }) => {
            list.insert(rng.gen_range(0..=list.len()), a.clone());
        }
        _ => what.push("maybe unlisted"),
    }
    let algs = match rng.gen_range(0..40) {
        0 => Json::Null,
        1 => json!("ES256"),
        2 => json!([vm.key.alg(), null]),
        _ => json!(list),
    };
    let mut header = Map::new();
    if let Some(a) = alg {
        header.insert("alg".into(), a);
    }
    if let Some(k) = kid {
        header.insert("kid".into(), k);
    }
    if chance(rng, 0.8) {
        header.insert("typ".into(), json!("oauth-authz-req+jwt"));
    }
    if chance(rng, 0.02) {
        header.insert("x-long".into(), json!(gen::ident(rng, 9000, 70000)));
    }
    if chance(rng, 0.3) {
        header.insert("x-note".into(), json!(gen::text(rng)));
    }
    if chance(rng, 0.15) {
        header.insert("jwk".into(), other.key.jwk());
    }
    let mut payload = gen::json_map(rng, 1);
    if let Some(c) = &client_id {
        payload.insert("client_id".into(), json!(c));
    }
    payload.insert("iss".into(), json!(other.did));
    if chance(rng, 0.02) {
        payload.insert("x-long".into(), json!(gen::ident(rng, 9000, 300000)));
    }
    let h = refs::b64url(gen::messy_json(rng, &json!(header)).as_bytes());
    let b = refs::b64url(gen::messy_json(rng, &json!(payload)).as_bytes());
    let signing = format!("{h}.{b}");
    let signer = match rng.gen_range(0..10) {
        0 => {
            what.push("signed with another key");
            &other.key
        }
        1 => {
            what.push("signed with another key of the same did");
            &world.iter().filter(|v| v.did == vm.did).last().unwrap().key
        }
        _ => &vm.key,
    };
    let mut sig = signer.sign(signing.as_bytes());
    match rng.gen_range(0..20) {
        0 => {
            what.push("signature bit");
            let i = rng.gen_range(0..sig.len());
            sig[i] ^= 1 << rng.gen_range(0..8);
        }
        1 => {
            what.push("signature empty");
            sig.clear();
        }
        2 => {
            what.push("signature over other bytes");
            sig = signer.sign(b.as_bytes());
        }
        3 => {
            what.push("signature extended");
            let n = if chance(rng, 0.5) { 1 } else { rng.gen_range(2..2000) };
            sig.extend((0..n).map(|_| rng.gen::<u8>() & 3));
        }
        _ => {}
    }
    let mut jwt = format!("{signing}.{}", refs::b64url(&sig));
    match rng.gen_range(0..24) {
        0 => {
            what.push("payload replaced");
            payload.insert("state".into(), json!(gen::text(rng) + "x"));
            jwt = format!("{h}.{}.{}", refs::b64url(serde_json::to_string(&payload).unwrap().as_bytes()), refs::b64url(&sig));
        }
        1 => {
            what.push("header replaced");
            header.insert("extra".into(), json!(1));
            jwt = format!("{}.{b}.{}", refs::b64url(serde_json::to_string(&header).unwrap().as_bytes()), refs::b64url(&sig));
        }
        2 => {
            what.push("jwt near miss");
            jwt = gen::near_miss(rng, &jwt);
        }
        3 => {
            what.push("jwt structure");
            let v = [signing.clone(), format!("{jwt}.x"), format!("{jwt}="), String::new(), "..".into(), format!("{h}..{}", refs::b64url(&sig))];
            jwt = pick(rng, &v).clone();
        }
        _ => {}
    }
    Case { what: what.join(", "), algs, client_id, trusted, known, jwt }
}

fn first_header(jwt: &str) -> Option<Map<String, Json>> {
    serde_json::from_slice(&refs::unb64url(jwt.split('.').next()?)?).ok()
}

enum Expect {
    Accept,
    Reject(&'static str),
    Unjudged,
}

fn expect(c: &Case, world: &[Vm]) -> Expect {
    use Expect::*;
    let Some((h, b, s)) = refs::jws_parts(&c.jwt) else {
        let none = first_header(&c.jwt).and_then(|h| h.get("alg").cloned()).is_some_and(|a| a == "none");
        return if none { Unjudged } else { Reject("not three parts") };
    };
    let Some(header) = refs::jws_header(&c.jwt) else { return Reject("header") };
    let Some(alg) = header.get("alg").and_then(Json::as_str) else { return Reject("alg") };
    let Some(list) = c.algs.as_array() else { return Reject("wallet algorithms") };
    if list.iter().any(|a| !a.is_string()) {
        return Reject("wallet algorithms ill-typed");
    }
    if !list.iter().any(|a| a == alg) {
        return Reject("alg not listed");
    }
    if alg.contains("none") {
        return Unjudged; // unsigned and the wallet asked for it
    }
    let Some(kid) = header.get("kid").and_then(Json::as_str) else { return Reject("kid") };
    let Some(id) = &c.client_id else { return Reject("no client_id") };
    let id = id.strip_prefix("decentralized_identifier:").unwrap_or(id);
    let parts: Vec<&str> = kid.split('#').collect();
    let did = match parts[..] {
        [d, _] => d,
        [_] => return Reject("kid without fragment"),
        _ => return Unjudged, // not a DID URL
    };
    if did != id {
        return Reject("kid and client_id differ");
    }
    if let Some(t) = &c.trusted {
        if !t.iter().any(|d| d == did) {
            return Reject("not trusted");
        }
    }
    let Some((vm, _)) = world.iter().zip(&c.known).find(|(v, k)| v.kid == kid && **k) else {
        return Reject("the resolver does not know the kid");
    };
    let Some(sig) = refs::unb64url(s) else { return Reject("signature encoding") };
    if refs::jws_payload(&c.jwt).is_none() {
        return Reject("payload");
    }
    if !vm.key.verify(format!("{h}.{b}").as_bytes(), &sig) {
        return Reject("signature");
    }
    if alg != vm.key.alg() {
        // ssi takes an Ed25519 key's algorithm from the key alone.
        return if matches!(vm.key, Key::Ed(_)) { Unjudged } else { Reject("algorithm does not fit the key") };
    }
    Accept
}

pub fn c02(ctx: &mut Ctx) {
    ctx.rule = "request JWTs over worlds of DIDs with several keys, judged by an independent reading of their final bytes and the recorded resolver calls; distinct by combination of variations".into();
    ctx.assumptions = vec![
        "signature verification of ssi, p256, k256 and ed25519-dalek is trusted".into(),
        "an OKP key with another algorithm name is not judged: ssi derives the algorithm from the key".into(),
    ];
    ctx.require("accepted", 300);
    ctx.require("rejected", 2000);
    let mut rng = ctx.fork_rng();
    for _ in 0..ctx.n(60, 400) {
        let mut w = world(&mut rng);
        for _ in 0..ctx.n(1200, 5000) {
            let c = case(&mut rng, &w);
            let accepted = run(ctx, &mut rng, &w, &c);
            if accepted && chance(&mut rng, 0.2) {
                for c in again(&mut rng, &c) {
                    run(ctx, &mut rng, &w, &c);
                }
            }
            // The key behind the kid changes: what the old one signed no longer counts, what the new one signs does.
            if accepted && chance(&mut rng, 0.03) {
                let kid = first_header(&c.jwt).and_then(|h| h["kid"].as_str().map(str::to_string)).unwrap();
                let vm = w.iter_mut().find(|v| v.kid == kid).unwrap();
                vm.key = match vm.key {
                    Key::Ed(_) => Key::ed(&mut rng),
                    Key::K256(_) => Key::k256(&mut rng),
                    _ => Key::p256(&mut rng),
                };
                let (signing, _) = c.jwt.rsplit_once('.').unwrap();
                let sig = refs::b64url(&vm.key.sign(signing.as_bytes()));
                let new = Case { what: "signed with the new key".into(), jwt: format!("{signing}.{sig}"), ..c.clone() };
                let old = Case { what: "key changed".into(), ..c.clone() };
                for c in [&old, &new, &old] {
                    run(ctx, &mut rng, &w, c);
                }
            }
            if ctx.saturated() {
                return;
            }
        }
    }
}

/// The request again, and others that borrow parts of it.
fn again(rng: &mut StdRng, c: &Case) -> Vec<Case> {
    let parts: Vec<&str> = c.jwt.split('.').collect();
    let (h, b, s) = (parts[0], parts[1], parts[2]);
    let flip = |rng: &mut StdRng, x: &str| {
        let mut v: Map<String, Json> = serde_json::from_slice(&refs::unb64url(x).unwrap()).unwrap();
        v.insert("added".into(), json!(gen::text(rng)));
        refs::b64url(serde_json::to_string(&v).unwrap().as_bytes())
    };
    let (h2, b2) = (flip(rng, h), flip(rng, b));
    let mut sig = refs::unb64url(s).unwrap();
    let i = rng.gen_range(0..sig.len());
    sig[i] ^= 1 << rng.gen_range(0..8);
    [
        ("again", c.jwt.clone()),
        ("again, other payload", format!("{h}.{b2}.{s}")),
        ("again, other header", format!("{h2}.{b}.{s}")),
        ("again, other signature", format!("{h}.{b}.{}", refs::b64url(&sig))),
        ("again, no signature", format!("{h}.{b}.")),
        ("and again", c.jwt.clone()),
    ]
    .into_iter()
    .map(|(what, jwt)| Case { what: what.into(), jwt, ..c.clone() })
    .chain([
        Case { what: "again, no longer trusted".into(), trusted: Some(vec!["did:example:other".into()]), ..c.clone() },
        Case { what: "again, algorithm no longer listed".into(), algs: json!(["XS999"]), ..c.clone() },
        Case { what: "again, no longer resolved".into(), known: vec![false; c.known.len()], ..c.clone() },
        Case { what: "again, other client".into(), client_id: Some("decentralized_identifier:did:example:other".into()), ..c.clone() },
    ])
    .collect()
}

/// Returns whether the request is genuine.
fn run(ctx: &mut Ctx, rng: &mut StdRng, w: &[Vm], c: &Case) -> bool {
    let mut m = json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {"mso_mdoc": {}}});
    if !c.algs.is_null() {
        m["request_object_signing_alg_values_supported"] = c.algs.clone();
    }
    let m = metadata(m);
    let o = super::x509::object(rng, c.client_id.as_deref());
    let probe = Probe::new();
    let keys: HashMap<_, _> = w
        .iter()
        .zip(&c.known)
        .filter(|(_, k)| **k)
        .map(|(v, _)| (v.kid.clone(), serde_json::from_value(v.key.jwk()).unwrap()))
        .collect();
    let resolver = TestResolver { keys, probe: probe.clone() };
    let got = guard(|| block_on(verify_with_resolver(&m, &o, c.jwt.clone(), c.trusted.as_deref(), resolver)));
    let log = probe.log();
    ctx.events(log.len());
    let e = expect(c, w);
    let class = match &e {
        Expect::Accept => "accepted",
        Expect::Reject(_) => "rejected",
        Expect::Unjudged => "unjudged",
    };
    let verdict = got.and_then(|r| {
        let kid = first_header(&c.jwt).and_then(|h| h.get("kid").cloned());
        for (n, v) in &log {
            ensure!(*n == "resolver" && Some(v) == kid.as_ref(), "the resolver was asked for {v}, the kid is {kid:?}");
        }
        match (&e, r) {
            (Expect::Accept, Err(e)) => Err(format!("genuine request rejected: {e:#} ({})", c.what)),
            (Expect::Reject(w), Ok(())) => Err(format!("accepted although: {w} ({})", c.what)),
            (Expect::Accept, Ok(())) if log.is_empty() => Err("accepted without asking the resolver".into()),
            _ => Ok(()),
        }
    });
    ctx.judge(
        class,
        Some(&c.what),
        || json!({"what": c.what, "client_id": c.client_id, "algs": c.algs, "trusted": c.trusted, "jwt": c.jwt, "resolver_calls": log.len()}),
        verdict,
    );
    matches!(e, Expect::Accept)
}
