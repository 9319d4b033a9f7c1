//! C12, C26: what the verifier builds, stores and records.
use super::{
    dcql,
    objects::{outcome, status_json},
    wallet::{header, jwt_of, response, vp_json, TYP},
};
use crate::{
    ctx::{guard, Ctx},
    ensure,
    exec::{block_on, yield_now},
    gen::{self, chance, pick},
    mocks::*,
    refs,
};
use openid4vp::{
    core::{
        authorization_request::parameters::ClientId,
        dcql_query::DcqlQuery,
        metadata::WalletMetadata,
        object::TypedParameter,
        response::AuthorizationResponse,
    },
    verifier::{request_builder::RequestBuilder, session::SessionStore, Verifier, VerifierBuilder},
};
use rand::{rngs::StdRng, Rng};
use serde_json::{json, Map, Value as Json};
use std::{
    collections::{BTreeMap, HashSet},
    sync::{Arc, Mutex},
};
use url::Url;
use uuid::Uuid;

/// Raw parameters: an application may define its own, and give the standard ones any JSON value.
macro_rules! raw {
    ($($name:ident = $key:literal),*) => {
        $(
            #[derive(Clone, Debug)]
            struct $name(Json);
            impl TryFrom<Json> for $name {
                type Error = anyhow::Error;
                fn try_from(v: Json) -> anyhow::Result<Self> {
                    Ok(Self(v))
                }
            }
            impl TryFrom<$name> for Json {
                type Error = anyhow::Error;
                fn try_from(v: $name) -> anyhow::Result<Json> {
                    Ok(v.0)
                }
            }
            impl TypedParameter for $name {
                const KEY: &'static str = $key;
            }
        )*
        pub const KEYS: &[&str] = &[$($key),*];
        pub fn default_param(b: VerifierBuilder, k: &str, v: Json) -> VerifierBuilder {
            match k {
                $($key => b.with_default_request_parameter($name(v)),)*
                _ => unreachable!("{k}"),
            }
        }
        pub fn request_param<'a>(b: RequestBuilder<'a>, k: &str, v: Json) -> RequestBuilder<'a> {
            match k {
                $($key => b.with_request_parameter($name(v)),)*
                _ => unreachable!("{k}"),
            }
        }
    };
}
raw!(
    PClientId = "client_id", PNonce = "nonce", PType = "response_type", PMode = "response_mode", PState = "state",
    PResponseUri = "response_uri", PRedirectUri = "redirect_uri", PDcql = "dcql_query", PMeta = "client_metadata",
    PScope = "scope", PAud = "aud", PTd = "transaction_data", PScheme = "client_id_scheme", PX = "x-app", PY = "",
    PReq = "request", PReqUri = "request_uri", POrig = "expected_origins"
);

pub fn uuid(rng: &mut StdRng) -> Uuid {
    Uuid::from_bytes(rng.gen())
}

/// Also ids that look special; they may repeat.
pub fn odd_uuid(rng: &mut StdRng) -> Uuid {
    match rng.gen_range(0..60) {
        0 => Uuid::nil(),
        1 => Uuid::from_bytes([0xff; 16]),
        2 => Uuid::from_u128(rng.gen_range(0..300)),
        _ => Uuid::from_bytes(rng.gen()),
    }
}

/// The URL with `id` appended as one more path segment, computed on text; None if it cannot have a path.
pub fn extended(base: &Url, id: Uuid) -> Option<String> {
    if base.cannot_be_a_base() {
        return None;
    }
    let s = base.as_str();
    let (s, frag) = match s.find('#') {
        Some(i) => (&s[..i], &s[i..]),
        None => (s, ""),
    };
    let (s, query) = match s.find('?') {
        Some(i) => (&s[..i], &s[i..]),
        None => (s, ""),
    };
    let slash = if base.path() == "/" { "" } else { "/" };
    Some(format!("{s}{slash}{id}{query}{frag}"))
}

pub struct World {
    pub probe: Probe,
    pub store: TestStore,
    pub client_id: String,
    pub verifier: Verifier,
    pub defaults: Map<String, Json>,
    pub by_reference: Option<Url>,
    pub submission: Url,
    pub prefix: String,
}

pub fn sound_params(rng: &mut StdRng) -> Map<String, Json> {
    let mut m = Map::new();
    m.insert("nonce".into(), json!(gen::text(rng)));
    m.insert("response_type".into(), json!("vp_token"));
    m.insert("response_mode".into(), json!(*pick(rng, &["direct_post", "direct_post.jwt", "direct_post", "dc_api", "dc_api.jwt"])));
    m
}

fn odd_param(rng: &mut StdRng) -> (String, Json) {
    let k = *pick(rng, KEYS);
    let bad = |rng: &mut StdRng| pick(rng, &[json!(null), json!(1), json!([]), json!({}), json!(true)]).clone();
    let v = match k {
        "response_mode" if chance(rng, 0.5) => json!(*pick(rng, &["direct_post", "dc_api", "fragment", "", "Direct_Post", "direct_post.jwt", "query.jwt"])),
        "response_uri" | "redirect_uri" if chance(rng, 0.7) => json!(gen::http_url(rng).to_string()),
        "client_id" => json!(gen::text(rng)),
        "dcql_query" if chance(rng, 0.5) => dcql::small_query(rng),
        "client_metadata" => json!({"vp_formats_supported": {"mso_mdoc": {}}, "x": gen::text(rng)}),
        _ if chance(rng, 0.2) => bad(rng),
        "nonce" | "response_type" | "state" | "scope" | "aud" | "client_id_scheme" => json!(gen::text(rng)),
        _ => gen::json_value(rng, 2),
    };
    (k.into(), v)
}

pub fn world(rng: &mut StdRng, odd: bool, yields: bool) -> World {
    let probe = if yields { Probe::new().with_yields() } else { Probe::new() };
    let store = TestStore { inner: Default::default(), probe: probe.clone() };
    let prefix = pick(rng, ALL_PREFIXES).to_string();
    let client_id = format!("{prefix}:{}", gen::text(rng));
    let mut defaults = if chance(rng, 0.8) { sound_params(rng) } else { Map::new() };
    if odd {
        for _ in 0..rng.gen_range(0..3) {
            let (k, v) = odd_param(rng);
            defaults.insert(k, v);
        }
    }
    let opaque = odd && chance(rng, 0.04);
    let submission = if opaque { Url::parse("data:x").unwrap() } else { gen::http_url(rng) };
    let by_reference = if chance(rng, 0.5) {
        Some(if odd && chance(rng, 0.04) { Url::parse("urn:x").unwrap() } else { gen::http_url(rng) })
    } else {
        None
    };
    let jwts = Mutex::new((0u64, rng.gen::<u64>()));
    let h = header(rng, Some(json!(TYP)));
    let nasty = chance(rng, 0.2);
    let client = TestClient {
        id: ClientId(client_id.clone()),
        prefix: prefix.clone(),
        probe: probe.clone(),
        jwt: Box::new(move |body| {
            let mut g = jwts.lock().unwrap();
            g.0 += 1;
            let mut r: StdRng = rand::SeedableRng::seed_from_u64(g.1 ^ g.0);
            if nasty {
                gen::text(&mut r) + &format!("/{}", g.0)
            } else {
                jwt_of(&mut r, &h, &aro_json(body))
            }
        }),
    };
    let mut b = Verifier::builder()
        .with_client(Arc::new(client))
        .with_session_store(Arc::new(store.clone()))
        .with_submission_endpoint(submission.clone());
    if chance(rng, 0.1) {
        // Set again below: what was set last stands.
        for k in defaults.keys() {
            let v = if chance(rng, 0.5) { json!(gen::text(rng)) } else { json!(null) };
            b = default_param(b, k, v);
        }
        b = b.with_submission_endpoint(gen::http_url(rng)).with_submission_endpoint(submission.clone());
    }
    for (k, v) in &defaults {
        b = default_param(b, k, v.clone());
    }
    b = match &by_reference {
        Some(at) if chance(rng, 0.1) => b.by_reference(gen::http_url(rng)).by_reference(at.clone()),
        Some(at) => b.by_reference(at.clone()),
        None if chance(rng, 0.3) => b.by_reference(gen::http_url(rng)).by_value(),
        None => b,
    };
    let verifier = block_on(b.build()).expect("verifier");
    World { probe, store, client_id, verifier, defaults, by_reference, submission, prefix }
}

/// What building with these parameters must give: the request object, or the reason it must be refused.
pub fn expected_request(w: &World, params: &Map<String, Json>, query: Option<&Json>, id: Uuid) -> Result<Map<String, Json>, &'static str> {
    let mut m = w.defaults.clone();
    for (k, v) in params {
        m.insert(k.clone(), v.clone());
    }
    m.insert("client_id".into(), json!(w.client_id));
    let Some(q) = query else { return Err("no query") };
    m.insert("dcql_query".into(), q.clone());
    if !m.get("response_type").is_some_and(Json::is_string) {
        return Err("response type");
    }
    match m.get("response_mode").and_then(Json::as_str) {
        Some("direct_post" | "direct_post.jwt") => {
            let Some(u) = extended(&w.submission, id) else { return Err("submission endpoint") };
            m.insert("response_uri".into(), json!(u));
            if m.contains_key("redirect_uri") {
                return Err("destination");
            }
        }
        Some("dc_api" | "dc_api.jwt") => {
            if m.contains_key("redirect_uri") || m.contains_key("response_uri") {
                return Err("destination");
            }
        }
        _ => return Err("response mode"),
    }
    if !m.get("nonce").is_some_and(Json::is_string) {
        return Err("nonce");
    }
    Ok(m)
}

pub fn as_map(v: &Json) -> &Map<String, Json> {
    v.as_object().expect("object")
}

pub fn c12(ctx: &mut Ctx) {
    ctx.rule = "verifiers with arbitrary defaults, per-request parameters, endpoints and wallets, by value, by reference and for the DC API; distinct by (path, indirection, mode, overridden keys, refusal reason)".into();
    ctx.assumptions.push("the endpoint's own query string, which the URL encoding replaces, is not judged".into());
    for c in ["by value", "by reference", "dc api", "refused: no query", "refused: response type", "refused: response mode", "refused: prefix", "refused: destination", "refused: nonce", "refused: submission endpoint", "verifier incomplete"] {
        ctx.require(c, if ctx.thorough { 200 } else { 20 });
    }
    let mut rng = ctx.fork_rng();
    let mut seen: HashSet<Uuid> = HashSet::new();
    for round in 0..ctx.n(20_000, 200_000) {
        let odd = chance(&mut rng, 0.7);
        let w = world(&mut rng, odd, round % 5 == 0);
        // Several requests from one verifier: what one sets must not leak into the next.
        let mut last = None;
        let requests = if chance(&mut rng, 0.01) { 40 } else { rng.gen_range(1..4) };
        for _ in 0..requests {
            w.probe.reset();
            let mut params = Map::new();
            if chance(&mut rng, 0.5) {
                params = sound_params(&mut rng);
            }
            for _ in 0..rng.gen_range(0..4) {
                let (k, v) = odd_param(&mut rng);
                params.insert(k, v);
            }
            if !w.defaults.contains_key("nonce") && chance(&mut rng, 0.9) {
                let mut s = sound_params(&mut rng);
                for (k, v) in params {
                    s.insert(k, v);
                }
                params = s;
            }
            if chance(&mut rng, 0.6) {
                // Keep to legitimate destinations.
                params.remove("redirect_uri");
                params.remove("response_uri");
            }
            let query: Option<Json> = if chance(&mut rng, 0.95) { Some(if chance(&mut rng, 0.3) { dcql::query(&mut rng) } else { dcql::small_query(&mut rng) }) } else { None };
            let typed: Option<DcqlQuery> = query.as_ref().map(|q| serde_json::from_value(q.clone()).expect("query"));
            // As the library writes it: C19 judges that this is the query given.
            let query: Option<Json> = typed.as_ref().map(|q| serde_json::to_value(q).unwrap());
            let mut prefixes: Option<Vec<String>> = if chance(&mut rng, 0.95) { Some({ let n = if chance(&mut rng, 0.05) { 40 } else { 3 }; gen::ids_list(&mut rng, ALL_PREFIXES, n) }) } else { None };
            let mut want_prefix = chance(&mut rng, 0.9);
            if let Some(p) = &mut prefixes {
                p.retain(|x| x != &w.prefix);
                if chance(&mut rng, 0.3) {
                    p.push(gen::near_miss(&mut rng, &w.prefix));
                }
                if want_prefix {
                    let i = rng.gen_range(0..=p.len());
                    p.insert(i, w.prefix.clone());
                }
                want_prefix = p.contains(&w.prefix);
            } else {
                want_prefix = w.prefix == "pre-registered";
            }
            let endpoint = gen::endpoint(&mut rng);
            let mut md = json!({"authorization_endpoint": endpoint.as_str(), "vp_formats_supported": {"mso_mdoc": {}}});
            if let Some(p) = &prefixes {
                md["client_id_prefixes_supported"] = json!(p);
            }
            if chance(&mut rng, 0.02) {
                // A list that is none names nothing.
                md["client_id_prefixes_supported"] = pick(&mut rng, &[json!(w.prefix), json!({w.prefix.clone(): true}), json!([w.prefix, 7]), json!(null), json!(true), json!([[w.prefix]])]).clone();
                want_prefix = false;
            }
            let md: WalletMetadata = metadata(md);
            let path = rng.gen_range(0..3);
            // An id used before names the new session from now on.
            let given = if chance(&mut rng, 0.05) && last.is_some() { last.unwrap() } else { odd_uuid(&mut rng) };
            let copy = w.verifier.clone();
            let got = guard(|| {
                let mut b = if chance(&mut rng, 0.2) { copy.build_authorization_request() } else { w.verifier.build_authorization_request() };
                if chance(&mut rng, 0.1) {
                    // Overridden below.
                    for k in params.keys() {
                        let v = if chance(&mut rng, 0.5) { json!(gen::text(&mut rng)) } else { json!(null) };
                        b = request_param(b, k, v);
                    }
                    if typed.is_some() {
                        b = b.with_dcql_query(serde_json::from_value(dcql::small_query(&mut rng)).expect("query"));
                    }
                }
                let late = chance(&mut rng, 0.5);
                if !late {
                    if let Some(q) = &typed {
                        b = b.with_dcql_query(q.clone());
                    }
                }
                for (k, v) in &params {
                    b = request_param(b, k, v.clone());
                }
                if late {
                    if let Some(q) = &typed {
                        b = b.with_dcql_query(q.clone());
                    }
                }
                if chance(&mut rng, 0.1) {
                    // What happens to a copy does not matter.
                    let _ = request_param(b.clone(), "x-app", json!("copy")).with_dcql_query(serde_json::from_value(dcql::small_query(&mut rng)).expect("query"));
                    b = b.clone();
                }
                match path {
                    0 => block_on(b.build(md)).map(|(i, u)| (i, u.to_string())),
                    1 => block_on(b.build_with_session_id(given, md)).map(|u| (given, u.to_string())),
                    _ => block_on(b.build_dc_api()),
                }
                .map_err(|e| format!("{e:#}"))
            });
            let log = w.probe.log();
            ctx.events(log.len());
            if let Ok(Ok((i, _))) = &got {
                last = Some(*i);
            }
            let id = match (&got, path) {
                (Ok(Ok((i, _))), _) => *i,
                _ => given,
            };
            let mut want = expected_request(&w, &params, query.as_ref(), id);
            if want.is_ok() && path < 2 {
                if !want_prefix {
                    want = Err("prefix");
                } else if w.by_reference.as_ref().is_some_and(|u| u.cannot_be_a_base()) {
                    want = Err("reference endpoint");
                }
            }
            let class = match &want {
                Err(e) => format!("refused: {e}"),
                Ok(_) if path == 2 => "dc api".into(),
                Ok(_) if w.by_reference.is_some() => "by reference".into(),
                Ok(_) => "by value".into(),
            };
            let key = format!("{path}/{:?}/{:?}/{:?}", w.by_reference.is_some(), params.keys().collect::<Vec<_>>(), w.defaults.get("response_mode"));
            let case = || json!({"defaults": w.defaults, "params": params, "query": query, "path": path, "by_reference": w.by_reference.as_ref().map(|u| u.to_string()),
                "submission": w.submission.as_str(), "endpoint": endpoint.as_str(), "prefixes": prefixes, "client_id": w.client_id, "events": log.iter().map(|e| e.0).collect::<Vec<_>>()});
            let verdict = got.and_then(|r| {
                let inits: Vec<&Json> = log.iter().filter(|e| e.0 == "store.initiate").map(|e| &e.1).collect();
                let other: Vec<&str> = log.iter().map(|e| e.0).filter(|n| n.starts_with("store.") && !["store.initiate", "store.done"].contains(n)).collect();
                ensure!(other.is_empty(), "building touched the store otherwise: {other:?}");
                let (out, want) = match (r, &want) {
                    (Ok(_), Err(e)) => return Err(format!("a request that must be refused ({e}) was built")),
                    (Err(e), Ok(_)) => return Err(format!("a legitimate request was refused: {e}")),
                    (Err(_), Err(_)) => {
                        ensure!(inits.is_empty(), "a refused request stored a session");
                        return Ok(());
                    }
                    (Ok(o), Ok(m)) => (o, m),
                };
                if path != 1 {
                    ensure!(seen.insert(id), "the session id {id} was given twice");
                    ensure!(id.get_version_num() == 4, "the session id {id} is not random");
                }
                let signed: Vec<&Json> = log.iter().filter(|e| e.0 == "client").map(|e| &e.1).collect();
                let jwts: Vec<&Json> = log.iter().filter(|e| e.0 == "client.jwt").map(|e| &e.1).collect();
                ensure!(signed.len() == 1 && jwts.len() == 1, "the client was asked to sign {} times", signed.len());
                ensure!(as_map(signed[0]) == want, "the client signed {} instead of {}", signed[0], Json::Object(want.clone()));
                ensure!(inits.len() == 1, "{} sessions were stored", inits.len());
                let s = inits[0];
                let status = if path < 2 && w.by_reference.is_some() { "SentRequestByReference" } else { "SentRequest" };
                ensure!(s["uuid"] == json!(id.to_string()), "stored under {} but {id} was returned", s["uuid"]);
                ensure!(s["status"] == json!(status), "the initial status is {} instead of {status}", s["status"]);
                ensure!(&s["jwt"] == jwts[0], "the session holds another JWT than the one signed");
                ensure!(as_map(&s["request"]) == want, "the session holds the request {} instead of {}", s["request"], Json::Object(want.clone()));
                ensure!(Some(&s["dcql"]) == query.as_ref(), "the session holds the query {} instead of {query:?}", s["dcql"]);
                let jwt = jwts[0].as_str().unwrap();
                if path == 2 {
                    ensure!(out.1 == jwt, "another JWT is handed out than the one signed");
                } else {
                    let u = Url::parse(&out.1).map_err(|e| format!("{}: {e}", out.1))?;
                    ensure!(u.scheme() == endpoint.scheme() && u.authority() == endpoint.authority() && u.path() == endpoint.path(), "the URL {u} is not at the wallet's endpoint {endpoint}");
                    let mut q = refs::form_decode(u.query().ok_or("no query")?);
                    q.sort();
                    let mut p = vec![("client_id".to_string(), w.client_id.clone())];
                    match &w.by_reference {
                        Some(at) => p.push(("request_uri".into(), extended(at, id).unwrap())),
                        None => p.push(("request".into(), jwt.into())),
                    }
                    ensure!(q == p, "the URL carries {q:?} instead of {p:?}");
                }
                // The session as later operations see it.
                let polled = block_on(w.verifier.poll_status(id)).map_err(|e| format!("polling a fresh session: {e:#}"))?;
                ensure!(status_json(&polled) == json!(status), "polling a fresh session gives {polled:?}");
                let got = block_on(w.verifier.retrieve_authorization_request(id)).map_err(|e| format!("retrieving a fresh session: {e:#}"))?;
                ensure!(got == jwt, "retrieving gives another JWT");
                let polled = block_on(w.verifier.poll_status(id)).map_err(|e| format!("polling: {e:#}"))?;
                ensure!(status_json(&polled) == json!("SentRequest"), "after retrieval polling gives {polled:?}");
                let got = block_on(w.verifier.retrieve_authorization_request(id)).map_err(|e| format!("retrieving again: {e:#}"))?;
                ensure!(got == jwt, "retrieving again gives another JWT");
                Ok(())
            });
            ctx.judge(&class, Some(&key), case, verdict);
            if ctx.saturated() {
                return;
            }
        }
        // A verifier needs all three parts.
        if round % 10 == 0 {
            let mask = rng.gen_range(0..7u8);
            let v = guard(|| {
                let mut b = Verifier::builder();
                if mask & 1 != 0 {
                    b = b.with_client(Arc::new(TestClient { id: ClientId("a".into()), prefix: "a".into(), probe: Probe::new(), jwt: Box::new(|_| String::new()) }));
                }
                if mask & 2 != 0 {
                    b = b.with_session_store(Arc::new(TestStore::default()));
                }
                if mask & 4 != 0 {
                    b = b.with_submission_endpoint(gen::http_url(&mut rng));
                }
                block_on(b.build()).is_ok()
            });
            ctx.judge("verifier incomplete", Some(&mask.to_string()), || json!({"parts": mask}), v.and_then(|ok| {
                ensure!(!ok, "a verifier lacking a part was built (parts {mask:03b})");
                Ok(())
            }));
        }
    }    // Whoever knows some ids must not be able to tell others: every free bit is as often set as not.
    let n = seen.len() as f64;
    for bit in 0..128 {
        if (48..52).contains(&bit) || bit == 64 || bit == 65 {
            continue; // version and variant
        }
        let ones = seen.iter().filter(|u| u.as_u128() >> (127 - bit) & 1 == 1).count() as f64;
        let verdict = if (ones - n / 2.0).abs() <= 4.0 * n.sqrt() {
            Ok(())
        } else {
            Err(format!("bit {bit} of the session ids is set in {ones} of {n}: they can be guessed"))
        };
        ctx.judge("random ids", Some(&bit.to_string()), || json!({"bit": bit, "ids": n}), verdict);
    }
}

pub fn response_json(r: &AuthorizationResponse) -> Json {
    match r {
        AuthorizationResponse::Unencoded(u) => json!({"vp_token": vp_json(&u.vp_token), "state": u.state.as_ref().map(|s| s.0.clone())}),
        AuthorizationResponse::Jwt(j) => json!({"jwt": j.response}),
    }
}

pub fn c26(ctx: &mut Ctx) {
    ctx.rule = "histories of verifications, retrievals and polls over several sessions with validators of every outcome; distinct by (history shape, outcome, status before)".into();
    for c in ["verdict recorded", "unknown session", "verified again"] {
        ctx.require(c, 200);
    }
    let mut rng = ctx.fork_rng();
    for round in 0..ctx.n(12_000, 120_000) {
        let w = world(&mut rng, false, round % 2 == 0);
        // The monitor's own picture of the store.
        let mut model: BTreeMap<Uuid, Json> = BTreeMap::new();
        let many = chance(&mut rng, 0.01);
        for _ in 0..if many { 70 } else { rng.gen_range(1..4) } {
            let id = odd_uuid(&mut rng);
            let q: DcqlQuery = serde_json::from_value(dcql::small_query(&mut rng)).unwrap();
            let mut b = w.verifier.build_authorization_request().with_dcql_query(q);
            for (k, v) in sound_params(&mut rng) {
                b = request_param(b, &k, v);
            }
            b = request_param(b, "state", json!(gen::text(&mut rng)));
            let md = metadata(json!({"authorization_endpoint": "openid4vp:", "vp_formats_supported": {}, "client_id_prefixes_supported": ALL_PREFIXES}));
            if block_on(b.build_with_session_id(id, md)).is_ok() {
                model.insert(id, session_json(&block_on(w.store.inner.get_session(id)).unwrap()));
            }
        }
        let ids: Vec<Uuid> = model.keys().copied().collect();
        if ids.is_empty() {
            ctx.violate("setup", "no session could be built".into(), json!(null));
            return;
        }
        let mut history = vec![];
        for _ in 0..if many { 24 } else { rng.gen_range(1..6) } {
            let id = *pick(&mut rng, &ids);
            match rng.gen_range(0..6) {
                0 => {
                    let _ = block_on(w.verifier.retrieve_authorization_request(id));
                    if model[&id]["status"] == json!("SentRequestByReference") {
                        model.get_mut(&id).unwrap()["status"] = json!("SentRequest");
                    }
                    history.push("retrieve".to_string());
                    continue;
                }
                _ => {}
            }
            let unknown = chance(&mut rng, 0.2);
            let mut target = if unknown { odd_uuid(&mut rng) } else { id };
            while unknown && model.contains_key(&target) {
                target = uuid(&mut rng);
            }
            // A validator may use the verifier itself.
            let nested = chance(&mut rng, 0.2);
            let inner = w.verifier.clone();
            let resp = response(&mut rng);
            let want_resp = response_json(&resp);
            let (o, o_json, _) = outcome(&mut rng);
            let steps = *pick(&mut rng, &[0usize, 0, 1, 3]);
            let calls: Arc<Mutex<Vec<(Json, Json)>>> = Default::default();
            let again = !unknown && model[&id]["status"].is_object();
            w.probe.reset();
            let before = model.get(&target).cloned();
            let got = guard(|| {
                let c = calls.clone();
                let r = block_on(w.verifier.verify_response(target, resp, move |s, r| {
                    c.lock().unwrap().push((session_json(&s), response_json(&r)));
                    Box::pin(async move {
                        for _ in 0..steps {
                            yield_now().await;
                        }
                        if nested {
                            let _ = inner.poll_status(target).await.expect("polling from the validator");
                            let _ = inner.retrieve_authorization_request(target).await.expect("retrieving from the validator");
                        }
                        o
                    })
                }));
                r.map_err(|e| format!("{e:#}"))
            });
            ctx.events(w.probe.log().len() + calls.lock().unwrap().len());
            if !unknown {
                model.get_mut(&id).unwrap()["status"] = json!({"Complete": o_json});
            }
            let calls = calls.lock().unwrap().clone();
            let names = w.probe.names();
            let verdict = got.and_then(|r| {
                if unknown {
                    ensure!(r.is_err(), "verifying a response for an unknown session succeeded");
                    ensure!(calls.is_empty(), "the validator ran without a session");
                } else {
                    r.map_err(|e| format!("verification of an existing session failed: {e}"))?;
                    ensure!(calls.len() == 1, "the validator ran {} times", calls.len());
                    ensure!(Some(&calls[0].0) == before.as_ref(), "the validator was given the session {} instead of {before:?}", calls[0].0);
                    ensure!(calls[0].1 == want_resp, "the validator was given the response {} instead of {want_resp}", calls[0].1);
                }
                for (i, s) in &model {
                    let now = session_json(&block_on(w.store.inner.get_session(*i)).map_err(|e| format!("session {i} is gone: {e:#}"))?);
                    ensure!(&now == s, "session {i} (verified: {target}) is {now} instead of {s}");
                    let polled = block_on(w.verifier.poll_status(*i)).map_err(|e| format!("polling: {e:#}"))?;
                    ensure!(status_json(&polled) == s["status"], "polling session {i} gives {polled:?} instead of {}", s["status"]);
                }
                if unknown {
                    ensure!(block_on(w.verifier.poll_status(target)).is_err(), "verifying an unknown session created it");
                }
                Ok(())
            });
            let class = if unknown { "unknown session" } else if again { "verified again" } else { "verdict recorded" };
            let shape = format!("{class}/{}/{:?}/{:?}/{steps}/{}", model.len(), before.as_ref().map(|b| b["status"].to_string()), o_json.as_object().unwrap().keys().next(), history.join(","));
            history.push(class.into());
            ctx.judge(class, Some(&shape), || json!({"before": before, "response": want_resp, "outcome": o_json, "calls": names}), verdict);
            if ctx.saturated() {
                return;
            }
        }
    }
}

