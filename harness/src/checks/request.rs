//! C07, C08: request objects and authorization request URLs.
use super::{
    dcql,
    wallet::{header, jwt_of, TYP},
};
use crate::{
    ctx::{guard, Ctx},
    ensure,
    exec::block_on,
    gen::{self, chance, pick},
    mocks::*,
    refs,
};
use openid4vp::core::{
    authorization_request::{
        parameters::{ClientMetadata, ResponseMode, ResponseType},
        AuthorizationRequest, AuthorizationRequestObject, RequestIndirection,
    },
    object::UntypedObject,
};
use rand::{rngs::StdRng, Rng};
use serde_json::{json, Map, Value as Json};
use url::Url;

const MODES: &[&str] = &["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"];

fn wrong_type(rng: &mut StdRng) -> Json {
    pick(rng, &[json!(null), json!(1), json!(true), json!([]), json!({}), json!(["x"]), json!({"a": "b"})]).clone()
}

fn maybe_url(rng: &mut StdRng) -> (Json, Option<Url>) {
    match rng.gen_range(0..10) {
        0 => (wrong_type(rng), None),
        1 => {
            let s = pick(rng, &["", "example.com", "/path", "//host/x", "http://", "http://[::1", "https://a b/", "://x", "https://exa mple.com"]).to_string();
            (json!(s), None)
        }
        2 => {
            // Not in normal form: the accessor gives the URL, the JSON keeps the text.
            let s = pick(rng, &["HTTPS://Example.COM", "https://example.com:443/a/../b", "https://example.com", "https://exämple.com/ä", "custom:opaque", "https://u@h/?q#f"]).to_string();
            let u = Url::parse(&s).unwrap();
            (json!(s), Some(u))
        }
        _ => {
            let u = gen::http_url(rng);
            (json!(u.as_str()), Some(u))
        }
    }
}

pub fn c07(ctx: &mut Ctx) {
    ctx.rule = "request objects with every combination of present, absent, ill-typed and ill-formed parameters, read by every path; distinct by (mode, destination shape, required parameters, path)".into();
    for c in ["accepted", "refused: destination", "refused: mode", "refused: required parameter", "refused: client_id"] {
        ctx.require(c, 200);
    }
    let mut rng = ctx.fork_rng();
    for _ in 0..ctx.n(80_000, 800_000) {
        let mut m = Map::new();
        let mut shape = String::new();
        // Each parameter is usually good so that each defect is also seen alone.
        let bad = |rng: &mut StdRng| chance(rng, 0.08);
        let client_id = match rng.gen_range(0..12) {
            0 => None,
            1 => Some(wrong_type(&mut rng)),
            2..=4 => Some(json!(gen::text(&mut rng))),
            _ => Some(json!(format!("{}:{}", pick(&mut rng, ALL_PREFIXES), gen::text(&mut rng)))),
        };
        let client_ok = client_id.as_ref().is_none_or(Json::is_string);
        let mode: Option<Json> = match rng.gen_range(0..14) {
            0 => Some(wrong_type(&mut rng)),
            1 => {
                let m = *pick(&mut rng, MODES);
                Some(json!(gen::near_miss(&mut rng, m)))
            }
            2 => Some(json!(*pick(&mut rng, &["fragment", "query", "form_post", "query.jwt", "", "jwt", "direct_post.jwt ", "Direct_Post", "direct_post,dc_api"]))),
            3..=4 => None,
            _ => Some(json!(*pick(&mut rng, MODES))),
        };
        let mode_name = match &mode {
            None => Some("direct_post"),
            Some(Json::String(s)) => MODES.iter().copied().find(|x| x == s),
            _ => None,
        };
        let direct = mode_name.map(|m| m.starts_with("direct_post"));
        // Destinations.
        let dest = match (rng.gen_range(0..10), direct) {
            (0, _) => (true, true),
            (1, _) => (false, false),
            (2, _) => (true, false),
            (3, _) => (false, true),
            (_, Some(false)) => (false, false),
            _ => (false, true),
        };
        let mut response_url = None;
        if dest.0 {
            let (v, _) = maybe_url(&mut rng);
            m.insert("redirect_uri".into(), v);
        }
        if dest.1 {
            let (v, u) = maybe_url(&mut rng);
            m.insert("response_uri".into(), v);
            response_url = u;
        }
        // The two related to each other or to the client_id, as a confused or clever verifier would have them.
        if dest.0 && chance(&mut rng, 0.4) {
            let c = client_id.as_ref().and_then(Json::as_str).and_then(|c| c.split_once(':')).map(|c| json!(c.1));
            let v = m.get("response_uri").cloned().filter(|_| chance(&mut rng, 0.6)).or(c);
            if let Some(v) = v {
                m.insert("redirect_uri".into(), v);
            }
        }
        let dest_ok = match direct {
            Some(true) => !dest.0 && dest.1 && response_url.is_some(),
            Some(false) => !dest.0 && !dest.1,
            None => false,
        };
        let nonce = if bad(&mut rng) { if chance(&mut rng, 0.5) { None } else { Some(wrong_type(&mut rng)) } } else { Some(json!(gen::text(&mut rng))) };
        let rtype = if bad(&mut rng) {
            if chance(&mut rng, 0.5) { None } else { Some(wrong_type(&mut rng)) }
        } else {
            Some(json!(match rng.gen_range(0..5) {
                0 if chance(&mut rng, 0.5) => gen::text(&mut rng),
                0 => pick(&mut rng, &["code", "id_token", "code id_token", "id_token vp_token", "vp_token id_token code", "vp_token token", "vp_token  id_token", "vp_token id_token ", "vp_token,id_token", "vp_token+id_token", "VP_TOKEN", "vp_token ID_TOKEN"]).to_string(),
                1 => { let t = *pick(&mut rng, &["vp_token", "vp_token id_token"]); gen::near_miss(&mut rng, t) }
                2 => "vp_token id_token".into(),
                _ => "vp_token".into(),
            }))
        };
        let req_ok = nonce.as_ref().is_some_and(Json::is_string) && rtype.as_ref().is_some_and(Json::is_string);
        for (k, v) in [("client_id", &client_id), ("response_mode", &mode), ("nonce", &nonce), ("response_type", &rtype)] {
            if let Some(v) = v {
                m.insert(k.into(), v.clone());
            }
        }
        if chance(&mut rng, 0.4) {
            m.insert("state".into(), if bad(&mut rng) { wrong_type(&mut rng) } else { json!(gen::text(&mut rng)) });
        }
        if chance(&mut rng, 0.4) {
            m.insert("dcql_query".into(), if bad(&mut rng) { wrong_type(&mut rng) } else { dcql::query(&mut rng) });
        }
        if chance(&mut rng, 0.4) {
            m.insert("client_metadata".into(), match rng.gen_range(0..5) {
                0 => pick(&mut rng, &[json!(null), json!(1), json!("x"), json!([1])]).clone(),
                1 => Json::Object(gen::json_map(&mut rng, 2)),
                2 => json!({"vp_formats_supported": pick(&mut rng, &[json!({}), json!({"mso_mdoc": {}}), json!({"": {}}), json!(null), json!([]), json!({"jwt_vc_json": {"alg_values": []}})]).clone(), "jwks": {"keys": []}}),
                _ => json!({"vp_formats_supported": {"mso_mdoc": {"alg_values": ["ES256"]}, gen::ident(&mut rng, 1, 5): gen::json_value(&mut rng, 1)}, gen::text(&mut rng): 1}),
            });
        }
        let extra = if chance(&mut rng, 0.03) { rng.gen_range(4..80) } else { rng.gen_range(0..4) };
        for _ in 0..extra {
            let k = if chance(&mut rng, 0.3) {
                pick(&mut rng, &["aud", "expected_origins", "transaction_data", "verifier_info", "request_uri_method", "scope", "iss", "exp", "wallet_nonce", "client_id_scheme", "jti", "sub", "nbf", "iat"]).to_string()
            } else {
                format!("x{}", gen::text(&mut rng))
            };
            let v = if chance(&mut rng, 0.1) && k.starts_with('x') { gen::big_number(&mut rng) } else { gen::json_value(&mut rng, 2) };
            m.insert(k, v);
        }
        // The order of the members must not matter.
        let mut items: Vec<_> = m.into_iter().collect();
        for i in (1..items.len()).rev() {
            items.swap(i, rng.gen_range(0..=i));
        }
        let m: Map<String, Json> = items.into_iter().collect();
        shape += &format!("{mode_name:?}/{dest:?}/{}/{dest_ok}/{client_ok}/{}/{}", response_url.is_some(), nonce.is_some(), rtype.is_some());
        let ok = client_ok && mode_name.is_some() && dest_ok && req_ok;
        let class = if ok {
            "accepted"
        } else if !client_ok {
            "refused: client_id"
        } else if mode_name.is_none() {
            "refused: mode"
        } else if !dest_ok {
            "refused: destination"
        } else {
            "refused: required parameter"
        };
        let obj = Json::Object(m.clone());
        // Registered JWT claims get read as such by the JWT decoder; keep to paths it does not judge.
        let jwt_safe = !["exp", "nbf", "iat", "iss", "sub", "jti", "aud"].iter().any(|k| m.contains_key(*k));
        let path = rng.gen_range(0..6);
        let got: Result<Result<AuthorizationRequestObject, String>, String> = guard(|| match path {
            0 => serde_json::from_value(obj.clone()).map_err(|e| e.to_string()),
            1 => serde_json::from_str(&obj.to_string()).map_err(|e| e.to_string()),
            2 => serde_json::from_value::<UntypedObject>(obj.clone()).unwrap().try_into().map_err(|e: anyhow::Error| format!("{e:#}")),
            p => {
                let probe = Probe::new();
                let h = header(&mut rng, Some(json!(TYP)));
                let (ind, http) = match p {
                    3 if jwt_safe => {
                        let jwt = jwt_of(&mut rng, &h, &obj);
                        (RequestIndirection::ByValue { request: jwt }, Http::none(&probe))
                    }
                    4 if jwt_safe => {
                        let jwt = jwt_of(&mut rng, &h, &obj);
                        (RequestIndirection::ByReference { request_uri: gen::http_url(&mut rng) }, Http::answer(&probe, 200, jwt.into_bytes()))
                    }
                    _ => (RequestIndirection::Direct(serde_json::from_value(obj.clone()).unwrap()), Http::none(&probe)),
                };
                let ar = AuthorizationRequest { client_id: None, request_indirection: ind };
                block_on(ar.resolve_request(&http)).map(|r| r.0).map_err(|e| format!("{e:#}"))
            }
        });
        let verdict = got.and_then(|r| match (r, ok) {
            (Ok(_), false) => Err(format!("accepted although it must be {class} (path {path})")),
            (Err(e), true) => Err(format!("a legitimate request object was refused (path {path}): {e}")),
            (Err(_), false) => Ok(()),
            (Ok(o), true) => accessors(&o, &m, mode_name.unwrap(), response_url.as_ref()),
        });
        ctx.judge(class, Some(&format!("{shape}/{path}")), || obj.clone(), verdict);
        if ctx.saturated() {
            return;
        }
    }
}

fn accessors(o: &AuthorizationRequestObject, m: &Map<String, Json>, mode: &str, uri: Option<&Url>) -> Result<(), String> {
    let s = |k: &str| m.get(k).and_then(Json::as_str);
    ensure!(o.client_id().map(|c| c.0.as_str()) == s("client_id"), "client_id() is {:?}", o.client_id());
    let prefix = s("client_id").and_then(|c| c.split_once(':')).map(|p| p.0);
    ensure!(o.client_id_scheme().map(|c| c.0.as_str()) == prefix, "client_id_scheme() is {:?} for {:?}", o.client_id_scheme(), s("client_id"));
    let want = match mode {
        "direct_post" => ResponseMode::DirectPost,
        "direct_post.jwt" => ResponseMode::DirectPostJwt,
        "dc_api" => ResponseMode::DcApi,
        _ => ResponseMode::DcApiJwt,
    };
    ensure!(*o.response_mode() == want && o.response_mode().to_string() == mode, "response_mode() is {:?} for {mode}", o.response_mode());
    ensure!(o.response_mode().is_jarm().ok() == Some(mode.ends_with(".jwt")), "is_jarm() of {mode} is {:?}", o.response_mode().is_jarm());
    if let Some(u) = uri {
        ensure!(o.return_uri() == u, "responses go to {} instead of {u}", o.return_uri());
    }
    let rt = s("response_type").unwrap();
    ensure!(String::from(o.response_type().clone()) == rt, "response_type() is {:?}", o.response_type());
    let (id_token, kind) = match rt {
        "vp_token" => (Some(false), *o.response_type() == ResponseType::VpToken),
        "vp_token id_token" => (Some(true), *o.response_type() == ResponseType::VpTokenIdToken),
        _ => (None, matches!(o.response_type(), ResponseType::Unsupported(_))),
    };
    ensure!(kind, "response_type() of {rt:?} is {:?}", o.response_type());
    ensure!(o.is_id_token_requested() == id_token, "is_id_token_requested() of {rt:?} is {:?}", o.is_id_token_requested());
    ensure!(o.nonce().as_str() == s("nonce").unwrap() && o.nonce().to_string() == s("nonce").unwrap(), "nonce() is {:?}", o.nonce());
    match (m.get("state"), o.state()) {
        (None, None) => {}
        (Some(Json::String(t)), Some(Ok(st))) if st.0 == *t => {}
        (Some(v), Some(Err(_))) if !v.is_string() => {}
        (v, g) => return Err(format!("state() is {g:?} for {v:?}")),
    }
    match (m.get("dcql_query"), o.dcql_query()) {
        (None, None) => {}
        (Some(v), Some(Ok(q))) if serde_json::to_value(&q).unwrap() == *v => {}
        (Some(v), Some(Err(_))) if v.get("credentials").is_none() => {}
        (v, g) => return Err(format!("dcql_query() is {g:?} for {v:?}")),
    }
    let md = o.client_metadata();
    match (m.get("client_metadata"), md) {
        (None, Err(_)) => {
            let d = ClientMetadata::resolve(o).map_err(|e| format!("resolving absent client metadata: {e:#}"))?;
            ensure!(Json::from(d) == json!({}), "absent client metadata resolve to something");
            ensure!(o.vp_formats().is_err(), "vp_formats() of absent metadata");
        }
        (Some(v @ Json::Object(_)), Ok(c)) => {
            ensure!(Json::from(c) == *v, "client_metadata() differs");
            let d = ClientMetadata::resolve(o).map_err(|e| format!("resolving client metadata: {e:#}"))?;
            ensure!(Json::from(d.clone()) == *v, "resolved client metadata differ");
            match (v.get("vp_formats_supported"), o.vp_formats(), d.vp_formats()) {
                (None, Err(_), Err(_)) => {}
                (Some(f), Ok(g), Ok(h)) => {
                    ensure!(Json::try_from(g).unwrap() == *f && Json::try_from(h).unwrap() == *f, "vp_formats() differs");
                }
                (Some(f), Err(_), Err(_)) if !f.is_object() => {}
                (f, g, _) => return Err(format!("vp_formats() is {g:?} for {f:?}")),
            }
        }
        (Some(v), Err(_)) if !v.is_object() => {
            ensure!(ClientMetadata::resolve(o).is_err(), "ill-typed client metadata {v} resolved");
            ensure!(o.vp_formats().is_err(), "vp_formats() of ill-typed metadata");
        }
        (v, g) => return Err(format!("client_metadata() is {g:?} for {v:?}")),
    }
    ensure!(aro_json(o) == Json::Object(m.clone()), "converting back to JSON gives {}", aro_json(o));
    let u: UntypedObject = o.clone().into();
    ensure!(Json::from(u) == Json::Object(m.clone()), "converting back to an object changed it");
    let again: AuthorizationRequestObject = serde_json::from_str(&serde_json::to_string(o).unwrap()).map_err(|e| format!("its own text is refused: {e}"))?;
    ensure!(aro_json(&again) == Json::Object(m.clone()), "a round trip through text changed it");
    Ok(())
}

fn same(a: &AuthorizationRequest, b: &AuthorizationRequest) -> bool {
    a.client_id == b.client_id && a.request_indirection == b.request_indirection
}

pub fn c08(ctx: &mut Ctx) {
    ctx.rule = "authorization requests of the three kinds with arbitrary text, on endpoints of many shapes; distinct by URL".into();
    ctx.assumptions.push("Direct requests carry string parameters other than request, request_uri and client_id; a differing scheme is not judged.".into());
    for c in ["by value", "by reference", "direct", "foreign encoding", "refused: no query", "refused: authority", "refused: path"] {
        ctx.require(c, 200);
    }
    let mut rng = ctx.fork_rng();
    for _ in 0..ctx.n(100_000, 1_000_000) {
        let client_id = if chance(&mut rng, 0.9) { Some(gen::text(&mut rng)) } else { None };
        let (kind, ind) = match rng.gen_range(0..3) {
            0 => {
                let t = if chance(&mut rng, 0.5) { gen::text(&mut rng) } else { let h = header(&mut rng, None); { let t = gen::text(&mut rng); let n = if chance(&mut rng, 0.1) { rng.gen_range(1..400) } else { 1 }; jwt_of(&mut rng, &h, &json!({"a": t.repeat(1 + n / (1 + t.len()))})) } };
                ("by value", RequestIndirection::ByValue { request: t })
            }
            1 => ("by reference", RequestIndirection::ByReference { request_uri: gen::http_url(&mut rng) }),
            _ => {
                let n = if chance(&mut rng, 0.05) { rng.gen_range(5..70) } else { rng.gen_range(0..5) };
                let mut m = Map::new();
                for _ in 0..n {
                    let k = if chance(&mut rng, 0.5) { pick(&mut rng, &["nonce", "response_type", "response_uri", "response_mode", "state", "scope", "Request", "request_urix"]).to_string() } else { gen::text(&mut rng) };
                    if !["request", "request_uri", "client_id"].contains(&k.as_str()) {
                        m.insert(k, json!(gen::text(&mut rng)));
                    }
                }
                ("direct", RequestIndirection::Direct(serde_json::from_value(Json::Object(m)).unwrap()))
            }
        };
        let ar = AuthorizationRequest { client_id: client_id.clone(), request_indirection: ind };
        let mut endpoint = gen::endpoint(&mut rng);
        if chance(&mut rng, 0.1) {
            endpoint.set_fragment(Some("frag"));
        }
        let mut pairs: Vec<(String, String)> = client_id.iter().map(|c| ("client_id".to_string(), c.clone())).collect();
        match &ar.request_indirection {
            RequestIndirection::ByValue { request } => pairs.push(("request".into(), request.clone())),
            RequestIndirection::ByReference { request_uri } => pairs.push(("request_uri".into(), request_uri.to_string())),
            RequestIndirection::Direct(o) => {
                for (k, v) in Json::from(o.clone()).as_object().unwrap() {
                    pairs.push((k.clone(), v.as_str().unwrap().into()));
                }
            }
        }
        let got = guard(|| ar.clone().to_url(endpoint.clone()));
        let mut made = None;
        let verdict = got.and_then(|u| {
            let u = u.map_err(|e| format!("could not be encoded: {e:#}"))?;
            made = Some(u.clone());
            ensure!(u.scheme() == endpoint.scheme() && u.authority() == endpoint.authority() && u.path() == endpoint.path() && u.fragment() == endpoint.fragment(), "the URL {u} does not keep the endpoint {endpoint}");
            let mut q = refs::form_decode(u.query().ok_or("no query")?);
            let mut p = pairs.clone();
            q.sort();
            p.sort();
            ensure!(q == p, "the URL's query says {q:?}, not {p:?}");
            // As another program sees it: the text only.
            let text = u.as_str().to_string();
            let reparsed = Url::parse(&text).map_err(|e| format!("its text is not a URL: {e}"))?;
            let back = guard(|| AuthorizationRequest::from_url(reparsed, &endpoint))?.map_err(|e| format!("its own URL {text} was refused: {e:#}"))?;
            ensure!(same(&back, &ar), "parsing {text} gives {back:?}");
            let back = guard(|| AuthorizationRequest::from_query_params(u.query().unwrap()))?.map_err(|e| format!("its own query was refused: {e:#}"))?;
            ensure!(same(&back, &ar), "parsing the query of {text} gives {back:?}");
            Ok(())
        });
        ctx.judge(kind, made.as_ref().map(|u| u.as_str()), || json!({"client_id": client_id, "pairs": pairs, "endpoint": endpoint.as_str()}), verdict);
        // The same request encoded by another implementation: other order, everything escaped, lower-case hex.
        let mut shuffled = pairs.clone();
        for i in (1..shuffled.len()).rev() {
            shuffled.swap(i, rng.gen_range(0..=i));
        }
        let style = rng.gen_range(0..3);
        let enc = |s: &str| match style {
            0 => refs::form_encode(s),
            1 => s.bytes().map(|b| format!("%{b:02x}")).collect::<String>(),
            _ => refs::form_encode(s).replace('+', "%20"),
        };
        let q = shuffled.iter().map(|(k, v)| format!("{}={}", enc(k), enc(v))).collect::<Vec<_>>().join("&");
        if !shuffled.is_empty() {
            let mut u = endpoint.clone();
            u.set_query(Some(&q));
            let got = guard(|| AuthorizationRequest::from_url(u.clone(), &endpoint));
            ctx.judge("foreign encoding", Some(u.as_str()), || json!({"url": u.as_str()}), got.and_then(|r| {
                let r = r.map_err(|e| format!("{u} was refused: {e:#}"))?;
                ensure!(same(&r, &ar), "parsing {u} gives {r:?}");
                Ok(())
            }));
        }
        // Refusals.
        if let Some(u) = made {
            let mut v = u.clone();
            v.set_query(None);
            let got = guard(|| AuthorizationRequest::from_url(v.clone(), &endpoint).is_ok());
            ctx.judge("refused: no query", Some(v.as_str()), || json!({"url": v.as_str()}), got.and_then(|ok| {
                ensure!(!ok, "{v} was accepted without a query");
                Ok(())
            }));
            let mut other = u.clone();
            let changed = match rng.gen_range(0..8) {
                0 => other.set_host(Some("evil.example")).is_ok(),
                1 => {
                    let port = *pick(&mut rng, &[4433, 443, 80, 1]);
                    other.set_port(Some(port)).is_ok()
                }
                2 => other.set_username("user").is_ok(),
                3 => endpoint.host_str().map(|h| format!("{h}.evil.example")).is_some_and(|h| other.set_host(Some(&h)).is_ok()),
                4 => endpoint.host_str().map(|h| format!("evil{h}")).is_some_and(|h| other.set_host(Some(&h)).is_ok()),
                5 => endpoint.host_str().is_some_and(|h| !h.is_empty() && other.set_host(Some(&h[..h.len() - 1])).is_ok()),
                6 => {
                    other.set_path(&format!("{}/x", endpoint.path()));
                    true
                }
                _ => {
                    let p = gen::near_miss(&mut rng, endpoint.path());
                    other.set_path(&p);
                    true
                }
            };
            if changed && (other.authority() != endpoint.authority() || other.path() != endpoint.path()) {
                let class = if other.authority() != endpoint.authority() { "refused: authority" } else { "refused: path" };
                let got = guard(|| AuthorizationRequest::from_url(other.clone(), &endpoint).is_ok());
                ctx.judge(class, Some(other.as_str()), || json!({"url": other.as_str(), "endpoint": endpoint.as_str()}), got.and_then(|ok| {
                    ensure!(!ok, "{other} was accepted for the endpoint {endpoint}");
                    Ok(())
                }));
            }
        }
        if ctx.saturated() {
            return;
        }
    }
}
