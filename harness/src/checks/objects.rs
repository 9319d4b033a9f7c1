//! C15, C20, C24, C25: statuses, typed parameters and metadata, credential formats, nonces.
use super::{
    dcql,
    wallet::{vp_json, vp_token},
};
use crate::{
    ctx::{guard, Ctx},
    ensure,
    gen::{self, chance, pick},
    mocks::ALL_PREFIXES,
};
use openid4vp::core::{
    authorization_request::parameters::*,
    credential_format::*,
    dcql_query::DcqlQuery,
    metadata::{
        parameters::{verifier::*, wallet::*},
        WalletMetadata,
    },
    object::{ParsingErrorContext, TypedParameter, UntypedObject},
    response::parameters::{IdToken, VpToken},
};
use openid4vp_frontend::{Outcome, Status};
use rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
use serde_json::{json, Map, Value as Json};
use std::{cmp::Ordering, collections::HashSet};

// --- C15 ---

fn status(rng: &mut StdRng) -> (Status, Json, (u8, u8)) {
    match rng.gen_range(0..8) {
        0 => (Status::SentRequestByReference, json!("SentRequestByReference"), (0, 0)),
        1 => (Status::SentRequest, json!("SentRequest"), (1, 0)),
        2 => (Status::ReceivedResponse, json!("ReceivedResponse"), (2, 0)),
        _ => {
            let (o, j, k) = outcome(rng);
            (Status::Complete(o), json!({"Complete": j}), (3, k))
        }
    }
}

pub fn outcome(rng: &mut StdRng) -> (Outcome, Json, u8) {
    match rng.gen_range(0..3) {
        0 => {
            let t = gen::text(rng);
            (Outcome::Error { cause: t.clone() }, json!({"Error": {"cause": t}}), 0)
        }
        1 => {
            let t = gen::text(rng);
            (Outcome::Failure { reason: t.clone() }, json!({"Failure": {"reason": t}}), 1)
        }
        _ => {
            let v = if chance(rng, 0.1) { json!([gen::big_number(rng)]) } else { gen::json_value(rng, 3) };
            (Outcome::Success { info: v.clone() }, json!({"Success": {"info": v}}), 2)
        }
    }
}

pub fn outcome_json(o: &Outcome) -> Json {
    match o {
        Outcome::Error { cause } => json!({"Error": {"cause": cause}}),
        Outcome::Failure { reason } => json!({"Failure": {"reason": reason}}),
        Outcome::Success { info } => json!({"Success": {"info": info}}),
    }
}

/// The wire form of a status, written without the library's serialisers.
pub fn status_json(s: &Status) -> Json {
    match s {
        Status::SentRequestByReference => json!("SentRequestByReference"),
        Status::SentRequest => json!("SentRequest"),
        Status::ReceivedResponse => json!("ReceivedResponse"),
        Status::Complete(o) => json!({"Complete": outcome_json(o)}),
    }
}

pub fn c15(ctx: &mut Ctx) {
    ctx.rule = "generated statuses through JSON, and triples of them compared; distinct by wire form, resp. by kinds of the triple".into();
    for c in ["wire", "order", "refused"] {
        ctx.require(c, 300);
    }
    let mut rng = ctx.fork_rng();
    for _ in 0..ctx.n(80_000, 800_000) {
        let (s, j, _) = status(&mut rng);
        let got = guard(|| serde_json::to_string(&s));
        ctx.judge("wire", Some(&j.to_string()), || j.clone(), got.and_then(|t| {
            let t = t.map_err(|e| e.to_string())?;
            let v: Json = serde_json::from_str(&t).map_err(|e| e.to_string())?;
            ensure!(v == j, "written as {v}");
            let back: Status = serde_json::from_str(&t).map_err(|e| format!("its own text is refused: {e}"))?;
            ensure!(status_json(&back) == j, "came back as {back:?}");
            let back: Status = serde_json::from_value(j.clone()).map_err(|e| format!("its wire form is refused: {e}"))?;
            ensure!(status_json(&back) == j, "came back as {back:?}");
            Ok(())
        }));
        let bad = match rng.gen_range(0..7) {
            0 => json!(gen::near_miss(&mut rng, pick(&mut StdRng::seed_from_u64(j.to_string().len() as u64), &["SentRequestByReference", "SentRequest", "ReceivedResponse", "Complete"]))),
            1 => json!("Complete"),
            2 => json!({"Complete": {"Success": {}}}),
            3 => json!({"Complete": {"Failure": {"reason": 1}}}),
            4 => json!({"Complete": {"Error": {"reason": "x"}}}),
            5 => gen::json_value(&mut rng, 1),
            _ => json!({"complete": {"Success": {"info": 1}}}),
        };
        let ok_anyway = ["SentRequestByReference", "SentRequest", "ReceivedResponse"].iter().any(|s| bad == *s);
        if !ok_anyway && bad.get("Complete").and_then(|c| c.get("Success")).is_none() {
            let got = guard(|| serde_json::from_value::<Status>(bad.clone()));
            ctx.judge("refused", Some(&bad.to_string()), || bad.clone(), got.and_then(|r| {
                ensure!(r.is_err(), "{bad} was accepted as the status {r:?}");
                Ok(())
            }));
        }
        let (a, ja, ka) = status(&mut rng);
        let (b, jb, kb) = status(&mut rng);
        let (c, jc, kc) = status(&mut rng);
        let got = guard(|| {
            for (x, kx, y, ky) in [(&a, ka, &b, kb), (&b, kb, &c, kc), (&a, ka, &c, kc), (&a, ka, &a, ka)] {
                let want = kx.cmp(&ky);
                ensure!(x.partial_cmp(y) == Some(want), "{x:?} compares to {y:?} as {:?}, expected {want:?}", x.partial_cmp(y));
                ensure!((x == y) == (want == Ordering::Equal), "{x:?} == {y:?} is {}", x == y);
                ensure!((x < y) == (want == Ordering::Less) && (x > y) == (want == Ordering::Greater), "< or > of {x:?} and {y:?} disagree with their order");
                ensure!((x <= y) == (want != Ordering::Greater) && (x >= y) == (want != Ordering::Less), "<= or >= of {x:?} and {y:?} disagree with their order");
                if let (Status::Complete(ox), Status::Complete(oy)) = (x, y) {
                    let want = kx.1.cmp(&ky.1);
                    ensure!(ox.partial_cmp(oy) == Some(want) && (ox == oy) == (want == Ordering::Equal), "outcomes {ox:?} and {oy:?} compare as {:?}", ox.partial_cmp(oy));
                }
            }
            Ok(())
        });
        ctx.judge("order", Some(&format!("{ka:?}{kb:?}{kc:?}")), || json!([ja, jb, jc]), got.and_then(|r| r));
        if ctx.saturated() {
            return;
        }
    }
}

// --- C20 ---

/// A JSON value for one parameter type: as the library must write it, or an ill-typed one.
struct Kind {
    key: &'static str,
    good: fn(&mut StdRng) -> Json,
    bad: fn(&mut StdRng) -> Json,
    run: fn(&mut Map<String, Json>, &Step) -> Result<(), String>,
}

enum Step {
    Get,
    Remove,
    Insert(Json),
}

fn not_string(rng: &mut StdRng) -> Json {
    pick(rng, &[json!(null), json!(1), json!(false), json!(["a"]), json!({"a": 1}), json!(0.5)]).clone()
}
fn not_strings(rng: &mut StdRng) -> Json {
    pick(rng, &[json!(null), json!(1), json!("a"), json!([1]), json!(["a", null]), json!({"a": "b"}), json!([["a"]])]).clone()
}
fn not_url(rng: &mut StdRng) -> Json {
    if chance(rng, 0.5) {
        not_string(rng)
    } else {
        json!(*pick(rng, &["", "x", "/a", "http://", "//a/b", "https://a b"]))
    }
}
fn strings(rng: &mut StdRng) -> Json {
    let n = if chance(rng, 0.03) { rng.gen_range(4..60) } else { rng.gen_range(0..4) };
    let mut v: Vec<Json> = (0..n).map(|_| json!(gen::text(rng))).collect();
    if n > 0 && chance(rng, 0.2) {
        let again = pick(rng, &v).clone();
        v.insert(rng.gen_range(0..=n), again);
    }
    Json::Array(v)
}
fn url(rng: &mut StdRng) -> Json {
    json!(gen::http_url(rng).as_str())
}
fn text(rng: &mut StdRng) -> Json {
    json!(gen::text(rng))
}

pub fn formats(rng: &mut StdRng) -> Json {
    let n = if chance(rng, 0.03) { rng.gen_range(5..40) } else { rng.gen_range(0..5) };
    let mut m = Map::new();
    for _ in 0..n {
        m.insert(dcql::format_name(rng), payload(rng));
    }
    Json::Object(m)
}

fn payload(rng: &mut StdRng) -> Json {
    match rng.gen_range(0..6) {
        0..=1 => json!({"alg_values": strings(rng)}),
        2 => json!({"proof_type_values": strings(rng)}),
        3 => match rng.gen_range(0..5) {
            0 => json!({"alg_values": strings(rng), "proof_type_values": strings(rng)}),
            1 => json!({"alg_values": [gen::text(rng), gen::json_value(rng, 1)]}),
            2 => json!({"alg_values": gen::text(rng)}),
            3 => json!({"alg_values_supported": strings(rng)}),
            _ => json!({}),
        },
        4 => json!({"alg_values": strings(rng), "issuerauth_alg_values": [-7]}),
        _ => gen::json_value(rng, 2),
    }
}

fn step<T: TypedParameter>(m: &mut Map<String, Json>, s: &Step) -> Result<(), String>
where
    Json: TryFrom<T>,
{
    let mut o: UntypedObject = serde_json::from_value(Json::Object(m.clone())).unwrap();
    let before = m.get(T::KEY).cloned();
    let written = |t: T| -> Result<Json, String> { t.try_into().map_err(|_| "could not be written".to_string()) };
    // What the library says about an existing member: its value, or an error.
    let agree = |got: Option<anyhow::Result<T>>, before: &Option<Json>| -> Result<bool, String> {
        match (got, before) {
            (None, None) => Ok(true),
            (Some(Ok(t)), Some(b)) => {
                let w = written(t)?;
                ensure!(w == *b, "member {} = {b} is read as {w}", T::KEY);
                Ok(true)
            }
            (Some(Err(_)), Some(_)) => Ok(false),
            (g, b) => Err(format!("member {} = {b:?} is read as {g:?}", T::KEY)),
        }
    };
    let readable = T::try_from(before.clone().unwrap_or(Json::Null)).is_ok();
    let ok = match s {
        Step::Get => {
            let ok = agree(o.get::<T>(), &before)?;
            let p = o.get::<T>().parsing_error();
            ensure!(p.is_ok() == (before.is_some() && ok), "parsing_error() of {before:?}");
            ok
        }
        Step::Remove => {
            let r = o.remove::<T>();
            m.remove(T::KEY);
            agree(r, &before)?
        }
        Step::Insert(v) => {
            let t = T::try_from(v.clone()).map_err(|e| format!("the value {v} was refused: {e:#}"))?;
            let r = o.insert(t);
            m.insert(T::KEY.into(), v.clone());
            agree(r, &before)?
        }
    };
    ensure!(before.is_none() || ok == readable, "the existing member {before:?} was {}", if ok { "taken although ill-typed" } else { "not returned" });
    let after = Json::from(o);
    ensure!(after == Json::Object(m.clone()), "the object became {after}, expected {}", Json::Object(m.clone()));
    Ok(())
}

fn kinds() -> Vec<Kind> {
    macro_rules! k {
        ($t:ty, $key:literal, $good:expr, $bad:expr) => {
            Kind { key: $key, good: $good, bad: $bad, run: step::<$t> }
        };
    }
    let metadata_good: fn(&mut StdRng) -> Json = |r| Json::Object(gen::json_map(r, 2));
    let not_object: fn(&mut StdRng) -> Json = |r| pick(r, &[json!(null), json!(1), json!("a"), json!([1]), json!(0.5), json!(true)]).clone();
    vec![
        k!(ClientId, "client_id", text, not_string),
        k!(ClientMetadata, "client_metadata", metadata_good, not_object),
        k!(Nonce, "nonce", text, not_string),
        k!(Audience, "aud", text, not_string),
        k!(RedirectUri, "redirect_uri", url, not_url),
        k!(ResponseUri, "response_uri", url, not_url),
        k!(ResponseMode, "response_mode", |r| if chance(r, 0.5) { json!(*pick(r, &["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt"])) } else { text(r) }, not_string),
        k!(ResponseType, "response_type", |r| if chance(r, 0.5) { json!(*pick(r, &["vp_token", "vp_token id_token"])) } else { text(r) }, not_string),
        k!(State, "state", text, not_string),
        k!(ExpectedOrigins, "expected_origins", strings, not_strings),
        k!(TransactionData, "transaction_data", strings, not_strings),
        k!(VerifierInfo, "verifier_info", |r| { let n = r.gen_range(0..3); Json::Array((0..n).map(|_| gen::json_value(r, 2)).collect()) }, |r| pick(r, &[json!(null), json!(1), json!("a"), json!({"a": 1}), json!(0.5), json!(true)]).clone()),
        k!(RequestUriMethod, "request_uri_method", |r| json!(*pick(r, &["get", "post"])), |r| pick(r, &[json!("GET"), json!(""), json!("put"), json!(1), json!(null), json!("get ")]).clone()),
        k!(VpFormats, "vp_formats_supported", formats, not_object),
        k!(JWKs, "jwks", |r| { let n = r.gen_range(0..3); json!({"keys": (0..n).map(|_| Json::Object(gen::json_map(r, 1))).collect::<Vec<_>>()}) }, |r| pick(r, &[json!({}), json!({"keys": {}}), json!({"keys": [1]}), json!(null), json!({"keys": ["a"]}), json!({"key": []})]).clone()),
        k!(EncryptedResponseEncValuesSupported, "encrypted_response_enc_values_supported", strings, not_strings),
        k!(Issuer, "issuer", text, not_string),
        k!(AuthorizationEndpoint, "authorization_endpoint", |r| json!(gen::endpoint(r).as_str()), not_url),
        k!(ResponseTypesSupported, "response_types_supported", strings, not_strings),
        k!(ClientIdPrefixesSupported, "client_id_prefixes_supported", strings, not_strings),
        k!(RequestObjectSigningAlgValuesSupported, "request_object_signing_alg_values_supported", strings, not_strings),
        k!(VpFormatsSupported, "vp_formats_supported", formats, not_object),
        k!(AuthorizationEncryptionAlgValuesSupported, "authorization_encryption_alg_values_supported", strings, not_strings),
        k!(AuthorizationEncryptionEncValuesSupported, "authorization_encryption_enc_values_supported", strings, not_strings),
        k!(IdToken, "id_token", text, not_string),
        k!(VpToken, "vp_token", |r| vp_json(&vp_token(r)), |r| pick(r, &[json!("x"), json!([]), json!({"a": 1}), json!({"a": "x"}), json!({"a": [1]}), json!({"a": [0.5]}), json!(null)]).clone()),
        k!(DcqlQuery, "dcql_query", dcql::query, |r| pick(r, &[json!({}), json!({"credentials": []}), json!(null), json!("x"), json!({"credentials": [{}]})]).clone()),
    ]
}

pub fn c20(ctx: &mut Ctx) {
    ctx.rule = "sequences of typed operations on JSON objects compared with a plain map after every step, for all 27 parameter types; metadata life cycles; distinct by (type, operation, member state), resp. by metadata text".into();
    for c in ["get", "insert", "remove", "ill-typed member", "metadata", "metadata refused", "metadata additions", "defaults"] {
        ctx.require(c, 300);
    }
    let mut rng = ctx.fork_rng();
    let ks = kinds();
    for _ in 0..ctx.n(16_000, 160_000) {
        let mut m = Map::new();
        for _ in 0..rng.gen_range(0..4) {
            m.insert(gen::text(&mut rng), gen::json_value(&mut rng, 1));
        }
        let mut history: Vec<String> = vec![];
        for _ in 0..rng.gen_range(3..12) {
            let k = pick(&mut rng, &ks);
            if chance(&mut rng, 0.25) {
                // The peer's JSON may hold anything.
                let v = if chance(&mut rng, 0.5) { (k.bad)(&mut rng) } else { (k.good)(&mut rng) };
                history.push(format!("member {} = {v}", k.key));
                m.insert(k.key.into(), v);
            }
            let state = match m.get(k.key) {
                None => "absent",
                Some(_) => "present",
            };
            let (name, st) = match rng.gen_range(0..4) {
                0 => ("get", Step::Get),
                1 => ("remove", Step::Remove),
                _ => ("insert", Step::Insert((k.good)(&mut rng))),
            };
            history.push(format!("{name} {}", k.key));
            let mut after = m.clone();
            let got = guard(|| (k.run)(&mut after, &st)).and_then(|r| r);
            let held = ctx.judge(name, Some(&format!("{}/{state}", k.key)), || json!({"object": m, "history": history}), got);
            m = after;
            if !held {
                break;
            }
        }
        // An ill-typed member is an error under every typed operation.
        let k = pick(&mut rng, &ks);
        let bad = (k.bad)(&mut rng);
        let mut m = Map::new();
        m.insert("other".into(), json!(1));
        m.insert(k.key.into(), bad.clone());
        let good = (k.good)(&mut rng);
        let got = guard(|| ill_typed(k.key, &m, &good));
        ctx.judge("ill-typed member", Some(&format!("{}/{bad}", k.key)), || json!({k.key: bad}), got.and_then(|r| r));
        if ctx.saturated() {
            return;
        }
    }
    // Defaults apply only to absent members.
    for _ in 0..ctx.n(4_000, 40_000) {
        let bad = not_strings(&mut rng);
        let list = strings(&mut rng);
        let got = guard(|| {
            let o = |v: Json| serde_json::from_value::<UntypedObject>(v).unwrap();
            let e = o(json!({}));
            ensure!(e.get_or_default::<RequestObjectSigningAlgValuesSupported>().map(|a| a.0).ok() == Some(vec![]), "default algorithms");
            ensure!(e.get_or_default::<ClientIdPrefixesSupported>().map(Json::from).ok() == Some(json!(["pre-registered"])), "default prefixes");
            ensure!(e.get_or_default::<ResponseMode>().ok() == Some(ResponseMode::DirectPost), "default response mode");
            ensure!(e.get_or_default::<RequestUriMethod>().ok() == Some(RequestUriMethod::Get), "default request_uri_method");
            ensure!(e.get_or_default::<EncryptedResponseEncValuesSupported>().map(|a| a.0).ok() == Some(vec!["A128GCM".to_string()]), "default content encryption");
            let x = o(json!({"request_object_signing_alg_values_supported": bad, "client_id_prefixes_supported": bad, "encrypted_response_enc_values_supported": bad, "response_mode": [bad], "request_uri_method": [bad]}));
            ensure!(x.get_or_default::<RequestObjectSigningAlgValuesSupported>().is_err(), "{bad} became a default (algorithms)");
            ensure!(x.get_or_default::<ClientIdPrefixesSupported>().is_err(), "{bad} became a default (prefixes)");
            ensure!(x.get_or_default::<EncryptedResponseEncValuesSupported>().is_err(), "{bad} became a default (encryption)");
            ensure!(x.get_or_default::<ResponseMode>().is_err(), "an ill-typed response_mode became a default");
            ensure!(x.get_or_default::<RequestUriMethod>().is_err(), "an ill-typed request_uri_method became a default");
            let x = o(json!({"request_object_signing_alg_values_supported": list, "client_id_prefixes_supported": list, "encrypted_response_enc_values_supported": list}));
            ensure!(x.get_or_default::<RequestObjectSigningAlgValuesSupported>().map(|a| json!(a.0)).ok() == Some(list.clone()), "algorithms given as {list} replaced by a default");
            ensure!(x.get_or_default::<ClientIdPrefixesSupported>().map(Json::from).ok() == Some(list.clone()), "prefixes given as {list} replaced by a default");
            ensure!(x.get_or_default::<EncryptedResponseEncValuesSupported>().map(|a| json!(a.0)).ok() == Some(list.clone()), "encryption given as {list} replaced by a default");
            let cm = ClientMetadata(x);
            ensure!(cm.encrypted_response_enc_values_supported().map(|a| json!(a.0)).ok() == Some(list.clone()), "content encryption of client metadata");
            let cm = ClientMetadata(o(json!({"encrypted_response_enc_values_supported": bad})));
            ensure!(cm.encrypted_response_enc_values_supported().is_err(), "ill-typed content encryption became a default");
            let cm = ClientMetadata(o(json!({})));
            ensure!(cm.encrypted_response_enc_values_supported().map(|a| a.0).ok() == Some(vec!["A128GCM".to_string()]), "default content encryption of client metadata");
            ensure!(cm.jwks().is_none() && cm.vp_formats().is_err(), "absent metadata are found");
            Ok(())
        });
        let t = if chance(&mut rng, 0.3) { pick(&mut rng, &["direct_post", "direct_post.jwt", "dc_api", "dc_api.jwt", "vp_token", "vp_token id_token"]).to_string() } else { gen::text(&mut rng) };
        let texts = guard(|| {
            let mode = ResponseMode::from(t.clone());
            ensure!(mode.to_string() == t && Json::from(mode.clone()) == json!(t), "response mode {t:?} is written {mode}");
            let want = match t.as_str() {
                "direct_post" | "dc_api" => Some(false),
                "direct_post.jwt" | "dc_api.jwt" => Some(true),
                _ => None,
            };
            ensure!(mode.is_jarm().ok() == want, "is_jarm() of {t:?}");
            ensure!(Json::from(ResponseType::from(t.clone())) == json!(t), "response type {t:?} is written differently");
            for n in [Nonce::from(t.as_str()), Nonce::from(t.clone())] {
                ensure!(*n == t && n.to_string() == t && Json::from(n) == json!(t), "nonce {t:?} is written differently");
            }
            ensure!(*ClientIdScheme(t.clone()) == *t, "prefix {t:?} is read differently");
            Ok(())
        });
        ctx.judge("text forms", Some(&t), || json!(t), texts.and_then(|r| r));
        ctx.judge("defaults", Some(&format!("{bad}/{list}")), || json!({"ill-typed": bad, "list": list}), got.and_then(|r| r));
    }
    for _ in 0..ctx.n(24_000, 240_000) {
        metadata_case(ctx, &mut rng);
        if ctx.saturated() {
            return;
        }
    }
}

fn ill_typed(key: &str, m: &Map<String, Json>, good: &Json) -> Result<(), String> {
    fn go<T: TypedParameter>(m: &Map<String, Json>, good: &Json) -> Result<(), String> {
        let o: UntypedObject = serde_json::from_value(Json::Object(m.clone())).unwrap();
        ensure!(matches!(o.get::<T>(), Some(Err(_))), "ill-typed {} was read as {:?}", T::KEY, o.get::<T>());
        let mut p = o.clone();
        ensure!(matches!(p.remove::<T>(), Some(Err(_))), "removing ill-typed {} did not give an error", T::KEY);
        ensure!(Json::from(p) == json!({"other": 1}), "removing ill-typed {} left something else", T::KEY);
        let mut p = o.clone();
        let t = T::try_from(good.clone()).map_err(|e| format!("{good} was refused: {e:#}"))?;
        ensure!(matches!(p.insert(t), Some(Err(_))), "replacing ill-typed {} did not give an error", T::KEY);
        ensure!(Json::from(p) == json!({"other": 1, T::KEY: good}), "replacing ill-typed {} lost something", T::KEY);
        Ok(())
    }
    match key {
        "client_id" => go::<ClientId>(m, good),
        "client_metadata" => go::<ClientMetadata>(m, good),
        "nonce" => go::<Nonce>(m, good),
        "aud" => go::<Audience>(m, good),
        "redirect_uri" => go::<RedirectUri>(m, good),
        "response_uri" => go::<ResponseUri>(m, good),
        "response_mode" => go::<ResponseMode>(m, good),
        "response_type" => go::<ResponseType>(m, good),
        "state" => go::<State>(m, good),
        "expected_origins" => go::<ExpectedOrigins>(m, good),
        "transaction_data" => go::<TransactionData>(m, good),
        "verifier_info" => go::<VerifierInfo>(m, good),
        "request_uri_method" => go::<RequestUriMethod>(m, good),
        "vp_formats_supported" => go::<VpFormats>(m, good).and_then(|_| go::<VpFormatsSupported>(m, good)),
        "jwks" => go::<JWKs>(m, good),
        "encrypted_response_enc_values_supported" => go::<EncryptedResponseEncValuesSupported>(m, good),
        "issuer" => go::<Issuer>(m, good),
        "authorization_endpoint" => go::<AuthorizationEndpoint>(m, good),
        "response_types_supported" => go::<ResponseTypesSupported>(m, good),
        "client_id_prefixes_supported" => go::<ClientIdPrefixesSupported>(m, good),
        "request_object_signing_alg_values_supported" => go::<RequestObjectSigningAlgValuesSupported>(m, good),
        "authorization_encryption_alg_values_supported" => go::<AuthorizationEncryptionAlgValuesSupported>(m, good),
        "authorization_encryption_enc_values_supported" => go::<AuthorizationEncryptionEncValuesSupported>(m, good),
        "id_token" => go::<IdToken>(m, good),
        "vp_token" => go::<VpToken>(m, good),
        "dcql_query" => go::<DcqlQuery>(m, good),
        k => Err(format!("no such kind {k}")),
    }
}

fn metadata_case(ctx: &mut Ctx, rng: &mut StdRng) {
    let mut m = Map::new();
    m.insert("authorization_endpoint".into(), json!(gen::endpoint(rng).as_str()));
    m.insert("vp_formats_supported".into(), formats(rng));
    if chance(rng, 0.5) {
        m.insert("client_id_prefixes_supported".into(), json!(gen::ids_list(rng, ALL_PREFIXES, 4)));
    }
    if chance(rng, 0.5) {
        m.insert("request_object_signing_alg_values_supported".into(), json!(gen::ids_list(rng, &["ES256", "EdDSA", "none", "x"], 4)));
    }
    for _ in 0..rng.gen_range(0..4) {
        m.insert(format!("x{}", gen::text(rng)), gen::json_value(rng, 2));
    }
    let j = Json::Object(m.clone());
    let alg: ssi_jwk::Algorithm = *pick(rng, &[ssi_jwk::Algorithm::ES256, ssi_jwk::Algorithm::EdDSA, ssi_jwk::Algorithm::ES384, ssi_jwk::Algorithm::ES256K]);
    let n = rng.gen_range(0..4);
    let adds: Vec<String> = (0..n).map(|_| if chance(rng, 0.5) { pick(rng, ALL_PREFIXES).to_string() } else { gen::text(rng) }).collect();
    let got = guard(|| {
        let w: WalletMetadata = serde_json::from_value(j.clone()).map_err(|e| format!("refused: {e}"))?;
        ensure!(serde_json::to_value(&w).unwrap() == j, "came back as {}", serde_json::to_value(&w).unwrap());
        let t: WalletMetadata = serde_json::from_str(&serde_json::to_string(&w).unwrap()).map_err(|e| format!("own text refused: {e}"))?;
        ensure!(serde_json::to_value(&t).unwrap() == j, "text came back as {}", serde_json::to_value(&t).unwrap());
        ensure!(w.authorization_endpoint().0.as_str() == m["authorization_endpoint"], "authorization_endpoint() is {}", w.authorization_endpoint().0);
        ensure!(serde_json::to_value(&w.vp_formats_supported().0).unwrap() == m["vp_formats_supported"], "vp_formats_supported() differs");
        for f in ["jwt_vc_json", "ldp_vc", "mso_mdoc", "dc+sd-jwt", "other"] {
            ensure!(w.vp_formats_supported().is_claim_format_supported(&f.into()) == m["vp_formats_supported"].get(f).is_some(), "is_claim_format_supported({f})");
        }
        // From its parts.
        let mut rest = m.clone();
        rest.remove("authorization_endpoint");
        rest.remove("vp_formats_supported");
        let none = rest.is_empty();
        let other: UntypedObject = serde_json::from_value(Json::Object(rest)).unwrap();
        let built = WalletMetadata::new(w.authorization_endpoint().clone(), w.vp_formats_supported().clone(), if none { None } else { Some(other) });
        ensure!(serde_json::to_value(&built).unwrap() == j, "built from parts it is {}", serde_json::to_value(&built).unwrap());
        ensure!(built.get::<AuthorizationEndpoint>().and_then(|r| r.ok()).map(|e| e.0) == Some(w.authorization_endpoint().0.clone()), "built from parts its endpoint member is missing");
        Ok::<(), String>(())
    });
    ctx.judge("metadata", Some(&j.to_string()), || j.clone(), got.and_then(|r| r));
    let got = guard(|| {
        let mut w: WalletMetadata = serde_json::from_value(j.clone()).map_err(|e| e.to_string())?;
        let mut want = m.clone();
        let app = |want: &mut Map<String, Json>, k: &str, d: Json, v: Vec<Json>| {
            let mut l = want.get(k).cloned().unwrap_or(d).as_array().unwrap().clone();
            l.extend(v);
            want.insert(k.into(), Json::Array(l));
        };
        w.add_request_object_signing_alg_values_supported(alg).map_err(|e| format!("adding an algorithm: {e:#}"))?;
        app(&mut want, "request_object_signing_alg_values_supported", json!([]), vec![json!(alg.to_string())]);
        ensure!(serde_json::to_value(&w).unwrap() == Json::Object(want.clone()), "adding {alg} gives {}", serde_json::to_value(&w).unwrap());
        let ids: Vec<_> = adds.iter().map(|a| ClientIdScheme(a.clone())).collect();
        w.add_client_id_prefixes_supported(&ids).map_err(|e| format!("adding prefixes: {e:#}"))?;
        app(&mut want, "client_id_prefixes_supported", json!(["pre-registered"]), adds.iter().map(|a| json!(a)).collect());
        ensure!(serde_json::to_value(&w).unwrap() == Json::Object(want.clone()), "adding {adds:?} gives {}", serde_json::to_value(&w).unwrap());
        w.add_request_object_signing_alg_values_supported(alg).map_err(|e| format!("adding an algorithm again: {e:#}"))?;
        app(&mut want, "request_object_signing_alg_values_supported", json!([]), vec![json!(alg.to_string())]);
        let algs = w.get_or_default::<RequestObjectSigningAlgValuesSupported>().map_err(|e| e.to_string())?;
        ensure!(json!(algs.0) == want["request_object_signing_alg_values_supported"], "after another addition the algorithms are {:?}", algs.0);
        // Formats changed in place are the formats from then on.
        let added = format!("x{}", adds.first().map_or("", |a| a.as_str()));
        w.vp_formats_supported_mut().0.insert(added.as_str().into(), ClaimFormatPayload::AlgValues(vec![alg.to_string()]));
        want["vp_formats_supported"].as_object_mut().unwrap().insert(added.clone(), json!({"alg_values": [alg.to_string()]}));
        ensure!(serde_json::to_value(&w.vp_formats_supported().0).unwrap() == want["vp_formats_supported"], "vp_formats_supported() without the format added in place");
        ensure!(w.vp_formats_supported().is_claim_format_supported(&added.as_str().into()), "the format added in place is not supported");
        ensure!(serde_json::to_value(&w).unwrap() == Json::Object(want.clone()), "adding the format {added} in place gives {}", serde_json::to_value(&w).unwrap());
        // Ill-typed lists are errors and stay.
        let mut broken = m.clone();
        broken.insert("request_object_signing_alg_values_supported".into(), json!("ES256"));
        broken.insert("client_id_prefixes_supported".into(), json!({"a": 1}));
        let mut w: WalletMetadata = serde_json::from_value(Json::Object(broken.clone())).map_err(|e| e.to_string())?;
        ensure!(w.add_request_object_signing_alg_values_supported(alg).is_err() && w.add_client_id_prefixes_supported(&ids).is_err(), "an ill-typed list was replaced");
        ensure!(serde_json::to_value(&w).unwrap() == Json::Object(broken), "a failed addition changed the metadata");
        Ok(())
    });
    ctx.judge("metadata additions", None, || json!({"metadata": j, "alg": alg.to_string(), "prefixes": adds}), got.and_then(|r| r));
    let mut bad = m.clone();
    match rng.gen_range(0..4) {
        0 => {
            bad.remove("authorization_endpoint");
        }
        1 => {
            bad.remove("vp_formats_supported");
        }
        2 => {
            bad.insert("authorization_endpoint".into(), not_url(rng));
        }
        _ => {
            bad.insert("vp_formats_supported".into(), pick(rng, &[json!(null), json!(1), json!([1]), json!("mso_mdoc")]).clone());
        }
    }
    let b = Json::Object(bad);
    let got = guard(|| serde_json::from_value::<WalletMetadata>(b.clone()).is_ok());
    ctx.judge("metadata refused", None, || b.clone(), got.and_then(|ok| {
        ensure!(!ok, "metadata without usable endpoint or formats were accepted: {b}");
        Ok(())
    }));
}

// --- C24 ---

pub fn c24(ctx: &mut Ctx) {
    ctx.rule = "format identifiers (standard, near misses, arbitrary text) through every conversion, and capability maps; distinct by identifier, resp. by map".into();
    for c in ["standard identifier", "other identifier", "capability map", "supported method", "unsupported method", "additions", "claim format"] {
        ctx.require(c, 200);
    }
    let mut rng = ctx.fork_rng();
    let std: [(&str, ClaimFormatDesignation); 4] = [
        ("jwt_vc_json", ClaimFormatDesignation::JwtVcJson),
        ("ldp_vc", ClaimFormatDesignation::LdpVc),
        ("mso_mdoc", ClaimFormatDesignation::MsoMDoc),
        ("dc+sd-jwt", ClaimFormatDesignation::DcSdJwt),
    ];
    for _ in 0..ctx.n(80_000, 800_000) {
        let name = match rng.gen_range(0..4) {
            0 => std[rng.gen_range(0..4)].0.to_string(),
            1 => {
                let s = std[rng.gen_range(0..4)].0;
                gen::near_miss(&mut rng, s)
            }
            2 => pick(&mut rng, &["vc+sd-jwt", "jwt_vc", "ldp_vp", "jwt_vp_json", "mdoc", "jwt_vc_json-ld", "dc sd-jwt", "dc%2Bsd-jwt", "JWT_VC_JSON", "MsoMDoc", "Other"]).to_string(),
            _ => gen::text(&mut rng),
        };
        let want = std.iter().find(|s| s.0 == name).map(|s| s.1.clone()).unwrap_or(ClaimFormatDesignation::Other(name.clone()));
        let class = if matches!(want, ClaimFormatDesignation::Other(_)) { "other identifier" } else { "standard identifier" };
        let got = guard(|| {
            let all = [
                ClaimFormatDesignation::from(name.as_str()),
                ClaimFormatDesignation::from(name.clone()),
                name.parse::<ClaimFormatDesignation>().unwrap(),
                ClaimFormatDesignation::from_name(name.as_str().into()),
                ClaimFormatDesignation::from_name(name.clone().into()),
                serde_json::from_value(json!(name)).map_err(|e| format!("refused: {e}"))?,
                serde_json::from_str(&json!(name).to_string()).map_err(|e| format!("refused: {e}"))?,
            ];
            for (i, d) in all.iter().enumerate() {
                ensure!(*d == want, "conversion {i} of {name:?} gives {d:?}");
            }
            ensure!(want.to_string() == name && String::from(want.clone()) == name, "{want:?} is written {:?}", want.to_string());
            ensure!(serde_json::to_value(&want).unwrap() == json!(name), "{want:?} is written {}", serde_json::to_value(&want).unwrap());
            Ok(())
        });
        ctx.judge(class, Some(&name), || json!(name), got.and_then(|r| r));
        // Capability maps.
        let f = formats(&mut rng);
        let format = match f.as_object().unwrap().keys().collect::<Vec<_>>() {
            ks if !ks.is_empty() && chance(&mut rng, 0.8) => ks[rng.gen_range(0..ks.len())].clone(),
            _ => dcql::format_name(&mut rng),
        };
        let methods = |p: &Json| -> Vec<String> {
            p.as_object().into_iter().flat_map(|o| o.values()).flat_map(|l| l.as_array().into_iter().flatten()).filter_map(Json::as_str).map(str::to_string).collect()
        };
        let (own, any) = (f.get(&format).map(methods).unwrap_or_default(), f.as_object().unwrap().values().flat_map(methods).collect::<Vec<_>>());
        let method = match rng.gen_range(0..6) {
            0 => gen::text(&mut rng),
            1 if !any.is_empty() => pick(&mut rng, &any).clone(),
            2 if !own.is_empty() => {
                let m = pick(&mut rng, &own).clone();
                gen::near_miss(&mut rng, &m)
            }
            _ if !own.is_empty() => pick(&mut rng, &own).clone(),
            _ => "ES256".into(),
        };
        // A payload lists methods if it is an object with exactly one list of strings under one of the two names.
        let listed = f.get(&format).and_then(|p| {
            let o = p.as_object()?;
            if o.len() != 1 {
                return None;
            }
            let l = o.get("alg_values").or(o.get("proof_type_values"))?.as_array()?;
            l.iter().map(|s| s.as_str().map(str::to_string)).collect::<Option<Vec<_>>>()
        });
        let supported = listed.as_ref().is_some_and(|l| l.contains(&method));
        let got = guard(|| {
            let m: ClaimFormatMap = serde_json::from_value(f.clone()).map_err(|e| format!("refused: {e}"))?;
            ensure!(serde_json::to_value(&m).unwrap() == f, "came back as {}", serde_json::to_value(&m).unwrap());
            let m2: ClaimFormatMap = serde_json::from_str(&f.to_string()).map_err(|e| format!("text refused: {e}"))?;
            ensure!(m == m2, "text and value parse differently");
            Ok(VpFormats(m))
        });
        let map = got.as_ref().ok().and_then(|r| r.as_ref().ok()).cloned();
        ctx.judge("capability map", Some(&f.to_string()), || f.clone(), got.and_then(|r| r.map(|_| ())));
        if let Some(v) = map {
            let got = guard(|| v.supports_security_method(&format.as_str().into(), &method));
            let class = if supported { "supported method" } else { "unsupported method" };
            ctx.judge(class, Some(&format!("{f}/{format}/{method}")), || json!({"formats": f, "format": format, "method": method}), got.and_then(|s| {
                ensure!(s == supported, "{format}/{method} reported {} by {f}", if s { "supported" } else { "unsupported" });
                Ok(())
            }));
        }
        // Additions.
        let p = payload(&mut rng);
        let add = gen::text(&mut rng);
        let got = guard(|| {
            let start: ClaimFormatPayload = serde_json::from_value(p.clone()).map_err(|e| format!("payload refused: {e}"))?;
            let list = |k: &str| p.as_object().filter(|o| o.len() == 1).and_then(|o| o.get(k)).and_then(Json::as_array).filter(|l| l.iter().all(Json::is_string)).cloned();
            let mut a = start.clone();
            a.add_alg(add.clone());
            let want = list("alg_values").map(|mut l| { l.push(json!(add)); json!({"alg_values": l}) }).unwrap_or(p.clone());
            ensure!(serde_json::to_value(&a).unwrap() == want, "add_alg to {p} gives {}", serde_json::to_value(&a).unwrap());
            let mut b = start.clone();
            b.add_proof_type(add.clone());
            let want = list("proof_type_values").map(|mut l| { l.push(json!(add)); json!({"proof_type_values": l}) }).unwrap_or(p.clone());
            ensure!(serde_json::to_value(&b).unwrap() == want, "add_proof_type to {p} gives {}", serde_json::to_value(&b).unwrap());
            Ok(())
        });
        ctx.judge("additions", Some(&p.to_string()), || json!({"payload": p, "add": add}), got.and_then(|r| r));
        // Formats with their metadata.
        let (j, d) = match rng.gen_range(0..6) {
            0 => (json!({"jwt_vc_json": {"alg_values_supported": strings(&mut rng)}}), ClaimFormatDesignation::JwtVcJson),
            1 => (json!({"ldp_vc": {"proof_type": strings(&mut rng)}}), ClaimFormatDesignation::LdpVc),
            2 => (json!({"mso_mdoc": gen::json_value(&mut rng, 2)}), ClaimFormatDesignation::MsoMDoc),
            3 => (json!({"dc+sd-jwt": gen::json_value(&mut rng, 2)}), ClaimFormatDesignation::DcSdJwt),
            _ => {
                let k = format!("x{}", gen::text(&mut rng));
                (json!({k.clone(): gen::json_value(&mut rng, 2)}), ClaimFormatDesignation::Other(k))
            }
        };
        let got = guard(|| {
            let c: ClaimFormat = serde_json::from_value(j.clone()).map_err(|e| format!("refused: {e}"))?;
            ensure!(c.designation() == d, "designation of {j} is {:?}", c.designation());
            ensure!(serde_json::to_value(&c).unwrap() == j, "came back as {}", serde_json::to_value(&c).unwrap());
            Ok(())
        });
        ctx.judge("claim format", Some(&j.to_string()), || j.clone(), got.and_then(|r| r));
        if ctx.saturated() {
            return;
        }
    }
}

// --- C25 ---

/// Counts what is drawn from the random source.
struct Counting<R>(R, u64);
impl<R: RngCore> RngCore for Counting<R> {
    fn next_u32(&mut self) -> u32 {
        self.1 += 1;
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 2;
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.1 += d.len() as u64;
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

pub fn c25(ctx: &mut Ctx) {
    ctx.rule = "nonces of all lengths from seeded sources: length, alphabet, determinism, freshness, per-position statistics; distinct by nonce".into();
    ctx.assumptions.push("Uniformity is judged by wide per-position bounds (failure probability below 1e-12 for a uniform generator) from a fixed-seed source.".into());
    for c in ["shape", "determined by the source", "fresh", "statistics"] {
        ctx.require(c, 1);
    }
    let mut rng = ctx.fork_rng();
    let mut all: HashSet<String> = HashSet::new();
    for i in 0..ctx.n(24_000, 240_000) {
        let len = if i < 300 { i } else { *pick(&mut rng, &[0usize, 1, 2, 8, 16, 20, 21, 22, 24, 31, 32, 33, 43, 48, 64, 128, 255, 256, 1000, 1023, 1024, 1025, 4096, 5000]) };
        let seed: u64 = rng.gen();
        let got = guard(|| {
            let mut a = Counting(StdRng::seed_from_u64(seed), 0);
            let mut b = StdRng::seed_from_u64(seed);
            let x = Nonce::random(&mut a, len);
            // The same state at another time.
            let time = crate::clock::Later::now();
            time.pass((seed % 100_000) as i64 + 1);
            let y = Nonce::random(&mut b, len);
            (x, y, Nonce::random(&mut a, len), a.1)
        });
        let mut text = None;
        ctx.judge("shape", Some(&len.to_string()), || json!({"length": len, "seed": seed}), got.as_ref().map_err(|e| e.clone()).and_then(|(x, ..)| {
            ensure!(x.chars().count() == len && x.len() == len, "a nonce of length {} for {len}: {x:?}", x.chars().count());
            ensure!(x.chars().all(|c| c.is_ascii_alphanumeric()), "a nonce with other characters: {x:?}");
            ensure!(Json::from(x.clone()) == json!(x.to_string()) && x.as_str() == x.to_string(), "the nonce is written differently");
            text = Some(x.to_string());
            Ok(())
        }));
        ctx.judge("determined by the source", None, || json!({"length": len, "seed": seed}), got.as_ref().map_err(|e| e.clone()).and_then(|(x, y, z, drawn)| {
            ensure!(**x == **y, "the same source state gives {:?} and {:?}", x.as_str(), y.as_str());
            if len >= 16 {
                ensure!(**x != **z, "consecutive nonces repeat: {:?}", x.as_str());
            }
            ensure!(*drawn as usize >= 2 * len * 6 / 32, "only {drawn} words drawn for two nonces of length {len}");
            Ok(())
        }));
        if len >= 16 {
            let t = text.unwrap_or_default();
            let fresh = all.insert(t.clone());
            ctx.judge("fresh", None, || json!({"nonce": t}), if fresh { Ok(()) } else { Err(format!("the nonce {t:?} was given for two different source states")) });
        }
        if ctx.saturated() {
            return;
        }
    }
    // Every letter and digit occurs at every position, with its share; pairs of positions do not repeat each other.
    let n = ctx.n(200_000, 1_000_000);
    for len in [1usize, 16, 32, 43] {
        let mut counts = vec![[0u32; 128]; len];
        let mut equal = vec![0u32; len * len];
        let mut src = StdRng::seed_from_u64(rng.gen());
        let mut bad = None;
        for _ in 0..n {
            match guard(|| Nonce::random(&mut src, len).to_string()) {
                Ok(s) if s.len() == len && s.is_ascii() => {
                    let b = s.as_bytes();
                    for i in 0..len {
                        counts[i][b[i] as usize] += 1;
                        for k in 0..i {
                            equal[i * len + k] += (b[i] == b[k]) as u32;
                        }
                    }
                }
                Ok(s) => bad = Some(format!("nonce {s:?} of length {len}")),
                Err(e) => bad = Some(e),
            }
        }
        let verdict = (|| {
            if let Some(b) = bad {
                return Err(b);
            }
            let mean = n as f64 / 62.0;
            let sd = (mean * (1.0 - 1.0 / 62.0)).sqrt();
            for i in 0..len {
                for c in (b'0'..=b'9').chain(b'A'..=b'Z').chain(b'a'..=b'z') {
                    let x = counts[i][c as usize] as f64;
                    ensure!((x - mean).abs() < 8.0 * sd, "'{}' occurs {x} times at position {i} of {n} nonces of length {len} (expected about {mean:.0})", c as char);
                }
                for k in 0..i {
                    let x = equal[i * len + k] as f64;
                    ensure!((x - mean).abs() < 8.0 * sd, "positions {k} and {i} agree in {x} of {n} nonces (expected about {mean:.0})");
                }
            }
            Ok(())
        })();
        ctx.judge("statistics", Some(&len.to_string()), || json!({"length": len, "nonces": n}), verdict);
    }
}
