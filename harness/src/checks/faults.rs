//! C13: every collaborator call of every operation is failed, before and after its effect, and every operation is
//! abandoned at each of its suspension points.
use super::{
    dcql,
    objects::outcome,
    verifier::{request_param, uuid, world, World},
    wallet::{self, jwt_of, TYP},
};
use crate::{
    certs::{Cert, Key, San},
    ctx::{guard, Ctx},
    ensure,
    exec::{block_on, run_then_drop},
    gen::{self, pick},
    mocks::*,
    refs,
};
use openid4vp::{
    core::{
        authorization_request::{verification::did::verify_with_resolver, AuthorizationRequestObject},
        dcql_query::DcqlQuery,
        response::AuthorizationResponse,
    },
    verifier::{
        client::{Client, DIDClient, X509HashClient, X509SanDnsClient},
        session::{SessionStore, Status},
        Verifier,
    },
    wallet::Wallet,
};
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value as Json};
use std::{collections::BTreeMap, future::Future, pin::Pin, sync::Arc};
use url::Url;
use uuid::Uuid;

const KINDS: &[&str] = &[
    "build", "build x509_san_dns", "build x509_hash", "build did", "build_dc_api", "build_dc_api x509_hash", "retrieve", "verify", "poll",
    "did client", "validate by value", "validate by reference", "submit", "did check",
];

/// One operation in its surroundings, repeatable.
struct Scene {
    probe: Probe,
    store: TestStore,
    /// Sessions that existed before, and the target.
    ids: Vec<Uuid>,
    run: Box<dyn Fn() -> Pin<Box<dyn Future<Output = Result<Json, String>>>>>,
}

fn err(e: anyhow::Error) -> String {
    format!("{e:#}")
}

fn real_client(rng: &mut StdRng, kind: &str, probe: &Probe) -> Arc<dyn Client + Send + Sync> {
    let key = Key::p256(rng);
    let signer = Arc::new(TestSigner::new(&key, probe));
    let cert = Cert::new(rng, key.clone(), vec![San::Dns("verifier.example.com".into())], "v", &key).parsed();
    match kind {
        "build x509_san_dns" => Arc::new(X509SanDnsClient::new(vec![cert], signer).unwrap()),
        "build x509_hash" | "build_dc_api x509_hash" => Arc::new(X509HashClient::new(vec![cert], signer).unwrap()),
        _ => {
            let vm = "did:web:verifier.example.com#k".to_string();
            let r = TestResolver { keys: [(vm.clone(), serde_json::from_value(key.jwk()).unwrap())].into(), probe: probe.clone() };
            Arc::new(block_on(DIDClient::new(vm, signer, r)).unwrap())
        }
    }
}

fn scene(kind: &'static str, seed: u64, yields: bool) -> Scene {
    let mut rng = StdRng::seed_from_u64(seed);
    let rng = &mut rng;
    let w: World = world(rng, false, yields);
    let by_ref = w.by_reference.clone();
    let md = metadata(json!({"authorization_endpoint": gen::endpoint(rng).as_str(), "vp_formats_supported": {"mso_mdoc": {}},
        "client_id_prefixes_supported": ALL_PREFIXES, "request_object_signing_alg_values_supported": ["ES256"]}));
    let mut verifier = w.verifier.clone();
    let probe = w.probe.clone();
    let store = w.store.clone();
    if kind.starts_with("build ") || kind == "build_dc_api x509_hash" {
        let client = real_client(rng, kind, &probe);
        let mut b = Verifier::builder()
            .with_client(client)
            .with_session_store(Arc::new(store.clone()))
            .with_submission_endpoint(w.submission.clone());
        if let Some(at) = by_ref {
            b = b.by_reference(at);
        }
        verifier = block_on(b.build()).unwrap();
    }
    let query: DcqlQuery = serde_json::from_value(dcql::small_query(rng)).unwrap();
    let mode = *pick(rng, &["direct_post", "direct_post.jwt"]);
    let nonce = gen::text(rng);
    let target = uuid(rng);
    let mut ids = vec![target];
    // Other sessions, which must stay as they are.
    let setup = |id: Uuid, v: &Verifier| {
        let mut b = v.build_authorization_request().with_dcql_query(query.clone());
        for (k, x) in [("nonce", json!(nonce)), ("response_type", json!("vp_token")), ("response_mode", json!(mode))] {
            b = request_param(b, k, x);
        }
        block_on(b.build_with_session_id(id, md.clone())).unwrap();
    };
    for _ in 0..rng.gen_range(0..3) {
        let id = uuid(rng);
        setup(id, &verifier);
        ids.push(id);
    }
    let run: Box<dyn Fn() -> Pin<Box<dyn Future<Output = Result<Json, String>>>>> = match kind {
        "build" | "build x509_san_dns" | "build x509_hash" | "build did" | "build_dc_api" | "build_dc_api x509_hash" => {
            let dc = kind.starts_with("build_dc_api");
            Box::new(move || {
                let (verifier, query, nonce, md) = (verifier.clone(), query.clone(), nonce.clone(), md.clone());
                Box::pin(async move {
                    let mut b = verifier.build_authorization_request().with_dcql_query(query.clone());
                    for (k, x) in [("nonce", json!(nonce)), ("response_type", json!("vp_token")), ("response_mode", json!(mode))] {
                        b = request_param(b, k, x);
                    }
                    if dc {
                        let (id, jwt) = b.build_dc_api().await.map_err(err)?;
                        Ok(json!({"id": id.to_string(), "jwt": jwt}))
                    } else {
                        let u = b.build_with_session_id(target, md).await.map_err(err)?;
                        Ok(json!({"id": target.to_string(), "url": u.as_str()}))
                    }
                })
            })
        }
        "retrieve" | "verify" | "poll" => {
            setup(target, &verifier);
            // At any stage of its life.
            let stage = match rng.gen_range(0..6) {
                0 => Some(Status::SentRequest),
                1 => Some(Status::ReceivedResponse),
                2 => Some(Status::Complete(outcome(rng).0)),
                _ => None,
            };
            if let Some(st) = stage {
                block_on(store.inner.update_status(target, st)).unwrap();
            }
            let (o, _, _) = outcome(rng);
            let resp = wallet::response(rng);
            let p = probe.clone();
            Box::new(move || {
                let (verifier, o, resp, p) = (verifier.clone(), o.clone(), resp.clone(), p.clone());
                Box::pin(async move {
                    match kind {
                        "retrieve" => verifier.retrieve_authorization_request(target).await.map(|j| json!(j)).map_err(err),
                        "poll" => verifier.poll_status(target).await.map(|s| serde_json::to_value(s).unwrap()).map_err(err),
                        _ => verifier
                            .verify_response(target, resp, move |_, _| {
                                p.note("validator", Json::Null);
                                let p = p.clone();
                                Box::pin(async move {
                                    p.pause_for_test().await;
                                    o
                                })
                            })
                            .await
                            .map(|_| json!("verified"))
                            .map_err(err),
                    }
                })
            })
        }
        "did client" => {
            let key = Key::p256(rng);
            let p = probe.clone();
            Box::new(move || {
                let (key, p) = (key.clone(), p.clone());
                Box::pin(async move {
                    let vm = "did:web:verifier.example.com#k".to_string();
                    let r = TestResolver { keys: [(vm.clone(), serde_json::from_value(key.jwk()).unwrap())].into(), probe: p.clone() };
                    DIDClient::new(vm, Arc::new(TestSigner::new(&key, &p)), r).await.map(|c| json!(c.id().0)).map_err(err)
                })
            })
        }
        "validate by value" | "validate by reference" => {
            let mut payload = wallet::base_payload(rng);
            let id = format!("{}:{}", pick(rng, &["x509_san_dns", "redirect_uri", "decentralized_identifier", "x509_hash"]), gen::text(rng));
            payload.insert("client_id".into(), json!(id));
            let jwt = jwt_of(rng, &json!({"alg": "ES256", "typ": TYP}), &Json::Object(payload.clone()));
            let http = Http::answer(&probe, 200, jwt.clone().into_bytes());
            let tw = TestWallet::accepting(permissive_metadata(), http, &probe);
            let mut url = Url::parse("openid4vp:").unwrap();
            let req = if kind == "validate by value" { format!("request={jwt}") } else { format!("request_uri={}", refs::form_encode("https://verifier.example.com/r/1")) };
            url.set_query(Some(&format!("client_id={}&{req}", refs::form_encode(&id))));
            Box::new(move || {
                let (tw, url) = (tw.clone(), url.clone());
                Box::pin(async move { tw.validate_request(url).await.map(|a| aro_json(&a)).map_err(err) })
            })
        }
        "submit" => {
            let mut payload = wallet::base_payload(rng);
            payload.insert("client_id".into(), json!("x509_san_dns:example.com"));
            payload.insert("response_mode".into(), json!(mode));
            payload.insert("response_uri".into(), json!(gen::http_url(rng).to_string()));
            let aro: AuthorizationRequestObject = serde_json::from_value(Json::Object(payload)).unwrap();
            let resp = loop {
                let r = wallet::response(rng);
                if matches!(r, AuthorizationResponse::Unencoded(_)) == (mode == "direct_post") {
                    break r;
                }
            };
            let http = Http::answer(&probe, 200, br#"{"redirect_uri": "https://verifier.example.com/done"}"#.to_vec());
            let tw = TestWallet::accepting(permissive_metadata(), http, &probe);
            Box::new(move || {
                let (tw, aro, resp) = (tw.clone(), aro.clone(), resp.clone());
                Box::pin(async move { tw.submit_response(aro, resp).await.map(|u| json!(u.map(|u| u.to_string()))).map_err(err) })
            })
        }
        _ => {
            let key = Key::p256(rng);
            let did = "did:web:verifier.example.com";
            let vm = format!("{did}#k");
            let mut payload = wallet::base_payload(rng);
            payload.insert("client_id".into(), json!(format!("decentralized_identifier:{did}")));
            let input = format!(
                "{}.{}",
                refs::b64url(json!({"alg": "ES256", "kid": vm, "typ": TYP}).to_string().as_bytes()),
                refs::b64url(Json::Object(payload.clone()).to_string().as_bytes())
            );
            let jwt = format!("{input}.{}", refs::b64url(&key.sign(input.as_bytes())));
            let aro: AuthorizationRequestObject = serde_json::from_value(Json::Object(payload)).unwrap();
            let p = probe.clone();
            Box::new(move || {
                let (md, aro, jwt, vm, key, p) = (md.clone(), aro.clone(), jwt.clone(), vm.clone(), key.clone(), p.clone());
                Box::pin(async move {
                    let r = TestResolver { keys: [(vm, serde_json::from_value(key.jwk()).unwrap())].into(), probe: p };
                    verify_with_resolver(&md, &aro, jwt, None, r).await.map(|_| json!("genuine")).map_err(err)
                })
            })
        }
    };
    probe.reset();
    Scene { probe, store, ids, run }
}

type Snapshot = BTreeMap<Uuid, Option<Json>>;

fn snapshot(s: &Scene, extra: &[Uuid]) -> Snapshot {
    s.ids.iter().chain(extra).map(|i| (*i, block_on(s.store.inner.get_session(*i)).ok().map(|s| session_json(&s)))).collect()
}

/// Session ids named in events that initiate one.
fn initiated(s: &Scene) -> Vec<(Uuid, Json)> {
    s.probe.log().into_iter().filter(|e| e.0 == "store.initiate").map(|e| (e.1["uuid"].as_str().unwrap().parse().unwrap(), e.1)).collect()
}

const EFFECTS: &[&str] = &["http", "store.initiate", "store.update", "store.remove", "client", "client.jwt", "signer.sign", "validator", "verify"];

/// A complete run without faults in a fresh scene with the same seed must look like this.
fn complete(s: &Scene, kind: &str, out: &Result<Json, String>, before: &Snapshot) -> Result<(), String> {
    let r = out.as_ref().map_err(|e| format!("without a fault it fails: {e}"))?;
    let inits = initiated(s);
    let extra: Vec<Uuid> = inits.iter().map(|i| i.0).collect();
    let after = snapshot(s, &extra);
    let mut want = before.clone();
    match kind {
        k if k.starts_with("build") => {
            let (id, sess) = inits.last().ok_or("built without storing a session")?;
            ensure!(r["id"] == json!(id.to_string()), "returned id {} but stored {id}", r["id"]);
            want.insert(*id, Some(sess.clone()));
            if let Some(j) = r.get("jwt") {
                ensure!(j == &sess["jwt"], "another JWT was returned than stored");
            }
            // Real clients: the stored JWT must be whole.
            if kind.contains(' ') {
                let jwt = sess["jwt"].as_str().unwrap();
                ensure!(jwt.split('.').count() == 3 && jwt.split('.').all(|p| !p.is_empty()), "an incomplete JWT was stored: {jwt}");
            }
            for (i, _) in &inits {
                want.entry(*i).or_insert_with(|| after[i].clone());
            }
        }
        "retrieve" => {
            let t = want.get_mut(&s.ids[0]).unwrap().as_mut().unwrap();
            ensure!(r == &t["jwt"], "another JWT was retrieved");
            if t["status"] == json!("SentRequestByReference") {
                t["status"] = json!("SentRequest");
            }
        }
        "verify" => {
            let st = after[&s.ids[0]].as_ref().map(|t| t["status"].clone());
            ensure!(st.as_ref().is_some_and(|s| s.get("Complete").is_some()), "verified but the status is {st:?}");
            want.get_mut(&s.ids[0]).unwrap().as_mut().unwrap()["status"] = st.unwrap();
        }
        "submit" => {
            let posts = s.probe.count("http");
            ensure!(posts == 1, "{posts} HTTP exchanges");
        }
        _ => {}
    }
    ensure!(after == want, "the store holds {after:?} instead of {want:?}");
    Ok(())
}

pub fn c13(ctx: &mut Ctx) {
    ctx.level = "fault_enumeration";
    ctx.rule = "each operation, in randomised surroundings, with every collaborator call failed before and after its effect and the operation dropped at every suspension point; distinct by (operation, call sequence, fault point)".into();
    ctx.assumptions.push("a session store that applied an update but reports failure has changed its state; only the library's own later effects are judged then".into());
    for k in KINDS {
        ctx.require(&format!("{k}: fault"), 4);
        ctx.require(&format!("{k}: complete"), 4);
        ctx.require(&format!("{k}: dropped"), 4);
    }
    let mut rng = ctx.fork_rng();
    let mut points = 0u64;
    for _ in 0..ctx.n(120, 3_000) {
        for kind in KINDS.iter().copied() {
            let seed: u64 = rng.gen();
            // Without a fault.
            let s = scene(kind, seed, false);
            let before = snapshot(&s, &[]);
            let verdict = guard(|| block_on((s.run)())).and_then(|r| complete(&s, kind, &r, &before));
            let n = s.probe.calls();
            let names = s.probe.names();
            ctx.events(names.len());
            if !ctx.judge(&format!("{kind}: complete"), Some(&names.join(",")), || json!({"kind": kind, "seed": seed, "events": names}), verdict) {
                if ctx.saturated() {
                    return;
                }
                continue;
            }
            for k in 0..n {
                for late in [false, true] {
                    points += 1;
                    let s = scene(kind, seed, false);
                    let before = snapshot(&s, &[]);
                    s.probe.fail_at(Some(k));
                    s.probe.flavour((seed % 1000) as usize + k);
                    if late {
                        s.probe.fail_late();
                    }
                    let got = guard(|| block_on((s.run)()));
                    let log = s.probe.log();
                    ctx.events(log.len());
                    let at = log.iter().position(|e| e.0 == "fault");
                    let failing = names_at(&log, k);
                    let verdict = got.and_then(|r| {
                        let at = at.ok_or("the fault point was not reached again")?;
                        ensure!(r.is_err(), "call {k} ({failing}) failed but the operation succeeded: {r:?}");
                        let after: Vec<&str> = log[at..].iter().map(|e| e.0).filter(|n| EFFECTS.contains(n)).collect();
                        ensure!(after.is_empty(), "call {k} ({failing}) failed and then still happened: {after:?}");
                        let extra: Vec<Uuid> = initiated(&s).iter().map(|i| i.0).collect();
                        if !late {
                            let now = snapshot(&s, &extra);
                            let want: Snapshot = extra.iter().map(|i| (*i, None)).chain(before.clone()).collect();
                            ensure!(now == want, "call {k} ({failing}) failed and the store holds {now:?} instead of {want:?}");
                        }
                        // Repeated without the fault.
                        s.probe.reset();
                        let again = block_on((s.run)());
                        complete(&s, kind, &again, &snapshot_before(&s, &before)).map_err(|e| format!("repeated after a fault in call {k} ({failing}): {e}"))
                    });
                    let key = format!("{}/{k}/{late}", names.join(","));
                    ctx.judge(&format!("{kind}: fault"), Some(&key), || json!({"kind": kind, "seed": seed, "call": k, "failing": failing, "late": late, "events": log.iter().map(|e| e.0).collect::<Vec<_>>()}), verdict);
                    if ctx.saturated() {
                        return;
                    }
                }
            }
            // Abandoned at every suspension point.
            for k in 0.. {
                points += 1;
                let s = scene(kind, seed, true);
                let before = snapshot(&s, &[]);
                let got = guard(|| run_then_drop((s.run)(), k));
                let log = s.probe.log();
                ctx.events(log.len());
                let finished = matches!(got, Ok(Some(_)));
                let verdict = got.and_then(|r| {
                    if let Some(r) = r {
                        return complete(&s, kind, &r, &before);
                    }
                    let inits = initiated(&s);
                    let extra: Vec<Uuid> = inits.iter().map(|i| i.0).collect();
                    let now = snapshot(&s, &extra);
                    for (id, v) in &now {
                        let b = before.get(id).cloned().flatten();
                        let stored = inits.iter().find(|i| i.0 == *id).map(|i| i.1.clone());
                        let ok = v == &b || (v.is_some() && v == &stored) || advanced(&b, v);
                        ensure!(ok, "abandoned at suspension {k}, session {id} is {v:?}, before {b:?}");
                    }
                    s.probe.reset();
                    let again = block_on((s.run)());
                    complete(&s, kind, &again, &snapshot_before(&s, &before)).map_err(|e| format!("repeated after being abandoned at suspension {k}: {e}"))
                });
                ctx.judge(&format!("{kind}: dropped"), Some(&format!("{}/{k}", names.join(","))), || json!({"kind": kind, "seed": seed, "suspension": k, "events": log.iter().map(|e| e.0).collect::<Vec<_>>()}), verdict);
                if ctx.saturated() {
                    return;
                }
                if finished || k > 200 {
                    break;
                }
            }
        }
    }
    ctx.extra.insert("fault_points_exercised".into(), json!(points));
    ctx.exhaustive = Some(false);
}

/// What a repetition starts from: sessions this operation may already have stored or advanced count as they are.
fn snapshot_before(s: &Scene, before: &Snapshot) -> Snapshot {
    let mut m = before.clone();
    if let Some(Some(t)) = m.get_mut(&s.ids[0]) {
        if let Ok(now) = block_on(s.store.inner.get_session(s.ids[0])) {
            t["status"] = session_json(&now)["status"].clone();
        }
    }
    m
}

/// The same session with a later status and nothing else changed.
fn advanced(b: &Option<Json>, v: &Option<Json>) -> bool {
    let (Some(b), Some(v)) = (b, v) else { return false };
    let mut c = v.clone();
    c["status"] = b["status"].clone();
    let legit = v["status"] == json!("SentRequest") || v["status"].get("Complete").is_some();
    &c == b && legit
}

fn names_at(log: &[(&'static str, Json)], k: usize) -> String {
    let notes = ["fault", "client.jwt", "store.done", "validator"];
    log.iter().filter(|e| !notes.contains(&e.0)).nth(k).map(|e| e.0.to_string()).unwrap_or_default()
}
