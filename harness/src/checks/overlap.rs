//! C28: operations in progress at the same time. Each operation has an independently known result and its own
//! recording collaborators; the values that could be confused (identifiers, URLs, nonces, session ids) are shared.
use super::{
    clients::{body, honest_wallet, judge_jwt, Ident},
    dcql,
    objects::{outcome, status_json},
    verifier::{as_map, extended, request_param, response_json, uuid},
    wallet::{form_matches, jwt_of, response, TYP},
};
use crate::{
    certs::{Cert, Key, San},
    ctx::{guard, Ctx},
    ensure,
    exec::{block_on, run_schedule_despite, Dfs, RunEnd, Task},
    gen::{self, chance, pick},
    mocks::*,
    refs,
};
use http::Response;
use openid4vp::{
    core::{
        authorization_request::{parameters::ClientId, verification::did::verify_with_resolver, AuthorizationRequest, AuthorizationRequestObject},
        dcql_query::DcqlQuery,
        response::AuthorizationResponse,
    },
    verifier::{
        client::{Client, DIDClient, X509HashClient, X509SanDnsClient},
        Verifier,
    },
    wallet::Wallet,
};
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Map, Value as Json};
use std::{
    collections::HashMap,
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
};
use url::Url;
use uuid::Uuid;

/// The values operations have in common.
struct Pools {
    request_uris: Vec<Url>,
    response_uris: Vec<Url>,
    client_ids: Vec<String>,
    nonces: Vec<String>,
    dids: Vec<String>,
    keys: Vec<Key>,
    /// For one host, with different keys.
    certs: Vec<Cert>,
    host: String,
    ids: Vec<Uuid>,
}

fn plain_url(rng: &mut StdRng) -> Url {
    let mut u = gen::http_url(rng);
    u.set_fragment(None);
    let _ = u.set_username("");
    let _ = u.set_password(None);
    u
}

impl Pools {
    fn new(rng: &mut StdRng, n: usize) -> Self {
        let host = format!("{}.example", gen::lower(rng, 2, 8));
        let ca = Key::p256(rng);
        let certs = (0..2)
            .map(|_| {
                let k = Key::p256(rng);
                Cert::new(rng, k, vec![San::Dns(host.clone())], &host, &ca)
            })
            .collect();
        Self {
            request_uris: (0..n).map(|_| plain_url(rng)).collect(),
            response_uris: (0..n).map(|_| plain_url(rng)).collect(),
            client_ids: (0..n).map(|_| format!("{}:{}", pick(rng, &["x509_san_dns", "x509_hash", "decentralized_identifier", "verifier_attestation", "openid_federation", "redirect_uri"]), gen::text(rng))).collect(),
            nonces: (0..n).map(|_| gen::text(rng)).collect(),
            dids: (0..n).map(|_| format!("did:web:{}.example", gen::lower(rng, 2, 8))).collect(),
            keys: vec![Key::p256(rng), Key::p256(rng), Key::ed(rng)],
            certs,
            host,
            ids: (0..n).map(|_| uuid(rng)).collect(),
        }
    }
}

type Fut = Pin<Box<dyn Future<Output = Result<(), String>>>>;

struct Op {
    kind: &'static str,
    probe: Probe,
    fut: Fut,
}

const KINDS: &[&str] = &["validate by value", "validate by reference", "x509 by value", "x509 by reference", "did check", "submit", "sign", "session", "encode"];

fn signed(rng: &mut StdRng, header: &Json, payload: &Json, key: &Key) -> String {
    let input = format!("{}.{}", refs::b64url(gen::messy_json(rng, header).as_bytes()), refs::b64url(gen::messy_json(rng, payload).as_bytes()));
    let sig = key.sign(input.as_bytes());
    format!("{input}.{}", refs::b64url(&sig))
}

/// A request object that only its tag tells from others made from the same values.
fn object(rng: &mut StdRng, p: &Pools, client_id: &str, tag: &str) -> Map<String, Json> {
    let Json::Object(mut m) = json!({
        "client_id": client_id,
        "nonce": pick(rng, &p.nonces),
        "response_type": "vp_token",
        "response_mode": "direct_post",
        "response_uri": pick(rng, &p.response_uris).as_str(),
        "x-tag": tag,
    }) else {
        unreachable!()
    };
    if chance(rng, 0.3) {
        m.insert("state".into(), json!(tag));
    }
    m
}

fn query_url(pairs: &[(&str, &str)]) -> Url {
    let q: Vec<String> = pairs.iter().map(|(k, v)| format!("{k}={}", refs::form_encode(v))).collect();
    Url::parse(&format!("openid4vp://?{}", q.join("&"))).unwrap()
}

/// How the exchange with the request endpoint goes.
#[derive(Clone, Copy, PartialEq)]
enum Fetch {
    Fine,
    Status,
    Broken,
}

fn validate(rng: &mut StdRng, p: &Pools, tag: &str, probe: &Probe, x509: bool, by_ref: bool) -> Fut {
    let mut good = true;
    let (client_id, payload, jwt, keys);
    if x509 {
        let i = rng.gen_range(0..p.certs.len());
        let cert = &p.certs[i];
        client_id = if chance(rng, 0.5) { format!("x509_hash:{}", cert.hash_id()) } else { format!("x509_san_dns:{}", p.host) };
        payload = object(rng, p, &client_id, tag);
        good = chance(rng, 0.6);
        let key = if good { &cert.key } else { &p.certs[1 - i].key };
        jwt = signed(rng, &json!({"alg": "ES256", "typ": TYP, "x5c": [refs::b64std(&cert.der)]}), &Json::Object(payload.clone()), key);
        keys = true;
    } else {
        client_id = pick(rng, &p.client_ids).clone();
        payload = object(rng, p, &client_id, tag);
        jwt = jwt_of(rng, &json!({"alg": "ES256", "typ": TYP}), &Json::Object(payload.clone()));
        keys = false;
    }
    let fetch = if by_ref { *pick(rng, &[Fetch::Fine, Fetch::Fine, Fetch::Fine, Fetch::Fine, Fetch::Status, Fetch::Broken]) } else { Fetch::Fine };
    let answer = jwt.clone();
    let http = Http {
        probe: probe.clone(),
        handler: Arc::new(move |_| match fetch {
            Fetch::Fine => Ok(Response::builder().status(200).body(answer.clone().into_bytes())?),
            Fetch::Status => Ok(Response::builder().status(404).body(answer.clone().into_bytes())?),
            Fetch::Broken => anyhow::bail!("connection reset"),
        }),
    };
    let accepts = keys || chance(rng, 0.7);
    let wallet = if keys {
        honest_wallet(permissive_metadata(), http, probe, HashMap::new(), None)
    } else {
        let mut w = TestWallet::accepting(permissive_metadata(), http, probe);
        w.policy = Arc::new(move |_| accepts);
        w
    };
    let uri = pick(rng, &p.request_uris).clone();
    let url = if by_ref { query_url(&[("client_id", &client_id), ("request_uri", uri.as_str())]) } else { query_url(&[("client_id", &client_id), ("request", &jwt)]) };
    let probe = probe.clone();
    let good = good && accepts;
    Box::pin(async move {
        let r = wallet.validate_request(url).await;
        let log = probe.log();
        let fetched: Vec<&Json> = log.iter().filter(|e| e.0 == "http").map(|e| &e.1["uri"]).collect();
        let want: Vec<Json> = if by_ref { vec![json!(uri.to_string())] } else { vec![] };
        ensure!(fetched.iter().copied().eq(want.iter()), "fetched {fetched:?} instead of {want:?}");
        let verified: Vec<&Json> = log.iter().filter(|e| e.0 == "verify").map(|e| &e.1).collect();
        if fetch != Fetch::Fine {
            ensure!(r.is_err() && verified.is_empty(), "the request could not be fetched and yet was {}", if r.is_ok() { "accepted" } else { "verified" });
            return Ok(());
        }
        let want = Json::Object(payload);
        ensure!(verified.len() == 1, "{} verifications", verified.len());
        ensure!(verified[0]["jwt"] == json!(jwt), "verified with another JWT: {}", verified[0]["jwt"]);
        ensure!(verified[0]["request"] == want, "verified another request: {}", verified[0]["request"]);
        match r {
            Ok(o) => {
                ensure!(good, "a request was accepted that its own wallet refuses");
                ensure!(aro_json(&o) == want, "returned {} instead of {want}", aro_json(&o));
            }
            Err(e) => ensure!(!good, "refused: {e:#}"),
        }
        Ok(())
    })
}

fn did_check(rng: &mut StdRng, p: &Pools, tag: &str, probe: &Probe) -> Fut {
    let did = pick(rng, &p.dids).clone();
    let kid = format!("{did}#k");
    // The same method id stands for different keys at different resolvers.
    let known = pick(rng, &p.keys).clone();
    let by = if chance(rng, 0.6) { known.clone() } else { pick(rng, &p.keys).clone() };
    let client_id = format!("decentralized_identifier:{did}");
    let payload = object(rng, p, &client_id, tag);
    let o: AuthorizationRequestObject = serde_json::from_value(Json::Object(payload.clone())).unwrap();
    let jwt = signed(rng, &json!({"alg": by.alg(), "typ": TYP, "kid": kid}), &Json::Object(payload), &by);
    let (h, s) = jwt.rsplit_once('.').unwrap();
    let trusted = match rng.gen_range(0..6) {
        0 => Some(vec![]),
        1 | 2 => Some(vec![did.clone()]),
        _ => None,
    };
    let good = known.alg() == by.alg() && known.verify(h.as_bytes(), &refs::unb64url(s).unwrap()) && trusted.as_ref().map_or(true, |t| !t.is_empty());
    let mut keys = HashMap::new();
    keys.insert(kid.clone(), serde_json::from_value(known.jwk()).unwrap());
    let probe = probe.clone();
    Box::pin(async move {
        let md = permissive_metadata();
        let r = verify_with_resolver(&md, &o, jwt, trusted.as_deref(), TestResolver { keys, probe: probe.clone() }).await;
        let log = probe.log();
        ensure!(log.iter().all(|e| e.0 == "resolver" && e.1 == json!(kid)), "the resolver was asked {log:?}");
        match r {
            Ok(()) => ensure!(good && !log.is_empty(), "accepted what its own resolver's key does not verify"),
            Err(e) => ensure!(!good, "refused: {e:#}"),
        }
        Ok(())
    })
}

fn submit(rng: &mut StdRng, p: &Pools, tag: &str, probe: &Probe) -> Fut {
    let client_id = pick(rng, &p.client_ids).clone();
    let mut payload = object(rng, p, &client_id, tag);
    let r = response(rng);
    if matches!(r, AuthorizationResponse::Jwt(_)) {
        payload.insert("response_mode".into(), json!("direct_post.jwt"));
    }
    let uri = payload["response_uri"].clone();
    let o: AuthorizationRequestObject = serde_json::from_value(Json::Object(payload)).unwrap();
    let to = Url::parse(&format!("https://done.example/{tag}")).unwrap();
    let (status, body, want) = match rng.gen_range(0..5) {
        0 => (200, String::new(), Some(None)),
        1 => (500, json!({"redirect_uri": to.as_str()}).to_string(), None),
        _ => (200, json!({"redirect_uri": to.as_str()}).to_string(), Some(Some(to))),
    };
    let wallet = TestWallet::accepting(permissive_metadata(), Http::answer(probe, status, body.into_bytes()), probe);
    let probe = probe.clone();
    Box::pin(async move {
        let got = wallet.submit_response(o, r.clone()).await;
        let log = probe.log();
        ensure!(log.len() == 1 && log[0].0 == "http", "calls: {:?}", probe.names());
        ensure!(log[0].1["uri"] == uri, "posted to {} instead of {uri}", log[0].1["uri"]);
        form_matches(log[0].1["body"].as_str().unwrap(), &r)?;
        match (got, want) {
            (Ok(g), Some(w)) => ensure!(g == w, "answered {g:?} instead of {w:?}"),
            (Err(_), None) => {}
            (g, w) => return Err(format!("answered {g:?} instead of {w:?}")),
        }
        Ok(())
    })
}

/// Both at once on one task.
async fn both<T>(a: impl Future<Output = T>, b: impl Future<Output = T>) -> [T; 2] {
    let (mut a, mut b) = (Box::pin(a), Box::pin(b));
    let (mut x, mut y) = (None, None);
    std::future::poll_fn(move |cx| {
        if x.is_none() {
            if let Poll::Ready(v) = a.as_mut().poll(cx) {
                x = Some(v);
            }
        }
        if y.is_none() {
            if let Poll::Ready(v) = b.as_mut().poll(cx) {
                y = Some(v);
            }
        }
        match (x.take(), y.take()) {
            (Some(p), Some(q)) => Poll::Ready([p, q]),
            (p, q) => {
                (x, y) = (p, q);
                Poll::Pending
            }
        }
    })
    .await
}

fn sign(rng: &mut StdRng, p: &Pools, tag: &str, probe: &Probe) -> Fut {
    let kind = rng.gen_range(0..3);
    let cert = pick(rng, &p.certs).clone();
    let did = pick(rng, &p.dids).clone();
    let key = if kind == 0 { pick(rng, &p.keys).clone() } else { cert.key.clone() };
    let bodies: Vec<AuthorizationRequestObject> = (0..2)
        .map(|i| {
            let mut m = as_map(&aro_json(&body(rng, "x"))).clone();
            m.insert("x-tag".into(), json!(format!("{tag}/{i}")));
            serde_json::from_value(Json::Object(m)).unwrap()
        })
        .collect();
    let signer = Arc::new(TestSigner::new(&key, probe));
    let together = chance(rng, 0.5);
    let probe = probe.clone();
    Box::pin(async move {
        let kid = format!("{did}#k");
        let client: Arc<dyn Client + Send + Sync> = match kind {
            0 => {
                let mut keys = HashMap::new();
                keys.insert(kid.clone(), serde_json::from_value(key.jwk()).unwrap());
                Arc::new(DIDClient::new(kid.clone(), signer, TestResolver { keys, probe: probe.clone() }).await.map_err(|e| format!("the client was refused: {e:#}"))?)
            }
            1 => Arc::new(X509SanDnsClient::new(vec![cert.parsed()], signer).map_err(|e| format!("the client was refused: {e:#}"))?),
            _ => Arc::new(X509HashClient::new(vec![cert.parsed()], signer).map_err(|e| format!("the client was refused: {e:#}"))?),
        };
        let ident = if kind == 0 { Ident::Kid(kid) } else { Ident::Chain(vec![cert.der.clone()]) };
        let mut inputs = vec![];
        let jwts = if together {
            both(client.generate_request_object_jwt(&bodies[0]), client.generate_request_object_jwt(&bodies[1])).await
        } else {
            [client.generate_request_object_jwt(&bodies[0]).await, client.generate_request_object_jwt(&bodies[1]).await]
        };
        for (jwt, b) in jwts.into_iter().zip(&bodies) {
            let jwt = jwt.map_err(|e| format!("no JWT: {e:#}"))?;
            inputs.push(json!(judge_jwt(&jwt, &key, key.alg(), &ident, &aro_json(b))?));
        }
        let mut signed: Vec<Json> = probe.log().into_iter().filter(|e| e.0 == "signer.sign").map(|e| e.1).collect();
        if together && signed.len() == 2 && signed[0] == inputs[1] {
            signed.reverse();
        }
        ensure!(signed == inputs, "the signer was asked to sign {signed:?}");
        Ok(())
    })
}

fn session(rng: &mut StdRng, p: &Pools, tag: &str, probe: &Probe) -> Fut {
    let store = TestStore { inner: Default::default(), probe: probe.clone() };
    let client_id = pick(rng, &p.client_ids).clone();
    let t = tag.to_string();
    let client = TestClient {
        id: ClientId(client_id.clone()),
        prefix: client_id.split_once(':').unwrap().0.into(),
        probe: probe.clone(),
        jwt: Box::new(move |b| format!("{}.{}.{t}", refs::b64url(b"{}"), refs::b64url(aro_json(b).to_string().as_bytes()))),
    };
    let submission = pick(rng, &p.response_uris).clone();
    let at = if chance(rng, 0.5) { Some(pick(rng, &p.request_uris).clone()) } else { None };
    let mut b = Verifier::builder().with_client(Arc::new(client)).with_session_store(Arc::new(store)).with_submission_endpoint(submission.clone());
    if let Some(at) = &at {
        b = b.by_reference(at.clone());
    }
    let id = *pick(rng, &p.ids);
    let q: DcqlQuery = serde_json::from_value(dcql::small_query(rng)).unwrap();
    let nonce = pick(rng, &p.nonces).clone();
    let resp = response(rng);
    let (o, o_json, _) = outcome(rng);
    let tag = tag.to_string();
    let probe = probe.clone();
    Box::pin(async move {
        let v = b.build().await.map_err(|e| format!("no verifier: {e:#}"))?;
        let mut b = v.build_authorization_request().with_dcql_query(q.clone());
        let mut want = Map::new();
        for (k, x) in [("nonce", json!(nonce)), ("response_type", json!("vp_token")), ("response_mode", json!("direct_post")), ("state", json!(tag))] {
            want.insert(k.into(), x.clone());
            b = request_param(b, k, x);
        }
        want.insert("client_id".into(), json!(client_id));
        want.insert("response_uri".into(), json!(extended(&submission, id).unwrap()));
        want.insert("dcql_query".into(), serde_json::to_value(&q).unwrap());
        let url = b.build_with_session_id(id, permissive_metadata()).await.map_err(|e| format!("not built: {e:#}"))?;
        let first = |name: &str| -> Result<Json, String> {
            let all: Vec<Json> = probe.log().into_iter().filter(|e| e.0 == name).map(|e| e.1).collect();
            ensure!(all.len() == 1, "{} calls of {name}", all.len());
            Ok(all[0].clone())
        };
        ensure!(as_map(&first("client")?) == &want, "signed {} instead of {}", first("client")?, Json::Object(want.clone()));
        let jwt = first("client.jwt")?;
        let s = first("store.initiate")?;
        ensure!(s["jwt"] == jwt && as_map(&s["request"]) == &want && s["uuid"] == json!(id.to_string()), "stored {s}");
        let mut pairs = refs::form_decode(url.query().ok_or("no query")?);
        pairs.sort();
        let mut wp = vec![("client_id".to_string(), client_id.clone())];
        wp.push(match &at {
            Some(at) => ("request_uri".into(), extended(at, id).unwrap()),
            None => ("request".into(), jwt.as_str().unwrap().into()),
        });
        ensure!(pairs == wp, "the URL carries {pairs:?} instead of {wp:?}");
        let got = v.retrieve_authorization_request(id).await.map_err(|e| format!("not retrieved: {e:#}"))?;
        ensure!(json!(got) == jwt, "retrieved {got} instead of {jwt}");
        let status = v.poll_status(id).await.map_err(|e| format!("not polled: {e:#}"))?;
        ensure!(status_json(&status) == json!("SentRequest"), "polled {status:?} before the response");
        let want_resp = response_json(&resp);
        let seen: Arc<Mutex<Vec<(Json, Json)>>> = Default::default();
        let (s2, pr) = (seen.clone(), probe.clone());
        v.verify_response(id, resp, move |s, r| {
            s2.lock().unwrap().push((session_json(&s), response_json(&r)));
            Box::pin(async move {
                pr.pause_for_test().await;
                o
            })
        })
        .await
        .map_err(|e| format!("not verified: {e:#}"))?;
        {
            let seen = seen.lock().unwrap();
            ensure!(seen.len() == 1, "{} validations", seen.len());
            ensure!(seen[0].0["jwt"] == jwt && as_map(&seen[0].0["request"]) == &want, "validated on the session {}", seen[0].0);
            ensure!(seen[0].1 == want_resp, "validated {} instead of {want_resp}", seen[0].1);
        }
        let status = v.poll_status(id).await.map_err(|e| format!("not polled: {e:#}"))?;
        ensure!(status_json(&status) == json!({"Complete": o_json}), "polled {} instead of {o_json}", status_json(&status));
        Ok(())
    })
}

/// Work without any waiting: it can overlap with others only on real threads.
fn encode(rng: &mut StdRng, p: &Pools, tag: &str, probe: &Probe) -> Fut {
    let client_id = pick(rng, &p.client_ids).clone();
    let payload = object(rng, p, &client_id, tag);
    let jwt = jwt_of(rng, &json!({"alg": "ES256", "typ": TYP}), &Json::Object(payload.clone()));
    let uri = pick(rng, &p.request_uris).clone();
    let r = response(rng);
    let probe = probe.clone();
    Box::pin(async move {
        use openid4vp::core::authorization_request::RequestIndirection as I;
        probe.pause_for_test().await;
        for ind in [I::ByValue { request: jwt.clone() }, I::ByReference { request_uri: uri }] {
            let a = AuthorizationRequest { client_id: Some(client_id.clone()), request_indirection: ind };
            let u = a.clone().to_url("openid4vp://x".parse().unwrap()).map_err(|e| format!("{e:#}"))?;
            probe.pause_for_test().await;
            let b = AuthorizationRequest::from_url(u, &"openid4vp://x".parse().unwrap()).map_err(|e| format!("{e:#}"))?;
            ensure!(format!("{a:?}") == format!("{b:?}"), "{a:?} came back as {b:?}");
        }
        let form = match &r {
            AuthorizationResponse::Unencoded(u) => u.clone().into_x_www_form_urlencoded().map_err(|e| format!("{e:#}"))?,
            AuthorizationResponse::Jwt(j) => format!("response={}", refs::form_encode(&j.response)),
        };
        form_matches(&form, &r)?;
        probe.pause_for_test().await;
        let back = AuthorizationResponse::from_x_www_form_urlencoded(form.as_bytes()).map_err(|e| format!("{e:#}"))?;
        ensure!(response_json(&back) == response_json(&r), "the response came back as {}", response_json(&back));
        Ok(())
    })
}

fn make(kind: &'static str, rng: &mut StdRng, p: &Pools, tag: &str) -> Op {
    let probe = Probe::new().with_yields();
    let fut = match kind {
        "validate by value" => validate(rng, p, tag, &probe, false, false),
        "validate by reference" => validate(rng, p, tag, &probe, false, true),
        "x509 by value" => validate(rng, p, tag, &probe, true, false),
        "x509 by reference" => validate(rng, p, tag, &probe, true, true),
        "did check" => did_check(rng, p, tag, &probe),
        "submit" => submit(rng, p, tag, &probe),
        "sign" => sign(rng, p, tag, &probe),
        "session" => session(rng, p, tag, &probe),
        _ => encode(rng, p, tag, &probe),
    };
    Op { kind, probe, fut }
}

/// Drops the future after it was polled so many times.
struct Abandoned<F> {
    inner: Option<F>,
    left: usize,
}
impl<F: Future + Unpin> Future for Abandoned<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let f = self.inner.as_mut().expect("polled again");
        if let Poll::Ready(v) = Pin::new(f).poll(cx) {
            return Poll::Ready(Some(v));
        }
        self.left -= 1;
        if self.left == 0 {
            self.inner = None;
            return Poll::Ready(None);
        }
        Poll::Pending
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate {
    Runs,
    /// Waits for ever at its n-th waiting point.
    Hangs(usize),
    /// Is dropped after so many steps.
    Dropped(usize),
}

type Plan = Vec<(&'static str, Fate)>;

struct Ran {
    events: usize,
    /// Operations still waiting at the end.
    waiting: usize,
    verdict: Result<(), String>,
}

/// Run the operations of a plan in one schedule.
fn run(seed: u64, plan: &Plan, pool: usize, choose: impl FnMut(&[usize]) -> usize) -> Ran {
    let mut rng = StdRng::seed_from_u64(seed);
    let p = Pools::new(&mut rng, pool);
    let mut slots: Vec<Arc<Mutex<Option<Result<(), String>>>>> = vec![];
    let mut probes = vec![];
    let mut tasks: Vec<Task> = vec![];
    for (i, (kind, fate)) in plan.iter().enumerate() {
        let op = make(kind, &mut rng, &p, &format!("t{i}"));
        if let Fate::Hangs(n) = fate {
            op.probe.hang_at(*n);
        }
        probes.push((op.kind, op.probe.clone()));
        let slot: Arc<Mutex<Option<Result<(), String>>>> = Default::default();
        slots.push(slot.clone());
        let left = if let Fate::Dropped(n) = fate { *n } else { usize::MAX };
        tasks.push(Box::pin(async move {
            let r = Abandoned { inner: Some(op.fut), left }.await;
            *slot.lock().unwrap() = r;
        }));
    }
    let hanging: Vec<usize> = (0..plan.len()).filter(|i| matches!(plan[*i].1, Fate::Hangs(_))).collect();
    let end = guard(|| run_schedule_despite(tasks, &hanging, choose));
    let events = probes.iter().map(|p| p.1.log().len()).sum();
    let verdict = end.and_then(|end| {
        ensure!(end != RunEnd::StepLimit, "the operations went on without end");
        for (i, (kind, fate)) in plan.iter().enumerate() {
            let got = slots[i].lock().unwrap().clone();
            match (got, fate) {
                (Some(Err(e)), _) => return Err(format!("{kind} (operation {i}) among {} others: {e}", plan.len() - 1)),
                (None, Fate::Runs) => return Err(format!("{kind} (operation {i}) never finishes beside {} others", plan.len() - 1)),
                _ => {}
            }
        }
        Ok(())
    });
    let waiting = (0..plan.len()).filter(|i| matches!(plan[*i].1, Fate::Hangs(_)) && slots[*i].lock().unwrap().is_none()).count();
    Ran { events, waiting, verdict }
}

pub fn c28(ctx: &mut Ctx) {
    ctx.rule = "operations of nine kinds over shared identifiers, URLs, nonces and session ids, each with its own collaborators and known result, in enumerated and random interleavings, beside others that hang or are abandoned, on one wallet, and on real threads; distinct by (operations, pool, schedule)".into();
    for c in ["pair", "crowd", "beside a hanging one", "beside an abandoned one", "one wallet", "one verifier", "beside a great many", "threads"] {
        ctx.require(c, match c { "threads" => 4, "beside a great many" => 20, _ => 100 });
    }
    let mut rng = ctx.fork_rng();
    // Every pair of kinds, in all their interleavings as far as the bound goes.
    let cap = ctx.n(100, 4_000);
    for (a, ka) in KINDS.iter().enumerate() {
        for kb in &KINDS[a..] {
            let plan: Plan = vec![(ka, Fate::Runs), (kb, Fate::Runs)];
            for pool in [1, 2] {
                let seed: u64 = rng.gen();
                let mut dfs = Dfs::new();
                for _ in 0..cap {
                    dfs.begin();
                    let Ran { events, verdict: v, .. } = run(seed, &plan, pool, |r| dfs.choose(r.len()));
                    ctx.events(events);
                    let t = dfs.trace();
                    ctx.judge("pair", Some(&format!("{ka}/{kb}/{pool}/{t:?}")), || json!({"operations": [ka, kb], "seed": seed, "pool": pool, "schedule": t}), v);
                    if ctx.saturated() {
                        return;
                    }
                    if !dfs.next() {
                        break;
                    }
                }
            }
        }
    }
    for _ in 0..ctx.n(8_000, 300_000) {
        let n = *pick(&mut rng, &[2usize, 2, 3, 4, 6, 10]);
        let some = *pick(&mut rng, &[0usize, 0, 1, 2]);
        let far = if chance(&mut rng, 0.5) { 5 } else { 20 };
        let one_kind = if chance(&mut rng, 0.3) { Some(*pick(&mut rng, KINDS)) } else { None };
        let plan: Plan = (0..n)
            .map(|i| {
                let k = one_kind.unwrap_or_else(|| *pick(&mut rng, KINDS));
                let f = if i >= some {
                    Fate::Runs
                } else if chance(&mut rng, 0.5) {
                    Fate::Hangs(rng.gen_range(0..far))
                } else {
                    Fate::Dropped(rng.gen_range(1..far + 1))
                };
                (k, f)
            })
            .collect();
        let class = if some > 0 && plan.iter().any(|p| matches!(p.1, Fate::Hangs(_))) {
            "beside a hanging one"
        } else if some > 0 {
            "beside an abandoned one"
        } else {
            "crowd"
        };
        let pool = *pick(&mut rng, &[1usize, 1, 2, 3]);
        let seed: u64 = rng.gen();
        // Operations that come first may be well on their way, or done, before the others start.
        let bias = *pick(&mut rng, &[0.0, 0.0, 0.5, 0.9]);
        let mut order = StdRng::seed_from_u64(rng.gen());
        let mut trace = vec![];
        let Ran { events, verdict: v, .. } = run(seed, &plan, pool, |r| {
            let c = if chance(&mut order, bias) { 0 } else { order.gen_range(0..r.len()) };
            trace.push(r[c]);
            c
        });
        ctx.events(events);
        ctx.judge(class, Some(&format!("{plan:?}/{pool}/{trace:?}")), || json!({"operations": format!("{plan:?}"), "seed": seed, "pool": pool, "schedule": trace}), v);
        if ctx.saturated() {
            return;
        }
    }
    // A great many that never get beyond one point, and one that does.
    for kind in KINDS {
        for at in 0..24 {
            let many = ctx.n(300, 2_000);
            let mut plan: Plan = (0..many).map(|_| (*kind, Fate::Hangs(at))).collect();
            plan.push((kind, Fate::Runs));
            let seed: u64 = rng.gen();
            let Ran { events, waiting, verdict } = run(seed, &plan, 2, |_| 0);
            ctx.events(events);
            ctx.judge("beside a great many", Some(&format!("{kind}/{at}")), || json!({"operation": kind, "hanging_at": at, "waiting": waiting, "seed": seed}), verdict);
            if ctx.saturated() {
                return;
            }
            if waiting == 0 {
                break; // they have no such point any more
            }
        }
    }
    for round in 0..ctx.n(2_000, 60_000) {
        let seed: u64 = rng.gen();
        let (class, (events, v)) = if round % 2 == 0 { ("one wallet", one_wallet(seed)) } else { ("one verifier", one_verifier(seed)) };
        ctx.events(events);
        ctx.judge(class, Some(&seed.to_string()), || json!({"seed": seed}), v);
        if ctx.saturated() {
            return;
        }
    }
    for _ in 0..ctx.n(6, 100) {
        let seed: u64 = rng.gen();
        let (events, v) = threads(seed);
        ctx.events(events);
        ctx.judge("threads", Some(&seed.to_string()), || json!({"seed": seed}), v);
        if ctx.saturated() {
            return;
        }
    }
}

/// Several requests under way at one wallet, the endpoint answering each fetch with a request of its own.
fn one_wallet(seed: u64) -> (usize, Result<(), String>) {
    let mut rng = StdRng::seed_from_u64(seed);
    let p = Pools::new(&mut rng, 1);
    let probe = Probe::new().with_yields();
    let client_id = p.client_ids[0].clone();
    let n = rng.gen_range(2..7);
    let jwts: Vec<(String, Json)> = (0..n)
        .map(|i| {
            let o = Json::Object(object(&mut rng, &p, &client_id, &format!("t{i}")));
            (jwt_of(&mut rng, &json!({"alg": "ES256", "typ": TYP}), &o), o)
        })
        .collect();
    let left = Mutex::new(jwts.clone());
    let http = Http {
        probe: probe.clone(),
        handler: Arc::new(move |_| match left.lock().unwrap().pop() {
            Some((j, _)) => Ok(Response::builder().status(200).body(j.into_bytes())?),
            None => anyhow::bail!("asked too often"),
        }),
    };
    let wallet = Arc::new(TestWallet::accepting(permissive_metadata(), http, &probe));
    let results: Arc<Mutex<Vec<Result<Json, String>>>> = Default::default();
    let tasks: Vec<Task> = (0..n)
        .map(|_| {
            let (w, r) = (wallet.clone(), results.clone());
            let url = query_url(&[("client_id", &client_id), ("request_uri", p.request_uris[0].as_str())]);
            let t: Task = Box::pin(async move {
                let v = w.validate_request(url).await.map(|o| aro_json(&o)).map_err(|e| format!("{e:#}"));
                r.lock().unwrap().push(v);
            });
            t
        })
        .collect();
    let end = guard(|| run_schedule_despite(tasks, &[], |r| rng.gen_range(0..r.len())));
    let log = probe.log();
    let verdict = end.and_then(|end| {
        ensure!(end == RunEnd::Done, "the validations did not finish: {end:?}");
        let mut want: Vec<String> = jwts.iter().map(|j| j.1.to_string()).collect();
        want.sort();
        let mut got = results.lock().unwrap().iter().cloned().collect::<Result<Vec<Json>, String>>().map_err(|e| format!("a request was refused: {e}"))?.iter().map(Json::to_string).collect::<Vec<_>>();
        got.sort();
        ensure!(got == want, "served {want:?}, returned {got:?}");
        let mut verified: Vec<&str> = log.iter().filter(|e| e.0 == "verify").filter_map(|e| e.1["jwt"].as_str()).collect();
        verified.sort();
        let mut served: Vec<&str> = jwts.iter().map(|j| j.0.as_str()).collect();
        served.sort();
        ensure!(verified == served, "served {} JWTs, verified {verified:?}", served.len());
        for e in log.iter().filter(|e| e.0 == "verify") {
            let i = jwts.iter().position(|j| e.1["jwt"] == json!(j.0)).ok_or("a foreign JWT was verified")?;
            ensure!(e.1["request"] == jwts[i].1, "verified {} with the JWT of {}", e.1["request"], jwts[i].1);
        }
        Ok(())
    });
    (log.len(), verdict)
}

/// Several requests being built by one verifier.
fn one_verifier(seed: u64) -> (usize, Result<(), String>) {
    let mut rng = StdRng::seed_from_u64(seed);
    let p = Pools::new(&mut rng, 1);
    let probe = Probe::new().with_yields();
    let client_id = p.client_ids[0].clone();
    let client = TestClient {
        id: ClientId(client_id.clone()),
        prefix: client_id.split_once(':').unwrap().0.into(),
        probe: probe.clone(),
        jwt: Box::new(|b| aro_json(b)["state"].as_str().unwrap_or_default().to_string()),
    };
    let submission = p.response_uris[0].clone();
    let at = if chance(&mut rng, 0.5) { Some(p.request_uris[0].clone()) } else { None };
    let store = TestStore { inner: Default::default(), probe: probe.clone() };
    let mut b = Verifier::builder().with_client(Arc::new(client)).with_session_store(Arc::new(store)).with_submission_endpoint(submission.clone());
    if let Some(at) = &at {
        b = b.by_reference(at.clone());
    }
    let v = match guard(|| block_on(b.build())) {
        Ok(Ok(v)) => Arc::new(v),
        Ok(Err(e)) => return (0, Err(format!("no verifier: {e:#}"))),
        Err(e) => return (0, Err(e)),
    };
    let n = rng.gen_range(2..7);
    let results: Arc<Mutex<Vec<Result<(), String>>>> = Default::default();
    let tasks: Vec<Task> = (0..n)
        .map(|i| {
            let (v, r, at, submission, client_id) = (v.clone(), results.clone(), at.clone(), submission.clone(), client_id.clone());
            let q: DcqlQuery = serde_json::from_value(dcql::small_query(&mut rng)).unwrap();
            let nonce = if chance(&mut rng, 0.5) { p.nonces[0].clone() } else { gen::text(&mut rng) };
            let extra = chance(&mut rng, 0.5);
            let dc_api = chance(&mut rng, 0.2);
            let p = probe.clone();
            let t: Task = Box::pin(async move {
                let tag = format!("t{i}");
                let res: Result<(), String> = async {
                    let mut b = v.build_authorization_request().with_dcql_query(q.clone());
                    let mut want = Map::new();
                    let mut set = vec![("nonce", json!(nonce)), ("response_type", json!("vp_token")), ("response_mode", json!(if dc_api { "dc_api" } else { "direct_post" })), ("state", json!(tag))];
                    if extra {
                        set.push(("scope", json!(tag)));
                    }
                    for (k, x) in set {
                        want.insert(k.into(), x.clone());
                        b = request_param(b, k, x);
                    }
                    let id = if dc_api {
                        let (id, jwt) = b.build_dc_api().await.map_err(|e| format!("not built: {e:#}"))?;
                        ensure!(jwt == tag, "handed the JWT {jwt} out for {tag}");
                        id
                    } else {
                        let (id, url) = b.build(permissive_metadata()).await.map_err(|e| format!("not built: {e:#}"))?;
                        let mut pairs = refs::form_decode(url.query().ok_or("no query")?);
                        pairs.sort();
                        let mut wp = vec![("client_id".to_string(), client_id.clone())];
                        wp.push(match &at {
                            Some(at) => ("request_uri".into(), extended(at, id).unwrap()),
                            None => ("request".into(), tag.clone()),
                        });
                        ensure!(pairs == wp, "the URL carries {pairs:?} instead of {wp:?}");
                        want.insert("response_uri".into(), json!(extended(&submission, id).unwrap()));
                        id
                    };
                    want.insert("client_id".into(), json!(client_id));
                    want.insert("dcql_query".into(), serde_json::to_value(&q).unwrap());
                    let s: Vec<Json> = p.log().into_iter().filter(|e| e.0 == "store.initiate" && e.1["uuid"] == json!(id.to_string())).map(|e| e.1).collect();
                    ensure!(s.len() == 1, "{} sessions stored as {id}", s.len());
                    ensure!(as_map(&s[0]["request"]) == &want && s[0]["jwt"] == json!(tag), "stored {} instead of {}", s[0], Json::Object(want.clone()));
                    let got = v.retrieve_authorization_request(id).await.map_err(|e| format!("not retrieved: {e:#}"))?;
                    ensure!(got == tag, "retrieved {got} instead of {tag}");
                    Ok(())
                }
                .await;
                r.lock().unwrap().push(res);
            });
            t
        })
        .collect();
    let end = guard(|| run_schedule_despite(tasks, &[], |r| rng.gen_range(0..r.len())));
    let log = probe.log();
    let verdict = end.and_then(|end| {
        ensure!(end == RunEnd::Done, "the builds did not finish: {end:?}");
        results.lock().unwrap().iter().cloned().collect::<Result<Vec<()>, String>>()?;
        let count = |n: &str| log.iter().filter(|e| e.0 == n).count();
        ensure!(count("client") == n && count("store.initiate") == n, "{n} requests, {} signatures, {} sessions", count("client"), count("store.initiate"));
        Ok(())
    });
    (log.len(), verdict)
}

/// The same operations on real threads.
fn threads(seed: u64) -> (usize, Result<(), String>) {
    let mut rng = StdRng::seed_from_u64(seed);
    let p = Pools::new(&mut rng, 2);
    let seeds: Vec<u64> = (0..8).map(|_| rng.gen()).collect();
    let results: Vec<(usize, Result<(), String>)> = std::thread::scope(|s| {
        let handles: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(t, seed)| {
                let p = &p;
                s.spawn(move || {
                    let mut rng = StdRng::seed_from_u64(*seed);
                    let mut events = 0;
                    for i in 0..400 {
                        let kind = *pick(&mut rng, KINDS);
                        let op = make(kind, &mut rng, p, &format!("t{t}.{i}"));
                        let r = guard(|| block_on(op.fut)).and_then(|r| r);
                        events += op.probe.log().len();
                        if let Err(e) = r {
                            return (events, Err(format!("{kind} on thread {t}: {e}")));
                        }
                    }
                    (events, Ok(()))
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|_| (0, Err("a thread died".into())))).collect()
    });
    let events = results.iter().map(|r| r.0).sum();
    (events, results.into_iter().try_for_each(|r| r.1))
}
