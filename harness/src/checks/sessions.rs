//! C14: recorded histories of concurrent session operations, judged for linearizability against a map of sessions.
use super::{
    dcql,
    objects::{outcome_json, status_json},
    verifier::{odd_uuid, request_param, uuid},
};
use crate::{
    ctx::{guard, Ctx},
    ensure,
    exec::{block_on, run_schedule, Dfs, RunEnd, Task},
    gen::{chance, pick},
    mocks::*,
};
use openid4vp::{
    core::{authorization_request::parameters::ClientId, dcql_query::DcqlQuery, response::AuthorizationResponse},
    verifier::{
        session::{MemoryStore, Outcome, Session, SessionStore, Status},
        Verifier,
    },
};
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value as Json};
use std::{
    collections::{HashMap, HashSet},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};
use url::Url;
use uuid::Uuid;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Build,
    Retrieve,
    Verify(Json),
    Poll,
    Remove,
    /// Directly on the store.
    Get,
    Update(Json),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok,
    Err,
    /// Polled status, or the status and JWT of the session got.
    Status(Json),
    Jwt(String),
}

#[derive(Clone, Debug)]
pub struct Event {
    pub id: Uuid,
    pub op: Op,
    pub res: Res,
    pub call: u64,
    pub ret: u64,
}

fn rank(s: &Json) -> u8 {
    match s.as_str() {
        Some("SentRequestByReference") => 0,
        Some("SentRequest") => 1,
        Some("ReceivedResponse") => 2,
        _ => 3,
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Model {
    session: Option<(String, String)>, // status JSON text, JWT
}

/// The sequential specification: is `res` the answer in this state, and what state follows?
fn step(m: &Model, op: &Op, res: &Res, initial: &Json, jwt: &str) -> Option<Model> {
    let put = |s: &Json| Model { session: Some((s.to_string(), jwt.to_string())) };
    match (op, &m.session) {
        (Op::Build, _) => (*res == Res::Ok).then(|| put(initial)),
        (_, None) => (*res == Res::Err).then(|| m.clone()),
        (Op::Retrieve, Some((s, j))) => {
            let s: Json = serde_json::from_str(s).unwrap();
            (*res == Res::Jwt(j.clone())).then(|| if rank(&s) == 0 { put(&json!("SentRequest")) } else { m.clone() })
        }
        (Op::Verify(o), Some(_)) => (*res == Res::Ok).then(|| put(&json!({"Complete": o}))),
        (Op::Poll | Op::Get, Some((s, _))) => {
            let s: Json = serde_json::from_str(s).unwrap();
            (*res == Res::Status(s)).then(|| m.clone())
        }
        (Op::Remove, Some(_)) => (*res == Res::Ok).then(|| Model { session: None }),
        (Op::Update(n), Some((s, _))) => {
            let s: Json = serde_json::from_str(s).unwrap();
            (*res == Res::Ok).then(|| if rank(n) == 3 || rank(n) >= rank(&s) { put(n) } else { m.clone() })
        }
    }
}

/// Is there an order of these operations, respecting real time, that the sequential specification explains?
fn linearizable(events: &[Event], start: &Model, initial: &Json, jwt: &str) -> bool {
    fn go(ev: &[Event], done: u64, m: &Model, initial: &Json, jwt: &str, seen: &mut HashSet<(u64, Model)>) -> bool {
        if done.count_ones() as usize == ev.len() {
            return true;
        }
        if !seen.insert((done, m.clone())) {
            return false;
        }
        let first_ret = ev.iter().enumerate().filter(|(i, _)| done & (1 << i) == 0).map(|(_, e)| e.ret).min().unwrap();
        for (i, e) in ev.iter().enumerate() {
            if done & (1 << i) == 0 && e.call <= first_ret {
                if let Some(n) = step(m, &e.op, &e.res, initial, jwt) {
                    if go(ev, done | 1 << i, &n, initial, jwt, seen) {
                        return true;
                    }
                }
            }
        }
        false
    }
    assert!(events.len() <= 60);
    go(events, 0, start, initial, jwt, &mut HashSet::new())
}

fn outcome_of(n: u64) -> Outcome {
    match n % 3 {
        0 => Outcome::Success { info: json!({"n": n}) },
        1 => Outcome::Failure { reason: format!("r{n}") },
        _ => Outcome::Error { cause: format!("c{n}") },
    }
}

struct Sut {
    verifier: Verifier,
    other: Verifier,
    store: Arc<dyn SessionStore + Send + Sync>,
    query: DcqlQuery,
    clock: AtomicU64,
    log: Mutex<Vec<Event>>,
    by_ref: bool,
}

fn jwt_for(id: Uuid) -> String {
    format!("header.{id}.signature")
}

fn sut(rng: &mut StdRng, store: Arc<dyn SessionStore + Send + Sync>, by_ref: bool) -> Sut {
    let client = TestClient {
        id: ClientId("x509_san_dns:verifier.example.com".into()),
        prefix: "x509_san_dns".into(),
        probe: Probe::new(),
        // Each session's JWT names the session (through its response_uri).
        jwt: Box::new(|b| format!("header.{}.signature", b.return_uri().path().rsplit('/').next().unwrap())),
    };
    let mut b = Verifier::builder()
        .with_client(Arc::new(client))
        .with_session_store(store.clone())
        .with_submission_endpoint(Url::parse("https://verifier.example.com/submit").unwrap());
    if by_ref {
        b = b.by_reference(Url::parse("https://verifier.example.com/request").unwrap());
    }
    let verifier = block_on(b.build()).unwrap();
    Sut {
        other: verifier.clone(),
        verifier,
        store,
        query: serde_json::from_value(dcql::small_query(rng)).unwrap(),
        clock: AtomicU64::new(1),
        log: Default::default(),
        by_ref,
    }
}

impl Sut {
    fn initial(&self) -> Json {
        json!(if self.by_ref { "SentRequestByReference" } else { "SentRequest" })
    }
    async fn exec(&self, id: Uuid, op: Op, n: u64, between: impl FnOnce() -> BoxFut) {
        // A clone of the verifier is the same verifier.
        let verifier = if n % 3 == 1 { self.verifier.clone() } else { self.other.clone() };
        let call = self.clock.fetch_add(1, Ordering::SeqCst);
        let res = match &op {
            Op::Build => {
                let mut b = verifier.build_authorization_request().with_dcql_query(self.query.clone());
                for (k, x) in [("nonce", json!("n")), ("response_type", json!("vp_token")), ("response_mode", json!("direct_post"))] {
                    b = request_param(b, k, x);
                }
                match b.build_with_session_id(id, permissive_metadata()).await {
                    Ok(_) => Res::Ok,
                    Err(_) => Res::Err,
                }
            }
            Op::Retrieve => verifier.retrieve_authorization_request(id).await.map_or(Res::Err, Res::Jwt),
            Op::Poll => verifier.poll_status(id).await.map_or(Res::Err, |s| Res::Status(status_json(&s))),
            Op::Verify(_) => {
                let o = outcome_of(n);
                let f = between();
                let resp: AuthorizationResponse = AuthorizationResponse::Jwt(openid4vp::core::response::JwtAuthorizationResponse { response: "x".into() });
                verifier
                    .verify_response(id, resp, move |_s: Session, _| {
                        Box::pin(async move {
                            f.await;
                            o
                        })
                    })
                    .await
                    .map_or(Res::Err, |_| Res::Ok)
            }
            Op::Remove => self.store.remove_session(id).await.map_or(Res::Err, |_| Res::Ok),
            Op::Get => match self.store.get_session(id).await {
                Ok(s) if s.uuid == id && s.authorization_request_jwt == jwt_for(id) => Res::Status(status_json(&s.status)),
                Ok(s) => Res::Jwt(format!("foreign session {}", s.uuid)),
                Err(_) => Res::Err,
            },
            Op::Update(s) => {
                let s: Status = serde_json::from_value(s.clone()).unwrap();
                self.store.update_status(id, s).await.map_or(Res::Err, |_| Res::Ok)
            }
        };
        let ret = self.clock.fetch_add(1, Ordering::SeqCst);
        self.log.lock().unwrap().push(Event { id, op, res, call, ret });
    }
}

type BoxFut = std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>>;

fn some_op(rng: &mut StdRng, n: u64) -> Op {
    match rng.gen_range(0..14) {
        0..=3 => Op::Retrieve,
        4..=6 => Op::Verify(outcome_json(&outcome_of(n))),
        7..=9 => Op::Poll,
        10 => Op::Remove,
        11 => Op::Get,
        12 => Op::Update(json!("ReceivedResponse")),
        _ => Op::Update(pick(rng, &[json!("SentRequest"), json!("SentRequestByReference")]).clone()),
    }
}

/// Independent of the order found: once a verification of a session completed, no later read shows an earlier stage.
fn monotone(events: &[Event], existed: bool) -> Result<(), String> {
    let rebuilt = events.iter().filter(|e| e.op == Op::Build).count() > usize::from(!existed);
    if rebuilt {
        return Ok(());
    }
    let reads: Vec<(&Event, u8)> = events
        .iter()
        .filter_map(|e| match &e.res {
            Res::Status(s) => Some((e, rank(s))),
            _ if matches!(e.op, Op::Verify(_)) && e.res == Res::Ok => Some((e, 3)),
            _ => None,
        })
        .collect();
    for (a, ra) in &reads {
        for (b, rb) in &reads {
            ensure!(!(a.ret < b.call && ra > rb), "the status went back: {a:?} and later {b:?}");
        }
    }
    Ok(())
}

fn judge_history(events: &[Event], initial: &Json, existing: &HashSet<Uuid>) -> Result<(), String> {
    let mut by: HashMap<Uuid, Vec<Event>> = HashMap::new();
    for e in events {
        by.entry(e.id).or_default().push(e.clone());
    }
    for (id, mut ev) in by {
        ev.sort_by_key(|e| e.call);
        monotone(&ev, existing.contains(&id))?;
        let jwt = jwt_for(id);
        let start = Model { session: existing.contains(&id).then(|| (initial.to_string(), jwt.clone())) };
        ensure!(
            linearizable(&ev, &start, initial, &jwt),
            "no order of the operations on session {id} explains what they returned: {ev:#?}"
        );
    }
    Ok(())
}

pub fn c14(ctx: &mut Ctx) {
    ctx.rule = "histories of concurrent operations: all interleavings of small scenarios (suspending store), random ones of larger scenarios, and real threads on the built-in store; distinct by (operations, schedule)".into();
    ctx.assumptions.push("threads: the interleavings the scheduler produced; the lock inside the store is tokio's".into());
    for (c, n) in [("interleavings: two operations", 500u64), ("interleavings: three operations", 500), ("interleavings: random", 500), ("threads", 100), ("many sessions", 2), ("own store", 500), ("thread collisions", 2000)] {
        ctx.require(c, n);
    }
    let mut rng = ctx.fork_rng();
    let outcome_ops = |a: u64| Op::Verify(outcome_json(&outcome_of(a)));
    let menu: Vec<Op> = vec![Op::Retrieve, outcome_ops(0), outcome_ops(1), Op::Poll, Op::Remove, Op::Get, Op::Update(json!("ReceivedResponse")), Op::Build];
    // Scenarios: ordered lists of (session index, operation).
    let mut scenarios: Vec<(&'static str, Vec<Vec<(usize, Op)>>)> = vec![];
    for a in 0..menu.len() {
        for b in a..menu.len() {
            scenarios.push(("interleavings: two operations", vec![vec![(0, menu[a].clone())], vec![(0, menu[b].clone())]]));
            if chance(&mut rng, 0.3) {
                scenarios.push(("interleavings: two operations", vec![vec![(0, menu[a].clone()), (0, Op::Poll)], vec![(1, menu[b].clone()), (0, Op::Poll)]]));
            }
        }
    }
    for _ in 0..ctx.n(24, 150) {
        let tasks = (0..3).map(|_| vec![(if chance(&mut rng, 0.85) { 0 } else { 1 }, pick(&mut rng, &menu).clone())]).collect();
        scenarios.push(("interleavings: three operations", tasks));
    }
    // The one that matters most: retrieval racing a verification, observed before and after.
    scenarios.push(("interleavings: three operations", vec![vec![(0, Op::Retrieve)], vec![(0, outcome_ops(0)), (0, Op::Poll)], vec![(0, Op::Poll)]]));
    let cap = ctx.n(400, 6_000);
    let mut exhausted = 0;
    let mut total = 0;
    for (class, tasks) in &scenarios {
        for by_ref in [true, false] {
            let mut dfs = Dfs::new();
            let mut count = 0;
            total += 1;
            loop {
                dfs.begin();
                let verdict = run_one(&mut rng, tasks, by_ref, |runnable| dfs.choose(runnable.len()));
                let (events, verdict) = match verdict {
                    Ok((e, v)) => (e, v),
                    Err(p) => (vec![], Err(p)),
                };
                ctx.events(events.len());
                let key = format!("{tasks:?}/{by_ref}/{:?}", dfs.trace());
                ctx.judge(class, Some(&key), || json!({"tasks": format!("{tasks:?}"), "by_reference": by_ref, "schedule": dfs.trace(), "history": format!("{events:?}")}), verdict);
                if ctx.saturated() {
                    return;
                }
                count += 1;
                if !dfs.next() {
                    exhausted += 1;
                    break;
                }
                if count >= cap {
                    break;
                }
            }
        }
    }
    ctx.extra.insert("scenarios".into(), json!(total));
    ctx.extra.insert("scenarios_with_all_interleavings_seen".into(), json!(exhausted));
    // Random schedules of longer programs on two sessions.
    for i in 0..ctx.n(1_500, 40_000) {
        let nt = rng.gen_range(2..5);
        let tasks: Vec<Vec<(usize, Op)>> = (0..nt)
            .map(|t| (0..rng.gen_range(1..4)).map(|k| (if chance(&mut rng, 0.7) { 0 } else { 1 }, some_op(&mut rng, (i * 31 + t * 7 + k) as u64))).collect())
            .collect();
        let by_ref = chance(&mut rng, 0.7);
        let seed: u64 = rng.gen();
        let mut sched = StdRng::seed_from_u64(seed);
        let r = run_one(&mut rng, &tasks, by_ref, |runnable| sched.gen_range(0..runnable.len()));
        let (events, verdict) = match r {
            Ok((e, v)) => (e, v),
            Err(p) => (vec![], Err(p)),
        };
        ctx.events(events.len());
        ctx.judge("interleavings: random", Some(&format!("{tasks:?}/{seed}")), || json!({"tasks": format!("{tasks:?}"), "schedule_seed": seed, "history": format!("{events:?}")}), verdict);
        if ctx.saturated() {
            return;
        }
    }
    for i in 0..ctx.n(1_500, 20_000) {
        let got = guard(|| own_store(&mut rng, 24));
        let (events, verdict) = match got {
            Ok(x) => x,
            Err(p) => (vec![], Err(p)),
        };
        ctx.events(events.len());
        ctx.judge("own store", Some(&i.to_string()), || json!({"history": format!("{events:?}")}), verdict);
        if ctx.saturated() {
            return;
        }
    }
    // Many sessions and long lives, one operation at a time.
    for size in if ctx.thorough { vec![300, 2_000, 12_000, 70_000] } else { vec![300, 12_000] } {
        let by_ref = chance(&mut rng, 0.7);
        let got = guard(|| many(&mut rng, size, by_ref));
        let (n, verdict) = match got {
            Ok((n, v)) => (n, v),
            Err(p) => (0, Err(p)),
        };
        ctx.events(n);
        ctx.judge("many sessions", Some(&format!("{size}")), || json!({"sessions": size, "by_reference": by_ref}), verdict);
    }
    // Real threads on the store itself.
    let mut overlaps = 0u64;
    for round in 0..ctx.n(150, 3_000) {
        let seed: u64 = rng.gen();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let _ = tx.send(guard(|| threads(seed)));
        });
        let (events, verdict) = match rx.recv_timeout(Duration::from_secs(60)) {
            Err(_) => (vec![], Err("concurrent session operations did not finish".to_string())),
            Ok(Err(p)) => (vec![], Err(p)),
            Ok(Ok((events, verdict))) => (events, verdict),
        };
        ctx.events(events.len());
        overlaps += events.iter().filter(|e| events.iter().any(|f| f.id == e.id && f.call < e.call && e.call < f.ret)).count() as u64;
        ctx.judge("threads", Some(&format!("{round}/{seed}")), || json!({"seed": seed, "operations": events.len(), "sample": format!("{:?}", events.iter().take(5).collect::<Vec<_>>())}), verdict);
        if ctx.saturated() {
            break;
        }
    }
    // Threads that start their operations on one session at the same instant, over and over.
    for _ in 0..ctx.n(8, 80) {
        let seed: u64 = rng.gen();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let _ = tx.send(guard(|| collisions(seed, 1_000)));
        });
        let (histories, initial) = match rx.recv_timeout(Duration::from_secs(60)) {
            Ok(Ok(h)) => h,
            other => {
                let m = match other {
                    Ok(Err(p)) => p,
                    _ => "colliding session operations did not finish".to_string(),
                };
                ctx.judge("thread collisions", None, || json!({"seed": seed}), Err(m));
                return;
            }
        };
        for (id, ev) in histories {
            ctx.events(ev.len());
            overlaps += ev.iter().filter(|e| ev.iter().any(|f| f.call < e.call && e.call < f.ret)).count() as u64;
            let v = judge_history(&ev, &initial, &HashSet::from([id]));
            let key = format!("{:?}", ev.iter().map(|e| (&e.op, e.call - ev[0].call, e.ret - ev[0].call)).collect::<Vec<_>>());
            ctx.judge("thread collisions", Some(&key), || json!({"seed": seed, "history": format!("{ev:?}")}), v);
        }
        if ctx.saturated() {
            break;
        }
    }
    ctx.extra.insert("operations_overlapping_on_one_session".into(), json!(overlaps));
}

type Judged = (Vec<Event>, Result<(), String>);

fn run_one(rng: &mut StdRng, tasks: &[Vec<(usize, Op)>], by_ref: bool, choose: impl FnMut(&[usize]) -> usize) -> Result<Judged, String> {
    let probe = Probe::new();
    let store = TestStore { inner: MemoryStore::default(), probe: probe.clone() };
    let s = Arc::new(sut(rng, Arc::new(store), by_ref));
    let ids = [odd_uuid(rng), uuid(rng)];
    guard(move || {
        for id in ids {
            block_on(s.exec(id, Op::Build, 0, || Box::pin(async {})));
        }
        let setup: Vec<Event> = std::mem::take(&mut *s.log.lock().unwrap());
        if setup.iter().any(|e| e.res != Res::Ok) {
            return (setup, Err("a session could not be built".into()));
        }
        let _ = probe.clone().with_yields();
        let mut n = 0;
        let jobs: Vec<Task> = tasks
            .iter()
            .map(|t| {
                let t = t.clone();
                let s = s.clone();
                let base = n;
                n += t.len() as u64;
                let t: Vec<(Uuid, Op, u64)> = t
                    .into_iter()
                    .enumerate()
                    .map(|(k, (i, op))| {
                        let tag = base + k as u64;
                        // Each verification has its own outcome, so that reads identify their writer.
                        let op = if matches!(op, Op::Verify(_)) { Op::Verify(outcome_json(&outcome_of(tag))) } else { op };
                        (ids[i], op, tag)
                    })
                    .collect();
                let task: Task = Box::pin(async move {
                    for (id, op, tag) in t {
                        s.exec(id, op, tag, || Box::pin(async { crate::exec::yield_now().await })).await;
                    }
                });
                task
            })
            .collect();
        let end = run_schedule(jobs, choose);
        // What the store holds afterwards belongs to the history.
        let final_reads = |s: &Sut| {
            for id in ids {
                block_on(s.exec(id, Op::Poll, 0, || Box::pin(async {})));
                block_on(s.exec(id, Op::Get, 0, || Box::pin(async {})));
            }
        };
        if end == RunEnd::Done {
            final_reads(&s);
        }
        let events = s.log.lock().unwrap().clone();
        let verdict = if end != RunEnd::Done {
            Err(format!("the operations did not finish: {end:?}"))
        } else {
            judge_history(&events, &s.initial(), &ids.into_iter().collect())
        };
        (events, verdict)
    })
}

/// Sessions do not expire by themselves: between two operations any time may pass.
fn some_time(rng: &mut StdRng) -> i64 {
    *pick(rng, &[1, 61, 301, 601, 3_601, 86_401, 8 * 86_400, 31 * 86_400, 400 * 86_400])
}

fn many(rng: &mut StdRng, size: usize, by_ref: bool) -> (usize, Result<(), String>) {
    let store: Arc<dyn SessionStore + Send + Sync> = if size < 1_000 { Arc::new(Handles::new(rng)) } else { Arc::new(MemoryStore::default()) };
    let s = sut(rng, store, by_ref);
    let initial = s.initial();
    let mut model: HashMap<Uuid, Model> = HashMap::new();
    let mut ids: Vec<Uuid> = vec![];
    let mut events = 0;
    let time = crate::clock::Later::now();
    let jumps = chance(rng, 0.5) || size < 1_000;
    let mut one = |id: Uuid, op: Op, n: u64, model: &mut HashMap<Uuid, Model>| -> Result<(), String> {
        block_on(s.exec(id, op, n, || Box::pin(async {})));
        let e = s.log.lock().unwrap().pop().unwrap();
        events += 1;
        let before = model.get(&id).cloned().unwrap_or(Model { session: None });
        match step(&before, &e.op, &e.res, &initial, &jwt_for(id)) {
            Some(m) => {
                model.insert(id, m);
                Ok(())
            }
            None => Err(format!("with {size} sessions, {:?} on a session in state {before:?} gave {:?}", e.op, e.res)),
        }
    };
    let r = (|| {
        for i in 0..size {
            let id = if i % 50 == 0 { odd_uuid(rng) } else { uuid(rng) };
            ids.push(id);
            one(id, Op::Build, 0, &mut model)?;
            let other = *pick(rng, &ids);
            let op = some_op(rng, i as u64);
            one(other, op, i as u64, &mut model)?;
            if jumps && chance(rng, 0.05) {
                time.pass(some_time(rng));
            }
        }
        // One session that sees far more traffic than the others.
        let busy = ids[0];
        one(busy, Op::Build, 0, &mut model)?;
        for i in 0..1500u64 {
            let mut op = some_op(rng, i);
            if op == Op::Remove {
                op = Op::Get;
            }
            if jumps && chance(rng, 0.05) {
                time.pass(some_time(rng));
            }
            one(busy, op, i, &mut model)?;
        }
        for id in &ids {
            one(*id, Op::Poll, 0, &mut model)?;
            one(*id, Op::Get, 0, &mut model)?;
        }
        Ok(())
    })();
    (events, r)
}

/// A store of the caller's own, which does exactly what it is told.
#[derive(Debug, Default)]
struct PlainStore(Mutex<HashMap<Uuid, Session>>);

#[async_trait::async_trait]
impl SessionStore for PlainStore {
    async fn initiate(&self, session: Session) -> anyhow::Result<()> {
        self.0.lock().unwrap().insert(session.uuid, session);
        Ok(())
    }
    async fn update_status(&self, uuid: Uuid, status: Status) -> anyhow::Result<()> {
        match self.0.lock().unwrap().get_mut(&uuid) {
            Some(s) => {
                s.status = status;
                Ok(())
            }
            None => anyhow::bail!("no such session"),
        }
    }
    async fn get_session(&self, uuid: Uuid) -> anyhow::Result<Session> {
        self.0.lock().unwrap().get(&uuid).cloned().ok_or_else(|| anyhow::anyhow!("no such session"))
    }
    async fn remove_session(&self, uuid: Uuid) -> anyhow::Result<()> {
        self.0.lock().unwrap().remove(&uuid).map(|_| ()).ok_or_else(|| anyhow::anyhow!("no such session"))
    }
}

/// One operation at a time on a store that does what it is told: the library itself asks for no step back.
fn own_store(rng: &mut StdRng, steps: usize) -> (Vec<Event>, Result<(), String>) {
    let by_ref = chance(rng, 0.7);
    let s = sut(rng, Arc::new(PlainStore::default()), by_ref);
    let initial = s.initial();
    let ids = [odd_uuid(rng), uuid(rng), uuid(rng)];
    let mut model: HashMap<Uuid, Model> = HashMap::new();
    let mut events = vec![];
    let time = crate::clock::Later::now();
    for i in 0..steps {
        if chance(rng, 0.1) {
            time.pass(some_time(rng));
        }
        let id = *pick(rng, &ids);
        let before = model.get(&id).cloned().unwrap_or(Model { session: None });
        let op = match some_op(rng, i as u64) {
            _ if i < ids.len() || (before.session.is_none() && chance(rng, 0.5)) => Op::Build,
            Op::Remove if chance(rng, 0.7) => Op::Retrieve,
            op => op,
        };
        block_on(s.exec(id, op, i as u64, || Box::pin(async {})));
        let e = s.log.lock().unwrap().pop().unwrap();
        events.push(e.clone());
        let after = match (&e.op, &before.session) {
            (Op::Update(n), Some((_, jwt))) if e.res == Res::Ok => Some(Model { session: Some((n.to_string(), jwt.clone())) }),
            _ => step(&before, &e.op, &e.res, &initial, &jwt_for(id)),
        };
        match after {
            Some(m) => model.insert(id, m),
            None => return (events, Err(format!("on a store that does what it is told, {:?} on a session in state {before:?} gave {:?}", e.op, e.res))),
        };
    }
    (events, Ok(()))
}

/// One built-in store behind many handles: cloned at any time, every call through another of them.
#[derive(Debug)]
struct Handles(Mutex<(Vec<Arc<MemoryStore>>, StdRng)>);

impl Handles {
    fn new(rng: &mut StdRng) -> Self {
        Self(Mutex::new((vec![Arc::default()], StdRng::seed_from_u64(rng.gen()))))
    }
    fn some(&self) -> Arc<MemoryStore> {
        let mut g = self.0.lock().unwrap();
        let (handles, rng) = &mut *g;
        let h = handles[rng.gen_range(0..handles.len())].clone();
        if handles.len() < 40 && rng.gen_range(0..5) == 0 {
            let new = Arc::new(MemoryStore::clone(&h));
            handles.push(new.clone());
            return if rng.gen() { new } else { h };
        }
        h
    }
}

#[async_trait::async_trait]
impl SessionStore for Handles {
    async fn initiate(&self, session: Session) -> anyhow::Result<()> {
        self.some().initiate(session).await
    }
    async fn update_status(&self, uuid: Uuid, status: Status) -> anyhow::Result<()> {
        self.some().update_status(uuid, status).await
    }
    async fn get_session(&self, uuid: Uuid) -> anyhow::Result<Session> {
        self.some().get_session(uuid).await
    }
    async fn remove_session(&self, uuid: Uuid) -> anyhow::Result<()> {
        self.some().remove_session(uuid).await
    }
}

fn built_in(rng: &mut StdRng) -> Arc<dyn SessionStore + Send + Sync> {
    if chance(rng, 0.5) {
        Arc::new(Handles::new(rng))
    } else {
        Arc::new(MemoryStore::default())
    }
}

/// Poll without ever sleeping, so that a released lock is taken at once.
fn spin_on<F: std::future::Future>(f: F) -> F::Output {
    let _in_runtime = crate::exec::enter();
    let mut f = std::pin::pin!(f);
    let waker = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(waker);
    let start = std::time::Instant::now();
    let mut n = 0u64;
    loop {
        if let std::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        n += 1;
        if n % 64 == 0 {
            std::thread::yield_now();
            assert!(start.elapsed() < Duration::from_secs(30), "an operation on a session never finished");
        }
        std::hint::spin_loop();
    }
}

type Histories = (Vec<(Uuid, Vec<Event>)>, Json);

fn collisions(seed: u64, rounds: usize) -> Histories {
    let mut rng = StdRng::seed_from_u64(seed);
    let width = rng.gen_range(2..5usize);
    let by_ref = chance(&mut rng, 0.8);
    let s = Arc::new(sut(&mut rng, Arc::new(MemoryStore::default()), by_ref));
    let mut plan = vec![];
    for r in 0..rounds {
        let id = uuid(&mut rng);
        spin_on(s.exec(id, Op::Build, 0, || Box::pin(async {})));
        let ops: Vec<(Op, u64, u32)> = (0..width)
            .map(|t| {
                let n = (r * 8 + t) as u64;
                (some_op(&mut rng, n), n, *pick(&mut rng, &[0, 0, 0, 10, 50, 200]))
            })
            .collect();
        plan.push((id, ops));
    }
    s.log.lock().unwrap().clear();
    let plan = Arc::new(plan);
    let arrived = Arc::new(AtomicU64::new(0));
    let hs: Vec<_> = (0..width)
        .map(|t| {
            let (s, plan, arrived) = (s.clone(), plan.clone(), arrived.clone());
            std::thread::spawn(move || {
                for (r, (id, ops)) in plan.iter().enumerate() {
                    let (op, n, jitter) = ops[t].clone();
                    arrived.fetch_add(1, Ordering::SeqCst);
                    let mut k = 0u64;
                    while arrived.load(Ordering::SeqCst) < (width * (r + 1)) as u64 {
                        k += 1;
                        if k % 256 == 0 {
                            std::thread::yield_now();
                        }
                        std::hint::spin_loop();
                    }
                    for _ in 0..jitter {
                        std::hint::spin_loop();
                    }
                    spin_on(s.exec(*id, op, n, || Box::pin(async {})));
                }
            })
        })
        .collect();
    for h in hs {
        h.join().expect("thread");
    }
    for (id, _) in plan.iter() {
        spin_on(s.exec(*id, Op::Poll, 0, || Box::pin(async {})));
    }
    let mut by: HashMap<Uuid, Vec<Event>> = HashMap::new();
    for e in s.log.lock().unwrap().iter() {
        by.entry(e.id).or_default().push(e.clone());
    }
    let out = plan
        .iter()
        .map(|(id, _)| {
            let mut ev = by.remove(id).unwrap_or_default();
            ev.sort_by_key(|e| e.call);
            (*id, ev)
        })
        .collect();
    (out, s.initial())
}

fn threads(seed: u64) -> Judged {
    let mut rng = StdRng::seed_from_u64(seed);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).build().unwrap();
    let store = built_in(&mut rng);
    let by_ref = chance(&mut rng, 0.8);
    let s = Arc::new(sut(&mut rng, store, by_ref));
    let n_sessions = *pick(&mut rng, &[2usize, 4, 8, 16]);
    let ids: Vec<Uuid> = (0..n_sessions).map(|_| uuid(&mut rng)).collect();
    let counter = Arc::new(AtomicU64::new(1));
    // Each session sees at most this many operations, so that its history can be judged.
    let per_session = 14;
    let mut plan: Vec<(Uuid, Op, u64)> = vec![];
    for id in &ids {
        for _ in 0..per_session {
            let n = counter.fetch_add(1, Ordering::SeqCst);
            let mut op = some_op(&mut rng, n);
            if op == Op::Remove && chance(&mut rng, 0.6) {
                op = Op::Poll;
            }
            plan.push((*id, op, n));
        }
    }
    for i in (1..plan.len()).rev() {
        plan.swap(i, rng.gen_range(0..=i));
    }
    let tasks = 8;
    rt.block_on(async {
        // Building is concurrent too.
        let hs: Vec<_> = ids
            .iter()
            .map(|id| {
                let (s, id) = (s.clone(), *id);
                tokio::spawn(async move { s.exec(id, Op::Build, 0, || Box::pin(async {})).await })
            })
            .collect();
        for h in hs {
            let _ = h.await;
        }
        let barrier = Arc::new(tokio::sync::Barrier::new(tasks));
        let mut hs = vec![];
        for t in 0..tasks {
            let mine: Vec<_> = plan.iter().skip(t).step_by(tasks).cloned().collect();
            let (s, barrier) = (s.clone(), barrier.clone());
            let lazy = rng.gen::<bool>();
            hs.push(tokio::spawn(async move {
                barrier.wait().await;
                for (k, (id, op, n)) in mine.into_iter().enumerate() {
                    s.exec(id, op, n, || {
                        Box::pin(async {
                            tokio::task::yield_now().await;
                        })
                    })
                    .await;
                    if lazy && k % 3 == 0 {
                        tokio::task::yield_now().await;
                    }
                }
            }));
        }
        for h in hs {
            h.await.expect("task");
        }
        for id in &ids {
            s.exec(*id, Op::Poll, 0, || Box::pin(async {})).await;
        }
    });
    rt.shutdown_background();
    let events = s.log.lock().unwrap().clone();
    let verdict = judge_history(&events, &s.initial(), &HashSet::new());
    (events, verdict)
}
