//! C23: the bundled HTTP client against a loopback server that records raw requests and sends raw answers.
use crate::{
    ctx::{guard, Ctx},
    ensure,
    gen::{self, chance, pick},
};
use http::{header::HeaderName, HeaderValue, Method, Request, Response};
use openid4vp::core::util::{AsyncHttpClient, ReqwestClient};
use rand::{rngs::StdRng, Rng};
use serde_json::{json, Value as Json};
use std::{
    collections::HashMap,
    io::{Read, Write},
    net::{TcpListener, TcpStream},
    sync::{Arc, Mutex},
    time::Duration,
};

/// The raw answer to one request, and when to close the connection.
#[derive(Clone, Debug, Default)]
struct Answer {
    bytes: Vec<u8>,
    /// Pauses after this many bytes, so that the client sees the answer in pieces.
    pauses: Vec<usize>,
    close: bool,
    /// Time the server takes at each pause; a default when zero.
    slow: Duration,
}

#[derive(Clone, Debug)]
struct Seen {
    line: String,
    headers: Vec<(String, Vec<u8>)>,
    body: Vec<u8>,
}

#[derive(Default)]
struct Script {
    answers: HashMap<String, Answer>,
    seen: HashMap<String, Vec<Seen>>,
    connections: usize,
}

struct Server {
    port: u16,
    script: Arc<Mutex<Script>>,
}

/// The id of a request is the first path segment.
fn id_of(target: &str) -> String {
    target.trim_start_matches('/').split(['/', '?']).next().unwrap_or("").to_string()
}

fn serve(mut s: TcpStream, script: Arc<Mutex<Script>>) -> std::io::Result<()> {
    s.set_read_timeout(Some(Duration::from_secs(60)))?;
    s.set_nodelay(true)?;
    let mut buf = vec![];
    loop {
        let head = loop {
            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break p + 4;
            }
            let mut b = [0; 4096];
            let n = s.read(&mut b)?;
            if n == 0 {
                return Ok(());
            }
            buf.extend(&b[..n]);
        };
        let raw: Vec<u8> = buf.drain(..head).collect();
        let mut lines = raw[..head - 4].split(|b| *b == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l));
        let line = String::from_utf8_lossy(lines.next().unwrap_or(b"")).into_owned();
        let headers: Vec<(String, Vec<u8>)> = lines
            .filter_map(|l| {
                let p = l.iter().position(|b| *b == b':')?;
                let v = &l[p + 1..];
                let v = v.strip_prefix(b" ").unwrap_or(v);
                Some((String::from_utf8_lossy(&l[..p]).to_ascii_lowercase(), v.to_vec()))
            })
            .collect();
        let get = |k: &str| headers.iter().find(|h| h.0 == k).map(|h| String::from_utf8_lossy(&h.1).into_owned());
        let mut body = vec![];
        if let Some(n) = get("content-length").and_then(|v| v.parse::<usize>().ok()) {
            while buf.len() < n {
                let mut b = [0; 65536];
                let k = s.read(&mut b)?;
                if k == 0 {
                    return Ok(());
                }
                buf.extend(&b[..k]);
            }
            body = buf.drain(..n).collect();
        } else if get("transfer-encoding").is_some() {
            body = b"chunked request".to_vec();
        }
        let id = id_of(line.split(' ').nth(1).unwrap_or(""));
        let answer = {
            let mut sc = script.lock().unwrap();
            sc.seen.entry(id.clone()).or_default().push(Seen { line, headers, body });
            sc.answers.get(&id).cloned().unwrap_or_default()
        };
        let mut at = 0;
        for p in answer.pauses.iter().copied().chain([answer.bytes.len()]) {
            let p = p.min(answer.bytes.len());
            if p > at {
                s.write_all(&answer.bytes[at..p])?;
                s.flush()?;
                at = p;
                if p < answer.bytes.len() {
                    std::thread::sleep(answer.slow.max(Duration::from_micros(500)));
                }
            }
        }
        if answer.close {
            // Orderly: let the client see everything sent, then the end.
            s.shutdown(std::net::Shutdown::Write)?;
            let mut b = [0; 1024];
            while matches!(s.read(&mut b), Ok(n) if n > 0) {}
            return Ok(());
        }
    }
}

impl Server {
    fn start() -> Self {
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let port = l.local_addr().unwrap().port();
        let script = Arc::new(Mutex::new(Script::default()));
        let sc = script.clone();
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                let sc = sc.clone();
                sc.lock().unwrap().connections += 1;
                std::thread::spawn(move || serve(c, sc));
            }
        });
        Self { port, script }
    }
}

struct Case {
    id: String,
    request: Request<Vec<u8>>,
    answer: Answer,
    /// What the caller must get; None: an error.
    expect: Option<(u16, Vec<(String, Vec<u8>)>, Vec<u8>)>,
    what: String,
}

fn header_value(rng: &mut StdRng) -> Vec<u8> {
    let n = if chance(rng, 0.02) { rng.gen_range(20..6000) } else { rng.gen_range(0..20) };
    let mut v: Vec<u8> = (0..n)
        .map(|_| match rng.gen_range(0..12) {
            0 => rng.gen_range(0x80..=0xff),
            1 => b' ',
            2 => *pick(rng, b",;=\"\\:%"),
            _ => rng.gen_range(0x21..0x7f),
        })
        .collect();
    while matches!(v.last(), Some(b' ')) {
        v.pop();
    }
    while matches!(v.first(), Some(b' ')) {
        v.remove(0);
    }
    v
}

fn body(rng: &mut StdRng) -> Vec<u8> {
    let n = match rng.gen_range(0..10) {
        0 => 0,
        1 if chance(rng, 0.02) => rng.gen_range(1_000_000..3_000_000),
        1..=5 => rng.gen_range(1..200),
        6..=7 => rng.gen_range(200..9000),
        _ => *pick(rng, &[4095usize, 4096, 8191, 8192, 8193, 16384, 65535, 65536, 70_000, 200_000]),
    };
    (0..n).map(|_| rng.gen()).collect()
}

fn case(rng: &mut StdRng, port: u16, dead: u16, i: usize) -> Case {
    let id = format!("r{i}");
    let refused = chance(rng, 0.03);
    let mut target = format!("/{id}");
    for _ in 0..rng.gen_range(0..3) {
        target += &format!("/{}", if chance(rng, 0.5) { gen::ident(rng, 1, 8) } else { gen::url_escape(&gen::nonempty_text(rng)) });
    }
    if target.contains("/.") || target.len() > 20_000 {
        target = format!("/{id}");
    }
    if chance(rng, 0.4) {
        let k = gen::ident(rng, 1, 5);
        let v = gen::url_escape(&gen::text(rng));
        if v.len() < 20_000 {
            target += &format!("?{k}={v}");
        }
    }
    let method = pick(rng, &[Method::GET, Method::GET, Method::POST, Method::POST, Method::PUT, Method::DELETE, Method::HEAD, Method::PATCH, Method::OPTIONS]).clone();
    let mut request = Request::builder()
        .method(method.clone())
        .uri(format!("http://127.0.0.1:{}{target}", if refused { dead } else { port }));
    for _ in 0..if chance(rng, 0.02) { 40 } else { rng.gen_range(0..4) } {
        let name = match rng.gen_range(0..4) {
            0 => "prefer".to_string(),
            1 => "content-type".into(),
            2 => "x-repeated".into(),
            _ => format!("x-{}", gen::lower(rng, 1, 8)),
        };
        let name = HeaderName::from_bytes(name.as_bytes()).unwrap();
        request = request.header(name, HeaderValue::from_bytes(&header_value(rng)).unwrap());
    }
    let sent = if matches!(method, Method::GET | Method::HEAD) && chance(rng, 0.85) { vec![] } else { body(rng) };
    let request = request.body(sent).unwrap();

    let status: u16 = match rng.gen_range(0..6) {
        0..=1 => 200,
        2 => *pick(rng, &[201, 202, 203, 204, 205, 206, 207, 208, 226]),
        3 => *pick(rng, &[300, 301, 302, 303, 304, 307, 308]), // without Location: nothing to follow
        4 => *pick(rng, &[400, 401, 403, 404, 405, 410, 413, 418, 429, 451, 500, 501, 502, 503, 504]),
        _ => rng.gen_range(400..=999),
    };
    let bodyless = matches!(status, 204 | 304) || method == Method::HEAD;
    let content = if matches!(status, 204 | 304) { vec![] } else { body(rng) };
    let mut headers: Vec<(String, Vec<u8>)> = vec![];
    for _ in 0..if chance(rng, 0.02) { rng.gen_range(40..90) } else { rng.gen_range(0..6) } {
        let name = match rng.gen_range(0..6) {
            0 => "set-cookie".to_string(),
            1 => "content-type".into(),
            2 => pick(rng, &["content-encoding", "etag", "cache-control", "warning", "link", "www-authenticate"]).to_string(),
            3 => "x-repeated".into(),
            _ => format!("x-{}", gen::ident(rng, 1, 8).to_ascii_lowercase()),
        };
        let v = header_value(rng);
        headers.push((name, v));
    }
    let framing = rng.gen_range(0..3);
    let mut close = chance(rng, 0.3);
    let version = if chance(rng, 0.1) {
        close = true;
        "HTTP/1.0"
    } else {
        "HTTP/1.1"
    };
    let mut payload: Vec<u8> = vec![];
    match framing {
        0 if version == "HTTP/1.1" && !matches!(status, 204 | 304) => {
            headers.push(("transfer-encoding".into(), b"chunked".to_vec()));
            let mut at = 0;
            while at < content.len() {
                let n = rng.gen_range(1..=content.len() - at);
                payload.extend(format!("{n:x}\r\n").bytes());
                payload.extend(&content[at..at + n]);
                payload.extend(b"\r\n");
                at += n;
            }
            payload.extend(b"0\r\n\r\n");
        }
        1 if !bodyless => {
            close = true;
            payload = content.clone();
        }
        _ => {
            if !matches!(status, 204 | 304) {
                headers.push(("content-length".into(), content.len().to_string().into_bytes()));
            }
            payload = content.clone();
        }
    }
    let framing = headers.last().map(|h| h.0.clone()).filter(|h| h == "content-length" || h == "transfer-encoding").unwrap_or("close".into());
    if close {
        headers.push(("connection".into(), b"close".to_vec()));
    }
    let mut bytes = format!("{version} {status} {}\r\n", pick(rng, &["OK", "", "Not Found", "Whatever it is"])).into_bytes();
    for (k, v) in &headers {
        bytes.extend(if chance(rng, 0.5) { k.clone() } else { k.to_ascii_uppercase() }.bytes());
        bytes.extend(if chance(rng, 0.8) { &b": "[..] } else { &b":"[..] });
        bytes.extend(v);
        bytes.extend(b"\r\n");
    }
    bytes.extend(b"\r\n");
    let head = bytes.len();
    if !bodyless {
        bytes.extend(&payload);
    }
    let mut what = format!("{method} {} {framing} {version}{}", status / 100, if close { " close" } else { "" });
    let mut expect = Some((status, headers, if bodyless { vec![] } else { content }));
    if refused {
        expect = None;
        what = "connection refused".into();
    } else if chance(rng, 0.15) {
        // Cut the answer short where the client can tell.
        let cut = match rng.gen_range(0..4) {
            0 => Some((0, "no answer")),
            1 => Some((rng.gen_range(1..head - 1), "cut in the head")),
            _ if framing != "close" && bytes.len() > head => Some((rng.gen_range(head..bytes.len()), "cut in the body")),
            _ => None,
        };
        if let Some((n, w)) = cut {
            bytes.truncate(n);
            close = true;
            expect = None;
            what = format!("{w}: {framing}");
        }
    } else if chance(rng, 0.03) {
        bytes = pick(rng, &[&b"\x16\x03\x01\x02\x00"[..], b"HTTP/1.1 abc\r\n\r\n", b"SSH-2.0-x\r\n\r\n", b"HTTP/1.1 200 OK\r\nbad header\r\n\r\n"]).to_vec();
        close = true;
        expect = None;
        what = "no HTTP".into();
    }
    let pauses = (0..rng.gen_range(0..3)).map(|_| rng.gen_range(0..=bytes.len())).collect::<Vec<_>>();
    let mut pauses = pauses;
    pauses.sort();
    Case { id, request, answer: Answer { bytes, pauses, close, slow: Duration::ZERO }, expect, what }
}

fn verdict(case: &Case, got: &Result<anyhow::Result<Response<Vec<u8>>>, String>, seen: &[Seen]) -> Result<(), String> {
    let got = got.as_ref().map_err(Clone::clone)?;
    let Some((status, headers, body)) = &case.expect else {
        ensure!(got.is_err(), "reported as success: {:?}", got.as_ref().map(|r| (r.status(), r.body().len())));
        return Ok(());
    };
    let got = got.as_ref().map_err(|e| format!("failed: {e:#}"))?;
    ensure!(got.status().as_u16() == *status, "status {} instead of {status}", got.status());
    let mut names: Vec<&String> = headers.iter().map(|h| &h.0).collect();
    names.sort();
    names.dedup();
    for n in &names {
        let want: Vec<&[u8]> = headers.iter().filter(|h| h.0 == **n).map(|h| &h.1[..]).collect();
        let have: Vec<&[u8]> = got.headers().get_all(n.as_str()).iter().map(|v| v.as_bytes()).collect();
        ensure!(have == want, "header {n}: {have:?} instead of {want:?}");
    }
    for n in got.headers().keys() {
        ensure!(names.iter().any(|m| m.as_str() == n.as_str()), "header {n} was not sent by the server");
    }
    ensure!(got.body() == body, "body of {} bytes differs from the {} bytes sent", got.body().len(), body.len());

    ensure!(seen.len() == 1, "{} requests arrived", seen.len());
    let (seen, req) = (&seen[0], &case.request);
    let line = format!("{} {} HTTP/1.1", req.method(), req.uri().path_and_query().unwrap());
    ensure!(seen.line == line, "request line {:?} instead of {line:?}", seen.line);
    ensure!(seen.body == *req.body(), "request body of {} bytes instead of {}", seen.body.len(), req.body().len());
    for n in req.headers().keys() {
        let want: Vec<&[u8]> = req.headers().get_all(n).iter().map(|v| v.as_bytes()).collect();
        let have: Vec<&[u8]> = seen.headers.iter().filter(|h| h.0 == n.as_str()).map(|h| &h.1[..]).collect();
        ensure!(have == want, "request header {n}: {have:?} instead of {want:?}");
    }
    // What reqwest and HTTP add on their own, and nothing that tells the server more.
    for (n, _) in &seen.headers {
        let own = ["host", "accept", "content-length", "accept-encoding", "connection", "transfer-encoding", "user-agent"];
        ensure!(own.contains(&n.as_str()) || req.headers().contains_key(n.as_str()), "request header {n} was added");
    }
    Ok(())
}

/// Only targets which are already in the url crate's normal form arrive as they are given.
fn normal(c: &Case) -> bool {
    url::Url::parse(&c.request.uri().to_string()).is_ok_and(|u| u.as_str() == c.request.uri().to_string())
}

type Got = Result<anyhow::Result<Response<Vec<u8>>>, String>;
type Running = tokio::task::JoinHandle<Result<anyhow::Result<Response<Vec<u8>>>, tokio::time::error::Elapsed>>;

fn start(rt: &tokio::runtime::Runtime, client: &Arc<ReqwestClient>, c: &Case) -> Running {
    let (mut b, client) = (Request::builder(), client.clone());
    b = b.method(c.request.method()).uri(c.request.uri());
    *b.headers_mut().unwrap() = c.request.headers().clone();
    let r = b.body(c.request.body().clone()).unwrap();
    let limit = Duration::from_secs(60) + 2 * c.answer.slow;
    rt.spawn(async move { tokio::time::timeout(limit, client.execute(r)).await })
}

async fn finish(tasks: Vec<Running>) -> Vec<Got> {
    let mut out = vec![];
    for t in tasks {
        out.push(match t.await {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(_)) => Err("did not return within a minute of the answer".to_string()),
            Err(e) => Err(format!("panicked: {e}")),
        });
    }
    out
}

fn judge(ctx: &mut Ctx, server: &Server, cases: &[Case], got: &[Got]) {
    let mut script = server.script.lock().unwrap();
    for (c, g) in cases.iter().zip(got) {
        script.answers.remove(&c.id);
        let seen = script.seen.remove(&c.id).unwrap_or_default();
        ctx.events(seen.len());
        let class = match &c.expect {
            Some(_) => "exchange",
            None if c.what.contains("cut") || c.what.contains("no answer") => "truncated",
            None => c.what.as_str(),
        };
        let size = c.expect.as_ref().map_or(0, |e| (e.2.len() as f64).log2().max(0.0) as usize);
        let v = verdict(c, g, &seen);
        ctx.judge(
            class,
            Some(&format!("{} {size}", c.what)),
            || json!({"what": c.what, "uri": c.request.uri().to_string(), "answer": String::from_utf8_lossy(&c.answer.bytes[..c.answer.bytes.len().min(600)])}),
            v,
        );
    }
}

pub fn c23(ctx: &mut Ctx) {
    ctx.rule = "concurrent exchanges over reused and fresh loopback connections, answers of every framing, size and status, cut or garbled ones; distinct by (method, status class, framing, version, cut) and body size class".into();
    ctx.assumptions.push("plain HTTP/1 over loopback; TLS and HTTP/2 are the business of reqwest and not exercised".into());
    ctx.assumptions.push("redirects with a Location are followed by reqwest's policy and not judged".into());
    for c in ["exchange", "truncated", "connection refused", "no HTTP"] {
        ctx.require(c, 20);
    }
    for v in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] {
        std::env::remove_var(v);
    }
    let mut rng = ctx.fork_rng();
    let server = Server::start();
    let dead = {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        l.local_addr().unwrap().port()
    };
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let client = Arc::new(ReqwestClient::new().expect("client"));
    // Servers that take their time: these exchanges go on in the background.
    let mut slow: Vec<Case> = vec![];
    while slow.len() < 6 {
        let mut c = case(&mut rng, server.port, dead, 1_000_000_000 + slow.len());
        let n = c.answer.bytes.len();
        if c.expect.is_none() || n < 4 || !normal(&c) {
            continue;
        }
        // Before the answer, within its head or body.
        let first = if slow.len() % 2 == 0 { 1 } else { rng.gen_range(1..n - 1) };
        c.answer.pauses = vec![first];
        c.answer.slow = Duration::from_secs([4, 4, 12, 12, 32, 62][slow.len()]);
        if c.answer.slow > Duration::from_secs(if ctx.thorough { 100 } else { 40 }) {
            break;
        }
        c.what += " slowly";
        slow.push(c);
    }
    {
        let mut s = server.script.lock().unwrap();
        for c in &slow {
            s.answers.insert(c.id.clone(), c.answer.clone());
        }
    }
    let slow_tasks: Vec<_> = slow.iter().map(|c| start(&rt, &client, c)).collect();
    let mut next = 0;
    let total = ctx.n(20_000, 200_000);
    while next < total {
        let wave = rng.gen_range(1..24);
        let cases: Vec<Case> = (0..wave)
            .map(|k| case(&mut rng, server.port, dead, next + k))
            .filter(normal)
            .collect();
        next += wave;
        {
            let mut s = server.script.lock().unwrap();
            for c in &cases {
                s.answers.insert(c.id.clone(), c.answer.clone());
            }
        }
        let tasks: Vec<_> = cases.iter().map(|c| start(&rt, &client, c)).collect();
        let got = guard(|| rt.block_on(finish(tasks)));
        let got = match got {
            Ok(g) => g,
            Err(e) => return ctx.violate("panic", e, Json::Null),
        };
        judge(ctx, &server, &cases, &got);
        if ctx.saturated() {
            return;
        }
    }
    let got = rt.block_on(finish(slow_tasks));
    judge(ctx, &server, &slow, &got);
    let n = server.script.lock().unwrap().connections;
    ctx.extra.insert("connections".into(), json!(n));
}
