//! C22: the bundled HTTP server and client over a real loopback connection.

use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use hyperborealib::http::client::Response as HttpResponse;
use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::{Client, Server};
use serde_json::{json, Value as Json};

use crate::fixture::*;
use crate::net::{Net, TestServer};
use crate::proof::steps as scene_steps;
use crate::report::*;

/// Long enough for the busiest machine; nothing waits for it when all is well.
const PATIENCE: Duration = Duration::from_secs(60);

/// A loopback address nobody else uses.
fn fresh_address() -> SocketAddr {
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    for _ in 0..1000 {
        let (pid, n) = (std::process::id() as usize, NEXT.fetch_add(1, Ordering::SeqCst));
        let port = 20_000 + (n / 250) as u16 % 10_000;
        let address = SocketAddr::from(([127, 1 + (pid >> 8) as u8 % 120, pid as u8, 1 + (n % 250) as u8], port));
        if TcpListener::bind(address).is_ok() { return address; }
    }
    TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap()
}

fn io_runtime() -> tokio::runtime::Runtime {
    for name in ["http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"] { std::env::remove_var(name); }
    tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()
}

/// Wait until a server listens.
fn await_listening(address: SocketAddr) -> Result<(), String> {
    let start = std::time::Instant::now();
    loop {
        match TcpStream::connect(address) {
            Ok(_) => return Ok(()),
            Err(err) if start.elapsed() > PATIENCE => return Err(format!("the server does not listen: {err}")),
            Err(_) => std::thread::sleep(Duration::from_millis(1))
        }
    }
}

fn timed<T>(rt: &tokio::runtime::Runtime, what: &str, f: impl std::future::Future<Output = T>) -> Result<T, String> {
    rt.block_on(async { tokio::time::timeout(PATIENCE, f).await }).map_err(|_| format!("{what}: no answer"))
}

// ---------------------------------------------------------------- a plain HTTP client

#[derive(Debug, Clone, PartialEq)]
struct Answer { status: u16, body: Vec<u8> }

impl Answer {
    fn error(&self) -> bool { (400..600).contains(&self.status) }
    fn json(&self) -> Option<Json> { serde_json::from_slice(&self.body).ok() }
}

struct Wire { stream: TcpStream, buffer: Vec<u8> }

impl Wire {
    fn open(address: SocketAddr) -> Result<Wire, String> {
        let stream = TcpStream::connect_timeout(&address, PATIENCE).map_err(|e| format!("cannot connect: {e}"))?;
        stream.set_read_timeout(Some(PATIENCE)).unwrap();
        stream.set_write_timeout(Some(PATIENCE)).unwrap();
        stream.set_nodelay(true).unwrap();
        Ok(Wire { stream, buffer: Vec::new() })
    }

    /// Sending may fail when the server has already refused.
    fn send(&mut self, bytes: &[u8]) { let _ = self.stream.write_all(bytes); }

    fn fill(&mut self) -> Result<usize, String> {
        let mut chunk = [0; 65536];
        let n = match self.stream.read(&mut chunk) {
            Ok(n) => n,
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => return Err("no answer".into()),
            // The connection was reset.
            Err(_) => 0
        };
        self.buffer.extend(&chunk[..n]);
        Ok(n)
    }

    /// The next answer; none if the server closed the connection.
    fn receive(&mut self, head_only: bool) -> Result<Option<Answer>, String> {
        let head_end = loop {
            if let Some(at) = self.buffer.windows(4).position(|w| w == b"\r\n\r\n") { break at; }
            if self.fill()? == 0 { return Ok(None); }
        };
        let head = String::from_utf8_lossy(&self.buffer[..head_end]).to_string();
        self.buffer.drain(..head_end + 4);
        let status: u16 = head.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| format!("not HTTP: {head:?}"))?;
        if (100..200).contains(&status) { return self.receive(head_only); }
        let header = |name: &str| head.lines().filter_map(|l| l.split_once(':')).find(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.trim().to_string());
        if head_only { return Ok(Some(Answer { status, body: Vec::new() })); }
        let mut body = Vec::new();
        if header("transfer-encoding").is_some_and(|v| v.eq_ignore_ascii_case("chunked")) {
            loop {
                let line_end = loop {
                    if let Some(at) = self.buffer.windows(2).position(|w| w == b"\r\n") { break at; }
                    if self.fill()? == 0 { return Err("the answer ends early".into()); }
                };
                let size = usize::from_str_radix(String::from_utf8_lossy(&self.buffer[..line_end]).trim(), 16).map_err(|_| "bad chunk".to_string())?;
                while self.buffer.len() < line_end + 2 + size + 2 { if self.fill()? == 0 { return Err("the answer ends early".into()); } }
                body.extend(&self.buffer[line_end + 2..line_end + 2 + size]);
                self.buffer.drain(..line_end + 2 + size + 2);
                if size == 0 { break; }
            }
        } else if let Some(len) = header("content-length").and_then(|v| v.parse::<usize>().ok()) {
            while self.buffer.len() < len { if self.fill()? == 0 { return Err("the answer ends early".into()); } }
            body = self.buffer.drain(..len).collect();
        } else {
            while self.fill()? > 0 {}
            body = std::mem::take(&mut self.buffer);
        }
        Ok(Some(Answer { status, body }))
    }
}

fn text(method: &str, path: &str, body: &[u8]) -> Vec<u8> {
    let mut out = format!("{method} {path} HTTP/1.1\r\nhost: localhost\r\n").into_bytes();
    if !body.is_empty() || method == "POST" { out.extend(format!("content-type: application/json\r\ncontent-length: {}\r\n", body.len()).into_bytes()); }
    out.extend(b"\r\n");
    out.extend(body);
    out
}

/// One request on a connection of its own.
fn ask(address: SocketAddr, method: &str, path: &str, body: &[u8]) -> Result<Answer, String> {
    let mut wire = Wire::open(address)?;
    wire.send(&text(method, path, body));
    wire.receive(method == "HEAD")?.ok_or_else(|| "the connection was closed without an answer".into())
}

// ---------------------------------------------------------------- recording routes

type Calls = Arc<Mutex<Vec<(usize, String)>>>;

#[derive(Debug, Clone, Copy, PartialEq)]
struct Route { post: bool, path: &'static str }

const ROUTES: [Route; 7] = [
    Route { post: false, path: "/api/v1/info" }, Route { post: true, path: "/api/v1/send" }, Route { post: true, path: "/api/v1/sends" }, Route { post: false, path: "/api/v1/both" }, Route { post: true, path: "/api/v1/both" },
    Route { post: true, path: "/api" }, Route { post: true, path: "/API/v1/send" }
];

/// What the handler of a route answers.
fn reply(route: usize, text: &str) -> String { format!("{route}:{text}") }

async fn register(server: &mut AxumHttpServer, n: usize, calls: &Calls) {
    let calls = calls.clone();
    let route = ROUTES[n];
    if route.post {
        server.post::<String, String, _>(route.path, move |peer: SocketAddr, request: String| async move {
            calls.lock().unwrap().push((n, request.clone()));
            if !peer.ip().is_loopback() { return "a foreign address".to_string(); }
            reply(n, &request)
        }).await;
    } else {
        server.get::<String, _>(route.path, move |peer: SocketAddr| async move {
            calls.lock().unwrap().push((n, String::new()));
            if !peer.ip().is_loopback() { return "a foreign address".to_string(); }
            reply(n, "")
        }).await;
    }
}

struct Running { rt: tokio::runtime::Runtime, address: SocketAddr, calls: Calls, client: ReqwestHttpClient }

impl Running {
    fn start(order: &[usize]) -> Result<Running, String> {
        let rt = io_runtime();
        let calls = Calls::default();
        let address = fresh_address();
        let server = rt.block_on(async {
            let mut server = AxumHttpServer::default();
            for n in order { register(&mut server, *n, &calls).await; }
            server
        });
        rt.spawn(async move { let _ = server.serve(address).await.map_err(|e| e.to_string()); });
        await_listening(address)?;
        let client = rt.block_on(async { ReqwestHttpClient::default() });
        Ok(Running { rt, address, calls, client })
    }

    fn url(&self, path: &str) -> String { format!("http://{}{path}", self.address) }

    /// A good request to a route by the bundled client.
    fn good(&self, n: usize, text: &str) -> Result<(), String> {
        let route = ROUTES[n];
        let what = || format!("{} {}", if route.post { "POST" } else { "GET" }, route.path);
        self.calls.lock().unwrap().clear();
        let (got, want) = if route.post {
            (timed(&self.rt, &what(), self.client.post_request::<String, String>(self.url(route.path), text.to_string()))?, reply(n, text))
        } else {
            (timed(&self.rt, &what(), self.client.get_request::<String>(self.url(route.path)))?, reply(n, ""))
        };
        let got = got.map_err(|e| format!("{}: {e}", what()))?;
        if got != want { return Err(format!("{}: answered {:?}", what(), got.chars().take(200).collect::<String>())); }
        let calls = std::mem::take(&mut *self.calls.lock().unwrap());
        let request = if route.post { text } else { "" };
        if calls != [(n, request.to_string())] { return Err(format!("{}: {} calls, not the one handler with the request", what(), calls.len())); }
        Ok(())
    }

    /// A request that must be answered with an error and reach no handler.
    fn refused(&self, method: &str, path: &str, body: &[u8]) -> Result<(), String> {
        self.calls.lock().unwrap().clear();
        let answer = ask(self.address, method, path, body)?;
        let calls = std::mem::take(&mut *self.calls.lock().unwrap());
        if !answer.error() { return Err(format!("{method} {path} with {:?} was answered with status {}", String::from_utf8_lossy(&body[..body.len().min(200)]), answer.status)); }
        if !calls.is_empty() { return Err(format!("{method} {path} with {:?} called {calls:?}", String::from_utf8_lossy(&body[..body.len().min(200)]))); }
        Ok(())
    }
}

fn settle(rep: &mut Rep, what: impl ToString, result: Result<Result<(), String>, String>) -> bool {
    rep.eval();
    match result.and_then(|r| r) {
        Ok(()) => true,
        Err(text) => { let what = what.to_string(); rep.fail(&what, format!("{what}: {text}"), json!({})); false }
    }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut out = Vec::new();
    for p in permutations(n - 1) { for at in 0..=p.len() { let mut q = p.clone(); q.insert(at, n - 1); out.push(q); } }
    out
}

/// Every order in which routes are registered.
fn orders(rep: &mut Rep, share: usize, shares: usize) {
    let all = permutations(if rep.quick() { 5 } else { 7 });
    for order in all.iter().skip(share).step_by(shares) {
        rep.case(format!("{order:?}"));
        rep.nontrivial(order);
        let result = guard(|| -> Result<(), String> {
            let server = Running::start(order)?;
            for (n, route) in ROUTES.iter().enumerate() {
                let other = ROUTES.iter().enumerate().any(|(m, r)| r.path == route.path && r.post != route.post && order.contains(&m));
                if order.contains(&n) { server.good(n, &format!("text {n}"))?; }
                else if !other { server.refused(if route.post { "POST" } else { "GET" }, route.path, b"\"x\"")?; }
                if !other && order.contains(&n) { server.refused(if route.post { "GET" } else { "POST" }, route.path, b"\"x\"")?; }
            }
            Ok(())
        });
        if !settle(rep, format!("routes registered in the order {order:?}"), result) { return; }
    }
}

/// Requests and answers of every content and size.
fn contents(rep: &mut Rep, share: usize, shares: usize) {
    let server = match Running::start(&[0, 1, 2, 3, 4, 5, 6]) { Ok(s) => s, Err(e) => { rep.fail("start", e, json!({})); return; } };
    let mut all: Vec<String> = crate::wire::strings();
    for c in (0..=0x10ffff_u32).filter(|c| *c < 0x300 || (0xd7f0..0xe010).contains(c) || *c % 0x1111 == 0 || (0xfff0..0x10010).contains(c)).filter_map(char::from_u32) { all.push(format!("a{c}b")); }
    let sizes: Vec<usize> = (0..if rep.quick() { 300 } else { 3000 }).chain([1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 65535, 65536, 65537, 131072, 400_000, 1_000_000, 1_900_000]).collect();
    for size in sizes { all.push("x".repeat(size)); if size < 500_000 { all.push("é".repeat(size / 2)); } if size < 200_000 { all.push("\u{1}\"".repeat(size / 10)); } }
    for (n, content) in all.iter().enumerate() {
        if n % shares != share { continue; }
        rep.nontrivial(content);
        let what = || format!("content {:?} of {} bytes", content.chars().take(20).collect::<String>(), content.len());
        rep.case(what());
        if !settle(rep, what(), guard(|| server.good([1, 2, 4][n % 3], content))) { return; }
    }
}

/// The kinds of requests and connections a server may meet.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Kind { Get, Post, PostOther, Chunked, Split, Expect, UnknownPath, WrongMethod, NoJson, NotText, Empty, WrongType, Garbage, Unfinished, Silent, TooLarge, HalfHead, BadLength, Pipelined }

use Kind::*;

const KINDS: [Kind; 19] = [Get, Post, PostOther, Chunked, Split, Expect, UnknownPath, WrongMethod, NoJson, NotText, Empty, WrongType, Garbage, Unfinished, Silent, TooLarge, HalfHead, BadLength, Pipelined];

/// Act on the connection (opening one if needed); the connection stays open if
/// the server keeps it.
fn act(server: &Running, wire: &mut Option<Wire>, kind: Kind, n: usize) -> Result<(), String> {
    server.calls.lock().unwrap().clear();
    let mark = format!("mark {n}");
    let body = json!(mark).to_string().into_bytes();
    let good = |answer: Option<Answer>, want: String| match answer {
        Some(a) if a.status == 200 && a.json() == Some(json!(want)) => Ok(()),
        other => Err(format!("{kind:?} was answered with {other:?}"))
    };
    if wire.is_none() { *wire = Some(Wire::open(server.address)?); }
    let w = wire.as_mut().unwrap();
    let mut called: Vec<(usize, String)> = Vec::new();
    let mut close = false;
    match kind {
        Get => { w.send(&text("GET", ROUTES[0].path, b"")); good(w.receive(false)?, reply(0, ""))?; called.push((0, String::new())); }
        Post => { w.send(&text("POST", ROUTES[1].path, &body)); good(w.receive(false)?, reply(1, &mark))?; called.push((1, mark)); }
        PostOther => { w.send(&text("POST", &format!("{}?a=b", ROUTES[4].path), &body)); good(w.receive(false)?, reply(4, &mark))?; called.push((4, mark)); }
        Chunked => {
            let mut bytes = format!("POST {} HTTP/1.1\r\nhost: localhost\r\ntransfer-encoding: chunked\r\n\r\n", ROUTES[1].path).into_bytes();
            for part in body.chunks(3) { bytes.extend(format!("{:x}\r\n", part.len()).into_bytes()); bytes.extend(part); bytes.extend(b"\r\n"); }
            bytes.extend(b"0\r\n\r\n");
            w.send(&bytes);
            good(w.receive(false)?, reply(1, &mark))?;
            called.push((1, mark));
        }
        Split => {
            for part in text("POST", ROUTES[2].path, &body).chunks(7) { w.send(part); std::thread::yield_now(); }
            good(w.receive(false)?, reply(2, &mark))?;
            called.push((2, mark));
        }
        Expect => {
            w.send(format!("POST {} HTTP/1.1\r\nhost: localhost\r\nexpect: 100-continue\r\ncontent-length: {}\r\n\r\n", ROUTES[1].path, body.len()).as_bytes());
            w.send(&body);
            good(w.receive(false)?, reply(1, &mark))?;
            called.push((1, mark));
        }
        Pipelined => {
            w.send(&[text("POST", ROUTES[1].path, &body), text("GET", ROUTES[3].path, b""), text("POST", ROUTES[2].path, &body)].concat());
            good(w.receive(false)?, reply(1, &mark))?;
            good(w.receive(false)?, reply(3, ""))?;
            good(w.receive(false)?, reply(2, &mark))?;
            called.extend([(1, mark.clone()), (3, String::new()), (2, mark)]);
        }
        UnknownPath | WrongMethod | NoJson | NotText | Empty | WrongType | TooLarge => {
            let bytes = match kind {
                UnknownPath => text("POST", "/api/v1/nothing", &body),
                WrongMethod => text("POST", ROUTES[0].path, &body),
                NoJson => text("POST", ROUTES[1].path, b"{\"a\":"),
                NotText => text("POST", ROUTES[1].path, &[b'"', 0xff, 0xfe, b'"']),
                Empty => text("POST", ROUTES[1].path, b""),
                WrongType => text("POST", ROUTES[1].path, b"[1]"),
                _ => text("POST", ROUTES[1].path, json!("x".repeat(5_000_000)).to_string().as_bytes())
            };
            w.send(&bytes);
            match w.receive(false)? {
                Some(answer) if answer.error() => (),
                // A larger limit is fine, too.
                Some(answer) if kind == TooLarge && answer.json() == Some(json!(reply(1, &"x".repeat(5_000_000)))) => server.calls.lock().unwrap().clear(),
                // Refused before it was sent completely.
                None if kind == TooLarge => (),
                other => return Err(format!("{kind:?} was answered with {other:?}"))
            }
            close = kind == TooLarge;
        }
        Garbage => { w.send(b"\x16\x03\x01 no HTTP at all\r\n\r\n\r\n"); if w.receive(false)?.is_some_and(|a| !a.error()) { return Err("garbage was answered with success".into()); } close = true; }
        BadLength => { w.send(format!("POST {} HTTP/1.1\r\nhost: localhost\r\ncontent-length: many\r\n\r\n\"x\"", ROUTES[1].path).as_bytes()); if w.receive(false)?.is_some_and(|a| !a.error()) { return Err("a bad length was answered with success".into()); } close = true; }
        Unfinished => { let bytes = text("POST", ROUTES[1].path, &body); w.send(&bytes[..bytes.len() - 3]); close = true; }
        HalfHead => { w.send(b"POST /api/v1/send HTTP/1.1\r\nhost: loc"); close = true; }
        Silent => close = true
    }
    if close { *wire = None; }
    let calls = std::mem::take(&mut *server.calls.lock().unwrap());
    if calls != called { return Err(format!("{kind:?} called {calls:?} instead of {called:?}")); }
    Ok(())
}

/// Every sequence of requests on one connection or on fresh ones; then the
/// server still answers the bundled client.
fn sequences(rep: &mut Rep, first: usize) {
    let server = match Running::start(&[0, 1, 2, 3, 4, 5, 6]) { Ok(s) => s, Err(e) => { rep.fail("start", e, json!({})); return; } };
    let depth = if rep.quick() { 3 } else { 4 };
    let mut stack = vec![vec![KINDS[first]]];
    let mut n = 0;
    while let Some(word) = stack.pop() {
        for keep in [true, false] {
            rep.nontrivial(&(&word, keep));
            rep.count("requests", word.len() as u64);
            rep.case(format!("{word:?} {keep}"));
            let result = guard(|| -> Result<(), String> {
                let mut wire = None;
                for kind in &word {
                    n += 1;
                    if !keep { wire = None; }
                    act(&server, &mut wire, *kind, n)?;
                }
                server.good(1, "afterwards")?;
                server.good(0, "")
            });
            if !settle(rep, format!("{word:?} on {}", if keep { "one connection" } else { "connections of their own" }), result) { return; }
        }
        if word.len() < depth { for kind in KINDS { let mut w = word.clone(); w.push(kind); stack.push(w); } }
    }
}

/// Everything that is no request of an endpoint.
fn refusals(rep: &mut Rep) {
    let server = match Running::start(&[0, 1, 2, 3, 4, 5, 6]) { Ok(s) => s, Err(e) => { rep.fail("start", e, json!({})); return; } };
    let mut cases: Vec<(String, String, Vec<u8>)> = Vec::new();
    let methods = ["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "TRACE", "FOO", "get", "post"];
    let mut paths: Vec<String> = ["/", "/api/v1", "/api/v1/", "/api/v2/info", "/api/v1/info/x", "/api/v1/info/", "/api/v1/sen", "/api/v1/send/", "//api/v1/send", "/api//v1/send", "/api/v1/Send", "/x/../api/v1/nothing", "/api/v1/send;a", "/api/v1/sendss", "/%2e%2e/x", "/api/v1/both/both", "/Api", "/favicon.ico", "*"].iter().map(|s| s.to_string()).collect();
    paths.push(format!("/{}", "a".repeat(5000)));
    for method in methods { for path in &paths { if *path == "*" && method != "OPTIONS" { continue; } cases.push((method.into(), path.clone(), b"\"x\"".to_vec())); } }
    for route in ROUTES {
        for method in methods {
            let known = ROUTES.iter().any(|r| r.path == route.path && (r.post && method == "POST" || !r.post && (method == "GET" || method == "HEAD")));
            if !known { cases.push((method.into(), route.path.into(), b"\"x\"".to_vec())); }
        }
    }
    let bad: Vec<Vec<u8>> = vec![
        b"".to_vec(), b" ".to_vec(), b"{".to_vec(), b"x".to_vec(), b"\"x".to_vec(), b"\"x\"\"y\"".to_vec(), b"\"x\" y".to_vec(), b"'x'".to_vec(), b"null".to_vec(), b"true".to_vec(), b"1".to_vec(), b"-1.5e3".to_vec(), b"[]".to_vec(), b"[\"x\"]".to_vec(), b"{}".to_vec(), b"{\"x\":\"y\"}".to_vec(),
        vec![0], vec![0xff], vec![b'"', 0xc3, b'"'], b"\"\\ud800\"".to_vec(), b"\"\\x\"".to_vec(), b"\"\n\"".to_vec(), b"NaN".to_vec(), b"\"x\",".to_vec(), b"[".repeat(100_000), b"{\"a\":".repeat(50_000)
    ];
    for route in ROUTES { if route.post { for body in &bad { cases.push(("POST".into(), route.path.into(), body.clone())); } } }
    for (n, (method, path, body)) in cases.iter().enumerate() {
        let what = format!("{method} {path} {:?}", String::from_utf8_lossy(&body[..body.len().min(60)]));
        rep.case(&what);
        rep.nontrivial(&(method, path, body));
        let result = guard(|| {
            server.refused(method, path, body)?;
            if n % 5 == 0 { server.good(1 + n % 2, "afterwards")?; }
            Ok(())
        });
        if !settle(rep, what, result) { return; }
    }
    // An answer that cannot be written is an error, too.
    let result = guard(|| -> Result<(), String> {
        let rt = io_runtime();
        let address = fresh_address();
        let http = rt.block_on(async {
            let mut http = AxumHttpServer::default();
            http.get::<InfoResponse, _>("/bad", |_| async { InfoResponse { standard: 9, ..InfoResponse::new(&secret(3)) } }).await;
            http.get::<InfoResponse, _>("/good", |_| async { InfoResponse::new(&secret(3)) }).await;
            http.post::<String, InfoResponse, _>("/bad", |_, _: String| async { InfoResponse { standard: 9, ..InfoResponse::new(&secret(3)) } }).await;
            http
        });
        rt.spawn(async move { let _ = http.serve(address).await.map_err(|e| e.to_string()); });
        await_listening(address)?;
        for _ in 0..3 {
            if !ask(address, "GET", "/bad", b"")?.error() { return Err("an unwritable answer is no error".into()); }
            if !ask(address, "POST", "/bad", b"\"x\"")?.error() { return Err("an unwritable answer is no error".into()); }
            let answer = ask(address, "GET", "/good", b"")?;
            if answer.status != 200 || answer.json().and_then(|j| InfoResponse::from_json(&j).ok()).is_none() { return Err(format!("then /good was answered with {answer:?}")); }
        }
        Ok(())
    });
    settle(rep, "an answer that cannot be written", result);
}

/// Requests in flight at the same time, finished in every order.
fn concurrent(rep: &mut Rep, first: usize) {
    let size = if rep.quick() { 4 } else { 5 };
    for order in permutations(size).into_iter().filter(|o| o[0] == first) {
        rep.case(format!("{order:?}"));
        rep.nontrivial(&order);
        let result = guard(|| -> Result<(), String> {
            let rt = io_runtime();
            let address = fresh_address();
            let gates: Arc<Vec<tokio::sync::Notify>> = Arc::new((0..size).map(|_| tokio::sync::Notify::new()).collect());
            let (arrived, mut arrivals) = tokio::sync::mpsc::unbounded_channel::<u64>();
            let http = rt.block_on(async {
                let mut http = AxumHttpServer::default();
                for path in ["/a", "/b"] {
                    let (gates, arrived) = (gates.clone(), arrived.clone());
                    http.post::<u64, String, _>(path, move |_, n: u64| async move {
                        let _ = arrived.send(n);
                        gates[n as usize].notified().await;
                        format!("{path} {n}")
                    }).await;
                }
                http
            });
            rt.spawn(async move { let _ = http.serve(address).await.map_err(|e| e.to_string()); });
            await_listening(address)?;
            let client = rt.block_on(async { ReqwestHttpClient::default() });
            let mut tasks: Vec<Option<tokio::task::JoinHandle<Result<String, String>>>> = Vec::new();
            for n in 0..size as u64 {
                let client = client.clone();
                let url = format!("http://{address}/{}", ["a", "b"][n as usize % 2]);
                tasks.push(Some(rt.spawn(async move { client.post_request::<u64, String>(url, n).await.map_err(|e| e.to_string()) })));
            }
            for _ in 0..size { timed(&rt, "a request while others wait", arrivals.recv())?; }
            for n in &order {
                gates[*n].notify_one();
                let got = timed(&rt, "a request that may finish", tasks[*n].take().unwrap())?.map_err(|e| e.to_string())??;
                let want = format!("/{} {n}", ["a", "b"][n % 2]);
                if got != want { return Err(format!("request {n} was answered with {got:?}")); }
            }
            Ok(())
        });
        if !settle(rep, format!("requests finished in the order {order:?}"), result) { return; }
    }
}

// ---------------------------------------------------------------- the endpoints

type HttpDriver = hyperborealib::drivers::ServerDriver<GlobalTableRouter, BfsRecursionTraversal, StoredQueueMessagesInbox>;

fn serve_real(rt: &tokio::runtime::Runtime, key: &SecretKey, folder: &str) -> Result<SocketAddr, String> {
    let address = fresh_address();
    let middleware = rt.block_on(async {
        let driver: HttpDriver = hyperborealib::drivers::ServerDriver::new(
            GlobalTableRouter::new(PathBuf::from(folder).join("router")).await.unwrap(),
            BfsRecursionTraversal,
            StoredQueueMessagesInbox::new(PathBuf::from(folder).join("inbox")).await.unwrap(),
            ServerParams { secret_key: key.clone(), address: address.to_string() }
        );
        ServerMiddleware::new(ReqwestHttpClient::default(), AxumHttpServer::default(), driver).await
    });
    rt.spawn(async move { let _ = middleware.serve(address).await.map_err(|e| e.to_string()); });
    await_listening(address)?;
    Ok(address)
}

/// Proof seeds and dates of receipt differ; lists come in any order.
fn comparable(mut json: Json) -> Json {
    fn walk(json: &mut Json) {
        match json {
            Json::Object(map) => {
                if let Some(at) = map.get_mut("received_at") { *at = json!(0); }
                for value in map.values_mut() { walk(value); }
                for name in ["clients", "servers"] { if let Some(list) = map.get_mut(name).and_then(Json::as_array_mut) { list.sort_by_key(Json::to_string); } }
            }
            Json::Array(list) => for value in list { walk(value); }
            _ => ()
        }
    }
    if json.get("server").is_some() { json["proof"] = json!(null); }
    walk(&mut json);
    json
}

/// The same requests over HTTP and by calling the endpoints: the same answers.
fn twins(rep: &mut Rep, first: usize) {
    let scene = &crate::proof::scenes()[0];
    let all = scene_steps();
    let depth = if rep.quick() { 2 } else { 3 };
    let rt = io_runtime();
    let client = rt.block_on(async { ReqwestHttpClient::default() });
    let mut stack = vec![vec![all[first]]];
    while let Some(word) = stack.pop() {
        rep.case(format!("{word:?}"));
        rep.nontrivial(&word);
        rep.count("requests", word.len() as u64 + 3);
        let result = guard(|| -> Result<(), String> {
            let (left, right) = (rep.folder("left"), rep.folder("right"));
            let address = serve_real(&rt, &scene.server, &left)?;
            let net = Net::default();
            let twin = rt.block_on(TestServer::start(&net, &scene.server, "s8.example", &right));
            let compare = |method: &str, path: &str, body: Option<Json>, malformed: bool| -> Result<(), String> {
                let url = format!("http://{address}{path}");
                let over = match &body {
                    Some(body) => timed(&rt, path, client.post(&url, body.clone()))?,
                    None => timed(&rt, path, client.get(&url))?
                };
                let direct = rt.block_on(twin.routes.call(method, path, &body.unwrap_or_default()));
                if malformed {
                    if over.as_ref().is_ok_and(|o| !(400..600).contains(&o.status)) || direct.is_ok() { return Err(format!("{path}: a malformed request was answered with {over:?} and {direct:?}")); }
                    return Ok(());
                }
                let HttpResponse { status, body } = over.map_err(|e| format!("{path}: {e}"))?;
                let (over, direct) = (comparable(body.unwrap_or_default()), comparable(direct?));
                if status != 200 || over != direct { return Err(format!("{path}: {over} with status {status} over HTTP, {direct} directly")); }
                Ok(())
            };
            for (n, step) in word.iter().enumerate() {
                let Some((path, request)) = scene.request(*step, (1 << 63) + n as u64) else { continue };
                let path = format!("/api/v1/{path}");
                compare("POST", &path, Some(request.clone()), false)?;
                // Wrong method, broken body, unproven.
                let refused = ask(address, "GET", &path, b"")?;
                if !refused.error() { return Err(format!("GET {path} was answered with {}", refused.status)); }
                let mut broken = request.clone();
                broken["public_key"] = json!(5);
                compare("POST", &path, Some(broken), true)?;
                let mut unproven = request;
                unproven["proof"]["seed"] = json!(1);
                compare("POST", &path, Some(unproven), false)?;
            }
            for name in ["info", "clients", "servers"] {
                compare("GET", &format!("/api/v1/{name}"), None, false)?;
                if !ask(address, "POST", &format!("/api/v1/{name}"), b"{}")?.error() { return Err(format!("POST {name} was answered with success")); }
            }
            Ok(())
        });
        if !settle(rep, format!("{word:?}"), result) { return; }
        if word.len() < depth { for step in &all { let mut w = word.clone(); w.push(*step); stack.push(w); } }
    }
}

/// Large messages and lists through the endpoints.
fn volumes(rep: &mut Rep) {
    let scene = &crate::proof::scenes()[0];
    for size in [1, 1000, 16_384, 65_536, 300_000, 1_000_000, 1_500_000] {
        rep.nontrivial(&size);
        let result = guard(|| -> Result<(), String> {
            let rt = io_runtime();
            let folder = rep.folder("volume");
            let address = serve_real(&rt, &scene.server, &folder)?;
            let client = ClientMiddleware::new(ReqwestHttpClient::default(), hyperborealib::drivers::ClientDriver::thin(scene.a.clone()));
            let host = address.to_string();
            let connected = timed(&rt, "connect", client.connect(&host))?.map_err(|e| format!("connecting: {e}"))?;
            let message = Message::new("m".repeat(size), "s", MessageEncoding::default());
            let count = if size < 100_000 { 20 } else { 3 };
            for _ in 0..count { timed(&rt, "send", connected.send(format!("http://{host}"), scene.a.public_key(), "c", message.clone()))?.map_err(|e| format!("sending {size}: {e}"))?; }
            let (messages, left) = timed(&rt, "poll", connected.poll("c", None))?.map_err(|e| format!("polling {count} of {size}: {e}"))?;
            if left != 0 || messages.len() != count || messages.iter().any(|m| m.message != message || m.channel != "c" || m.sender.client.public_key != scene.a.public_key()) { return Err(format!("{} messages came, {left} are left", messages.len())); }
            let clients = timed(&rt, "clients", client.get_clients(&host))?.map_err(|e| e.to_string())?;
            if clients.len() != 1 || clients[0].public_key != scene.a.public_key() { return Err("the connected client is not listed".into()); }
            timed(&rt, "disconnect", connected.disconnect())?.map_err(|e| e.to_string())?;
            if !timed(&rt, "clients", client.get_clients(&host))?.map_err(|e| e.to_string())?.is_empty() { return Err("a disconnected client is listed".into()); }
            Ok(())
        });
        if !settle(rep, format!("messages of {size} bytes"), result) { return; }
    }
}

// ---------------------------------------------------------------- the bundled client

/// What a server answers to the bundled client, byte by byte.
fn answers() -> Vec<(&'static str, Vec<u8>, Option<&'static str>)> {
    let plain = |status: &str, body: &str| format!("HTTP/1.1 {status}\r\ncontent-length: {}\r\n\r\n{body}", body.len()).into_bytes();
    vec![
        ("fine", plain("200 OK", "\"yes\""), Some("yes")),
        ("spaces", plain("200 OK", " \r\n\"yes\" \n"), Some("yes")),
        ("chunked", b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n2\r\n\"y\r\n3\r\nes\"\r\n0\r\n\r\n".to_vec(), Some("yes")),
        ("until closed", b"HTTP/1.1 200 OK\r\n\r\n\"yes\"".to_vec(), Some("yes")),
        ("old version", b"HTTP/1.0 200 OK\r\n\r\n\"yes\"".to_vec(), Some("yes")),
        ("unicode", plain("200 OK", "\"\\u00e9\u{1f600}\\ud83d\\ude00\""), Some("é😀😀")),
        ("continue first", [b"HTTP/1.1 100 Continue\r\n\r\n".to_vec(), plain("200 OK", "\"yes\"")].concat(), Some("yes")),
        ("empty", plain("200 OK", ""), None), ("no JSON", plain("200 OK", "<html>"), None), ("half JSON", plain("200 OK", "\"yes"), None), ("two values", plain("200 OK", "\"yes\"\"no\""), None), ("another type", plain("200 OK", "[\"yes\"]"), None), ("null", plain("200 OK", "null"), None),
        ("not found", plain("404 Not Found", ""), None), ("error page", plain("500 Internal Server Error", "Failed to do it"), None), ("no content", b"HTTP/1.1 204 No Content\r\n\r\n".to_vec(), None), ("proxy page", plain("502 Bad Gateway", "<html></html>"), None),
        ("short", b"HTTP/1.1 200 OK\r\ncontent-length: 50\r\n\r\n\"yes\"".to_vec(), None), ("half chunk", b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n9\r\n\"yes\"".to_vec(), None),
        ("closed", Vec::new(), None), ("garbage", b"no HTTP\r\n\r\n".to_vec(), None), ("half head", b"HTTP/1.1 200 OK\r\ncontent-le".to_vec(), None), ("bad UTF-8", plain("200 OK", "\"yes\"").into_iter().map(|b| if b == b'y' { 0xff } else { b }).collect(), None),
        ("deep", plain("200 OK", &"[".repeat(100_000)), None)
    ]
}

/// The bundled client against a scripted peer.
fn client_side(rep: &mut Rep, post: bool) {
    let rt = io_runtime();
    {
        for path in ["/api/v1/info", "/api/v1/send", "/", "", "/a/b?c=d&e=f"] {
            for (name, bytes, want) in answers() {
                let what = format!("{} {path:?} answered with {name}", if post { "POST" } else { "GET" });
                rep.case(&what);
                rep.nontrivial(&what);
                let body = json!(format!("é \"{name}\"\u{0}{}", "x".repeat(if name == "fine" { 100_000 } else { 0 })));
                let result = guard(|| -> Result<(), String> {
                    let listener = TcpListener::bind(fresh_address()).map_err(|e| e.to_string())?;
                    let address = listener.local_addr().unwrap();
                    let over = Arc::new(std::sync::atomic::AtomicBool::new(false));
                    let heard = over.clone();
                    let peer = std::thread::spawn(move || -> Result<Vec<(String, Vec<u8>)>, String> {
                        let mut requests = Vec::new();
                        loop {
                            // The first connection must come; others until the client is done.
                            let (stream, _) = match listener.accept() {
                                Ok(accepted) => accepted,
                                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                                    if heard.load(Ordering::SeqCst) { return Ok(requests); }
                                    std::thread::sleep(Duration::from_micros(200));
                                    continue;
                                }
                                Err(e) => return Err(e.to_string())
                            };
                            stream.set_nonblocking(false).unwrap();
                            stream.set_read_timeout(Some(PATIENCE)).unwrap();
                            let mut wire = Wire { stream, buffer: Vec::new() };
                            let end = loop {
                                if let Some(at) = wire.buffer.windows(4).position(|w| w == b"\r\n\r\n") { break at; }
                                if wire.fill()? == 0 { return Err("the client closed the connection".into()); }
                            };
                            let head = String::from_utf8_lossy(&wire.buffer[..end]).to_string();
                            let length = head.lines().filter_map(|l| l.split_once(':')).find(|(n, _)| n.eq_ignore_ascii_case("content-length")).and_then(|(_, v)| v.trim().parse().ok()).unwrap_or(0);
                            while wire.buffer.len() < end + 4 + length { if wire.fill()? == 0 { return Err("the request ends early".into()); } }
                            wire.send(&bytes);
                            let _ = wire.stream.shutdown(std::net::Shutdown::Write);
                            requests.push((head, wire.buffer[end + 4..].to_vec()));
                            // Whatever else comes on this connection is another request.
                            let mut rest = Vec::new();
                            let _ = wire.stream.read_to_end(&mut rest);
                            if !rest.is_empty() { requests.push((String::from_utf8_lossy(&rest).to_string(), Vec::new())); }
                            listener.set_nonblocking(true).unwrap();
                        }
                    });
                    let client = rt.block_on(async { ReqwestHttpClient::default() });
                    let url = format!("http://{address}{path}");
                    let got = if post { timed(&rt, "the client", client.post_request::<String, String>(&url, body.as_str().unwrap().to_string()))? } else { timed(&rt, "the client", client.get_request::<String>(&url))? };
                    drop(client);
                    over.store(true, Ordering::SeqCst);
                    let requests = peer.join().map_err(|_| "the peer panicked".to_string())??;
                    if post && requests.len() > 1 { return Err(format!("the request was sent {} times", requests.len())); }
                    let Some((head, sent)) = requests.into_iter().next() else { return Err("no request came".into()) };
                    let line = format!("{} {} HTTP/1.1", if post { "POST" } else { "GET" }, if path.is_empty() { "/" } else { path });
                    if head.lines().next() != Some(&line) { return Err(format!("the request line was {:?}", head.lines().next())); }
                    if post && serde_json::from_slice::<Json>(&sent).ok().as_ref() != Some(&body) { return Err("another body was sent".into()); }
                    if post && !head.lines().any(|l| l.to_ascii_lowercase().replace(' ', "").starts_with("content-type:application/json")) { return Err(format!("not sent as JSON: {head}")); }
                    if !post && !sent.is_empty() { return Err("a GET request had a body".into()); }
                    if got.as_ref().ok().map(String::as_str) != want { return Err(format!("told {got:?} instead of {want:?}")); }
                    Ok(())
                });
                if !settle(rep, what, result) { return; }
            }
        }
    }
    // Nobody there.
    let result = guard(|| {
        let client = rt.block_on(async { ReqwestHttpClient::default() });
        for url in [format!("http://{}/x", fresh_address()), "no url".into(), "".into(), "http://".into(), "ftp://127.0.0.1/x".into(), "/api/v1/info".into()] {
            if timed(&rt, "the client", client.get_request::<String>(&url))?.is_ok() || timed(&rt, "the client", client.post_request::<String, String>(&url, "x".into()))?.is_ok() { return Err(format!("{url:?} was answered")); }
        }
        Ok(())
    });
    settle(rep, "nobody there", result);
}

/// Every client operation against a real server over HTTP.
fn operations(rep: &mut Rep) {
    let scene = &crate::proof::scenes()[0];
    let result = guard(|| -> Result<(), String> {
        let rt = io_runtime();
        let (left, right) = (rep.folder("left"), rep.folder("right"));
        let (home, away) = (serve_real(&rt, &secret(8), &left)?, serve_real(&rt, &secret(9), &right)?);
        let make = |key: &SecretKey, kind| ClientMiddleware::new(ReqwestHttpClient::default(), hyperborealib::drivers::ClientDriver::new(ClientInfo::new(kind, None::<String>), key.clone()));
        let (me, peer) = (make(&scene.a, ClientType::Thin), make(&scene.b, ClientType::Thick));
        let (me_at, peer_at) = (home.to_string(), away.to_string());
        macro_rules! did { ($what:literal, $f:expr) => { timed(&rt, $what, $f)?.map_err(|e| format!("{}: {e}", $what))? } }
        let info = did!("info", me.get_info(&me_at));
        if info.public_key != public(8) || !info.validate().unwrap_or(false) { return Err("another server's info".into()); }
        if did!("clients", me.get_clients(&me_at)) != Vec::<Client>::new() || did!("servers", me.get_servers(&me_at)) != Vec::<Server>::new() { return Err("a new server knows somebody".into()); }
        let a = did!("connect", me.connect(&me_at));
        let b = did!("connect to", peer.connect_to(&peer_at, public(9)));
        did!("announce", b.announce(format!("http://{me_at}")));
        let Some((found, at, _)) = did!("lookup", a.lookup(scene.b.public_key(), None)) else { return Err("the announced peer is not found".into()) };
        if found.public_key != scene.b.public_key() || at.public_key != public(9) { return Err(format!("found {found:?} at {at:?}")); }
        let text = Message::create(&scene.a, &scene.b.public_key(), b"hello over http", MessageEncoding::new(Encoding::Base64, Encryption::ChaCha20Poly1305, Compression::Brotli), CompressionLevel::Balanced).map_err(|e| e.to_string())?;
        did!("send", a.send(format!("http://{peer_at}"), scene.b.public_key(), "c", text.clone()));
        let (messages, left) = did!("poll", b.poll("c", Some(5)));
        if left != 0 || messages.len() != 1 || messages[0].message != text { return Err(format!("{messages:?} came")); }
        let read = messages[0].message.read(&scene.b, &messages[0].sender.client.public_key).map_err(|e| e.to_string())?;
        if read != b"hello over http" { return Err("another text was read".into()); }
        if did!("lookup", a.lookup(public(77), None)).is_some() { return Err("a stranger was found".into()); }
        did!("disconnect", b.disconnect());
        did!("disconnect", a.disconnect());
        Ok(())
    });
    rep.nontrivial(&"operations");
    settle(rep, "client operations", result);
}

pub fn c22(tier: Tier) -> Property {
    let quick = tier == Tier::Quick;
    let mut units = vec![Unit::new("refusals", refusals), Unit::new("volumes", volumes), Unit::new("client get", |rep| client_side(rep, false)), Unit::new("client post", |rep| client_side(rep, true)), Unit::new("operations", operations)];
    for share in 0..8 {
        units.push(Unit::new(format!("orders {share}"), move |rep| orders(rep, share, 8)));
        units.push(Unit::new(format!("contents {share}"), move |rep| contents(rep, share, 8)));
    }
    for n in 0..KINDS.len() { units.push(Unit::new(format!("sequences {:?}", KINDS[n]), move |rep| sequences(rep, n))); }
    for n in 0..(if quick { 4 } else { 5 }) { units.push(Unit::new(format!("concurrent {n}"), move |rep| concurrent(rep, n))); }
    for n in 0..scene_steps().len() { units.push(Unit::new(format!("twins {n}"), move |rep| twins(rep, n))); }
    Property {
        id: "C22",
        level: Level::Exploration,
        rule: "on real loopback connections: every sequence of request and connection kinds to a depth, every registration order of similar routes, every completion order of requests in flight, contents of every size and character class, every history of endpoint requests to a depth compared with calling the endpoints directly, and the bundled client against every scripted answer; each distinct case counts once",
        assumptions: vec!["the schedules inside hyper, tokio and the kernel are not controlled", "requests above the body limit of axum (2 MB) may be refused", "HEAD of a GET route may be answered like GET"],
        bounds: json!({ "request_kinds": KINDS.len(), "sequence_depth": if quick { 3 } else { 4 }, "routes": ROUTES.len(), "orders": if quick { 120 } else { 5040 }, "in_flight": if quick { 4 } else { 5 }, "history_depth": if quick { 2 } else { 3 } }),
        units
    }
}
