//! C17: what clients believe.

use std::collections::HashSet;
use std::sync::{Arc, Mutex};

use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::{Client, Server};
use k256::ecdsa::signature::{Signer, Verifier};
use serde_json::{json, Value as Json};

use crate::fixture::*;
use crate::net::*;
use crate::report::*;
use crate::sys::*;

pub const HOME: u64 = 8;
const OTHER: u64 = 9;
const ME: u64 = 3;
const PEER: u64 = 4;

pub fn b64(bytes: &[u8]) -> String {
    use base64::Engine;
    base64::engine::general_purpose::URL_SAFE.encode(bytes)
}

pub fn unb64(text: &str) -> Option<Vec<u8>> {
    use base64::Engine;
    base64::engine::general_purpose::URL_SAFE.decode(text).ok()
}

/// An independent signature over arbitrary bytes.
pub fn sign(n: u64, bytes: &[u8]) -> Vec<u8> {
    let key = k256::ecdsa::SigningKey::from_slice(&secret(n).serialize()).unwrap();
    let sign: k256::ecdsa::Signature = key.sign(bytes);
    sign.to_vec()
}

/// The same signature with the other `s`.
pub fn high_s(sign: &[u8]) -> Vec<u8> {
    let sign = k256::ecdsa::Signature::from_slice(sign).unwrap();
    let (r, s) = sign.split_scalars();
    k256::ecdsa::Signature::from_scalars(r, -s).unwrap().to_vec()
}

/// Independent verification.
pub fn genuine(key: &PublicKey, bytes: &[u8], sign: &[u8]) -> bool {
    let Ok(key) = k256::ecdsa::VerifyingKey::from_sec1_bytes(&key.to_bytes()) else { return false };
    let Ok(sign) = k256::ecdsa::Signature::from_slice(sign) else { return false };
    key.verify(bytes, &sign).is_ok()
}

pub fn key64(n: u64) -> String { b64(&public(n).to_bytes()) }

// ---------------------------------------------------------------- operations

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Op { Info, Clients, Servers, Connect, ConnectTo, Disconnect, Announce, AnnounceHyp, Lookup, LookupTyped, Send, SendHyp, Poll, PollLimited }

use Op::*;

const OPS: [Op; 14] = [Info, Clients, Servers, Connect, ConnectTo, Disconnect, Announce, AnnounceHyp, Lookup, LookupTyped, Send, SendHyp, Poll, PollLimited];

impl Op {
    /// The requests it makes of an honest server: path and, for posts, whether
    /// the answer must be by the home server.
    fn steps(&self) -> Vec<(&'static str, &'static str)> {
        match self {
            Info => vec![("GET", "/api/v1/info")],
            Clients => vec![("GET", "/api/v1/clients")],
            Servers => vec![("GET", "/api/v1/servers")],
            Connect => vec![("GET", "/api/v1/info"), ("POST", "/api/v1/connect")],
            ConnectTo => vec![("POST", "/api/v1/connect")],
            Disconnect => vec![("POST", "/api/v1/disconnect")],
            Announce => vec![("POST", "/api/v1/announce")],
            AnnounceHyp => vec![("POST", "/api/v1/lookup"), ("POST", "/api/v1/announce")],
            Lookup | LookupTyped => vec![("POST", "/api/v1/lookup")],
            Send => vec![("POST", "/api/v1/send")],
            SendHyp => vec![("POST", "/api/v1/lookup"), ("POST", "/api/v1/send")],
            Poll | PollLimited => vec![("POST", "/api/v1/poll")]
        }
    }
}

/// What an operation reported.
#[derive(Debug, Clone, PartialEq)]
enum Told {
    Info(PublicKey),
    Clients(Vec<Client>),
    Servers(Vec<Server>),
    Connected(Server, bool),
    Done,
    Found(Option<(Client, Server, bool)>),
    Messages(Vec<MessageInfo>, u64),
    Refused(ResponseStatus, String),
    Failed(String)
}

fn told<T>(result: Result<T, MiddlewareError>, ok: impl FnOnce(T) -> Told) -> Told {
    match result {
        Ok(value) => ok(value),
        Err(MiddlewareError::RequestFailed { status, reason }) => Told::Refused(status, reason),
        Err(err) => Told::Failed(err.to_string())
    }
}

fn letter(to: u64) -> Message {
    Message::create(&secret(ME), &public(to), b"hello", MessageEncoding::new(Encoding::Base64, Encryption::Aes256Gcm, Compression::None), CompressionLevel::Fast).unwrap()
}

async fn perform(op: Op, free: &ClientMiddleware<Net>, connected: &ConnectedClientMiddleware<Net>) -> Told {
    let peer_uri = format!("hyperborea://{}", key64(PEER));
    match op {
        Info => told(free.get_info("s8.example").await, |info| Told::Info(info.public_key)),
        Clients => told(free.get_clients("s8.example").await, Told::Clients),
        Servers => told(free.get_servers("s8.example").await, Told::Servers),
        Connect | ConnectTo => {
            let result = if op == Connect { free.connect("s8.example").await } else { free.connect_to("s8.example", public(HOME)).await };
            told(result, |client| {
                let server = client.connected_server().clone();
                let certificate = client.connection_certificate();
                let fine = certificate.token.public_key == server.public_key && genuine(&public(ME), &certificate.token.to_bytes(), &certificate.sign);
                Told::Connected(server, fine)
            })
        }
        Disconnect => told(connected.clone().disconnect().await, |client| if client.driver().secret_key() == &secret(ME) { Told::Done } else { Told::Failed("another client".into()) }),
        Announce => told(connected.announce("http://s8.example").await, |_| Told::Done),
        AnnounceHyp => told(connected.announce(&peer_uri).await, |_| Told::Done),
        Lookup => told(connected.lookup(public(PEER), None).await, Told::Found),
        LookupTyped => told(connected.lookup(public(PEER), Some(ClientType::Thick)).await, Told::Found),
        Send => told(connected.send("http://s8.example", public(PEER), "chan", letter(PEER)).await, |_| Told::Done),
        SendHyp => told(connected.send(&peer_uri, public(PEER), "chan", letter(PEER)).await, |_| Told::Done),
        Poll => told(connected.poll("chan", None).await, |(m, r)| Told::Messages(m, r)),
        PollLimited => told(connected.poll("chan", Some(1)).await, |(m, r)| Told::Messages(m, r))
    }
}

// ---------------------------------------------------------------- answers

/// What must become of an answer.
#[derive(Debug, Clone, PartialEq)]
enum Expect { Good, Refused(u64, String), Bad, Any }

/// What to answer to one request.
#[derive(Clone)]
struct Answer {
    name: String,
    make: Arc<dyn Fn(&Exchange, &Json) -> Result<Json, String> + std::marker::Send + Sync>,

    /// By the step's path; whether the key must be the home server's.
    expect: Expect,

    /// A genuine proof, but by another server.
    foreign: bool
}

impl Answer {
    fn new(name: impl ToString, expect: Expect, make: impl Fn(&Exchange, &Json) -> Result<Json, String> + std::marker::Send + Sync + 'static) -> Answer {
        Answer { name: name.to_string(), make: Arc::new(make), expect, foreign: false }
    }
}

fn seed_of(exchange: &Exchange, honest: &Json) -> u64 {
    exchange.body["proof"]["seed"].as_u64().or(honest["proof"]["seed"].as_u64()).unwrap_or(1 << 63)
}

/// Replace the key and signature in an honest answer (of any endpoint).
fn resigned(honest: &Json, key: Option<u64>, sign: Vec<u8>) -> Json {
    let mut answer = honest.clone();
    if let Some(key) = key {
        if answer.get("server").is_some() { answer["server"]["public_key"] = json!(key64(key)); } else { answer["public_key"] = json!(key64(key)); }
    }
    answer["proof"]["sign"] = json!(b64(&sign));
    answer
}

pub fn nodes(json: &Json) -> Vec<String> {
    fn walk(json: &Json, path: String, out: &mut Vec<String>) {
        out.push(path.clone());
        match json {
            Json::Object(map) => for (name, value) in map { walk(value, format!("{path}/{name}"), out); },
            Json::Array(list) => for (n, value) in list.iter().enumerate() { walk(value, format!("{path}/{n}"), out); },
            _ => ()
        }
    }
    let mut out = Vec::new();
    walk(json, String::new(), &mut out);
    out
}

pub fn replaced(json: &Json, path: &str, value: Option<Json>) -> Json {
    let mut out = json.clone();
    match value {
        Some(value) => *out.pointer_mut(path).unwrap() = value,
        None => {
            let (parent, name) = path.rsplit_once('/').unwrap();
            match out.pointer_mut(parent).unwrap() {
                Json::Object(map) => { map.remove(name); }
                Json::Array(list) => { list.remove(name.parse().unwrap()); }
                _ => ()
            }
        }
    }
    out
}

/// Nodes whose content the client need not look at.
fn optional(path: &str, honest: &Json) -> bool {
    // The address of a client is optional, the bodies of some answers empty.
    path.ends_with("/client/address") || (path == "/response" && honest["response"].as_object().is_some_and(|o| o.is_empty()))
        || path.strip_prefix("/response/").is_some_and(|_| false)
}

fn answers(path: &str, honest: &Json, quick: bool, pairs: bool) -> Vec<Answer> {
    let listing = path.ends_with("clients") || path.ends_with("servers");
    let info = path.ends_with("info");
    let mut out = vec![
        Answer::new("honest", Expect::Good, |_, honest| Ok(honest.clone())),
        Answer::new("transport failure", Expect::Bad, |_, _| Err("connection reset".into())),
        Answer::new("no body", Expect::Bad, |_, _| Err(NO_BODY.into()))
    ];
    for bad in [json!(null), json!([]), json!({}), json!("ok"), json!(true), json!(100), json!({"standard": 1}), json!({"standard": 1, "status": 100}), json!({"standard": 1, "status": 100, "reason": "fine"})] {
        out.push(Answer::new(format!("{bad}"), Expect::Bad, move |_, _| Ok(bad.clone())));
    }
    let mut standards = vec![json!(0), json!(2), json!(-1), json!("1"), json!(1.5), json!(u64::MAX), json!(null)];
    if pairs && quick { standards.truncate(2); }
    for standard in standards {
        out.push(Answer::new(format!("standard {standard}"), Expect::Bad, move |_, honest| { let mut a = honest.clone(); a["standard"] = standard.clone(); Ok(a) }));
    }
    if !listing && !info {
        let known = [200_u64, 300, 301, 310, 311, 320, 321, 322];
        for status in known {
            let reason = format!("refused with {status}");
            out.push(Answer::new(format!("error {status}"), Expect::Refused(status, reason.clone()), move |_, _| Ok(json!({"standard": 1, "status": status, "reason": reason}))));
            out.push(Answer::new(format!("error {status} dressed as success"), Expect::Refused(status, "no".into()), move |_, honest| { let mut a = honest.clone(); a["status"] = json!(status); a["reason"] = json!("no"); Ok(a) }));
            out.push(Answer::new(format!("error {status} without reason"), Expect::Bad, move |_, honest| { let mut a = honest.clone(); a["status"] = json!(status); Ok(a) }));
        }
        for status in [json!(0), json!(1), json!(99), json!(101), json!(199), json!(299), json!(323), json!(404), json!(u64::MAX), json!(-100), json!("100"), json!(100.5), json!(null), json!([100])] {
            out.push(Answer::new(format!("status {status}"), Expect::Bad, move |_, honest| { let mut a = honest.clone(); a["status"] = status.clone(); a["reason"] = json!("x"); Ok(a) }));
        }
    }
    if !listing {
        type Forge = Box<dyn Fn(u64) -> (Option<u64>, Vec<u8>) + std::marker::Send + Sync>;
        let forged: Vec<(&str, Forge)> = vec![
            ("seed+1 signed", Box::new(|seed| (None, sign(HOME, &seed.wrapping_add(1).to_be_bytes())))),
            ("little-endian seed signed", Box::new(|seed| (None, sign(HOME, &seed.to_le_bytes())))),
            ("decimal seed signed", Box::new(|seed| (None, sign(HOME, seed.to_string().as_bytes())))),
            ("nothing signed", Box::new(|_| (None, sign(HOME, b"")))),
            ("signed by another server", Box::new(|seed| (None, sign(OTHER, &seed.to_be_bytes())))),
            ("signed by the client", Box::new(|seed| (None, sign(ME, &seed.to_be_bytes())))),
            ("another key named", Box::new(|seed| (Some(OTHER), sign(HOME, &seed.to_be_bytes())))),
            ("the client's key named", Box::new(|seed| (Some(ME), sign(HOME, &seed.to_be_bytes())))),
            ("empty signature", Box::new(|_| (None, vec![]))),
            ("zero signature", Box::new(|_| (None, vec![0; 64]))),
            ("ones signature", Box::new(|_| (None, vec![255; 64]))),
            ("short signature", Box::new(|seed| (None, sign(HOME, &seed.to_be_bytes())[..63].to_vec()))),
            ("long signature", Box::new(|seed| { let mut s = sign(HOME, &seed.to_be_bytes()); s.push(0); (None, s) })),
            ("high s", Box::new(|seed| (None, high_s(&sign(HOME, &seed.to_be_bytes())))))
        ];
        for (name, forge) in forged {
            out.push(Answer::new(name, Expect::Bad, move |exchange, honest| { let (key, sign) = forge(seed_of(exchange, honest)); Ok(resigned(honest, key, sign)) }));
        }
        // The client's own proof echoed under its own key.
        if !info {
            out.push(Answer::new("own proof echoed", Expect::Bad, move |exchange, honest| {
                let mut a = honest.clone();
                a["proof"]["sign"] = exchange.body["proof"]["sign"].clone();
                Ok(a)
            }));
            let old: Arc<Mutex<Option<String>>> = Arc::default();
            let _ = old;
        } else {
            for seed in [0_u64, 1, (1 << 63) - 1] {
                out.push(Answer::new(format!("weak seed {seed}"), Expect::Bad, move |_, honest| { let mut a = resigned(honest, None, sign(HOME, &seed.to_be_bytes())); a["proof"]["seed"] = json!(seed); Ok(a) }));
            }
            out.push(Answer::new("seed 2^63", Expect::Good, |_, honest| { let mut a = resigned(honest, None, sign(HOME, &(1_u64 << 63).to_be_bytes())); a["proof"]["seed"] = json!(1_u64 << 63); Ok(a) }));
        }
        let mut answer = Answer::new("impostor", Expect::Good, move |exchange, honest| Ok(resigned(honest, Some(OTHER), sign(OTHER, &seed_of(exchange, honest).to_be_bytes()))));
        answer.foreign = true;
        out.push(answer);
        let mut answer = Answer::new("the client answers itself", Expect::Good, move |exchange, honest| Ok(resigned(honest, Some(ME), sign(ME, &seed_of(exchange, honest).to_be_bytes()))));
        answer.foreign = true;
        out.push(answer);
    }
    // Every node missing or of another type.
    for node in nodes(honest) {
        if node.is_empty() { continue; }
        let expect = if optional(&node, honest) { Expect::Any } else { Expect::Bad };
        let removed = node.clone();
        // Removing an element of a list leaves a shorter list.
        if !node.rsplit('/').next().unwrap().chars().all(|c| c.is_ascii_digit()) {
            out.push(Answer::new(format!("without {node}"), expect.clone(), move |_, honest| Ok(replaced(honest, &removed, None))));
        }
        let old = honest.pointer(&node).unwrap().clone();
        let mut wrong = vec![json!(null), json!({}), json!([]), json!([[]]), json!("?"), json!(7.5), json!(-1), json!(true)];
        if pairs { wrong.truncate(if quick { 1 } else { 3 }); }
        for value in wrong {
            // Keep only replacements that cannot be valid.
            if value == old { continue; }
            let possible = match &old {
                Json::Array(_) => value == json!([]),
                Json::Object(_) => false,
                Json::String(_) => value == json!("?") && (node.ends_with("/address") || node.ends_with("/channel") || node.ends_with("/content") || node.ends_with("/message/sign") || node.ends_with("/reason")),
                Json::Bool(_) => value == json!(true),
                Json::Number(_) | Json::Null => false
            };
            let possible = possible || node.ends_with("/limit");
            if possible { continue; }
            let at = node.clone();
            out.push(Answer::new(format!("{node} = {value}"), expect.clone(), move |_, honest| Ok(replaced(honest, &at, Some(value.clone())))));
        }
    }
    out
}

// ---------------------------------------------------------------- a stage

struct Stage { net: Net, free: ClientMiddleware<Net>, connected: ConnectedClientMiddleware<Net>, #[allow(dead_code)] server: TestServer }

/// A server that knows the client, its peer and another server and holds
/// messages for the client.
async fn stage(folder: &str) -> Stage {
    let net = Net::default();
    let server = TestServer::start(&net, &secret(HOME), "s8.example", folder).await;
    let driver = server.middleware.driver();
    driver.router().index_server(Server::new(public(OTHER), "s9.example")).await.unwrap();
    driver.router().index_local_client(client(&secret(PEER), &public(HOME), 1_700_000_000, ClientInfo::thick("peer.example"))).await.unwrap();
    for n in 0..2 { driver.messages_inbox().add_message(sender(PEER, HOME), public(ME), "chan".into(), plain(&format!("m{n}"))).await.unwrap(); }
    let free = ClientMiddleware::new(net.clone(), ClientDriver::new(ClientInfo::thick("me.example"), secret(ME)));
    let connected = free.connect_to("s8.example", public(HOME)).await.unwrap();
    net.take_log();
    Stage { net, free, connected, server }
}

/// Judge the requests made: proven, fresh, well-addressed.
fn judge_requests(log: &[Exchange], op: Op, seeds: &mut HashSet<u64>) -> Result<(), String> {
    let steps = op.steps();
    if log.len() > steps.len() { return Err(format!("{} requests were made", log.len())); }
    for (exchange, (method, path)) in log.iter().zip(steps) {
        if exchange.method != method || exchange.url != format!("http://s8.example{path}") { return Err(format!("requested {} {}", exchange.method, exchange.url)); }
        if method == "GET" { continue; }
        let body = &exchange.body;
        let seed = body["proof"]["seed"].as_u64().ok_or("no seed")?;
        if seed < 1 << 63 { return Err(format!("the seed {seed} is too small")); }
        if !seeds.insert(seed) { return Err("a seed was used twice".into()); }
        if body["standard"] != json!(1) || body["public_key"] != json!(key64(ME)) { return Err("another identity was stated".into()); }
        let sign = body["proof"]["sign"].as_str().and_then(unb64).ok_or("no proof")?;
        if !genuine(&public(ME), &seed.to_be_bytes(), &sign) { return Err("the request's proof is not genuine".into()); }
    }
    Ok(())
}

fn judge(op: Op, told: &Told, answers: &[(Expect, Json, bool)], keys: &[Option<PublicKey>]) -> Result<(), String> {
    let lookup = matches!(op, Lookup | LookupTyped);
    // The first step that is not good decides.
    for (n, (expect, answer, foreign)) in answers.iter().enumerate() {
        let last = n + 1 == answers.len();
        let step = op.steps()[n].1;
        // Is a genuine proof by another server acceptable here?
        let expect = if *foreign && *expect == Expect::Good {
            match (op, n) {
                (ConnectTo, _) | (Disconnect, _) | (Poll, _) | (PollLimited, _) => &Expect::Bad,
                (Connect, 1) => if keys[1] == keys[0] { &Expect::Good } else { &Expect::Bad },
                _ => &Expect::Good
            }
        } else if op == Connect && n == 1 && *expect == Expect::Good && keys[0] != keys[1] { &Expect::Bad } else { expect };
        match expect {
            Expect::Any => return Ok(()),
            Expect::Good => {
                if !last { continue; }
                let fine = match told {
                    Told::Info(key) => Some(key) == keys[n].as_ref(),
                    Told::Clients(list) => ClientsResponse::from_json(answer).map(|r| r.clients).ok().as_ref() == Some(list),
                    Told::Servers(list) => ServersResponse::from_json(answer).map(|r| r.servers).ok().as_ref() == Some(list),
                    Told::Connected(server, fine) => *fine && server.address == "s8.example" && Some(&server.public_key) == keys[n].as_ref(),
                    Told::Done => matches!(op, Disconnect | Announce | AnnounceHyp | Send | SendHyp),
                    Told::Found(found) => {
                        let Ok(LookupResponse(Response::Success { response, public_key, .. })) = LookupResponse::from_json(answer) else { return Err("?".into()) };
                        match (response, found) {
                            (LookupResponseBody::Local { client, available }, Some(found)) => *found == (client, Server::new(public_key, "s8.example"), available),
                            _ => false
                        }
                    }
                    Told::Messages(messages, remaining) => {
                        let Ok(PollResponse(Response::Success { response, .. })) = PollResponse::from_json(answer) else { return Err("?".into()) };
                        *messages == response.messages && *remaining == response.remaining
                    }
                    Told::Refused(..) | Told::Failed(..) => false
                };
                if !fine { return Err(format!("a good answer to {step} ended in {told:?}")); }
            }
            Expect::Refused(status, reason) => {
                // A lookup that one server refuses has found nothing there.
                let fine = match told {
                    Told::Refused(s, r) => (s.to_code() == *status && r == reason) || (step.ends_with("lookup") && s.to_code() == 311),
                    Told::Found(None) => lookup,
                    Told::Failed(_) => step.ends_with("lookup"),
                    _ => false
                };
                return if fine { Ok(()) } else { Err(format!("the refusal {status} {reason:?} of {step} ended in {told:?}")) };
            }
            Expect::Bad => {
                let fine = match told {
                    Told::Failed(_) => true,
                    Told::Found(None) => lookup,
                    Told::Refused(s, _) => step.ends_with("lookup") && !lookup && s.to_code() == 311,
                    _ => false
                };
                return if fine { Ok(()) } else { Err(format!("a bad answer to {step} ended in {told:?}")) };
            }
        }
    }
    Ok(())
}

fn key_in(answer: &Json) -> Option<PublicKey> {
    let text = answer.get("public_key").or_else(|| answer.get("server").and_then(|s| s.get("public_key")))?.as_str()?.to_string();
    PublicKey::from_base64(text).ok()
}

/// Honest answers of each step, taken from an undisturbed run.
async fn honest_run(folder: &str, op: Op) -> Result<Vec<Json>, String> {
    let stage = stage(folder).await;
    let told = perform(op, &stage.free, &stage.connected).await;
    if matches!(told, Told::Failed(_) | Told::Refused(..)) { return Err(format!("an honest server is not believed: {told:?}")); }
    let log = stage.net.take_log();
    if log.len() != op.steps().len() { return Err(format!("{} requests were made", log.len())); }
    Ok(log.into_iter().map(|e| e.answer.unwrap_or(Json::Null)).collect())
}

fn try_answers(rep: &mut Rep, op: Op) {
    let rt = runtime();
    let folder = rep.folder("stage");
    let world = World::shared(&folder);
    world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(7); });
    let _in = world.enter();
    let fail = |rep: &mut Rep, name: &str, text: String| rep.fail(name, format!("{op:?} with {name}: {text}").chars().take(1500).collect::<String>(), json!({ "operation": format!("{op:?}"), "answers": name }));
    let honest = match guard(|| rt.block_on(honest_run(&folder, op))).and_then(|r| r) { Ok(h) => h, Err(text) => { fail(rep, "honest", text); return; } };
    let steps = op.steps();
    let quick = rep.quick();
    let pairs = steps.len() > 1;
    let menus: Vec<Vec<Answer>> = steps.iter().zip(&honest).map(|((_, path), h)| answers(path, h, quick, pairs)).collect();
    let combos: Vec<Vec<&Answer>> = if pairs { menus[0].iter().flat_map(|a| menus[1].iter().map(move |b| vec![a, b])).collect() } else { menus[0].iter().map(|a| vec![a]).collect() };
    rep.sample(|| json!({ "operation": format!("{op:?}"), "answers": menus.iter().map(|m| m.iter().map(|a| a.name.clone()).take(60).collect::<Vec<_>>()).collect::<Vec<_>>() }));
    let mut seeds = HashSet::new();
    let folder = rep.folder("stage");
    let stage = rt.block_on(stage(&folder));
    for combo in combos {
        // A first step that must end the operation is paired once only.
        if pairs && combo[0].expect != Expect::Good && combo[1].name != "honest" { continue; }
        let name = combo.iter().map(|a| a.name.clone()).collect::<Vec<_>>().join(", then ");
        rep.case(format!("{op:?} with {name}"));
        rep.nontrivial(&(op, &name));
        let given: Arc<Mutex<Vec<Json>>> = Arc::default();
        {
            let (given, plan, honest) = (given.clone(), combo.iter().map(|a| (*a).clone()).collect::<Vec<_>>(), honest.clone());
            let home = HOME;
            stage.net.hook(move |exchange| {
                let n = given.lock().unwrap().len().min(plan.len() - 1);
                // The honest answer proves this request's seed.
                let mut base = honest[n].clone();
                if exchange.method == "POST" {
                    if let Some(seed) = exchange.body["proof"]["seed"].as_u64() { base["proof"]["sign"] = json!(b64(&sign(home, &seed.to_be_bytes()))); }
                }
                let answer = (plan[n].make)(exchange, &base);
                given.lock().unwrap().push(answer.clone().unwrap_or(Json::Null));
                Some(answer)
            });
        }
        let told = guard(|| rt.block_on(perform(op, &stage.free, &stage.connected)));
        rep.eval();
        let log = stage.net.take_log();
        let given = given.lock().unwrap().clone();
        let result = told.and_then(|told| {
            judge_requests(&log, op, &mut seeds)?;
            let answers: Vec<(Expect, Json, bool)> = combo.iter().zip(&given).map(|(a, g)| (a.expect.clone(), g.clone(), a.foreign)).collect();
            let keys: Vec<Option<PublicKey>> = given.iter().map(key_in).collect();
            if combo.iter().all(|a| a.expect == Expect::Good && !a.foreign) && given.len() != steps.len() { return Err(format!("only {} of {} requests were made", given.len(), steps.len())); }
            judge(op, &told, &answers, &keys)
        });
        if let Err(text) = result { fail(rep, &name, text); return; }
    }
}

/// Old answers must not be believed.
fn replay(rep: &mut Rep) {
    let rt = runtime();
    for op in OPS {
        if op.steps().len() > 1 || op.steps()[0].0 == "GET" { continue; }
        for earlier in OPS {
            if earlier.steps().len() > 1 || earlier.steps()[0].0 == "GET" { continue; }
            let folder = rep.folder("stage");
            let world = World::shared(&folder);
            world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(7); });
            let _in = world.enter();
            let name = format!("the answer to an earlier {earlier:?}");
            rep.case(format!("{op:?} with {name}"));
            rep.nontrivial(&(op, &name));
            let told = guard(|| rt.block_on(async {
                let stage = stage(&folder).await;
                perform(earlier, &stage.free, &stage.connected).await;
                let old = stage.net.take_log()[0].answer.clone().unwrap();
                stage.net.hook(move |_| Some(Ok(old.clone())));
                perform(op, &stage.free, &stage.connected).await
            }));
            rep.eval();
            let fine = matches!(&told, Ok(Told::Failed(_))) || (matches!(op, Lookup | LookupTyped) && told == Ok(Told::Found(None)));
            if !fine { rep.fail(format!("{op:?}: {name}"), format!("{op:?} with {name} ended in {told:?}").chars().take(800).collect::<String>(), Json::Null); return; }
        }
    }
}

/// All pairs of operations against an honest server: requests are accepted.
fn honest_pairs(rep: &mut Rep) {
    let rt = runtime();
    for first in OPS { for second in OPS {
        if first == Disconnect && !matches!(second, Info | Clients | Servers | Connect | ConnectTo | Poll | Send) { continue; }
        let folder = rep.folder("stage");
        let world = World::shared(&folder);
        world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(7); });
        let _in = world.enter();
        rep.case(format!("{first:?}; {second:?}"));
        rep.nontrivial(&(first, second));
        let result = guard(|| rt.block_on(async {
            let stage = stage(&folder).await;
            let mut seeds = HashSet::new();
            for op in [first, second] {
                let told = perform(op, &stage.free, &stage.connected).await;
                if matches!(told, Told::Failed(_) | Told::Refused(..)) { return Err(format!("{op:?} ended in {told:?}")); }
                judge_requests(&stage.net.take_log(), op, &mut seeds)?;
            }
            Ok(())
        })).and_then(|r| r);
        rep.eval();
        if let Err(text) = result { rep.fail(format!("{first:?}; {second:?}"), format!("{first:?}, then {second:?} with an honest server: {text}"), Json::Null); return; }
    } }
}

pub fn c17(_tier: Tier) -> Property {
    let mut units: Vec<Unit> = OPS.iter().map(|op| { let op = *op; Unit::new(format!("{op:?}"), move |rep| try_answers(rep, op)) }).collect();
    units.push(Unit::new("replay", replay));
    units.push(Unit::new("honest", honest_pairs));
    Property {
        id: "C17",
        level: Level::Faults,
        rule: "Every client operation is given every answer of a menu derived from the honest one: transport failures, missing bodies, every error status, every node missing or of a wrong type, unsupported versions, and successes whose proof is forged, replayed, by another key or over other bytes; two-step operations get every pair. Reported results, and the proof, freshness, URL and method of every request, are judged independently. Each operation with each answer is a distinct non-trivial case.",
        assumptions: vec!["proofs cover the request's seed only, as the protocol defines; contents of a proven answer are believed"],
        bounds: json!({ "operations": OPS.len(), "steps": 2 }),
        units
    }
}
