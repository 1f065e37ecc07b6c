//! C05 and C06: the wire form of the REST API.

use std::fmt::Debug;
use std::str::FromStr;

use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::{Client, Server};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value as Json};

use crate::clients::{b64, nodes, unb64};
use crate::crypto::{check_serde, encoding_name, encodings, grid, message_encoding_of};
use crate::fixture::*;
use crate::report::*;

// ---------------------------------------------------------------- values with their standard form

type Pairs<T> = Vec<(T, Json)>;

pub fn strings() -> Vec<String> {
    vec![
        "plain".into(), "".into(), " \"quoted\\/\u{8}\u{c}\n\r\t\0' ".into(), "é漢😀\u{2028}\u{feff}e\u{301}".into(), "http://example.org:8001/a?b=c#d".into(),
        "null".into(), "../../x".into(), "a".repeat(3000)
    ]
}

fn few_strings() -> Vec<String> { strings().into_iter().take(4).collect() }

const NUMBERS: [u64; 9] = [0, 1, 1_700_000_000, (1 << 53) - 1, (1 << 53) + 1, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX];

fn byte_strings() -> Vec<Vec<u8>> {
    vec![(0..64).collect(), Vec::new(), vec![0], vec![255; 2], vec![0; 64], vec![255; 64], (0..=255).collect(), vec![0xfb, 0xff, 0xfe]]
}

fn keys() -> Vec<PublicKey> { grid().iter().map(SecretKey::public_key).collect() }

fn few_keys() -> Vec<PublicKey> { vec![public(3), public(4), secret_neg(3).public_key()] }

fn k(key: &PublicKey) -> String { b64(&key.to_bytes()) }

fn type_name(t: ClientType) -> &'static str {
    match t { ClientType::Thin => "thin", ClientType::Thick => "thick", ClientType::Server => "server", ClientType::File => "file" }
}

fn servers(wide: bool) -> Pairs<Server> {
    let (keys, texts) = if wide { (keys(), strings()) } else { (few_keys(), few_strings()) };
    let mut out = Vec::new();
    for key in &keys { for text in &texts { out.push((Server::new(key.clone(), text), json!({ "public_key": k(key), "address": text }))); } }
    out
}

fn infos(wide: bool) -> Pairs<ClientInfo> {
    let mut addresses: Vec<Option<String>> = vec![None];
    addresses.extend((if wide { strings() } else { few_strings() }).into_iter().map(Some));
    let mut out = Vec::new();
    for t in TYPES { for address in &addresses { out.push((ClientInfo::new(t, address.clone()), json!({ "type": type_name(t), "address": address }))); } }
    out
}

fn certificates(wide: bool) -> Pairs<ConnectionCertificate> {
    let (keys, numbers, signs) = if wide { (keys(), &NUMBERS[..], byte_strings()) } else { (vec![public(5)], &[1_700_000_000, u64::MAX][..], vec![vec![1; 64], vec![]]) };
    let mut out = Vec::new();
    for key in &keys { for date in numbers { for sign in &signs {
        let token = [&date.to_be_bytes()[..], &key.to_bytes()].concat();
        out.push((ConnectionCertificate { token: ConnectionToken::new(*date, key.clone()), sign: sign.clone() }, json!({ "token": b64(&token), "sign": b64(sign) })));
    } } }
    out
}

fn clients(wide: bool) -> Pairs<Client> {
    let mut out = Vec::new();
    let keys = if wide { keys() } else { vec![public(3)] };
    let infos = if wide { infos(true) } else { infos(false).into_iter().step_by(3).collect() };
    for key in &keys { for (certificate, c) in certificates(false) { for (info, i) in &infos {
        out.push((Client::new(key.clone(), certificate.clone(), info.clone()), json!({ "public_key": k(key), "certificate": c, "client": i })));
    } } }
    out
}

fn senders() -> Pairs<Sender> {
    let mut out = Vec::new();
    for (client, c) in clients(false) { for (server, s) in servers(false) { out.push((Sender::new(client.clone(), server), json!({ "client": c, "server": s }))); } }
    out
}

fn messages(wide: bool) -> Pairs<Message> {
    let texts = if wide { strings() } else { few_strings().into_iter().take(2).collect() };
    let mut out = Vec::new();
    for content in &texts { for sign in &texts { for encoding in encodings() {
        out.push((Message::new(content, sign, encoding), json!({ "content": content, "sign": sign, "encoding": encoding_name(&encoding) })));
    } } }
    out
}

fn message_infos() -> Pairs<MessageInfo> {
    let mut out = Vec::new();
    for (sender, s) in senders().into_iter().step_by(17) { for channel in strings() { for (message, m) in messages(false).into_iter().step_by(5) { for at in [0, 1_700_000_000, u64::MAX] {
        out.push((MessageInfo::new(sender.clone(), &channel, message.clone(), at), json!({ "sender": s, "channel": channel, "message": m, "received_at": at })));
    } } } }
    out
}

fn connect_bodies() -> Pairs<ConnectRequestBody> {
    let mut out = Vec::new();
    for (certificate, c) in certificates(false) { for (info, i) in infos(true) { out.push((ConnectRequestBody::from_certificate(info, certificate.clone()), json!({ "certificate": c, "client": i }))); } }
    out
}

fn announce_bodies() -> Pairs<AnnounceRequestBody> {
    let mut out = Vec::new();
    for (server, s) in servers(true) { out.push((AnnounceRequestBody::server(server), json!({ "announce": "server", "server": s }))); }
    for (client, c) in clients(false) { for (server, s) in servers(false) { out.push((AnnounceRequestBody::client(client.clone(), server), json!({ "announce": "client", "client": c, "server": s }))); } }
    out
}

fn lookup_bodies() -> Pairs<LookupRequestBody> {
    let mut out = Vec::new();
    for key in keys() { for t in [None, Some(TYPES[0]), Some(TYPES[1]), Some(TYPES[2]), Some(TYPES[3])] {
        out.push((LookupRequestBody::new(key.clone(), t), json!({ "public_key": k(&key), "type": t.map(type_name) })));
    } }
    out
}

fn lookup_answers() -> Pairs<LookupResponseBody> {
    let mut out = Vec::new();
    for (client, c) in clients(false) { for available in [true, false] {
        out.push((LookupResponseBody::local(client.clone(), available), json!({ "disposition": "local", "client": c, "available": available })));
        for (server, s) in servers(false).into_iter().step_by(2) {
            out.push((LookupResponseBody::remote(client.clone(), server, available), json!({ "disposition": "remote", "client": c, "server": s, "available": available })));
        }
    } }
    let all = servers(true);
    for size in [0, 1, 2, 3, 40] {
        let (list, forms): (Vec<_>, Vec<_>) = all.iter().rev().take(size).cloned().unzip();
        out.push((LookupResponseBody::hint(list), json!({ "disposition": "hint", "servers": forms })));
    }
    out
}

fn send_bodies() -> Pairs<SendRequestBody> {
    let mut out = Vec::new();
    for (sender, s) in senders().into_iter().step_by(23) { for key in few_keys() { for channel in strings() { for (message, m) in messages(false).into_iter().step_by(7) {
        out.push((SendRequestBody::new(sender.clone(), key.clone(), &channel, message), json!({ "sender": s, "receiver": { "public_key": k(&key) }, "channel": channel, "message": m })));
    } } } }
    out
}

fn poll_bodies() -> Pairs<PollRequestBody> {
    let mut out = Vec::new();
    for channel in strings() {
        out.push((PollRequestBody::new(&channel, None), json!({ "channel": channel, "limit": null })));
        for limit in NUMBERS { out.push((PollRequestBody::new(&channel, Some(limit)), json!({ "channel": channel, "limit": limit }))); }
    }
    out
}

fn poll_answers() -> Pairs<PollResponseBody> {
    let all = message_infos();
    let mut out = Vec::new();
    for size in [0, 1, 2, 3, 50] { for remaining in NUMBERS { for skip in [0, 100] {
        let (list, forms): (Vec<_>, Vec<_>) = all.iter().skip(skip).step_by(11).take(size).cloned().unzip();
        out.push((PollResponseBody::new(list, remaining), json!({ "messages": forms, "remaining": remaining })));
    } } }
    out
}

const STATUSES: [(ResponseStatus, u64); 9] = [
    (ResponseStatus::Success, 100), (ResponseStatus::ServerError, 200), (ResponseStatus::InvalidRequestStructure, 300), (ResponseStatus::RequestValidationFailed, 301),
    (ResponseStatus::ClientLookupTimeout, 310), (ResponseStatus::ClientNotFound, 311), (ResponseStatus::ClientNotConnected, 320), (ResponseStatus::ClientInboxFull, 321), (ResponseStatus::MessageTooLarge, 322)
];

fn requests<T: Clone>(bodies: Pairs<T>) -> Pairs<Request<T>> {
    let mut out = Vec::new();
    let first = bodies[0].clone();
    for (body, b) in bodies {
        out.push((Request { standard: 1, public_key: public(3), proof_seed: u64::MAX - 7, proof_sign: (0..64).collect(), request: body },
            json!({ "standard": 1, "public_key": k(&public(3)), "proof": { "seed": u64::MAX - 7, "sign": b64(&(0..64).collect::<Vec<u8>>()) }, "request": b })));
    }
    for key in keys() { for seed in NUMBERS { for sign in byte_strings() {
        out.push((Request { standard: 1, public_key: key.clone(), proof_seed: seed, proof_sign: sign.clone(), request: first.0.clone() },
            json!({ "standard": 1, "public_key": k(&key), "proof": { "seed": seed, "sign": b64(&sign) }, "request": first.1 })));
    } } }
    out
}

fn responses<T: Clone>(bodies: Pairs<T>) -> Pairs<Response<T>> {
    let mut out = Vec::new();
    let first = bodies[0].clone();
    for (body, b) in bodies {
        out.push((Response::success(ResponseStatus::Success, public(3), vec![9; 64], body), json!({ "standard": 1, "status": 100, "public_key": k(&public(3)), "proof": { "sign": b64(&[9; 64]) }, "response": b })));
    }
    for key in keys() { for sign in byte_strings() {
        out.push((Response::success(ResponseStatus::Success, key.clone(), sign.clone(), first.0.clone()), json!({ "standard": 1, "status": 100, "public_key": k(&key), "proof": { "sign": b64(&sign) }, "response": first.1 })));
    } }
    for (status, code) in STATUSES {
        if code == 100 { continue; }
        for reason in strings() { out.push((Response::error(status, &reason), json!({ "standard": 1, "status": code, "reason": reason }))); }
    }
    out
}

fn map<A, B>(pairs: Pairs<A>, f: impl Fn(A) -> B) -> Pairs<B> { pairs.into_iter().map(|(a, j)| (f(a), j)).collect() }

fn listed<A, B>(name: &str, pairs: Pairs<Vec<A>>, f: impl Fn(Vec<A>) -> B) -> Pairs<B> {
    pairs.into_iter().map(|(list, form)| (f(list), json!({ "standard": 1, name: form }))).collect()
}

fn empty<T>(value: T) -> Pairs<T> { vec![(value, json!({}))] }

fn info_answers() -> Pairs<InfoResponse> {
    let mut out = Vec::new();
    for key in keys() { for seed in NUMBERS { for sign in byte_strings() {
        out.push((InfoResponse { standard: 1, public_key: key.clone(), proof_seed: seed, proof_sign: sign.clone() },
            json!({ "standard": 1, "server": { "public_key": k(&key) }, "proof": { "seed": seed, "sign": b64(&sign) } })));
    } } }
    out
}

fn lists<T: Clone>(all: Pairs<T>) -> Pairs<Vec<T>> {
    [0, 1, 2, 3, 30].iter().flat_map(|size| [0, 5].map(|skip| all.iter().skip(skip).step_by(3).take(*size).cloned().unzip())).map(|(v, f): (Vec<T>, Vec<Json>)| (v, json!(f))).collect()
}

// ---------------------------------------------------------------- C05

fn wire<T: AsJson + PartialEq + Debug>(value: &T, form: &Json) -> Result<(), String> {
    guard(|| -> Result<(), String> {
        let written = value.to_json().map_err(|e| format!("cannot be written: {e}"))?;
        if written != *form { return Err(format!("written as {written} instead of {form}")); }
        let back = T::from_json(form).map_err(|e| format!("its standard form is refused: {e}"))?;
        if back != *value { return Err(format!("its standard form is read as {back:?}")); }
        let text = serde_json::from_str(&written.to_string()).map_err(|e| format!("not JSON: {e}"))?;
        let back = T::from_json(&text).map_err(|e| format!("its text is refused: {e}"))?;
        if back != *value { return Err(format!("its text is read as {back:?}")); }
        let pretty = serde_json::from_str(&serde_json::to_string_pretty(form).unwrap()).unwrap();
        if T::from_json(&pretty).ok().as_ref() != Some(value) { return Err("its indented text is not read back".into()); }
        Ok(())
    }).and_then(|r| r)
}

fn wire_all<T: AsJson + PartialEq + Debug + Clone>(rep: &mut Rep, name: &str, pairs: &Pairs<T>, serde: impl Fn(&T) -> Result<(), String>) {
    for (n, (value, form)) in pairs.iter().enumerate() {
        if rep.failed() { return; }
        rep.eval();
        rep.nontrivial(&(name, form.to_string()));
        let result = wire(value, form).and_then(|_| serde(value).map_err(|e| format!("serde form: {e}")));
        if let Err(what) = result {
            let what: String = what.chars().take(600).collect();
            rep.fail(format!("{name} {n}"), format!("{name}: {what}"), json!({ "form": form }));
        }
    }
    let few: Vec<T> = pairs.iter().take(3).map(|p| p.0.clone()).collect();
    let forms: Vec<Json> = pairs.iter().take(3).map(|p| p.1.clone()).collect();
    rep.eval();
    if let Err(what) = wire(&few, &json!(forms)) { rep.fail(format!("{name} list"), format!("list of {name}: {what}"), json!({})); }
    if let Err(what) = wire(&Vec::<T>::new(), &json!([])) { rep.fail(format!("{name} list"), format!("empty list of {name}: {what}"), json!({})); }
    if let Err(what) = wire(&Box::new(few[0].clone()), &forms[0]) { rep.fail(format!("{name} box"), format!("boxed {name}: {what}"), json!({})); }
    rep.sample(|| json!({ "type": name, "values": pairs.len(), "example": forms[0] }));
}

fn unit<T: AsJson + PartialEq + Debug + Clone + Serialize + DeserializeOwned + 'static>(name: &'static str, pairs: fn() -> Pairs<T>) -> Unit {
    Unit::new(name, move |rep| wire_all(rep, name, &pairs(), check_serde))
}

fn unit_plain<T: AsJson + PartialEq + Debug + Clone + 'static>(name: &'static str, pairs: fn() -> Pairs<T>) -> Unit {
    Unit::new(name, move |rep| wire_all(rep, name, &pairs(), |_| Ok(())))
}

/// A value of another protocol version is neither written nor read.
fn versions<T: AsJson>(rep: &mut Rep, name: &str, value: &T, form: &Json, with: impl Fn(u64) -> T) {
    if value.to_json().is_err() { rep.fail(name, format!("{name}: version 1 is refused"), json!({})); }
    for version in NUMBERS.into_iter().chain([2, 3, 10, 256, 257, 1 << 32, (1 << 32) + 1, u64::MAX]) {
        if version == 1 { continue; }
        rep.eval();
        rep.nontrivial(&(name, version));
        let written = guard(|| with(version).to_json().is_ok());
        let mut form = form.clone();
        form["standard"] = json!(version);
        let read = guard(|| T::from_json(&form).is_ok());
        if (&written, &read) != (&Ok(false), &Ok(false)) {
            rep.fail(format!("{name} version {version}"), format!("{name} of version {version}: written {written:?}, read {read:?}"), json!({ "form": form }));
        }
    }
}

pub fn c05(_tier: Tier) -> Property {
    let mut units = vec![
        unit("server", || servers(true)), unit("client info", || infos(true)), unit("certificate", || certificates(true)), unit("client", || clients(true)),
        unit("sender", senders), unit("message", || messages(true)), unit("message info", message_infos),
        unit("connect body", connect_bodies), unit("announce body", announce_bodies), unit("lookup body", lookup_bodies), unit("lookup answer body", lookup_answers),
        unit("send body", send_bodies), unit("poll body", poll_bodies), unit("poll answer body", poll_answers),
        unit("disconnect body", || empty(DisconnectRequestBody::new())), unit("connect answer body", || empty(ConnectResponseBody::new())),
        unit("disconnect answer body", || empty(DisconnectResponseBody::new())), unit("announce answer body", || empty(AnnounceResponseBody::new())), unit("send answer body", || empty(SendResponseBody::new())),
        unit("connect request", || map(requests(connect_bodies()), ConnectRequest)), unit("announce request", || map(requests(announce_bodies()), AnnounceRequest)),
        unit("disconnect request", || map(requests(empty(DisconnectRequestBody::new())), DisconnectRequest)), unit("lookup request", || map(requests(lookup_bodies()), LookupRequest)),
        unit("send request", || map(requests(send_bodies()), SendRequest)), unit("poll request", || map(requests(poll_bodies()), PollRequest)),
        unit("connect response", || map(responses(empty(ConnectResponseBody::new())), ConnectResponse)), unit("announce response", || map(responses(empty(AnnounceResponseBody::new())), AnnounceResponse)),
        unit("disconnect response", || map(responses(empty(DisconnectResponseBody::new())), DisconnectResponse)), unit("send response", || map(responses(empty(SendResponseBody::new())), SendResponse)),
        unit("lookup response", || map(responses(lookup_answers()), LookupResponse)), unit("poll response", || map(responses(poll_answers()), PollResponse)),
        unit("info response", info_answers),
        unit_plain("clients response", || listed("clients", lists(clients(false)), ClientsResponse::new)), unit("servers response", || listed("servers", lists(servers(true)), ServersResponse::new)),
        // The envelopes with other bodies.
        unit("request of a number", || requests(NUMBERS.iter().map(|n| (*n, json!(n))).collect())), unit("request of a text", || requests(strings().into_iter().map(|s| (s.clone(), json!(s))).collect())),
        unit("request of a list", || requests(vec![(vec![1_u8, 2, 3], json!([1, 2, 3])), (vec![], json!([]))])), unit("response of a text", || responses(strings().into_iter().map(|s| (s.clone(), json!(s))).collect())),
        unit("request of nothing", || requests(vec![((), json!(null))]))
    ];
    units.push(Unit::new("primitives", |rep| {
        macro_rules! ints { ($($t:ty)*) => { $( for n in [<$t>::MIN, <$t>::MAX, 0, 1, 100] {
            rep.eval();
            rep.nontrivial(&(stringify!($t), n));
            // A number is written as itself, or refused.
            let fine = guard(|| match n.to_json() {
                Ok(j) => j.to_string() == n.to_string() && <$t>::from_json(&serde_json::from_str(&j.to_string()).unwrap()).ok() == Some(n),
                Err(_) => n.to_string().len() > 18
            });
            if fine != Ok(true) { rep.fail(format!("{} {n}", stringify!($t)), format!("does not survive: {fine:?}"), json!({})); }
        } )* } }
        ints!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        wire_all(rep, "text", &strings().into_iter().map(|s| (s.clone(), json!(s))).collect(), check_serde);
        wire_all(rep, "path", &strings().into_iter().map(|s| (std::path::PathBuf::from(&s), json!(s))).collect(), check_serde);
    }));
    units.push(Unit::new("versions", |rep| {
        let request = requests(poll_bodies()).swap_remove(0);
        versions(rep, "request", &request.0, &request.1, |v| Request { standard: v, ..request.0.clone() });
        let wrapped = PollRequest(request.0.clone());
        versions(rep, "poll request", &wrapped, &request.1, |v| PollRequest(Request { standard: v, ..request.0.clone() }));
        let all = responses(poll_answers());
        for (value, form) in [all.first().unwrap().clone(), all.last().unwrap().clone()] {
            let change = |v| match value.clone() {
                Response::Success { status, public_key, proof_sign, response, .. } => Response::Success { standard: v, status, public_key, proof_sign, response },
                Response::Error { status, reason, .. } => Response::Error { standard: v, status, reason }
            };
            versions(rep, "response", &value, &form, change);
            if value.standard() != 1 || change(7).standard() != 7 { rep.fail("standard", "another version is told", json!({})); }
        }
        let (value, form) = info_answers().swap_remove(0);
        versions(rep, "info response", &value, &form, |v| InfoResponse { standard: v, ..value.clone() });
        let value = ClientsResponse::new(vec![]);
        versions(rep, "clients response", &value, &json!({ "standard": 1, "clients": [] }), |v| ClientsResponse { standard: v, clients: vec![] });
        let value = ServersResponse::new(vec![]);
        versions(rep, "servers response", &value, &json!({ "standard": 1, "servers": [] }), |v| ServersResponse { standard: v, servers: vec![] });
        if HYPERBOREALIB_STANDARD != 1 { rep.fail("standard", "another standard version", json!({})); }
    }));
    units.push(Unit::new("statuses and names", |rep| {
        for (status, code) in STATUSES {
            rep.eval();
            rep.nontrivial(&code);
            if status.to_code() != code || ResponseStatus::from_code(code) != Some(status) || status.is_success() != (code == 100) { rep.fail(format!("status {code}"), format!("{status:?} is not {code}"), json!({})); }
            if let Err(what) = check_serde(&status) { rep.fail(format!("status {code}"), what, json!({})); }
            let told: Response<()> = Response::error(status, "x");
            if told.status() != status { rep.fail(format!("status {code}"), "another status is told", json!({})); }
        }
        for t in TYPES {
            rep.eval();
            if t.to_string() != type_name(t) || ClientType::from_str(type_name(t)) != Ok(t) { rep.fail(format!("type {t}"), "another name", json!({})); }
            if let Err(what) = check_serde(&t) { rep.fail(format!("type {t}"), what, json!({})); }
        }
        for e in encodings() {
            rep.eval();
            let fine = check_serde(&e).and_then(|_| check_serde(&e.encoding)).and_then(|_| check_serde(&e.encryption)).and_then(|_| check_serde(&e.compression));
            if let Err(what) = fine { rep.fail(format!("encoding {e}"), what, json!({})); }
        }
        for level in [CompressionLevel::Fast, CompressionLevel::Balanced, CompressionLevel::Quality] {
            if let Err(what) = check_serde(&level) { rep.fail("level", what, json!({})); }
        }
        for key in keys() { for date in NUMBERS {
            rep.eval();
            let token = ConnectionToken::new(date, key.clone());
            let bytes = [&date.to_be_bytes()[..], &key.to_bytes()].concat();
            let fine = guard(|| token.to_bytes()[..] == bytes[..] && ConnectionToken::from_bytes(&bytes).ok().as_ref() == Some(&token));
            if fine != Ok(true) { rep.fail(format!("token {date}"), "a token does not survive", json!({ "bytes": bytes })); }
            if let Err(what) = check_serde(&token) { rep.fail(format!("token {date}"), what, json!({})); }
        } }
        // The shorthands.
        for (info, form) in [(ClientInfo::thin(), json!({ "type": "thin", "address": null })), (ClientInfo::default(), json!({ "type": "thin", "address": null })), (ClientInfo::thick("a"), json!({ "type": "thick", "address": "a" })),
            (ClientInfo::server("b"), json!({ "type": "server", "address": "b" })), (ClientInfo::file("c"), json!({ "type": "file", "address": "c" }))] {
            rep.eval();
            if let Err(what) = wire(&info, &form) { rep.fail("shorthand", what, json!({})); }
        }
    }));
    Property {
        id: "C05",
        level: Level::Exploration,
        rule: "product of variants, optional parts and boundary values of each wire type, each compared with a form written down independently; each distinct form counts once",
        assumptions: vec!["the standard form is the one of the pinned version", "serde forms are tried in JSON (text, stream and value), bincode and CBOR", "a response whose status contradicts its variant is not a protocol value"],
        bounds: json!({ "types": 41, "strings": strings().len(), "numbers": NUMBERS.len(), "byte_strings": byte_strings().len(), "keys": grid().len() }),
        units
    }
}

// ---------------------------------------------------------------- C06

/// The shape of a standard document.
#[derive(Clone)]
enum Shape {
    Version, Status, Text, Bool, Number, Key, Base64, Token, Encoding, Kind,
    /// Absent, null, or of the shape; what is made of anything else is not promised.
    Lax(Box<Shape>),
    /// Null or of the shape.
    Nullable(Box<Shape>),
    Anything,
    List(Box<Shape>),
    Object(Vec<(&'static str, Shape)>),
    /// An object whose shape depends on the text in a field.
    Tagged(&'static str, Vec<(&'static str, Shape)>),
    Answer(Box<Shape>)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum Judged { Refuse, Either, Accept }

use Judged::*;

fn judge_key(bytes: &[u8]) -> Judged {
    match k256::PublicKey::from_sec1_bytes(bytes) { Ok(_) if bytes.len() == 33 && bytes[0] < 4 => Accept, Ok(_) => Either, Err(_) => Refuse }
}

fn judge_base64(text: &str, then: impl Fn(&[u8]) -> Judged) -> Judged {
    if let Some(bytes) = unb64(text) { return then(&bytes); }
    // A lenient reading of padding is conceivable, of other letters it is not.
    if text.chars().all(|c| c.is_ascii_alphanumeric() || "-_=".contains(c)) && then(&[]) != Refuse { Either } else { Refuse }
}

fn judge(shape: &Shape, json: Option<&Json>) -> Judged {
    let Some(json) = json else { return if let Shape::Lax(_) = shape { Accept } else { Refuse } };
    let number = |json: &Json| match json {
        Json::Number(n) if n.is_u64() => Accept,
        Json::Number(n) => if n.as_f64().is_some_and(|f| f >= 0.0 && f < 1e18 && f.fract() == 0.0) { Either } else { Refuse },
        _ => Refuse
    };
    let text = |f: &dyn Fn(&str) -> Judged| json.as_str().map(f).unwrap_or(Refuse);
    let known = |name: bool| if name { Accept } else { Refuse };
    match shape {
        // A body without fields.
        Shape::Anything => if *json == json!({}) { Accept } else { Either },
        Shape::Version => if json.as_u64() == Some(1) { Accept } else if json.as_f64() == Some(1.0) { Either } else { Refuse },
        Shape::Status => if number(json) == Refuse { Refuse } else { json.as_u64().map(|code| known(STATUSES.iter().any(|s| s.1 == code))).unwrap_or(Either) },
        Shape::Text => text(&|_| Accept),
        Shape::Bool => known(json.is_boolean()),
        Shape::Number => number(json),
        // (Other forms of a point than the compressed one may be accepted or refused.)
        Shape::Key => text(&|t| judge_base64(t, judge_key)),
        Shape::Base64 => text(&|t| judge_base64(t, |_| Accept)),
        Shape::Token => text(&|t| judge_base64(t, |bytes| if bytes.len() < 8 { Refuse } else { judge_key(&bytes[8..]) })),
        Shape::Encoding => text(&|t| known(message_encoding_of(t).is_some())),
        Shape::Kind => text(&|t| known(TYPES.iter().any(|k| type_name(*k) == t))),
        Shape::Lax(shape) => match judge(shape, Some(json)) {
            _ if json.is_null() => Accept,
            Refuse if matches!(**shape, Shape::Kind) && json.is_string() => Refuse,
            Refuse => Either,
            other => other
        },
        Shape::Nullable(shape) => if json.is_null() { Accept } else { judge(shape, Some(json)) },
        Shape::List(shape) => json.as_array().map(|list| list.iter().map(|j| judge(shape, Some(j))).min().unwrap_or(Accept)).unwrap_or(Refuse),
        Shape::Object(fields) => {
            if !json.is_object() { return if fields.is_empty() { Either } else { Refuse }; }
            let extra = json.as_object().unwrap().keys().any(|name| !fields.iter().any(|f| f.0 == name));
            fields.iter().map(|(name, shape)| judge(shape, json.get(*name))).min().unwrap_or(Accept).min(if extra { Either } else { Accept })
        }
        Shape::Tagged(tag, shapes) => {
            let Some(name) = json.get(*tag).and_then(Json::as_str) else { return Refuse };
            let Some((_, Shape::Object(fields))) = shapes.iter().find(|s| s.0 == name) else { return Refuse };
            let mut fields = fields.clone();
            fields.push((tag, Shape::Text));
            judge(&Shape::Object(fields), Some(json))
        }
        Shape::Answer(body) => {
            let envelope = judge(&Shape::Version, json.get("standard")).min(judge(&Shape::Status, json.get("status")));
            if envelope == Refuse { return Refuse; }
            let fields = if json["status"].as_f64() == Some(100.0) {
                vec![("standard", Shape::Version), ("status", Shape::Status), ("public_key", Shape::Key), ("proof", Shape::Object(vec![("sign", Shape::Base64)])), ("response", (**body).clone())]
            } else {
                vec![("standard", Shape::Version), ("status", Shape::Status), ("reason", Shape::Text)]
            };
            judge(&Shape::Object(fields), Some(json))
        }
    }
}

fn server_shape() -> Shape { Shape::Object(vec![("public_key", Shape::Key), ("address", Shape::Text)]) }
fn info_shape() -> Shape { Shape::Object(vec![("type", Shape::Kind), ("address", Shape::Lax(Box::new(Shape::Text)))]) }
fn certificate_shape() -> Shape { Shape::Object(vec![("token", Shape::Token), ("sign", Shape::Base64)]) }
fn client_shape() -> Shape { Shape::Object(vec![("public_key", Shape::Key), ("certificate", certificate_shape()), ("client", info_shape())]) }
fn sender_shape() -> Shape { Shape::Object(vec![("client", client_shape()), ("server", server_shape())]) }
fn message_shape() -> Shape { Shape::Object(vec![("content", Shape::Text), ("sign", Shape::Text), ("encoding", Shape::Encoding)]) }
fn message_info_shape() -> Shape { Shape::Object(vec![("sender", sender_shape()), ("channel", Shape::Text), ("message", message_shape()), ("received_at", Shape::Number)]) }
fn request_shape(body: Shape) -> Shape {
    Shape::Object(vec![("standard", Shape::Version), ("public_key", Shape::Key), ("proof", Shape::Object(vec![("seed", Shape::Number), ("sign", Shape::Base64)])), ("request", body)])
}
fn connect_shape() -> Shape { Shape::Object(vec![("certificate", certificate_shape()), ("client", info_shape())]) }
fn announce_shape() -> Shape { Shape::Tagged("announce", vec![("client", Shape::Object(vec![("client", client_shape()), ("server", server_shape())])), ("server", Shape::Object(vec![("server", server_shape())]))]) }
fn lookup_shape() -> Shape { Shape::Object(vec![("public_key", Shape::Key), ("type", Shape::Lax(Box::new(Shape::Kind)))]) }
fn found_shape() -> Shape {
    Shape::Tagged("disposition", vec![
        ("local", Shape::Object(vec![("client", client_shape()), ("available", Shape::Bool)])),
        ("remote", Shape::Object(vec![("client", client_shape()), ("server", server_shape()), ("available", Shape::Bool)])),
        ("hint", Shape::Object(vec![("servers", Shape::List(Box::new(server_shape())))]))
    ])
}
fn send_shape() -> Shape { Shape::Object(vec![("sender", sender_shape()), ("receiver", Shape::Object(vec![("public_key", Shape::Key)])), ("channel", Shape::Text), ("message", message_shape())]) }
fn poll_shape() -> Shape { Shape::Object(vec![("channel", Shape::Text), ("limit", Shape::Nullable(Box::new(Shape::Number)))]) }
fn polled_shape() -> Shape { Shape::Object(vec![("messages", Shape::List(Box::new(message_info_shape()))), ("remaining", Shape::Number)]) }

struct Type { name: &'static str, shape: Shape, parse: fn(&Json) -> Result<bool, String>, docs: Vec<Json> }

/// Whether a document is accepted; what was accepted can be written again.
fn accepts<T: AsJson>(json: &Json) -> Result<bool, String> {
    guard(|| match T::from_json(json) {
        Err(_) => Ok(false),
        Ok(value) => value.to_json().map(|_| true).map_err(|e| format!("what was accepted cannot be written: {e}"))
    }).and_then(|r| r)
}

fn docs<T>(pairs: Pairs<T>, picks: &[usize]) -> Vec<Json> { picks.iter().map(|n| pairs[n % pairs.len()].1.clone()).collect() }

fn types() -> &'static [Type] {
    static TYPES: std::sync::OnceLock<Vec<Type>> = std::sync::OnceLock::new();
    TYPES.get_or_init(make_types)
}

fn make_types() -> Vec<Type> {
    let any = || Shape::Anything;
    vec![
        Type { name: "server", shape: server_shape(), parse: accepts::<Server>, docs: docs(servers(false), &[0]) },
        Type { name: "client info", shape: info_shape(), parse: accepts::<ClientInfo>, docs: docs(infos(false), &[0, 6]) },
        Type { name: "certificate", shape: certificate_shape(), parse: accepts::<ConnectionCertificate>, docs: docs(certificates(false), &[0]) },
        Type { name: "client", shape: client_shape(), parse: accepts::<Client>, docs: docs(clients(false), &[1]) },
        Type { name: "sender", shape: sender_shape(), parse: accepts::<Sender>, docs: docs(senders(), &[1]) },
        Type { name: "message", shape: message_shape(), parse: accepts::<Message>, docs: docs(messages(false), &[0, 5]) },
        Type { name: "message info", shape: message_info_shape(), parse: accepts::<MessageInfo>, docs: docs(message_infos(), &[1]) },
        Type { name: "connect body", shape: connect_shape(), parse: accepts::<ConnectRequestBody>, docs: docs(connect_bodies(), &[1]) },
        Type { name: "announce body", shape: announce_shape(), parse: accepts::<AnnounceRequestBody>, docs: docs(announce_bodies(), &[0, 200]) },
        Type { name: "lookup body", shape: lookup_shape(), parse: accepts::<LookupRequestBody>, docs: docs(lookup_bodies(), &[0, 1]) },
        Type { name: "lookup answer body", shape: found_shape(), parse: accepts::<LookupResponseBody>, docs: { let all = lookup_answers(); let n = all.len(); docs(all, &[0, 1, n - 3]) } },
        Type { name: "send body", shape: send_shape(), parse: accepts::<SendRequestBody>, docs: docs(send_bodies(), &[0]) },
        Type { name: "poll body", shape: poll_shape(), parse: accepts::<PollRequestBody>, docs: docs(poll_bodies(), &[0, 3]) },
        Type { name: "poll answer body", shape: polled_shape(), parse: accepts::<PollResponseBody>, docs: docs(poll_answers(), &[0, 18]) },
        Type { name: "connect request", shape: request_shape(connect_shape()), parse: accepts::<ConnectRequest>, docs: docs(requests(connect_bodies()), &[1]) },
        Type { name: "announce request", shape: request_shape(announce_shape()), parse: accepts::<AnnounceRequest>, docs: docs(requests(announce_bodies()), &[0, 200]) },
        Type { name: "disconnect request", shape: request_shape(any()), parse: accepts::<DisconnectRequest>, docs: docs(requests(empty(DisconnectRequestBody::new())), &[0]) },
        Type { name: "lookup request", shape: request_shape(lookup_shape()), parse: accepts::<LookupRequest>, docs: docs(requests(lookup_bodies()), &[1]) },
        Type { name: "send request", shape: request_shape(send_shape()), parse: accepts::<SendRequest>, docs: docs(requests(send_bodies()), &[0]) },
        Type { name: "poll request", shape: request_shape(poll_shape()), parse: accepts::<PollRequest>, docs: docs(requests(poll_bodies()), &[1]) },
        Type { name: "connect response", shape: Shape::Answer(Box::new(any())), parse: accepts::<ConnectResponse>, docs: { let all = responses(empty(ConnectResponseBody::new())); let n = all.len(); docs(all, &[0, n - 1]) } },
        Type { name: "announce response", shape: Shape::Answer(Box::new(any())), parse: accepts::<AnnounceResponse>, docs: docs(responses(empty(AnnounceResponseBody::new())), &[0]) },
        Type { name: "disconnect response", shape: Shape::Answer(Box::new(any())), parse: accepts::<DisconnectResponse>, docs: docs(responses(empty(DisconnectResponseBody::new())), &[0]) },
        Type { name: "send response", shape: Shape::Answer(Box::new(any())), parse: accepts::<SendResponse>, docs: docs(responses(empty(SendResponseBody::new())), &[0]) },
        Type { name: "lookup response", shape: Shape::Answer(Box::new(found_shape())), parse: accepts::<LookupResponse>, docs: { let all = responses(lookup_answers()); let n = all.len(); docs(all, &[0, 1, n - 1]) } },
        Type { name: "poll response", shape: Shape::Answer(Box::new(polled_shape())), parse: accepts::<PollResponse>, docs: docs(responses(poll_answers()), &[20]) },
        Type { name: "info response", shape: Shape::Object(vec![("standard", Shape::Version), ("server", Shape::Object(vec![("public_key", Shape::Key)])), ("proof", Shape::Object(vec![("seed", Shape::Number), ("sign", Shape::Base64)]))]), parse: accepts::<InfoResponse>, docs: docs(info_answers(), &[0]) },
        Type { name: "clients response", shape: Shape::Object(vec![("standard", Shape::Version), ("clients", Shape::List(Box::new(client_shape())))]), parse: accepts::<ClientsResponse>, docs: vec![json!({ "standard": 1, "clients": docs(clients(false), &[0, 1]) })] },
        Type { name: "servers response", shape: Shape::Object(vec![("standard", Shape::Version), ("servers", Shape::List(Box::new(server_shape())))]), parse: accepts::<ServersResponse>, docs: vec![json!({ "standard": 1, "servers": docs(servers(false), &[0, 1]) })] },
        Type { name: "list of servers", shape: Shape::List(Box::new(server_shape())), parse: accepts::<Vec<Server>>, docs: vec![json!(docs(servers(false), &[0, 1]))] },
        Type { name: "boxed server", shape: server_shape(), parse: accepts::<Box<Server>>, docs: docs(servers(false), &[0]) }
    ]
}

/// Values put in the place of any part of a document.
fn replacements() -> Vec<Json> {
    let key = public(3).to_bytes();
    let token = [&7_u64.to_be_bytes()[..], &key].concat();
    let mut out = vec![
        json!(null), json!(true), json!(false), json!(0), json!(1), json!(2), json!(100), json!(200), json!(301), json!(-1), json!(1.0), json!(1.5), json!(-1.5), json!(1e300), json!(u64::MAX), json!(i64::MIN), json!(1.8446744073709552e19),
        json!([]), json!([null]), json!([1]), json!([{}]), json!({}), json!({ "public_key": 1 }), json!([[[[[[]]]]]]),
        json!({ "a": { "b": [null, { "c": "d" }] } })
    ];
    let mut texts: Vec<String> = ["", " ", "A", "AA", "AAA", "AAAA", "AAAA=", "AA==", "AB==", "A===", "====", "A+/A", "A A=", "AAAA\n", "é", "1", "null", "true", "[]", "{}", "thin", "Thin", "thick", "server", "file", "thin ", "client",
        "local", "remote", "hint", "Local", "success", "base64", "base64/", "/", "base64/none", "base64/aes256-gcm/brotli", "base64/brotli/aes256-gcm", "base64/x", "hex", "BASE64"].iter().map(|s| s.to_string()).collect();
    let mut wrong_point = key;
    wrong_point[0] = 5;
    let mut off_curve = [5_u8; 33];
    off_curve[0] = 2;
    let full = k256::PublicKey::from_sec1_bytes(&key).unwrap();
    let full = k256::elliptic_curve::sec1::ToEncodedPoint::to_encoded_point(&full, false).as_bytes().to_vec();
    for bytes in [&key[..], &key[..32], &key[1..], &[&key[..], &[0]].concat(), &wrong_point, &off_curve, &[0; 33], &[0], &full, &token, &token[..8], &token[..7], &token[..40], &[&token[..], &[0]].concat(), &[&token[..8], &off_curve].concat(), &[&token[..8], &full].concat(), &[0; 41], &[0; 64]] { texts.push(b64(bytes)); }
    texts.push(b64(&key).trim_end_matches('=').to_string());
    texts.push(b64(&key).replace(['-', '_'], "+"));
    texts.push(format!(" {}", b64(&key)));
    out.extend(texts.into_iter().map(Json::String));
    out
}

fn inspect(rep: &mut Rep, t: &Type, doc: &Json) -> bool {
    if rep.failed() { return false; }
    rep.eval();
    let want = judge(&t.shape, Some(doc));
    let got = (t.parse)(doc);
    rep.count(match want { Refuse => "must_be_refused", Either => "may_be_refused", Accept => "must_be_accepted" }, 1);
    rep.nontrivial(&(t.name, doc.to_string()));
    let what = match (&got, want) {
        (Err(what), _) => what.clone(),
        (Ok(true), Refuse) => "a malformed document is accepted".into(),
        (Ok(false), Accept) => "a well-formed document is refused".into(),
        _ => return true
    };
    rep.fail(format!("{} {doc}", t.name), format!("{}: {what}", t.name), json!({ "document": doc }));
    false
}

/// Every document one step away: a part removed, replaced, renamed, duplicated or added.
fn steps(doc: &Json, replacements: &[Json]) -> Vec<Json> {
    let mut out = replacements.to_vec();
    for path in nodes(doc) {
        let place = |new: &Json| { let mut d = doc.clone(); *d.pointer_mut(&path).unwrap() = new.clone(); d };
        out.extend(replacements.iter().map(place));
        let mut extended = Vec::new();
        let at = doc.pointer(&path).unwrap();
        match at {
            Json::Object(map) => {
                for name in map.keys() {
                    extended.push({ let mut m = map.clone(); m.remove(name); Json::Object(m) });
                    extended.push({ let mut m = map.clone(); let v = m.remove(name).unwrap(); m.insert(name.to_uppercase(), v); Json::Object(m) });
                    for other in map.keys() { if name < other { extended.push({ let mut m = map.clone(); let (a, b) = (map[name].clone(), map[other].clone()); m.insert(name.clone(), b); m.insert(other.clone(), a); Json::Object(m) }); } }
                }
                extended.push({ let mut m = map.clone(); m.insert("extra".into(), json!([1])); Json::Object(m) });
                extended.push(json!([at]));
            }
            Json::Array(list) => {
                for n in 0..list.len() { extended.push(Json::Array(list.iter().enumerate().filter(|(m, _)| *m != n).map(|p| p.1.clone()).collect())); }
                for new in replacements.iter().take(25) { extended.push({ let mut l = list.clone(); l.push(new.clone()); Json::Array(l) }); }
                extended.push(list.first().cloned().unwrap_or(json!(null)));
            }
            at => { extended.push(json!([at])); extended.push(json!(at.to_string())); }
        }
        out.extend(extended.iter().map(place));
    }
    out
}

/// All JSON values of a small size over the field names of the standard.
fn small(depth: usize) -> Vec<Json> {
    let atoms = vec![json!(null), json!(true), json!(0), json!(1), json!(100), json!(""), json!("client"), json!("hint"), json!([]), json!({})];
    if depth == 0 { return atoms; }
    let inner = small(depth - 1);
    let mut out = atoms;
    for a in &inner { out.push(json!([a])); }
    for name in ["standard", "status", "public_key", "proof", "request", "response", "reason", "announce", "disposition", "servers", "clients", "messages", "client", "server", "type", "channel", "limit"] {
        for a in &inner { out.push(json!({ name: a })); }
    }
    out
}

pub fn c06(tier: Tier) -> Property {
    let quick = tier == Tier::Quick;
    let mut units = Vec::new();
    for n in 0..types().len() {
        units.push(Unit::new(format!("one step: {}", types()[n].name), move |rep| {
            let t = &types()[n];
            let menu = replacements();
            for doc in &t.docs {
                if judge(&t.shape, Some(doc)) != Accept { rep.fail(t.name, "the harness misjudges a valid document", json!({ "document": doc })); return; }
                if !inspect(rep, t, doc) { return; }
                for changed in steps(doc, &menu) { if !inspect(rep, t, &changed) { return; } }
            }
            rep.sample(|| json!({ "type": t.name, "document": t.docs[0] }));
        }));
        units.push(Unit::new(format!("two steps: {}", types()[n].name), move |rep| {
            // Two changes at once, so that a check missing for one place is not hidden by another.
            let t = &types()[n];
            let menu: Vec<Json> = if rep.quick() { [0, 3, 4, 11, 17, 21, 25, 60, 68].iter().map(|n| replacements()[*n].clone()).collect() } else { replacements().into_iter().step_by(3).collect() };
            let doc = &t.docs[0];
            let first = steps(doc, &menu);
            let stride = if rep.quick() { 1 + first.len() * first.len() / 60_000 } else { 1 + first.len() * first.len() / 2_000_000 };
            for (n, changed) in first.iter().enumerate() {
                if n % stride != 0 { continue; }
                for again in steps(changed, &menu) { if !inspect(rep, t, &again) { return; } }
            }
        }));
        units.push(Unit::new(format!("small: {}", types()[n].name), move |rep| {
            let t = &types()[n];
            for doc in small(if rep.quick() { 2 } else { 4 }) { if !inspect(rep, t, &doc) { return; } }
            // Documents of the other types.
            for other in types() { for doc in &other.docs { if !inspect(rep, t, doc) { return; } } }
        }));
    }
    units.push(Unit::new("status codes", |rep| {
        let codes = (0..70_000).chain([u32::MAX as u64 + 1 + 100, u64::MAX, (1 << 63) + 100, 65536 + 100]);
        let answer = &types()[20];
        for code in codes {
            rep.eval();
            rep.nontrivial(&code);
            let want = STATUSES.iter().find(|s| s.1 == code).map(|s| s.0);
            let got = guard(|| ResponseStatus::from_code(code));
            if got != Ok(want) { rep.fail(format!("status {code}"), format!("read as {got:?}"), json!({})); return; }
            if code < 1000 { for doc in &answer.docs { let mut doc = doc.clone(); doc["status"] = json!(code); if !inspect(rep, answer, &doc) { return; } } }
        }
    }));
    for share in 0..4 {
        units.push(Unit::new(format!("tokens {share}"), move |rep| {
            let valid: Vec<Vec<u8>> = [(0, 3), (u64::MAX, 4), (1_700_000_000, 5)].iter().map(|(date, n)| [&(*date as u64).to_be_bytes()[..], &public(*n).to_bytes()].concat()).collect();
            let mut all: Vec<Vec<u8>> = Vec::new();
            for len in 0..100 { for x in [0_u8, 1, 2, 3, 4, 255] { all.push(vec![x; len]); } }
            for token in &valid {
                for n in 0..=token.len() { all.push(token[..n].to_vec()); all.push(token[n..].to_vec()); }
                for n in 0..token.len() { for x in 0..=255_u8 { let mut edit = token.clone(); edit[n] = x; all.push(edit); } }
                for x in 0..=255_u8 { let mut edit = token.clone(); edit.push(x); all.push(edit); }
            }
            for bytes in all.into_iter().skip(share).step_by(4) {
                rep.eval();
                rep.nontrivial(&bytes);
                let want = if bytes.len() < 8 { Refuse } else { judge_key(&bytes[8..]) };
                let got = guard(|| ConnectionToken::from_bytes(&bytes).ok().map(|t| (t.auth_date, t.public_key.to_bytes().to_vec(), t.to_bytes())));
                let fine = match (&got, want) {
                    (Ok(None), Refuse | Either) => true,
                    (Ok(Some((date, key, again))), Accept) => date.to_be_bytes()[..] == bytes[..8] && key[..] == bytes[8..] && again[..] == bytes[..],
                    (Ok(Some(_)), Either) => true,
                    _ => false
                };
                if !fine { rep.fail(format!("token {bytes:?}"), format!("read as {got:?}"), json!({ "bytes": bytes })); return; }
            }
        }));
    }
    for share in 0..8 {
        units.push(Unit::new(format!("addresses, pieces {share}"), move |rep| crate::address::pieces(rep, crate::address::check_refusals, share, 8)));
        units.push(Unit::new(format!("addresses, edits {share}"), move |rep| crate::address::edits(rep, crate::address::check_refusals, share, 8)));
    }
    // Keys and encapsulated signatures of arbitrary bytes and texts.
    units.extend(crate::crypto::c04(tier).units.into_iter().filter(|u| ["not keys", "altered capsules", "no capsules"].iter().any(|name| u.name.starts_with(name))));
    units.push(Unit::new("types", |rep| {
        let letters: Vec<char> = (' '..='~').chain(['\0', 'é']).collect();
        let mut all: Vec<String> = vec!["".into(), "THIN".into(), "any".into(), "thin,thick".into()];
        for name in ["thin", "thick", "server", "file"] { all.push(name.into()); all.extend(crate::crypto::edits(name, &letters)); }
        for name in all {
            rep.eval();
            rep.nontrivial(&name);
            let want = TYPES.into_iter().find(|t| type_name(*t) == name);
            let got = guard(|| ClientType::from_str(&name).ok());
            if got != Ok(want) { rep.fail(format!("type {name:?}"), format!("read as {got:?}"), json!({})); return; }
        }
        macro_rules! ints { ($($t:ty)*) => { $( for doc in replacements() {
            rep.eval();
            let want = serde_json::from_value::<$t>(doc.clone()).ok();
            let got = guard(|| <$t>::from_json(&doc).ok());
            if got != Ok(want) { rep.fail(format!("{} {doc}", stringify!($t)), format!("read as {got:?}"), json!({})); }
        } )* } }
        ints!(() u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize String std::path::PathBuf);
    }));
    Property {
        id: "C06",
        level: Level::Exploration,
        rule: "every document one or two changes away from a valid one, all small documents and the documents of other types, judged by an independent description of the standard; each distinct document counts once",
        assumptions: vec!["the standard's required fields are the ones of the pinned version; wrong values of optional fields, extra fields, integral floats and lenient padding may be accepted or refused"],
        bounds: json!({ "types": types().len(), "replacements": replacements().len(), "small_depth": if quick { 2 } else { 4 }, "two_steps": "every second step after a strided set of first steps" }),
        units
    }
}
