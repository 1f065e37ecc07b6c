//! C07 and C08: proofs and certificates, and the server that demands them.

use std::collections::BTreeMap;
use std::path::Path;

use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::{Client, Server};
use k256::ecdsa::signature::Signer;
use serde_json::{json, Value as Json};

use crate::clients::{b64, genuine, high_s, nodes, replaced, unb64};
use crate::crypto::grid;
use crate::fixture::*;
use crate::net::*;
use crate::report::*;
use crate::sys::*;

const LEAST: u64 = 1 << 63;

/// An independent signature.
fn sign_with(key: &SecretKey, bytes: &[u8]) -> Vec<u8> {
    let key = k256::ecdsa::SigningKey::from_slice(&key.serialize()).unwrap();
    let sign: k256::ecdsa::Signature = key.sign(bytes);
    sign.to_vec()
}

/// Keys, with pairs that are easily confused: opposite ones, and ones whose
/// texts share their first or last letters.
fn cast() -> Vec<SecretKey> {
    vec![secret(3), secret_neg(3), secret(SAME_PREFIX.0), secret(SAME_PREFIX.1), secret(SAME_SUFFIX.0), secret(SAME_SUFFIX.1)]
}

fn seeds(wide: bool) -> Vec<u64> {
    let mut out = vec![0, 1, 255, 1 << 31, 1 << 32, 1 << 62, LEAST - 2, LEAST - 1, LEAST, LEAST + 1, LEAST | 0xff, LEAST | 1 << 62, 0xff00_0000_0000_0080, 0x8000_0000_0000_0000_u64.swap_bytes(), u64::MAX - 1, u64::MAX];
    if wide { for n in 0..64 { out.extend([1 << n, LEAST | 1 << n, (1 << n) - 1, LEAST | ((1 << n) - 1)]); } }
    out.sort();
    out.dedup();
    out
}

/// Signatures of a seed, genuine and other ones.
fn signatures(key: &SecretKey, others: &[SecretKey], seed: u64) -> Vec<(String, Vec<u8>)> {
    let bytes = seed.to_be_bytes();
    let right = sign_with(key, &bytes);
    let mut out = vec![("right".to_string(), right.clone()), ("high".into(), high_s(&right))];
    for (n, other) in others.iter().enumerate() { if other != key { out.push((format!("by {n}"), sign_with(other, &bytes))); } }
    let mut said: Vec<Vec<u8>> = vec![
        seed.to_le_bytes().to_vec(), seed.wrapping_add(1).to_be_bytes().to_vec(), seed.wrapping_sub(1).to_be_bytes().to_vec(), (seed ^ LEAST).to_be_bytes().to_vec(), (seed ^ 1).to_be_bytes().to_vec(), (seed & 0xffff_ffff).to_be_bytes().to_vec(),
        (seed & 0xffff_ffff_0000_0000).to_be_bytes().to_vec(), (seed as u32).to_be_bytes().to_vec(), bytes[1..].to_vec(), bytes[..7].to_vec(), [&bytes[..], &[0]].concat(), [&[0], &bytes[..]].concat(), vec![], vec![0; 8], seed.to_string().into_bytes(), b64(&bytes).into_bytes(), (seed as f64 as u64).to_be_bytes().to_vec()
    ];
    said.retain(|s| s[..] != bytes);
    for (n, s) in said.iter().enumerate() { out.push((format!("of another {n}"), sign_with(key, s))); }
    let (r, s) = (&right[..32], &right[32..]);
    let zero = [0_u8; 32];
    for (name, bad) in [("swapped", [s, r].concat()), ("r only", [r, &zero].concat()), ("s only", [&zero, s].concat()), ("doubled", [&right[..], &right[..]].concat()), ("short", right[..63].to_vec()), ("long", [&right[..], &[0]].concat()), ("late", right[1..].to_vec()),
        ("empty", vec![]), ("zeros", vec![0; 64]), ("ones", vec![255; 64]), ("der", k256::ecdsa::Signature::from_slice(&right).unwrap().to_der().as_bytes().to_vec())] { out.push((name.into(), bad)); }
    for bit in [0, 7, 255, 256, 511] { let mut edit = right.clone(); edit[bit / 8] ^= 1 << (bit % 8); out.push((format!("bit {bit}"), edit)); }
    out
}

fn expect(rep: &mut Rep, what: &str, want: bool, got: Result<bool, String>, detail: impl FnOnce() -> Json) -> bool {
    rep.eval();
    if got == Ok(want) { return true; }
    rep.fail(what, format!("{what}: {}, but judged {got:?}", if want { "genuine" } else { "not genuine" }), detail());
    false
}

/// Valid means: judged valid. An error of the judgement is not an acceptance.
fn verdict<E>(f: impl FnOnce() -> Result<bool, E>) -> Result<bool, String> { guard(|| f().unwrap_or(false)) }

fn body_message() -> Message { plain("x") }

fn info_of(key: &PublicKey, seed: u64, sign: &[u8]) -> InfoResponse { InfoResponse { standard: 1, public_key: key.clone(), proof_seed: seed, proof_sign: sign.to_vec() } }

/// Everything that carries a proof, judged by its own `validate`, as it is and
/// after it was sent.
fn judgements(key: &PublicKey, seed: u64, sign: &[u8], full: bool, good: &Good) -> Vec<(&'static str, Result<bool, String>)> {
    let mut out = Vec::new();
    macro_rules! request { ($name:literal, $kind:ident, $body:expr $(, $arg:expr)?) => { {
        let request = $kind(Request { standard: 1, public_key: key.clone(), proof_seed: seed, proof_sign: sign.to_vec(), request: $body });
        out.push(($name, verdict(|| request.validate($($arg)?))));
        if full { out.push((concat!("sent ", $name), verdict(|| $kind::from_json(&request.to_json().unwrap()).unwrap().validate($($arg)?)))); }
    } } }
    let plain_request = Request { standard: 1, public_key: key.clone(), proof_seed: seed, proof_sign: sign.to_vec(), request: 7_u64 };
    out.push(("request", verdict(|| plain_request.validate())));
    request!("lookup request", LookupRequest, LookupRequestBody::new(public(77), None));
    request!("poll request", PollRequest, PollRequestBody::new("c", None));
    request!("send request", SendRequest, SendRequestBody::new(good.sender.clone(), public(78), "c", body_message()));
    request!("disconnect request", DisconnectRequest, DisconnectRequestBody::new());
    request!("announce request (server)", AnnounceRequest, AnnounceRequestBody::server(server(79, "x")));
    request!("announce request (client)", AnnounceRequest, AnnounceRequestBody::client(good.sender.client.clone(), good.sender.server.clone()));
    if let Some(certificate) = good.certificates.get(&key.to_bytes().to_vec()) {
        request!("connect request", ConnectRequest, ConnectRequestBody::from_certificate(ClientInfo::thin(), certificate.clone()), &public(90));
    }
    macro_rules! response { ($name:literal, $kind:ident, $body:expr) => { {
        let response = $kind(Response::success(ResponseStatus::Success, key.clone(), sign.to_vec(), $body));
        out.push(($name, verdict(|| response.validate(seed))));
        if full { out.push((concat!("sent ", $name), verdict(|| $kind::from_json(&response.to_json().unwrap()).unwrap().validate(seed)))); }
    } } }
    let plain_response: Response<u64> = Response::success(ResponseStatus::Success, key.clone(), sign.to_vec(), 7);
    out.push(("response", verdict(|| plain_response.validate(seed))));
    response!("connect response", ConnectResponse, ConnectResponseBody::new());
    response!("disconnect response", DisconnectResponse, DisconnectResponseBody::new());
    response!("announce response", AnnounceResponse, AnnounceResponseBody::new());
    response!("send response", SendResponse, SendResponseBody::new());
    response!("lookup response", LookupResponse, LookupResponseBody::hint(vec![]));
    response!("poll response", PollResponse, PollResponseBody::new(vec![], 0));
    let info = info_of(key, seed, sign);
    out.push(("info response", verdict(|| info.validate())));
    if full { out.push(("sent info response", verdict(|| InfoResponse::from_json(&info.to_json().unwrap()).unwrap().validate()))); }
    out
}

struct Good { sender: Sender, certificates: BTreeMap<Vec<u8>, ConnectionCertificate> }

fn good() -> Good {
    let mut certificates = BTreeMap::new();
    for key in grid().into_iter().chain(cast()) { certificates.insert(key.public_key().to_bytes().to_vec(), cert(&key, &public(90), 5)); }
    Good { sender: sender(80, 81), certificates }
}

fn errors_are_valid(rep: &mut Rep) {
    for seed in seeds(true) { for status in [ResponseStatus::ServerError, ResponseStatus::RequestValidationFailed, ResponseStatus::MessageTooLarge] {
        rep.nontrivial(&("error", seed, status.to_code()));
        macro_rules! error { ($($kind:ident)*) => { $( if !expect(rep, concat!(stringify!($kind), " error"), true, verdict(|| $kind::error(status, "no").validate(seed)), || json!({ "seed": seed })) { return; } )* } }
        error!(ConnectResponse DisconnectResponse AnnounceResponse SendResponse LookupResponse PollResponse);
        if !expect(rep, "error", true, verdict(|| Response::<()>::error(status, "").validate(seed)), || json!({ "seed": seed })) { return; }
    } }
}

/// Tokens and signatures of certificates.
fn certificates(rep: &mut Rep, signer: &SecretKey) {
    let keys = cast();
    let dates = [0, 1, 1_700_000_000, 1 << 63, u64::MAX];
    for told in &keys {
        for date in dates {
            let token = ConnectionToken::new(date, told.public_key());
            let bytes = [&date.to_be_bytes()[..], &told.public_key().to_bytes()].concat();
            let right = sign_with(signer, &bytes);
            let mut signs = vec![("right".to_string(), right.clone()), ("high".into(), high_s(&right)), ("empty".into(), vec![]), ("zeros".into(), vec![0; 64]), ("short".into(), right[..63].to_vec()), ("long".into(), [&right[..], &[0]].concat())];
            let mut others: Vec<Vec<u8>> = vec![bytes[8..].to_vec(), bytes[..8].to_vec(), bytes[..40].to_vec(), [&bytes[..], &[0]].concat(), [&bytes[8..], &bytes[..8]].concat(), b64(&bytes).into_bytes(), vec![], [&date.to_le_bytes()[..], &bytes[8..]].concat()];
            for other in dates.into_iter().chain([date.wrapping_add(1), date ^ (1 << 32)]) { others.push([&other.to_be_bytes()[..], &bytes[8..]].concat()); }
            for other in &keys { others.push([&bytes[..8], &other.public_key().to_bytes()].concat()); }
            others.retain(|o| *o != bytes);
            for (n, other) in others.iter().enumerate() { signs.push((format!("of another {n}"), sign_with(signer, other))); }
            for (name, sign) in signs {
                let certificate = ConnectionCertificate { token: token.clone(), sign: sign.clone() };
                for client in &keys {
                    let signed = genuine(&client.public_key(), &bytes, &sign);
                    for server in &keys {
                        rep.nontrivial(&(told.serialize(), date, &name, client.serialize(), server.serialize()));
                        let want = signed && server == told;
                        let detail = || json!({ "date": date, "signature": name, "signer": signer.to_base64(), "told_server": told.to_base64(), "client": client.to_base64(), "server": server.to_base64() });
                        if !expect(rep, "certificate", want, verdict(|| certificate.validate(&client.public_key(), &server.public_key())), detail) { return; }
                    }
                }
            }
        }
    }
}

/// Connect and announce requests with every combination of proof and certificate.
fn combined(rep: &mut Rep, requester: &SecretKey) {
    let keys = cast();
    let seeds = [LEAST - 1, LEAST, u64::MAX];
    let mut proofs = Vec::new();
    for seed in seeds {
        let right = sign_with(requester, &seed.to_be_bytes());
        let other = keys.iter().find(|k| *k != requester).unwrap();
        for sign in [right.clone(), sign_with(other, &seed.to_be_bytes()), sign_with(requester, &seed.wrapping_sub(1).to_be_bytes()), high_s(&right), vec![], vec![0; 64]] { proofs.push((seed, sign)); }
    }
    for signer in &keys { for told in &keys { for client in &keys { for server in &keys {
        let bytes = [&9_u64.to_be_bytes()[..], &told.public_key().to_bytes()].concat();
        let right = sign_with(signer, &bytes);
        let wrong = sign_with(signer, &bytes[1..]);
        // Malformed signatures only once.
        let mut signs = vec![right];
        if signer == client && told == server { signs.extend([wrong, vec![], vec![1; 64], vec![0; 64]]); }
        for sign in signs {
            let certificate = ConnectionCertificate { token: ConnectionToken::new(9, told.public_key()), sign: sign.clone() };
            let certified = |client: &SecretKey| told == server && genuine(&client.public_key(), &bytes, &sign);
            for (n, (seed, proof)) in proofs.iter().enumerate() {
                let proven = *seed >= LEAST && genuine(&requester.public_key(), &seed.to_be_bytes(), proof);
                let detail = || json!({ "requester": requester.to_base64(), "signer": signer.to_base64(), "told_server": told.to_base64(), "client": client.to_base64(), "server": server.to_base64(), "seed": seed, "proof": b64(proof), "certificate": b64(&sign) });
                let key = (signer.serialize(), told.serialize(), client.serialize(), server.serialize(), &sign, n);
                if client == requester {
                    rep.nontrivial(&("connect", &key));
                    let request = ConnectRequest(Request { standard: 1, public_key: requester.public_key(), proof_seed: *seed, proof_sign: proof.clone(), request: ConnectRequestBody::from_certificate(ClientInfo::thin(), certificate.clone()) });
                    if !expect(rep, "connect request", proven && certified(requester), verdict(|| request.validate(&server.public_key())), detail) { return; }
                }
                rep.nontrivial(&("announce", &key));
                let request = AnnounceRequest(Request { standard: 1, public_key: requester.public_key(), proof_seed: *seed, proof_sign: proof.clone(), request: AnnounceRequestBody::client(Client::new(client.public_key(), certificate.clone(), ClientInfo::thin()), Server::new(server.public_key(), "x")) });
                if !expect(rep, "announce request", proven && certified(client), verdict(|| request.validate()), detail) { return; }
            }
        }
    } } } }
}

/// What the library makes is valid.
fn constructed(rep: &mut Rep, share: u64) {
    let folder = rep.folder("constructed");
    let world = World::shared(&folder);
    let _in = world.enter();
    let keys: Vec<SecretKey> = grid().into_iter().chain(cast()).collect();
    let clocks = [0, 1, 1 << 31, 1 << 32, (1 << 32) + 1, 1_700_000_000, 253_402_300_800];
    let draws = if rep.quick() { 400 } else { 6000 };
    for n in 0..draws {
        let key = &keys[(n % keys.len() as u64) as usize];
        let other = &keys[((n / 7 + 1) % keys.len() as u64) as usize];
        let now = clocks[(n % clocks.len() as u64) as usize];
        let start = || world.with(|w| {
            w.now = Some(now);
            w.random = Some(share * 1_000_000 + n);
            w.random_prefix = match n { 0 => vec![0; 256], 1 => vec![255; 256], 2 => vec![128; 256], 3 => [vec![0; 128], vec![255; 128]].concat(), _ => vec![] };
        });
        rep.nontrivial(&n);
        let detail = || json!({ "draw": share * 1_000_000 + n, "key": key.to_base64(), "clock": now });
        macro_rules! made { ($name:literal, $make:expr, |$it:ident| $judge:expr, $seed:expr, $sign:expr) => { {
            start();
            let judged = guard(|| {
                let $it = $make;
                $seed >= LEAST && genuine(&key.public_key(), &$seed.to_be_bytes(), $sign) && $judge.unwrap_or(false)
            });
            if !expect(rep, concat!("made ", $name), true, judged, detail) { return; }
        } } }
        made!("request", Request::new(key, 5_u64), |r| r.validate(), r.proof_seed, &r.proof_sign);
        made!("connect request", ConnectRequest::new(key, other.public_key(), ClientInfo::thick("x")), |r| r.validate(&other.public_key()), r.0.proof_seed, &r.0.proof_sign);
        made!("disconnect request", DisconnectRequest::new(key), |r| r.validate(), r.0.proof_seed, &r.0.proof_sign);
        made!("lookup request", LookupRequest::new(key, other.public_key(), None), |r| r.validate(), r.0.proof_seed, &r.0.proof_sign);
        made!("poll request", PollRequest::new(key, "c", Some(3)), |r| r.validate(), r.0.proof_seed, &r.0.proof_sign);
        made!("send request", SendRequest::new(key, sender(80, 81), other.public_key(), "c", body_message()), |r| r.validate(), r.0.proof_seed, &r.0.proof_sign);
        made!("info response", InfoResponse::new(key), |r| r.validate(), r.proof_seed, &r.proof_sign);
        start();
        let fresh = guard(|| safe_random_u64_long() >= LEAST);
        if !expect(rep, "made seed", true, fresh, detail) { return; }
        start();
        let announced = guard(|| {
            let certificate = ConnectionCertificate::new(other, key.public_key());
            let body = AnnounceRequestBody::client(Client::new(other.public_key(), certificate, ClientInfo::thin()), Server::new(key.public_key(), "x"));
            AnnounceRequest(Request::new(key, body)).validate().unwrap_or(false) && AnnounceRequest(Request::new(key, AnnounceRequestBody::server(Server::new(other.public_key(), "y")))).validate().unwrap_or(false)
        });
        if !expect(rep, "made announce request", true, announced, detail) { return; }
        start();
        let certified = guard(|| {
            let certificate = ConnectionCertificate::new(key, other.public_key());
            let bytes = [&now.to_be_bytes()[..], &other.public_key().to_bytes()].concat();
            certificate.token == ConnectionToken::new(now, other.public_key()) && genuine(&key.public_key(), &bytes, &certificate.sign) && certificate.validate(&key.public_key(), &other.public_key()).unwrap_or(false)
        });
        if !expect(rep, "made certificate", true, certified, detail) { return; }
        let seed = LEAST | (n.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 1);
        for seed in [seed, LEAST, u64::MAX] {
            macro_rules! answer { ($name:literal, $answer:expr) => { {
                let judged = guard(|| {
                    let answer = $answer;
                    let Response::Success { public_key, proof_sign, status, .. } = &answer.0 else { return false };
                    *status == ResponseStatus::Success && *public_key == key.public_key() && genuine(public_key, &seed.to_be_bytes(), proof_sign) && answer.validate(seed).unwrap_or(false)
                });
                if !expect(rep, concat!("made ", $name), true, judged, detail) { return; }
            } } }
            answer!("connect response", ConnectResponse::success(ResponseStatus::Success, key, seed));
            answer!("disconnect response", DisconnectResponse::success(ResponseStatus::Success, key, seed));
            answer!("announce response", AnnounceResponse::success(ResponseStatus::Success, key, seed));
            answer!("send response", SendResponse::success(ResponseStatus::Success, key, seed));
            answer!("lookup response", LookupResponse::success(ResponseStatus::Success, key, seed, LookupResponseBody::hint(vec![])));
            answer!("poll response", PollResponse::success(ResponseStatus::Success, key, seed, PollResponseBody::new(vec![], 0)));
        }
    }
}

pub fn c07(tier: Tier) -> Property {
    let quick = tier == Tier::Quick;
    let mut units = Vec::new();
    for n in 0..cast().len() {
        for share in 0..4 {
            units.push(Unit::new(format!("proofs {n} {share}"), move |rep| {
                let keys = cast();
                let good = good();
                let key = &keys[n];
                let wide = n == 0 || !rep.quick();
                for seed in seeds(wide).into_iter().skip(share).step_by(4) {
                    for (name, sign) in signatures(key, &keys, seed) {
                        rep.nontrivial(&(seed, &name));
                        let want = seed >= LEAST && genuine(&key.public_key(), &seed.to_be_bytes(), &sign);
                        for (what, got) in judgements(&key.public_key(), seed, &sign, n < 2, &good) {
                            if !expect(rep, what, want, got, || json!({ "key": key.to_base64(), "seed": seed, "signature": name, "bytes": b64(&sign) })) { return; }
                        }
                    }
                    // A genuine proof of one key under the names of the others.
                    let sign = sign_with(key, &seed.to_be_bytes());
                    for other in keys.iter().filter(|k| *k != key) {
                        for (what, got) in judgements(&other.public_key(), seed, &sign, false, &good) {
                            if !expect(rep, what, false, got, || json!({ "key": other.to_base64(), "signer": key.to_base64(), "seed": seed })) { return; }
                        }
                    }
                }
            }));
        }
        units.push(Unit::new(format!("certificates {n}"), move |rep| certificates(rep, &cast()[n])));
        units.push(Unit::new(format!("combined {n}"), move |rep| combined(rep, &cast()[n])));
    }
    units.push(Unit::new("grid", |rep| {
        let keys = grid();
        let good = good();
        for key in &keys { for signer in &keys { for seed in [0, LEAST - 1, LEAST, LEAST + 12345, u64::MAX] {
            rep.nontrivial(&(key.serialize(), signer.serialize(), seed));
            let sign = sign_with(signer, &seed.to_be_bytes());
            for (what, got) in judgements(&key.public_key(), seed, &sign, false, &good) {
                if !expect(rep, what, seed >= LEAST && key == signer, got, || json!({ "key": key.to_base64(), "signer": signer.to_base64(), "seed": seed })) { return; }
            }
        } } }
    }));
    units.push(Unit::new("errors", errors_are_valid));
    for share in 0..8 { units.push(Unit::new(format!("constructed {share}"), move |rep| constructed(rep, share))); }
    Property {
        id: "C07",
        level: Level::Exploration,
        rule: "truth tables over seeds, signature kinds, and confusable keys as claimed and actual signers, servers and clients, for everything that carries a proof or certificate; values made by the library under enumerated random streams and clocks; each distinct combination counts once",
        assumptions: vec!["the k256 crate decides what a signature is; of the two forms (r, s) and (r, -s) only the low one counts", "the seed generator cannot be driven to chosen outputs through its entropy, so rare outputs are not enumerated"],
        bounds: json!({ "keys": cast().len(), "grid": grid().len(), "seeds": seeds(true).len(), "signature_kinds": signatures(&secret(3), &cast(), LEAST).len(), "random_streams": if quick { 3200 } else { 48000 } }),
        units
    }
}

// ---------------------------------------------------------------- C08

const DATE: u64 = 1_700_000_000;

/// Who takes part: the server and a server confused with it, two clients with
/// opposite keys, and an attacker.
#[derive(Clone)]
pub struct Scene { pub name: &'static str, pub server: SecretKey, pub lookalike: SecretKey, pub a: SecretKey, pub b: SecretKey, pub attacker: SecretKey }

pub fn scenes() -> Vec<Scene> {
    vec![
        Scene { name: "opposite", server: secret(8), lookalike: secret_neg(8), a: secret(3), b: secret_neg(3), attacker: secret(5) },
        Scene { name: "prefix", server: secret(SAME_PREFIX.0), lookalike: secret(SAME_PREFIX.1), a: secret(SAME_SUFFIX.0), b: secret(SAME_SUFFIX.1), attacker: secret_neg(SAME_SUFFIX.0) }
    ]
}

const POSTS: [&str; 6] = ["connect", "disconnect", "announce", "lookup", "send", "poll"];

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Step { Connect(usize, usize), Disconnect(usize), AnnounceClient(usize), AnnounceServer, Send(usize, usize), Poll(usize, Option<u64>), Lookup(usize), Restart }

pub fn steps() -> Vec<Step> {
    use Step::*;
    vec![Connect(0, 0), Connect(0, 2), Connect(1, 0), Disconnect(0), AnnounceClient(0), AnnounceServer, Send(1, 0), Send(0, 1), Poll(0, None), Poll(1, Some(1)), Lookup(0), Restart]
}

fn seeded(key: &SecretKey, seed: u64, body: Json) -> Json {
    json!({ "standard": 1, "public_key": b64(&key.public_key().to_bytes()), "proof": { "seed": seed, "sign": b64(&sign_with(key, &seed.to_be_bytes())) }, "request": body })
}

fn certificate_json(signer: &SecretKey, server: &SecretKey, date: u64) -> Json { cert(signer, &server.public_key(), date).to_json().unwrap() }

fn info_json(kind: usize) -> Json { ClientInfo::new(TYPES[kind], Some("a.example".to_string())).to_json().unwrap() }

fn sender_json(scene: &Scene, who: &SecretKey) -> Json {
    Sender::new(client(who, &scene.server.public_key(), DATE, ClientInfo::thin()), Server::new(scene.server.public_key(), "s8.example")).to_json().unwrap()
}

fn key_json(key: &SecretKey) -> Json { json!(b64(&key.public_key().to_bytes())) }

impl Scene {
    fn who(&self, n: usize) -> &SecretKey { [&self.a, &self.b, &self.attacker][n] }

    fn elsewhere(&self) -> SecretKey { secret(9) }

    fn connect_body(&self, who: &SecretKey, kind: usize) -> Json { json!({ "certificate": certificate_json(who, &self.server, DATE), "client": info_json(kind) }) }

    fn announce_body(&self, who: &SecretKey) -> Json {
        let elsewhere = self.elsewhere();
        json!({ "announce": "client", "client": client(who, &elsewhere.public_key(), DATE, ClientInfo::thin()).to_json().unwrap(), "server": Server::new(elsewhere.public_key(), "s9.example").to_json().unwrap() })
    }

    fn send_body(&self, from: &SecretKey, to: &SecretKey) -> Json {
        json!({ "sender": sender_json(self, from), "receiver": { "public_key": key_json(to) }, "channel": "c", "message": plain("hello").to_json().unwrap() })
    }

    fn bodies(&self, who: &SecretKey) -> Vec<(&'static str, Json)> {
        vec![
            ("connect", self.connect_body(who, 0)), ("disconnect", json!({})), ("announce", self.announce_body(who)), ("announce", json!({ "announce": "server", "server": Server::new(self.elsewhere().public_key(), "s9.example").to_json().unwrap() })),
            ("lookup", json!({ "public_key": key_json(&self.a), "type": null })), ("send", self.send_body(who, &self.b)), ("poll", json!({ "channel": "c", "limit": null }))
        ]
    }

    /// The valid request of a step.
    pub fn request(&self, step: Step, seed: u64) -> Option<(&'static str, Json)> {
        use Step::*;
        Some(match step {
            Connect(n, kind) => ("connect", seeded(self.who(n), seed, self.connect_body(self.who(n), kind))),
            Disconnect(n) => ("disconnect", seeded(self.who(n), seed, json!({}))),
            AnnounceClient(n) => ("announce", seeded(self.who(1 - n), seed, self.announce_body(self.who(n)))),
            AnnounceServer => ("announce", seeded(self.who(1), seed, json!({ "announce": "server", "server": Server::new(self.elsewhere().public_key(), "s9.example").to_json().unwrap() }))),
            Send(n, to) => ("send", seeded(self.who(n), seed, self.send_body(self.who(n), self.who(to)))),
            Poll(n, limit) => ("poll", seeded(self.who(n), seed, json!({ "channel": "c", "limit": limit }))),
            Lookup(n) => ("lookup", seeded(self.who(1), seed, json!({ "public_key": key_json(self.who(n)), "type": null }))),
            Restart => return None
        })
    }

    /// Requests that are not valid, with what is wrong.
    fn forgeries(&self, wide: bool) -> Vec<(String, &'static str, Json)> {
        let seed = LEAST + 77;
        let mut out = Vec::new();
        for (victim, others) in [(&self.a, [&self.b, &self.attacker, &self.server]), (&self.b, [&self.a, &self.attacker, &self.server])] {
            for (path, body) in self.bodies(victim) {
                let valid = seeded(victim, seed, body.clone());
                let mut add = |why: &str, request: Json| out.push((why.to_string(), path, request));
                let with = |pointer: &str, value: Json| replaced(&valid, pointer, Some(value));
                // The proof.
                for weak in [0, 1, 1 << 62, LEAST - 1] { add("weak seed", seeded(victim, weak, body.clone())); }
                for (n, other) in others.iter().enumerate() {
                    add(&format!("proof by other {n}"), with("/proof/sign", json!(b64(&sign_with(other, &seed.to_be_bytes())))));
                    add(&format!("key of other {n}"), with("/public_key", key_json(other)));
                }
                for other in [seed + 1, seed - 1, seed ^ LEAST, u64::MAX, seed.swap_bytes()] { add("proof of another seed", with("/proof/sign", json!(b64(&sign_with(victim, &other.to_be_bytes()))))); }
                for (name, sign) in signatures(victim, &[], seed).into_iter().skip(1).filter(|s| wide || !s.0.starts_with("of another")) { add(&format!("signature {name}"), with("/proof/sign", json!(b64(&sign)))); }
                if victim != &self.a && !wide { continue; }
                // The envelope.
                for version in [json!(0), json!(2), json!("1"), json!(null), json!(u64::MAX), json!(1.5)] { add("version", with("/standard", version)); }
                for bad in [json!(null), json!(""), json!("AAAA"), json!(5), json!({})] {
                    add("bad key", with("/public_key", bad.clone()));
                    add("bad proof", with("/proof", bad.clone()));
                    if bad != json!("AAAA") && bad != json!("") { add("bad sign", with("/proof/sign", bad.clone())); }
                    add("bad seed", with("/proof/seed", if bad == json!(5) { json!(-5) } else { bad.clone() }));
                    if path != "disconnect" { add("bad body", with("/request", bad)); }
                }
                for field in ["/standard", "/public_key", "/proof", "/proof/seed", "/proof/sign"] { add("missing", replaced(&valid, field, None)); }
                for bad in [json!(null), json!([]), json!({}), json!("x"), json!([valid.clone()]), body.clone()] { add("no envelope", bad); }
                // The body: a part removed, or of another endpoint.
                if path != "disconnect" {
                    for part in nodes(&body) {
                        if part.is_empty() || part.ends_with("/type") && path == "lookup" || part.ends_with("/address") && !part.contains("server") { continue; }
                        add(&format!("without {part}"), replaced(&valid, &format!("/request{part}"), None));
                        if part != "/limit" { add(&format!("null {part}"), with(&format!("/request{part}"), json!(null))); }
                    }
                    for (other, body) in self.bodies(victim) { if other != path { add(&format!("body of {other}"), with("/request", body)); } }
                }
            }
        }
        // Certificates.
        let elsewhere = self.elsewhere();
        let keys = [&self.a, &self.b, &self.attacker, &self.server, &self.lookalike, &elsewhere];
        for client in [&self.a, &self.b, &self.attacker] {
            for (s, signer) in keys.iter().enumerate() { for (t, told) in keys.iter().enumerate() {
                if signer == &client && told == &&self.server { continue; }
                let body = json!({ "certificate": certificate_json(signer, told, DATE), "client": info_json(0) });
                out.push((format!("certificate by {s} for {t}"), "connect", seeded(client, seed, body)));
            } }
            let good = certificate_json(client, &self.server, DATE);
            let mut bad = Vec::new();
            for date in [DATE + 1, DATE - 1, 0, u64::MAX, DATE + (1 << 32)] { bad.push(json!({ "token": certificate_json(client, &self.server, date)["token"], "sign": good["sign"] })); }
            for told in keys { if told != &self.server { bad.push(json!({ "token": good["token"], "sign": certificate_json(client, told, DATE)["sign"] })); bad.push(json!({ "token": certificate_json(client, told, DATE)["token"], "sign": good["sign"] })); } }
            let sign = unb64(good["sign"].as_str().unwrap()).unwrap();
            for sign in [vec![], vec![0; 64], sign[..63].to_vec(), [&sign[..], &[0]].concat(), high_s(&sign), sign.iter().map(|b| b ^ 1).collect()] { bad.push(json!({ "token": good["token"], "sign": b64(&sign) })); }
            for certificate in bad { out.push(("bad certificate".into(), "connect", seeded(client, seed, json!({ "certificate": certificate, "client": info_json(0) })))); }
            // A valid certificate, but an unproven request.
            for other in keys {
                if other == client { continue; }
                let mut request = seeded(other, seed, json!({ "certificate": good, "client": info_json(0) }));
                out.push(("certificate of another client".into(), "connect", request.clone()));
                request["public_key"] = key_json(client);
                out.push(("unproven with certificate".into(), "connect", request));
            }
            // Announcements.
            for told in keys { for named in keys { for signer in keys {
                if told == named && signer == client { continue; }
                if !wide && signer != client && told != named { continue; }
                for requester in [client, &self.attacker] {
                    let record = json!({ "public_key": key_json(client), "certificate": certificate_json(signer, told, DATE), "client": info_json(0) });
                    let body = json!({ "announce": "client", "client": record, "server": { "public_key": key_json(named), "address": "x.example" } });
                    out.push(("announced with another certificate".into(), "announce", seeded(requester, seed, body)));
                }
            } } }
        }
        out
    }
}

/// Whether an answer is a success, with the server's proof of the seed.
fn proven_success(scene: &Scene, seed: u64, answer: &Result<Json, String>) -> Result<(), String> {
    let answer = answer.as_ref().map_err(|e| format!("failed: {e}"))?;
    if answer["standard"] != json!(1) || answer["status"] != json!(100) { return Err(format!("answered {answer}")); }
    if answer["public_key"] != key_json(&scene.server) { return Err(format!("answered under another key: {answer}")); }
    let sign = answer["proof"]["sign"].as_str().and_then(unb64).unwrap_or_default();
    if !genuine(&scene.server.public_key(), &seed.to_be_bytes(), &sign) { return Err(format!("not proven: {answer}")); }
    Ok(())
}

/// Whether an answer is an error.
fn refusal(answer: &Result<Json, String>) -> bool {
    match answer { Err(_) => true, Ok(answer) => answer["status"] != json!(100) && answer["status"].is_u64() && answer.get("proof").is_none() && answer.get("response").is_none() }
}

async fn begin(scene: &Scene, folder: &str) -> (Net, TestServer) {
    let net = Net::default();
    let server = TestServer::start(&net, &scene.server, "s8.example", folder).await;
    (net, server)
}

/// A history of valid requests, each of which succeeds; then every forgery.
fn demand(rep: &mut Rep, rt: &tokio::runtime::Runtime, scene: &Scene, history: &[Step], forgeries: &[(String, &'static str, Json)], seeds: &[u64]) -> bool {
    let folder = rep.folder("demand");
    let world = World::shared(&folder);
    world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(7); });
    let _in = world.enter();
    let result = guard(|| rt.block_on(async {
        let (net, mut server) = begin(scene, &folder).await;
        for (n, step) in history.iter().enumerate() {
            let seed = seeds[n % seeds.len()];
            match scene.request(*step, seed) {
                None => { drop(server); server = TestServer::start(&net, &scene.server, "s8.example", &folder).await; }
                Some((path, request)) => {
                    let answer = server.routes.call("POST", &format!("/api/v1/{path}"), &request).await;
                    rep.eval();
                    proven_success(scene, seed, &answer).map_err(|e| (format!("{step:?}"), format!("a valid request was not answered with a proven success: {e}"), request))?;
                }
            }
        }
        let before = off(|| tree(Path::new(&folder)));
        rep.state(&(scene.name, &before));
        for (why, path, request) in forgeries {
            let answer = server.routes.call("POST", &format!("/api/v1/{path}"), request).await;
            rep.eval();
            rep.count("transitions", 1);
            if !refusal(&answer) { return Err((format!("{path}: {why}"), format!("an invalid request was answered with {answer:?}"), request.clone())); }
            if off(|| tree(Path::new(&folder))) != before { return Err((format!("{path}: {why}"), "an invalid request changed what is stored".into(), request.clone())); }
        }
        // And it still serves: everything once more, with every kind of seed.
        for seed in seeds { for who in [&scene.a, &scene.b] { for (path, body) in scene.bodies(who) {
            let answer = server.routes.call("POST", &format!("/api/v1/{path}"), &seeded(who, *seed, body.clone())).await;
            rep.eval();
            proven_success(scene, *seed, &answer).map_err(|e| (path.to_string(), format!("a valid request was not answered with a proven success: {e}"), seeded(who, *seed, body)))?;
        } } }
        Ok(())
    }));
    rep.nontrivial(&(scene.name, history));
    rep.count("traces_validated_against_impl", 1);
    let (key, what, request) = match result {
        Ok(Ok(())) => return true,
        Ok(Err(problem)) => problem,
        Err(what) => ("panic".into(), what, json!(null))
    };
    rep.fail(format!("{} {key} after {history:?}", scene.name), what, json!({ "history": format!("{history:?}"), "request": request }));
    false
}

// ---------------------------------------------------------------- endpoints under faults

/// Everything the endpoints show: listings, lookups, and the inboxes (which
/// this empties).
async fn shown(scene: &Scene, server: &TestServer) -> Result<Json, String> {
    let mut out = Vec::new();
    for path in ["clients", "servers"] {
        let mut answer = server.routes.call("GET", &format!("/api/v1/{path}"), &json!(null)).await?;
        if let Some(list) = answer[path].as_array_mut() { list.sort_by_key(Json::to_string); }
        out.push(answer);
    }
    for step in [Step::Lookup(0), Step::Lookup(1), Step::Poll(0, None), Step::Poll(1, None)] {
        let (path, request) = scene.request(step, LEAST).unwrap();
        let mut answer = server.routes.call("POST", &format!("/api/v1/{path}"), &request).await?;
        if answer["status"] != json!(100) { return Err(format!("{step:?} afterwards: {answer}")); }
        if let Some(list) = answer["response"]["servers"].as_array_mut() { list.sort_by_key(Json::to_string); }
        out.push(answer["response"].take());
    }
    Ok(json!(out))
}

struct Outcome { success: bool, answer: Option<Json>, shown: Json, calls: Vec<Call>, fired: bool }

fn under(rep: &Rep, scene: &Scene, history: &[Step], last: Option<Step>, plan: Plan, restart: bool) -> Result<Outcome, String> {
    let folder = rep.folder("under");
    let world = World::shared(&folder);
    world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(7); });
    let _in = world.enter();
    let crash = matches!(plan, Plan::Crash { .. });
    let (net, server) = {
        let rt = runtime();
        rt.block_on(async {
            let (net, server) = begin(scene, &folder).await;
            for (n, step) in history.iter().enumerate() {
                let seed = LEAST + n as u64;
                let Some((path, request)) = scene.request(*step, seed) else { continue };
                proven_success(scene, seed, &server.routes.call("POST", &format!("/api/v1/{path}"), &request).await)?;
            }
            Ok::<_, String>((net, server))
        })?
    };
    world.with(|w| w.log = Some(Vec::new()));
    world.set_plan(plan);
    let mut answer = None;
    let mut success = false;
    if let Some((path, request)) = last.and_then(|step| scene.request(step, u64::MAX)) {
        let got = { let rt = runtime(); guard(|| rt.block_on(server.routes.call("POST", &format!("/api/v1/{path}"), &request))) };
        match got {
            Err(text) if !crash => return Err(text),
            Err(_) => (),
            Ok(got) => {
                success = !refusal(&got);
                if success { proven_success(scene, u64::MAX, &got)?; answer = got.ok(); }
            }
        }
    }
    let fired = world.with(|w| w.fired);
    world.reset_faults();
    let calls = world.with(|w| w.log.take().unwrap_or_default());
    let rt = runtime();
    let server = if restart || crash { drop(server); guard(|| rt.block_on(TestServer::start(&net, &scene.server, "s8.example", &folder))).map_err(|e| format!("restarting: {e}"))? } else { server };
    let shown = guard(|| rt.block_on(shown(scene, &server))).and_then(|r| r)?;
    Ok(Outcome { success, answer, shown, calls, fired })
}

/// One request to an endpoint under every fault and crash: what it answers is
/// what happened.
pub fn endpoint_faults(rep: &mut Rep, history: &[Step], last: Step, faults: bool, crashes: bool) {
    let scene = &scenes()[0];
    let name = format!("{history:?} then {last:?}");
    let (before, clean) = match (under(rep, scene, history, None, Plan::None, false), under(rep, scene, history, Some(last), Plan::None, false)) {
        (Ok(before), Ok(clean)) if clean.success => (before, clean),
        (before, clean) => { rep.fail(&name, format!("{name}, undisturbed: {:?} {:?}", before.err(), clean.err()), json!(null)); return; }
    };
    let mut plans = Vec::new();
    if faults { for plan in crate::inbox::faults(&clean.calls) { plans.push((plan, false)); plans.push((plan, true)); } }
    if crashes {
        let mutations: Vec<&Call> = clean.calls.iter().filter(|c| c.kind.mutates()).collect();
        for (at, call) in mutations.iter().enumerate() {
            if call.kind == Kind::Write { for torn in crate::inbox::torn_lengths(call.len, false) { plans.push((Plan::Crash { at, torn }, true)); } }
            else { plans.push((Plan::Crash { at, torn: 0 }, true)); }
        }
        plans.push((Plan::Crash { at: mutations.len(), torn: 0 }, true));
    }
    let sorted = |answer: &Option<Json>| answer.clone().map(|mut a| { if let Some(list) = a["response"]["servers"].as_array_mut() { list.sort_by_key(Json::to_string); } a });
    for (plan, restart) in plans {
        let what = format!("{name} with {plan:?}{}", if restart { ", then a restart" } else { "" });
        rep.case(&what);
        rep.nontrivial(&what);
        rep.eval();
        let result = guard(|| under(rep, scene, history, Some(last), plan, restart)).and_then(|r| r).and_then(|got| {
            if got.fired { rep.count("faults_that_struck", 1); }
            if !got.success { rep.count("operations_reporting_an_error", 1); }
            if got.success && sorted(&got.answer) != sorted(&clean.answer) { return Err(format!("answered {:?} instead of {:?}", got.answer, clean.answer)); }
            let old = got.shown == before.shown;
            let new = got.shown == clean.shown;
            // A failed registration leaves the record, a failed poll the messages.
            let fine = match last {
                _ if got.success => new,
                _ if matches!(plan, Plan::Crash { .. }) => old || new,
                Step::Send(..) | Step::Disconnect(_) => old || new,
                _ => old
            };
            if fine { Ok(()) } else { Err(format!("answered {}, but then the server shows {} (before: {}; after a success: {})", if got.success { "success" } else { "an error" }, got.shown, before.shown, clean.shown)) }
        });
        if let Err(text) = result { rep.fail(&what, format!("{what}: {text}"), json!({ "plan": format!("{plan:?}") })); return; }
    }
}

fn fault_histories() -> Vec<Vec<Step>> {
    use Step::*;
    vec![
        vec![], vec![Connect(0, 0)], vec![AnnounceClient(0)], vec![AnnounceServer, Connect(1, 0)], vec![Send(1, 0)], vec![Connect(0, 2), Send(1, 0), Send(1, 0), Send(0, 1)], vec![Send(1, 0), Send(1, 0), Poll(0, Some(1))], vec![Connect(0, 0), Connect(1, 0), AnnounceClient(0), AnnounceClient(1), Disconnect(0)]
    ]
}

/// Units with the steps of a property; `routing` for the routing table's.
pub fn endpoint_units(routing: bool, faults: bool, crashes: bool) -> Vec<Unit> {
    let mut out = Vec::new();
    for (n, history) in fault_histories().into_iter().enumerate() {
        for step in steps() {
            let routes = matches!(step, Step::Connect(..) | Step::Disconnect(_) | Step::AnnounceClient(_) | Step::AnnounceServer | Step::Lookup(_));
            if routes != routing || step == Step::Restart { continue; }
            let history = history.clone();
            out.push(Unit::new(format!("endpoint-{n}-{step:?}"), move |rep| endpoint_faults(rep, &history, step, faults, crashes)));
        }
    }
    out
}

pub fn c08(tier: Tier) -> Property {
    let quick = tier == Tier::Quick;
    let mut units = Vec::new();
    for s in 0..scenes().len() {
        for first in 0..steps().len() {
            units.push(Unit::new(format!("{} {first}", scenes()[s].name), move |rep| {
                let scene = &scenes()[s];
                let rt = runtime();
                let depth = if rep.quick() { 2 } else { 3 };
                let wide = scene.forgeries(true);
                let some = scene.forgeries(false);
                let seeds = [LEAST, LEAST + 1, u64::MAX, 0xdead_beef_0bad_cafe];
                let mut stack = vec![vec![steps()[first]]];
                if first == 0 { stack.push(vec![]); }
                while let Some(history) = stack.pop() {
                    let forgeries = if history.len() < depth.min(2) { &wide } else { &some };
                    if !demand(rep, &rt, scene, &history, forgeries, &seeds) { return; }
                    if !history.is_empty() && history.len() < depth { for step in steps() { let mut h = history.clone(); h.push(step); stack.push(h); } }
                }
                rep.count("forgeries", wide.len() as u64);
                rep.sample(|| json!({ "forgery": wide[first * 7 % wide.len()].0, "path": wide[first * 7 % wide.len()].1 }));
            }));
        }
    }
    Property {
        id: "C08",
        level: Level::ModelChecking,
        rule: "every sequence of valid requests to a depth on a real server; in the state reached, every forged request to every endpoint is refused and changes no stored byte, and every valid one is answered with the server's genuine proof; each distinct history counts once",
        assumptions: vec!["endpoint handlers are called as the bundled HTTP server calls them; C22 covers the rest", "proofs bind the seed, not the body (as the standard has it), so replays and exchanged bodies are not forgeries"],
        bounds: json!({ "depth": if quick { 2 } else { 3 }, "steps": steps().len(), "forgeries": scenes()[0].forgeries(true).len(), "forgeries_at_full_depth": scenes()[0].forgeries(false).len(), "scenes": scenes().len() }),
        units
    }
}
