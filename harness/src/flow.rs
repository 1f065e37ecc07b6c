//! C23: clients of different servers find, message and answer each other.

use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::path::Path;

use hyperborealib::prelude::*;
use serde_json::json;

use crate::clients::{b64, unb64, HOME};
use crate::crypto::{encodings, shared};
use crate::fixture::*;
use crate::net::*;
use crate::report::*;
use crate::sys::*;

type Connected = ConnectedClientMiddleware<Net>;

const CHANNEL: &str = "talk";
const START: u64 = 1_800_000_000;

/// The clients 0 and 1 talk; 2 is a stranger connected to every server.
const STRANGER: usize = 2;

#[derive(Clone)]
struct Cast { name: &'static str, clients: [SecretKey; 3], servers: usize }

fn casts(quick: bool) -> Vec<Cast> {
    let s = secret;
    let mut out = vec![
        Cast { name: "plain", clients: [s(3), s(4), s(5)], servers: 2 },
        Cast { name: "similar", clients: [s(SAME_PREFIX.0), s(SAME_PREFIX.1), s(SAME_SUFFIX.0)], servers: 2 },
        Cast { name: "opposite", clients: [s(3), secret_neg(3), s(5)], servers: 2 }
    ];
    if !quick { out.push(Cast { name: "three", clients: [s(3), s(4), s(5)], servers: 3 }); }
    out
}

fn kind(client: usize) -> ClientType { [ClientType::Thin, ClientType::Thick, ClientType::File][client] }

fn host(n: usize) -> String { format!("s{n}.example:8{n}") }
fn server_key(n: usize) -> SecretKey { secret(HOME + n as u64) }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Step {
    /// Client, server.
    Connect(usize, usize), Disconnect(usize, usize),

    /// Client, server of its connection, server told.
    Announce(usize, usize, usize),

    /// Server, server told.
    AnnounceServer(usize, usize),

    /// The client looks its peer up by a connection and sends it a message.
    Send(usize, usize),

    /// Poll one message and answer it; poll everything.
    Answer(usize, usize), Poll(usize, usize),
    Restart(usize)
}

use Step::*;

fn letters(servers: usize) -> Vec<Step> {
    let mut out = Vec::new();
    for s in 0..servers {
        for c in 0..2 {
            out.extend([Connect(c, s), Disconnect(c, s), Send(c, s), Answer(c, s), Poll(c, s)]);
            for t in 0..servers { if t != s { out.push(Announce(c, s, t)); } }
        }
        for t in 0..servers { if t != s { out.push(AnnounceServer(s, t)); } }
        out.push(Restart(s));
    }
    out
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct Letter { number: usize, from: usize, from_server: usize, date: u64 }

/// What should be: which connections there are, what servers know and hold.
/// Connections are told apart by the date of their certificates.
#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
struct Spec {
    held: BTreeMap<(usize, usize), u64>,
    local: BTreeMap<(usize, usize), u64>,

    /// (server, client) to (server, date).
    remote: BTreeMap<(usize, usize), (usize, u64)>,
    servers: BTreeSet<(usize, usize)>,
    inbox: BTreeMap<(usize, usize), VecDeque<Letter>>,
    sent: usize
}

impl Spec {
    fn enabled(&self, step: Step) -> bool {
        match step {
            Disconnect(c, s) | Announce(c, s, _) | Send(c, s) | Answer(c, s) | Poll(c, s) => self.held.contains_key(&(c, s)),
            _ => true
        }
    }

    /// What a lookup by a connection to a server may find.
    fn found(&self, server: usize, who: usize) -> Vec<(usize, u64)> {
        let (mut seen, mut queue, mut out) = (BTreeSet::from([server]), VecDeque::from([server]), Vec::new());
        while let Some(s) = queue.pop_front() {
            if let Some(date) = self.local.get(&(s, who)) { out.push((s, *date)); }
            else if let Some(at) = self.remote.get(&(s, who)) { out.push(*at); }
            else { for (_, t) in self.servers.iter().filter(|(from, _)| *from == s) { if seen.insert(*t) { queue.push_back(*t); } } }
            // The connected server is asked first.
            if s == server && !out.is_empty() { break; }
        }
        out
    }

    fn deliver(&mut self, server: usize, to: usize, letter: Letter) { self.inbox.entry((server, to)).or_default().push_back(letter); self.sent += 1; }

    /// The step without doing it: only for finding words worth running.
    fn apply(&mut self, step: Step, date: u64) {
        match step {
            Connect(c, s) => { self.held.insert((c, s), date); self.local.insert((s, c), date); }
            Disconnect(c, s) => { self.held.remove(&(c, s)); self.local.remove(&(s, c)); self.remote.remove(&(s, c)); }
            Announce(c, s, t) => { self.remote.insert((t, c), (s, self.held[&(c, s)])); }
            AnnounceServer(s, t) => { self.servers.insert((t, s)); }
            Send(c, s) => { if let Some((at, _)) = self.found(s, 1 - c).first().copied() { let letter = Letter { number: self.sent, from: c, from_server: s, date: self.held[&(c, s)] }; self.deliver(at, 1 - c, letter); } }
            Answer(c, s) => if let Some(got) = self.inbox.get_mut(&(s, c)).and_then(|q| q.pop_front()) {
                let letter = Letter { number: self.sent, from: c, from_server: s, date: self.held[&(c, s)] };
                self.deliver(got.from_server, got.from, letter);
            },
            Poll(c, s) => { self.inbox.remove(&(s, c)); }
            Restart(_) => ()
        }
    }

    /// The state with dates replaced by whether the connection is the current one.
    fn shape(&self) -> impl std::hash::Hash + Eq {
        let current = |c: usize, s: usize, date: u64| self.held.get(&(c, s)) == Some(&date);
        (
            self.held.keys().copied().collect::<Vec<_>>(),
            self.local.iter().map(|((s, c), d)| (*s, *c, current(*c, *s, *d))).collect::<Vec<_>>(),
            self.remote.iter().map(|((s, c), (t, d))| (*s, *c, *t, current(*c, *t, *d))).collect::<Vec<_>>(),
            self.servers.clone(),
            self.inbox.iter().filter(|(_, q)| !q.is_empty()).map(|(at, q)| (*at, q.iter().map(|l| (l.from, l.from_server)).collect::<Vec<_>>())).collect::<Vec<_>>()
        )
    }
}

/// Every transition of the model to a depth, each by a shortest path to its
/// state; to a smaller depth every path.
fn words(servers: usize, all_depth: usize, depth: usize) -> Vec<Vec<Step>> {
    let letters = letters(servers);
    let mut out = Vec::new();
    let mut seen = HashSet::new();
    let mut queue: VecDeque<(Vec<Step>, Spec)> = VecDeque::from([(Vec::new(), Spec::default())]);
    seen.insert(hash(&Spec::default().shape()));
    while let Some((word, spec)) = queue.pop_front() {
        for letter in &letters {
            if !spec.enabled(*letter) { continue; }
            let mut next = spec.clone();
            next.apply(*letter, word.len() as u64);
            let mut longer = word.clone();
            longer.push(*letter);
            let new = seen.insert(hash(&next.shape()));
            if longer.len() < depth && (new || longer.len() < all_depth) { queue.push_back((longer.clone(), next)); }
            out.push(longer);
        }
    }
    out
}

// ---------------------------------------------------------------- on the real code

struct Scene<'a> {
    cast: &'a Cast,
    net: Net,
    folder: String,
    world: &'static World,
    servers: Vec<TestServer>,
    held: BTreeMap<(usize, usize), Connected>,
    strangers: Vec<Connected>,
    spec: Spec,
    texts: Vec<String>,
    tick: u64
}

fn err<T, E: std::fmt::Display>(what: &str, result: Result<T, E>) -> Result<T, String> { result.map_err(|e| format!("{what} failed: {e}")) }

impl Scene<'_> {
    fn key(&self, c: usize) -> PublicKey { self.cast.clients[c].public_key() }
    fn who(&self, key: &PublicKey) -> Option<usize> { (0..3).find(|c| self.key(*c) == *key) }
    fn place(&self, server: &hyperborealib::rest_api::prelude::Server) -> Option<usize> { (0..self.servers.len()).find(|n| self.servers[*n].record() == *server) }

    fn middleware(&self, c: usize) -> ClientMiddleware<Net> {
        ClientMiddleware::new(self.net.clone(), ClientDriver::new(ClientInfo::new(kind(c), Some(format!("c{c}.example"))), self.cast.clients[c].clone()))
    }

    fn now(&self) -> u64 { START + self.tick * 100 }
    fn step_time(&mut self) { self.tick += 1; let now = self.now(); self.world.with(|w| w.now = Some(now)); }

    async fn start<'a>(cast: &'a Cast, folder: String, world: &'static World) -> Result<Scene<'a>, String> {
        let net = Net::default();
        let mut servers = Vec::new();
        for n in 0..cast.servers { servers.push(TestServer::start(&net, &server_key(n), &host(n), &format!("{folder}/{n}")).await); }
        let mut scene = Scene { cast, net, folder, world, servers, held: BTreeMap::new(), strangers: Vec::new(), spec: Spec::default(), texts: Vec::new(), tick: 0 };
        for n in 0..cast.servers { scene.strangers.push(err("connecting the stranger", scene.middleware(STRANGER).connect_to(host(n), server_key(n).public_key()).await)?); }
        Ok(scene)
    }

    /// Make a text for a peer. All but every fifth message are encrypted.
    fn compose(&mut self, from: usize, to: usize) -> Result<Message, String> {
        let all = encodings();
        let number = self.texts.len();
        let encoding = all[(number * 2 + 3 + from) % all.len()];
        let text = format!("{}. the words of {from} to {to}, not for others' eyes; {}", number, "again and again ".repeat(number % 3));
        let level = if number == 2 { CompressionLevel::Quality } else { CompressionLevel::Fast };
        let message = err("encrypting", Message::create(&self.cast.clients[from], &self.key(to), &text, encoding, level))?;
        self.texts.push(text);
        Ok(message)
    }

    /// Look a peer up by a connection; the answer must be one that may be.
    async fn find(&self, by: &Connected, at: usize, who: usize, client_type: Option<ClientType>) -> Result<Option<usize>, String> {
        let found = err("the lookup", by.lookup(self.key(who), client_type).await)?;
        let may = if client_type.is_none_or(|t| t == kind(who)) { self.spec.found(at, who) } else { vec![] };
        let Some((record, server, _)) = found else {
            return if may.is_empty() { Ok(None) } else { Err(format!("the lookup of {who} as {client_type:?} by server {at} found nothing instead of {may:?}")) };
        };
        let bad = |what: String| Err(format!("the lookup of {who} as {client_type:?} by server {at} {what}"));
        if record.public_key != self.key(who) { return bad(format!("found the client {:?}", self.who(&record.public_key))); }
        let Some(place) = self.place(&server) else { return bad(format!("found it at an unknown server {server:?}")) };
        let Some(date) = may.iter().find(|(s, d)| *s == place && START + 100 * (d + 1) == record.certificate.token.auth_date).map(|(_, d)| *d) else {
            return bad(format!("found it at {place} since {}, which may be one of {may:?}", record.certificate.token.auth_date));
        };
        if record.info != ClientInfo::new(kind(who), Some(format!("c{who}.example"))) { return bad(format!("found {:?}", record.info)); }
        if !record.certificate.validate(&record.public_key, &server.public_key).unwrap_or(false) { return bad("found an invalid certificate".into()); }
        // A connection nobody has closed since is the current one.
        if let Some(by) = self.held.get(&(who, place)) {
            if self.spec.held[&(who, place)] == date && (*by.connection_certificate() != record.certificate || by.connected_server() != &server) { return bad("found another certificate than the peer's".into()); }
        }
        Ok(Some(place))
    }

    /// What a polled message says must be what was sent.
    fn check(&self, to: usize, want: &Letter, got: &MessageInfo) -> Result<(), String> {
        let text = &self.texts[want.number];
        let from = &self.key(want.from);
        if got.channel != CHANNEL { return Err(format!("a message of the channel {:?} came", got.channel)); }
        if got.sender.client.public_key != *from { return Err(format!("a message of {} names the sender {:?}", want.from, self.who(&got.sender.client.public_key))); }
        if self.place(&got.sender.server) != Some(want.from_server) { return Err(format!("a message from server {} names {:?}", want.from_server, got.sender.server)); }
        if got.sender.client.certificate.token.auth_date != START + 100 * (want.date + 1) { return Err("a message carries another certificate than its sender's".into()); }
        if !got.sender.client.certificate.validate(from, &got.sender.server.public_key).unwrap_or(false) { return Err("a message carries an invalid certificate".into()); }
        let read = err("reading a message", got.message.read(&self.cast.clients[to], &got.sender.client.public_key))?;
        if read != text.as_bytes() { return Err(format!("{:?} was read instead of {text:?}", String::from_utf8_lossy(&read))); }
        // Only the receiver can read it.
        if got.message.encoding.encryption != Encryption::None {
            for other in [&self.cast.clients[STRANGER], &server_key(0), &server_key(1)] {
                for claimed in [from.clone(), self.key(to)].into_iter().take(if want.number < 2 { 2 } else { 1 }) {
                    if got.message.read(other, &claimed).is_ok() { return Err("a stranger can read a message".into()); }
                }
            }
        }
        Ok(())
    }

    async fn poll(&mut self, c: usize, s: usize, limit: Option<u64>) -> Result<Vec<(Letter, MessageInfo)>, String> {
        let what = format!("polling of {c} at {s}");
        let by = self.held.get(&(c, s));
        let (messages, left) = match by {
            Some(by) => err(&what, by.poll(CHANNEL, limit).await)?,
            // Without a connection the inbox is still there.
            None => {
                let request = PollRequest::new(&self.cast.clients[c], CHANNEL, limit);
                match self.servers[s].post::<_, PollResponse>("/api/v1/poll", &request).await?.0 {
                    Response::Success { response, .. } => (response.messages, response.remaining),
                    Response::Error { reason, .. } => return Err(format!("{what} failed: {reason}"))
                }
            }
        };
        let mut queue = self.spec.inbox.remove(&(s, c)).unwrap_or_default();
        let n = limit.map_or(queue.len(), |l| queue.len().min(l as usize));
        let want: Vec<Letter> = queue.drain(..n).collect();
        if messages.len() != want.len() || left as usize != queue.len() { return Err(format!("{what}: {} messages came and {left} are left instead of {} and {}", messages.len(), want.len(), queue.len())); }
        if !queue.is_empty() { self.spec.inbox.insert((s, c), queue); }
        for (want, got) in want.iter().zip(&messages) { self.check(c, want, got).map_err(|e| format!("{what}: {e}"))?; }
        Ok(want.into_iter().zip(messages).collect())
    }

    async fn answer(&mut self, c: usize, s: usize, got: &MessageInfo) -> Result<(), String> {
        let to = self.who(&got.sender.client.public_key).ok_or("an unknown sender")?;
        let at = self.place(&got.sender.server).ok_or("an unknown server")?;
        let letter = Letter { number: self.texts.len(), from: c, from_server: s, date: self.spec.held[&(c, s)] };
        let message = self.compose(c, to)?;
        let by = &self.held[&(c, s)];
        err("answering", by.send(format!("http://{}", got.sender.server.address), got.sender.client.public_key.clone(), got.channel.clone(), message).await)?;
        self.spec.deliver(at, to, letter);
        Ok(())
    }

    async fn act(&mut self, step: Step) -> Result<(), String> {
        self.step_time();
        let date = self.tick - 1;
        match step {
            Connect(c, s) => {
                let how = self.middleware(c);
                let by = if date % 2 == 0 { how.connect(host(s)).await } else { how.connect_to(host(s), server_key(s).public_key()).await };
                self.held.insert((c, s), err("connecting", by)?);
                self.spec.apply(step, date);
            }
            Disconnect(c, s) => {
                let by = self.held.remove(&(c, s)).unwrap();
                err("disconnecting", by.disconnect().await)?;
                self.spec.apply(step, date);
            }
            Announce(c, s, t) => {
                err("announcing", self.held[&(c, s)].announce(format!("http://{}", host(t))).await)?;
                self.spec.apply(step, date);
            }
            AnnounceServer(s, t) => {
                let request = AnnounceRequest::server(&server_key(s), self.servers[s].record());
                match self.servers[t].post::<_, AnnounceResponse>("/api/v1/announce", &request).await?.0 { Response::Success { .. } => (), Response::Error { reason, .. } => return Err(format!("announcing a server failed: {reason}")) }
                self.spec.apply(step, date);
            }
            Send(c, s) => {
                let by = self.held[&(c, s)].clone();
                if let Some(at) = self.find(&by, s, 1 - c, None).await? {
                    let letter = Letter { number: self.texts.len(), from: c, from_server: s, date: self.spec.held[&(c, s)] };
                    let message = self.compose(c, 1 - c)?;
                    err("sending", by.send(format!("http://{}", host(at)), self.key(1 - c), CHANNEL, message).await)?;
                    self.spec.deliver(at, 1 - c, letter);
                }
            }
            Answer(c, s) => {
                for (_, got) in self.poll(c, s, Some(1)).await? { self.answer(c, s, &got).await?; }
            }
            Poll(c, s) => { self.poll(c, s, None).await?; }
            Restart(s) => self.servers[s] = TestServer::start(&self.net, &server_key(s), &host(s), &format!("{}/{s}", self.folder)).await
        }
        Ok(())
    }

    /// After the last step: everybody looks for everybody, writes and answers.
    async fn finish(&mut self) -> Result<(), String> {
        self.step_time();
        let held: Vec<((usize, usize), Connected)> = self.held.iter().map(|(at, by)| (*at, by.clone())).collect();
        for ((c, s), by) in &held {
            self.find(by, *s, 1 - c, Some(kind(1 - c))).await?;
            self.find(by, *s, 1 - c, Some(kind(*c))).await?;
            let found = self.find(by, *s, 1 - c, None).await?;
            // By name.
            let letter = Letter { number: self.texts.len(), from: *c, from_server: *s, date: self.spec.held[&(*c, *s)] };
            let message = self.compose(*c, 1 - c)?;
            let prefix = ["hyperborea://", "hyp://", if kind(1 - c) == ClientType::Thin { "hyp-client://" } else { "hyp://thick:" }][self.texts.len() % 3];
            match (by.send(format!("{prefix}{}", self.key(1 - c).to_base64()), self.key(1 - c), CHANNEL, message).await, found) {
                (Ok(()), Some(at)) => self.spec.deliver(at, 1 - c, letter),
                (Err(_), None) => (),
                (result, found) => return Err(format!("sending to {prefix} ended in {result:?} with the peer at {found:?}"))
            }
        }
        let strangers = self.strangers.clone();
        for (s, by) in strangers.iter().enumerate() { for who in 0..2 { self.find(by, s, who, None).await?; } }
        // A stranger gets nothing, not even by asking first.
        for (s, by) in strangers.iter().enumerate() {
            let (messages, left) = err("the stranger's poll", by.poll(CHANNEL, None).await)?;
            if !messages.is_empty() || left != 0 { return Err(format!("a stranger polled {} messages at {s}", messages.len())); }
        }
        // The receivers get everything, and answer what they can.
        for round in 0..2 {
            for c in 0..2 { for s in 0..self.servers.len() {
                for (_, got) in self.poll(c, s, None).await? {
                    if round == 0 && self.held.contains_key(&(c, s)) { self.answer(c, s, &got).await?; }
                }
            } }
        }
        for c in 0..2 { for s in 0..self.servers.len() { self.poll(c, s, None).await?; } }
        Ok(())
    }

    /// No secret in what was sent or stored.
    fn leaks(&self) -> Result<(), String> {
        let mut needles: Vec<(String, Vec<u8>)> = Vec::new();
        let mut add = |what: &str, bytes: &[u8]| {
            needles.push((format!("{what} (raw)"), bytes.to_vec()));
            let text = b64(bytes);
            needles.push((format!("{what} (base64)"), text.trim_end_matches('=')[..text.trim_end_matches('=').len() - 1].as_bytes().to_vec()));
            needles.push((format!("{what} (base64url)"), text.trim_end_matches('=')[..text.trim_end_matches('=').len() - 1].replace('+', "-").replace('/', "_").into_bytes()));
            needles.push((format!("{what} (hex)"), bytes.iter().map(|b| format!("{b:02x}")).collect::<String>().into_bytes()));
            needles.push((format!("{what} (numbers)"), bytes[bytes.len() - 8..].iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",").into_bytes()));
        };
        for n in 0..3 {
            add(&format!("the secret key of client {n}"), &self.cast.clients[n].serialize());
            for m in 0..3 { if m != n { add(&format!("the secret shared by {n} and {m}"), &shared(&self.cast.clients[n], &self.key(m), None)); } }
        }
        for n in 0..self.servers.len() { add(&format!("the secret key of server {n}"), &server_key(n).serialize()); }
        // Small keys are mostly zeros: those parts are no needles of their own.
        needles.retain(|(_, n)| n.iter().collect::<BTreeSet<_>>().len() > 3);
        for part in ["not for others' eyes", "the words of ", "again and again"] {
            needles.push((format!("{part:?}"), part.as_bytes().to_vec()));
            needles.push((format!("{part:?} (hex)"), part.bytes().map(|b| format!("{b:02x}")).collect::<String>().into_bytes()));
            for shift in 0..3 {
                let padded = [&b"\0\0\0"[..shift], part.as_bytes()].concat();
                let text = b64(&padded);
                needles.push((format!("{part:?} (base64)"), text[4.min(text.len())..text.len() - 4].as_bytes().to_vec()));
            }
        }
        // Messages sent without encryption hide nothing.
        let plain: Vec<String> = self.log_contents().into_iter().filter(|(e, _)| !e.contains("aes") && !e.contains("chacha")).map(|(_, c)| c).collect();
        let scan = |place: &str, bytes: &[u8]| -> Result<(), String> {
            let mut text = bytes.to_vec();
            if let Ok(s) = std::str::from_utf8(bytes) {
                let mut s = s.to_string();
                for content in &plain { s = s.replace(content.as_str(), "-"); }
                text = s.into_bytes();
            }
            for (what, needle) in &needles {
                if contains(&text, needle) { return Err(format!("{place} has {what}")); }
            }
            Ok(())
        };
        for e in self.net.log() {
            scan(&format!("a request to {}", e.url), e.body.to_string().as_bytes())?;
            scan("an address", e.url.as_bytes())?;
            if let Some(answer) = e.answer { scan(&format!("an answer of {}", e.url), answer.to_string().as_bytes())?; }
        }
        for (name, bytes) in tree(Path::new(&self.folder)) {
            scan("a file name", name.as_bytes())?;
            scan(&format!("the file {name}"), &bytes)?;
        }
        // Encrypted contents are not the text packed in some other way.
        for (encoding, content) in self.log_contents() {
            if !encoding.contains("aes") && !encoding.contains("chacha") { continue; }
            let Some(bytes) = unb64(&content) else { return Err(format!("the content {content:?} of {encoding} is no base64")) };
            for (name, unpacked) in unpack(&bytes) {
                for (what, needle) in &needles { if contains(&unpacked, needle) { return Err(format!("a message of {encoding} is {name} and has {what}")); } }
            }
        }
        Ok(())
    }

    /// The contents and signatures of all messages sent, with their encodings.
    fn log_contents(&self) -> Vec<(String, String)> {
        self.net.log().iter().filter(|e| e.path == "/api/v1/send").flat_map(|e| {
            let message = &e.body["request"]["message"];
            let encoding = message["encoding"].as_str().unwrap_or_default().to_string();
            ["content", "sign"].map(|part| (encoding.clone(), message[part].as_str().unwrap_or_default().to_string()))
        }).collect()
    }
}

fn contains(text: &[u8], needle: &[u8]) -> bool {
    !needle.is_empty() && text.len() >= needle.len() && memmem(text, needle)
}

fn memmem(text: &[u8], needle: &[u8]) -> bool {
    unsafe { !libc::memmem(text.as_ptr().cast(), text.len(), needle.as_ptr().cast(), needle.len()).is_null() }
}

/// What bytes may be when read as something packed.
fn unpack(bytes: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    use std::io::Read;
    let mut out = vec![("plain", bytes.to_vec())];
    let mut add = |name, reader: &mut dyn Read| { let mut v = Vec::new(); let _ = reader.take(100_000).read_to_end(&mut v); if !v.is_empty() { out.push((name, v)); } };
    add("deflated", &mut flate2::read::DeflateDecoder::new(bytes));
    add("zlib", &mut flate2::read::ZlibDecoder::new(bytes));
    add("gzip", &mut flate2::read::GzDecoder::new(bytes));
    add("brotli", &mut brotli::Decompressor::new(bytes, 4096));
    out
}

fn run(rep: &mut Rep, rt: &tokio::runtime::Runtime, cast: &Cast, word: &[Step]) -> bool {
    let folder = rep.folder("flow");
    let world = World::shared(&folder);
    world.with(|w| { w.now = Some(START); w.random = Some(7); });
    let _in = world.enter();
    rep.case(format!("{} {word:?}", cast.name));
    rep.nontrivial(&(cast.name, word));
    let result = guard(|| rt.block_on(async {
        let mut scene = Scene::start(cast, folder, world).await?;
        for step in word { scene.act(*step).await.map_err(|e| format!("in {step:?}: {e}"))?; }
        let spec = scene.spec.clone();
        scene.finish().await?;
        scene.leaks()?;
        Ok::<_, String>((spec, scene.texts.len()))
    })).and_then(|r| r);
    rep.eval();
    rep.count("transitions", 1);
    rep.count("traces_validated_against_impl", 1);
    match result {
        Ok((spec, sent)) => { rep.state(&(cast.name, hash(&spec.shape()))); rep.count("messages", sent as u64); true }
        Err(text) => {
            let name = format!("{} {word:?}", cast.name);
            rep.fail(&name, format!("{name}: {text}").chars().take(1500).collect::<String>(), json!({ "cast": cast.name, "history": format!("{word:?}") }));
            false
        }
    }
}

pub fn c23(tier: Tier) -> Property {
    let quick = tier == Tier::Quick;
    let mut units = Vec::new();
    let mut bounds = Vec::new();
    for cast in casts(quick) {
        let (all, depth) = match (quick, cast.name) { (true, "plain") => (3, 5), (true, _) => (2, 4), (false, "plain") => (4, 7), (false, "three") => (3, 4), _ => (3, 5) };
        bounds.push(json!({ "cast": cast.name, "servers": cast.servers, "every_history_to_depth": all, "every_transition_to_depth": depth }));
        let shares = if quick { 8 } else { 32 };
        for share in 0..shares {
            let cast = cast.clone();
            units.push(Unit::new(format!("{} {share}", cast.name), move |rep| {
                let rt = runtime();
                for word in words(cast.servers, all, depth).into_iter().skip(share).step_by(shares) {
                    if !run(rep, &rt, &cast, &word) { return; }
                    rep.sample(|| json!(format!("{word:?}")));
                }
            }));
        }
    }
    Property {
        id: "C23",
        level: Level::ModelChecking,
        rule: "States are which client is connected where, what servers know and hold. Every history to one depth, and every transition of every state reached by a shortest path to a greater depth, is run on real clients and servers over an in-memory network and followed by everybody looking for, writing to and answering everybody else, compared with the model; then all traffic and storage is searched for secrets. A word is non-trivial if it differs from all others.",
        assumptions: vec!["a connection not closed by its client is current", "a server that was told of a connection that was closed later may keep saying so", "requests are handled one at a time"],
        bounds: json!({ "casts": bounds }),
        units
    }
}
