//! C09, C15, C16: the routing table.

use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::{Client, Server};
use serde_json::{json, Value as Json};

use crate::explore::{dfs, run_ops, NONDETERMINISTIC};
use crate::fixture::*;
use crate::inbox::{faults, key_of, torn_lengths, Who};
use crate::net::*;
use crate::report::*;
use crate::sys::*;

type Table = GlobalTableRouter;

/// A change of the table. `mark` makes each registration distinguishable.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Change {
    Local { who: u64, kind: usize, mark: u64 },
    Remote { who: u64, kind: usize, at: u64, mark: u64 },
    Known { who: u64, mark: u64 },
    Gone { who: u64 }
}
use Change::*;

impl Change {
    pub fn text(&self) -> String {
        match self {
            Local { who, kind, mark } => format!("connect({who},{},{mark})", TYPES[*kind]),
            Remote { who, kind, at, mark } => format!("announce({who},{},at {at},{mark})", TYPES[*kind]),
            Known { who, mark } => format!("announce server({who},{mark})"),
            Gone { who } => format!("disconnect({who})")
        }
    }
}

const SERVER: u64 = 8;

/// The client record of a registration, whose certificate names the server.
fn client_of(who: u64, kind: usize, at: u64, mark: u64) -> Client {
    let key = key_of(who);
    let info = ClientInfo::new(TYPES[kind], if kind == 0 { None } else { Some(format!("addr{mark}.example")) });
    crate::fixture::client(&key, &key_of(at).public_key(), 1_700_000_000 + mark, info)
}

fn server_of(who: u64, mark: u64) -> Server { Server::new(key_of(who).public_key(), format!("s{mark}.example")) }

/// The specification: the latest registration of each key in each table.
#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
struct Spec {
    local: BTreeMap<u64, Change>,
    remote: BTreeMap<u64, Change>,
    servers: BTreeMap<u64, Change>
}

impl Spec {
    fn apply(&mut self, change: &Change) {
        match change {
            Local { who, .. } => { self.local.insert(*who, change.clone()); }
            Remote { who, .. } => { self.remote.insert(*who, change.clone()); }
            Known { who, .. } => { self.servers.insert(*who, change.clone()); }
            Gone { who } => { self.local.remove(who); self.remote.remove(who); self.servers.remove(who); }
        }
    }

    fn lookup(&self, who: u64, kind: Option<usize>) -> Found {
        let fits = |change: &&Change| match change { Local { kind: k, .. } | Remote { kind: k, .. } => kind.is_none() || kind == Some(*k), _ => false };
        if let Some(change) = self.local.get(&who).filter(fits) { return Found::Is(change.clone()); }
        if let Some(change) = self.remote.get(&who).filter(fits) { return Found::Is(change.clone()); }
        Found::Hint(self.servers.values().cloned().map(|c| text_server(&c)).collect())
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
enum Found { Is(Change), Hint(Vec<String>), Odd(String) }

fn record_server(change: &Change) -> Server {
    match change { Known { who, mark } => server_of(*who, *mark), Remote { at, mark, .. } => server_of(*at, *mark), _ => unreachable!() }
}

fn record_client(change: &Change) -> Client {
    match change { Local { who, kind, mark } => client_of(*who, *kind, SERVER, *mark), Remote { who, kind, at, mark } => client_of(*who, *kind, *at, *mark), _ => unreachable!() }
}

fn text_server(change: &Change) -> String { format!("{:?}", record_server(change)) }

fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> { v.sort(); v }

/// A registration cache: signatures make records expensive.
#[derive(Default)]
struct Cache { clients: BTreeMap<String, Client> }

impl Cache {
    fn client(&mut self, change: &Change) -> Client {
        self.clients.entry(change.text()).or_insert_with(|| record_client(change)).clone()
    }
}

async fn change(table: &Table, cache: &mut Cache, change: &Change) -> Result<(), String> {
    let done = match change {
        Local { .. } => table.index_local_client(cache.client(change)).await.map_err(|err| err.to_string())?,
        Remote { .. } => table.index_remote_client(cache.client(change), record_server(change)).await.map_err(|err| err.to_string())?,
        Known { .. } => table.index_server(record_server(change)).await.map_err(|err| err.to_string())?,
        Gone { who } => { table.disconnect(&key_of(*who).public_key()).await.map_err(|err| err.to_string())?; true }
    };
    if done { Ok(()) } else { Err("not indexed".into()) }
}

/// Everything the table shows must be what the specification says.
async fn compare(table: &Table, cache: &mut Cache, spec: &Spec, whos: &[u64]) -> Result<(), String> {
    let local: Vec<String> = table.local_clients().await.map_err(|err| format!("listing clients: {err}"))?.iter().map(|c| format!("{c:?}")).collect();
    let want: Vec<String> = spec.local.values().map(|c| format!("{:?}", cache.client(c))).collect();
    if sorted(local.clone()) != sorted(want.clone()) { return Err(format!("local clients are {local:?} instead of {want:?}")); }
    let remote: Vec<String> = table.remote_clients().await.map_err(|err| format!("listing remote clients: {err}"))?.iter().map(|c| format!("{c:?}")).collect();
    let want: Vec<String> = spec.remote.values().map(|c| format!("{:?}", (cache.client(c), record_server(c)))).collect();
    if sorted(remote.clone()) != sorted(want.clone()) { return Err(format!("remote clients are {remote:?} instead of {want:?}")); }
    let servers: Vec<String> = table.servers().await.map_err(|err| format!("listing servers: {err}"))?.iter().map(|c| format!("{c:?}")).collect();
    let want: Vec<String> = spec.servers.values().map(text_server).collect();
    if sorted(servers.clone()) != sorted(want.clone()) { return Err(format!("servers are {servers:?} instead of {want:?}")); }
    for who in whos {
        let key = key_of(*who).public_key();
        for kind in [None, Some(0), Some(1), Some(2), Some(3)] {
            let fits = |change: &&Change| match change { Local { kind: k, .. } | Remote { kind: k, .. } => kind.is_none() || kind == Some(*k), _ => false };
            let client_type = kind.map(|k| TYPES[k]);
            let got = table.lookup_local_client(&key, client_type).await.map_err(|err| format!("lookup: {err}"))?.map(|f| f.0);
            let want = spec.local.get(who).filter(fits).map(|c| cache.client(c));
            if got != want { return Err(format!("the local lookup of {who} as {client_type:?} found {got:?} instead of {want:?}")); }
            let got = table.lookup_remote_client(&key, client_type).await.map_err(|err| format!("lookup: {err}"))?.map(|f| (f.0, f.1));
            let want = spec.remote.get(who).filter(fits).map(|c| (cache.client(c), record_server(c)));
            if got != want { return Err(format!("the remote lookup of {who} as {client_type:?} found {got:?} instead of {want:?}")); }
            if kind.is_none() {
                let hint: Vec<String> = table.lookup_remote_client_hint(&key, client_type).await.map_err(|err| format!("hint: {err}"))?.iter().map(|s| format!("{s:?}")).collect();
                let want: Vec<String> = spec.servers.values().map(text_server).collect();
                if sorted(hint.clone()) != sorted(want.clone()) { return Err(format!("the hint for {who} is {hint:?} instead of {want:?}")); }
                let got = table.lookup_server(&key).await.map_err(|err| format!("lookup: {err}"))?.map(|f| f.0);
                let want = spec.servers.get(who).map(record_server);
                if got != want { return Err(format!("the server lookup of {who} found {got:?} instead of {want:?}")); }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

/// The same through a server's endpoints; each request is by another key.
async fn change_by_request(server: &TestServer, c: &Change) -> Result<(), String> {
    let error = |r: String| Err(r);
    match c {
        Local { who, kind, mark } => {
            let record = client_of(*who, *kind, SERVER, *mark);
            let request = ConnectRequest(Request::new(&key_of(*who), ConnectRequestBody { certificate: record.certificate, client: record.info }));
            match server.post::<_, ConnectResponse>("/api/v1/connect", &request).await?.0 { Response::Success { .. } => Ok(()), Response::Error { reason, .. } => error(reason) }
        }
        Remote { .. } => {
            let request = AnnounceRequest::client(&secret(99), record_client(c), record_server(c));
            match server.post::<_, AnnounceResponse>("/api/v1/announce", &request).await?.0 { Response::Success { .. } => Ok(()), Response::Error { reason, .. } => error(reason) }
        }
        Known { .. } => {
            let request = AnnounceRequest::server(&secret(99), record_server(c));
            match server.post::<_, AnnounceResponse>("/api/v1/announce", &request).await?.0 { Response::Success { .. } => Ok(()), Response::Error { reason, .. } => error(reason) }
        }
        Gone { who } => match server.post::<_, DisconnectResponse>("/api/v1/disconnect", &DisconnectRequest::new(&key_of(*who))).await?.0 {
            Response::Success { .. } => Ok(()), Response::Error { reason, .. } => error(reason)
        }
    }
}

async fn lookup_by_request(server: &TestServer, asker: u64, who: u64, kind: Option<usize>, spec: &Spec) -> Result<Found, String> {
    let request = LookupRequest::new(&key_of(asker), key_of(who).public_key(), kind.map(|k| TYPES[k]));
    let response = server.post::<_, LookupResponse>("/api/v1/lookup", &request).await?.0;
    if response.validate(request.0.proof_seed).ok() != Some(true) { return Err("the answer is not proven".into()); }
    let Response::Success { response, public_key, .. } = response else { return Err(format!("the lookup was answered with an error: {response:?}")) };
    if public_key != server.key.public_key() { return Err("the answer is signed by another key".into()); }
    let named = |found: Option<&Change>, got: String, want: String| match found { Some(change) if got == want => Found::Is(change.clone()), _ => Found::Odd(got) };
    Ok(match response {
        LookupResponseBody::Local { client, .. } => {
            let change = spec.local.get(&who);
            named(change, format!("{client:?}"), change.map(|c| format!("{:?}", record_client(c))).unwrap_or_default())
        }
        LookupResponseBody::Remote { client, server, .. } => {
            let change = spec.remote.get(&who);
            named(change, format!("{:?}", (client, server)), change.map(|c| format!("{:?}", (record_client(c), record_server(c)))).unwrap_or_default())
        }
        LookupResponseBody::Hint { servers } => Found::Hint(servers.iter().map(|s| format!("{s:?}")).collect())
    })
}

async fn compare_by_request(server: &TestServer, spec: &Spec, whos: &[u64], every: bool) -> Result<(), String> {
    let ClientsResponse { clients, .. } = server.get("/api/v1/clients").await?;
    let want: Vec<String> = spec.local.values().map(|c| format!("{:?}", record_client(c))).collect();
    let got: Vec<String> = clients.iter().map(|c| format!("{c:?}")).collect();
    if sorted(got.clone()) != sorted(want.clone()) { return Err(format!("the clients listing is {got:?} instead of {want:?}")); }
    let ServersResponse { servers, .. } = server.get("/api/v1/servers").await?;
    let want: Vec<String> = spec.servers.values().map(text_server).collect();
    let got: Vec<String> = servers.iter().map(|c| format!("{c:?}")).collect();
    if sorted(got.clone()) != sorted(want.clone()) { return Err(format!("the servers listing is {got:?} instead of {want:?}")); }
    for who in whos {
        for kind in [None, Some(0), Some(1), Some(2), Some(3)] {
            if !every && matches!(kind, Some(2)) { continue; }
            // Asked by a stranger, by the other client and by the client itself.
            let askers: Vec<u64> = if kind.is_none() { vec![77, whos[0], whos[1]] } else { vec![77] };
            for asker in askers {
                let got = lookup_by_request(server, asker, *who, kind, spec).await.map_err(|err| format!("lookup of {who} as {kind:?} by {asker}: {err}"))?;
                let got = match got { Found::Hint(list) => Found::Hint(sorted(list)), other => other };
                let want = match spec.lookup(*who, kind) { Found::Hint(list) => Found::Hint(sorted(list)), other => other };
                if got != want { return Err(format!("the lookup of {who} as {:?} by {asker} found {got:?} instead of {want:?}", kind.map(|k| TYPES[k]))); }
            }
        }
    }
    Ok(())
}

/// Letters of histories over the clients `a`, `b` and the servers `s`, `t`.
fn letters(a: u64, b: u64, s: u64, t: u64) -> Vec<Option<Change>> {
    vec![
        Some(Local { who: a, kind: 0, mark: 0 }),
        Some(Local { who: a, kind: 1, mark: 0 }),
        Some(Local { who: b, kind: 1, mark: 0 }),
        Some(Gone { who: a }),
        Some(Gone { who: b }),
        Some(Remote { who: a, kind: 1, at: s, mark: 0 }),
        Some(Remote { who: a, kind: 3, at: t, mark: 0 }),
        Some(Remote { who: b, kind: 2, at: s, mark: 0 }),
        Some(Known { who: s, mark: 0 }),
        Some(Known { who: t, mark: 0 }),
        Some(Known { who: a, mark: 0 }),
        None
    ]
}

fn marked(c: &Change, n: u64) -> Change {
    let mut c = c.clone();
    match &mut c { Local { mark, .. } | Remote { mark, .. } | Known { mark, .. } => *mark = n, Gone { .. } => () }
    c
}

fn history_text(h: &[Option<Change>]) -> String {
    h.iter().map(|c| c.as_ref().map(Change::text).unwrap_or_else(|| "restart".into())).collect::<Vec<_>>().join("; ")
}

/// Run a history; compare after its last step (its prefixes are histories too).
fn history(rep: &mut Rep, rt: &tokio::runtime::Runtime, cache: &mut Cache, by_request: bool, backward: bool, whos: &[u64], h: &[Option<Change>]) -> bool {
    let folder = rep.folder("history");
    rep.case(history_text(h));
    rep.nontrivial(&(by_request, h));
    let world = World::shared(&folder);
    world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(7); });
    let _in = world.enter();
    let mut spec = Spec::default();
    let result = guard(|| rt.block_on(async {
        let tick = |n: usize| world.with(|w| w.now = Some(if backward { 1_800_000_000 - 100 * n as u64 } else { 1_800_000_000 + 100 * n as u64 }));
        if by_request {
            let net = Net::default();
            let mut server = TestServer::start(&net, &secret(SERVER), "s8.example", &folder).await;
            for (n, step) in h.iter().enumerate() {
                tick(n);
                match step {
                    None => server = TestServer::start(&net, &secret(SERVER), "s8.example", &folder).await,
                    Some(c) => { change_by_request(&server, c).await.map_err(|err| format!("{} failed: {err}", c.text()))?; spec.apply(c); }
                }
            }
            compare_by_request(&server, &spec, whos, !rep.quick()).await
        } else {
            let mut table = Table::new(&folder).await.map_err(|err| err.to_string())?;
            for (n, step) in h.iter().enumerate() {
                tick(n);
                match step {
                    None => table = Table::new(&folder).await.map_err(|err| err.to_string())?,
                    Some(c) => { change(&table, cache, c).await.map_err(|err| format!("{} failed: {err}", c.text()))?; spec.apply(c); }
                }
            }
            compare(&table, cache, &spec, whos).await
        }
    })).and_then(|r| r);
    rep.eval();
    rep.state(&spec);
    rep.count("transitions", 1);
    rep.count("traces_validated_against_impl", 1);
    if let Err(text) = result {
        let name = history_text(h);
        rep.fail(&name, format!("after [{name}]{}: {text}", if by_request { " by requests" } else { "" }).chars().take(1800).collect::<String>(), json!({ "history": name }));
        return false;
    }
    true
}

// Routers other than the bundled one.

/// What a router answers to one kind of lookup.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Says { Nothing, There, Away, Fails }

#[derive(Debug)]
struct Failure;

impl std::fmt::Display for Failure { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "the router's failure") } }
impl std::error::Error for Failure {}

/// Answers lookups as told; only for the right key and type.
#[derive(Debug, Clone)]
struct Scripted { local: Says, remote: Says, hint: Option<usize>, who: PublicKey, kind: Option<ClientType>, gone: std::sync::Arc<std::sync::Mutex<Vec<PublicKey>>> }

impl Scripted {
    fn asked(&self, key: &PublicKey, kind: Option<ClientType>) { assert!(*key == self.who && (kind.is_none() || kind == self.kind), "the router was asked for another client") }
}

#[async_trait::async_trait]
impl Router for Scripted {
    type Error = Failure;
    async fn index_local_client(&self, _: Client) -> Result<bool, Failure> { match self.local { Says::Fails => Err(Failure), _ => Ok(true) } }
    async fn index_remote_client(&self, _: Client, _: Server) -> Result<bool, Failure> { match self.remote { Says::Fails => Err(Failure), _ => Ok(true) } }
    async fn index_server(&self, _: Server) -> Result<bool, Failure> { if self.hint.is_some() { Ok(true) } else { Err(Failure) } }
    async fn disconnect(&self, key: &PublicKey) -> Result<(), Failure> { self.gone.lock().unwrap().push(key.clone()); if self.hint.is_some() { Ok(()) } else { Err(Failure) } }
    async fn local_clients(&self) -> Result<Vec<Client>, Failure> { Ok(vec![]) }
    async fn remote_clients(&self) -> Result<Vec<(Client, Server)>, Failure> { Ok(vec![]) }
    async fn servers(&self) -> Result<Vec<Server>, Failure> { Ok(vec![]) }
    async fn lookup_local_client(&self, key: &PublicKey, kind: Option<ClientType>) -> Result<Option<(Client, bool)>, Failure> {
        self.asked(key, kind);
        match self.local { Says::Nothing => Ok(None), Says::There => Ok(Some((client_of(1, 0, SERVER, 1), true))), Says::Away => Ok(Some((client_of(1, 0, SERVER, 1), false))), Says::Fails => Err(Failure) }
    }
    async fn lookup_remote_client(&self, key: &PublicKey, kind: Option<ClientType>) -> Result<Option<(Client, Server, bool)>, Failure> {
        self.asked(key, kind);
        let found = |available| Ok(Some((client_of(1, 0, 11, 2), server_of(11, 2), available)));
        match self.remote { Says::Nothing => Ok(None), Says::There => found(true), Says::Away => found(false), Says::Fails => Err(Failure) }
    }
    async fn lookup_remote_client_hint(&self, key: &PublicKey, kind: Option<ClientType>) -> Result<Vec<Server>, Failure> {
        self.asked(key, kind);
        self.hint.map(|many| (0..many as u64).map(|n| server_of(20 + n, n)).collect()).ok_or(Failure)
    }
}

async fn scripted(rep: &mut Rep, script: Scripted) -> Result<(), String> {
    let folder = PathBuf::from(rep.folder("scripted"));
    let routes = crate::net::Routes::default();
    let inbox = StoredQueueMessagesInbox::new(folder.join("inbox")).await.map_err(|err| err.to_string())?;
    let driver = ServerDriver::new(script.clone(), BfsRecursionTraversal, inbox, ServerParams { secret_key: key_of(SERVER), address: "home".into() });
    let net = crate::net::Net::default();
    let _middleware = ServerMiddleware::new(net, routes.clone(), driver).await;
    let result = async {
        let request = LookupRequest::new(&key_of(2), script.who.clone(), script.kind);
        let answer = routes.call("POST", "/api/v1/lookup", &request.to_json().unwrap()).await?;
        rep.eval();
        let answer = LookupResponse::from_json(&answer).map_err(|err| err.to_string())?.0;
        let got = match answer { Response::Error { .. } => None, Response::Success { response, .. } => Some(response) };
        let want = match (script.local, script.remote, script.hint) {
            (Says::Fails, ..) | (Says::Nothing, Says::Fails, _) | (Says::Nothing, Says::Nothing, None) => None,
            (Says::There | Says::Away, ..) => Some(LookupResponseBody::Local { client: client_of(1, 0, SERVER, 1), available: script.local == Says::There }),
            (_, Says::There | Says::Away, _) => Some(LookupResponseBody::Remote { client: client_of(1, 0, 11, 2), server: server_of(11, 2), available: script.remote == Says::There }),
            (_, _, Some(many)) => Some(LookupResponseBody::Hint { servers: (0..many as u64).map(|n| server_of(20 + n, n)).collect() })
        };
        if got != want { return Err(format!("the lookup was answered with {got:?} instead of {want:?}")); }
        // Registrations and disconnects the router refuses are errors.
        let connect = ConnectRequest(Request::new(&key_of(1), ConnectRequestBody { certificate: client_of(1, 0, SERVER, 1).certificate, client: client_of(1, 0, SERVER, 1).info }));
        let done = [
            ("connect", matches!(ConnectResponse::from_json(&routes.call("POST", "/api/v1/connect", &connect.to_json().unwrap()).await?).map_err(|err| err.to_string())?.0, Response::Success { .. }), script.local != Says::Fails),
            ("announce of a client", matches!(AnnounceResponse::from_json(&routes.call("POST", "/api/v1/announce", &AnnounceRequest::client(&key_of(1), client_of(1, 0, 11, 1), server_of(11, 1)).to_json().unwrap()).await?).map_err(|err| err.to_string())?.0, Response::Success { .. }), script.remote != Says::Fails),
            ("announce of a server", matches!(AnnounceResponse::from_json(&routes.call("POST", "/api/v1/announce", &AnnounceRequest::server(&key_of(11), server_of(11, 1)).to_json().unwrap()).await?).map_err(|err| err.to_string())?.0, Response::Success { .. }), script.hint.is_some()),
            ("disconnect", matches!(DisconnectResponse::from_json(&routes.call("POST", "/api/v1/disconnect", &DisconnectRequest::new(&key_of(2)).to_json().unwrap()).await?).map_err(|err| err.to_string())?.0, Response::Success { .. }), script.hint.is_some())
        ];
        for (what, got, want) in done { rep.eval(); if got != want { return Err(format!("{what}: success is {got} instead of {want}")); } }
        if *script.gone.lock().unwrap() != [key_of(2).public_key()] { return Err(format!("disconnected were {:?}", script.gone.lock().unwrap())); }
        Ok(())
    }.await;
    let _ = std::fs::remove_dir_all(&folder);
    result
}

/// Has only what every router must have.
#[derive(Default)]
struct Plain { locals: std::sync::Mutex<Vec<Client>>, remotes: Vec<(Client, Server)>, fails: bool }

#[async_trait::async_trait]
impl Router for Plain {
    type Error = Failure;
    async fn index_local_client(&self, client: Client) -> Result<bool, Failure> { self.locals.lock().unwrap().push(client); Ok(self.locals.lock().unwrap().len() != 3) }
    async fn index_server(&self, _: Server) -> Result<bool, Failure> { Ok(false) }
    async fn disconnect(&self, _: &PublicKey) -> Result<(), Failure> { Ok(()) }
    async fn local_clients(&self) -> Result<Vec<Client>, Failure> { if self.fails { Err(Failure) } else { Ok(self.locals.lock().unwrap().clone()) } }
    async fn remote_clients(&self) -> Result<Vec<(Client, Server)>, Failure> { if self.fails { Err(Failure) } else { Ok(self.remotes.clone()) } }
}

/// Every list of up to three records over two clients and types, as local and as remote ones.
async fn plain(rep: &mut Rep) -> Result<(), String> {
    let menu: Vec<(u64, usize)> = vec![(1, 0), (1, 2), (2, 0), (2, 3)];
    let mut words: Vec<Vec<(u64, usize)>> = vec![vec![]];
    for depth in 0..3 { let longer: Vec<_> = words.iter().filter(|w| w.len() == depth).flat_map(|w| menu.iter().map(move |m| [&w[..], &[*m]].concat())).collect(); words.extend(longer); }
    for word in words {
        let router = Plain { remotes: word.iter().enumerate().map(|(n, (who, kind))| (client_of(*who, *kind, 11 + n as u64 % 2, n as u64), server_of(11 + n as u64 % 2, n as u64))).collect(), ..Plain::default() };
        rep.eval();
        rep.nontrivial(&word);
        let mut want = Vec::new();
        for (n, (client, server)) in router.remotes.iter().enumerate() {
            let indexed = if n % 2 == 0 { router.index_remote_client(client.clone(), server.clone()).await } else { router.index_local_client(client.clone()).await };
            if indexed.ok() != Some(n != 2) { return Err(format!("{word:?}: the result of registration {n} is lost")); }
            want.push(client.clone());
        }
        if *router.locals.lock().unwrap() != want { return Err(format!("{word:?}: registered are {:?}", router.locals.lock().unwrap())); }
        let servers: Vec<Server> = router.remotes.iter().map(|r| r.1.clone()).collect();
        let distinct = |list: &[Server]| sorted(list.iter().map(|s| format!("{s:?}")).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>());
        let got = router.servers().await.map_err(|err| err.to_string())?;
        if distinct(&got) != distinct(&servers) { return Err(format!("{word:?}: the servers are {got:?}")); }
        for who in [1, 2, 3] {
            let key = key_of(who).public_key();
            for kind in [None, Some(0), Some(1), Some(2), Some(3)] {
                let client_type = kind.map(|k| TYPES[k]);
                let fits = |c: &Client| c.public_key == key && (client_type.is_none() || client_type == Some(c.info.client_type));
                let got = router.lookup_local_client(&key, client_type).await.map_err(|err| err.to_string())?.map(|f| f.0);
                if got.is_some() != want.iter().any(fits) || got.as_ref().is_some_and(|c| !want.contains(c) || !fits(c)) { return Err(format!("{word:?}: the local lookup of {who} as {client_type:?} found {got:?}")); }
                let got = router.lookup_remote_client(&key, client_type).await.map_err(|err| err.to_string())?.map(|f| (f.0, f.1));
                if got.is_some() != router.remotes.iter().any(|r| fits(&r.0)) || got.as_ref().is_some_and(|r| !router.remotes.contains(r) || !fits(&r.0)) { return Err(format!("{word:?}: the remote lookup of {who} as {client_type:?} found {got:?}")); }
                let got = router.lookup_remote_client_hint(&key, client_type).await.map_err(|err| err.to_string())?;
                if distinct(&got) != distinct(&servers) { return Err(format!("{word:?}: the hint for {who} is {got:?}")); }
            }
            let got = router.lookup_server(&key_of(10 + who).public_key()).await.map_err(|err| err.to_string())?.map(|f| f.0);
            let known = |s: &Server| s.public_key == key_of(10 + who).public_key();
            if got.is_some() != servers.iter().any(known) || got.as_ref().is_some_and(|s| !servers.contains(s) || !known(s)) { return Err(format!("{word:?}: the lookup of server {who} found {got:?}")); }
        }
    }
    let broken = Plain { fails: true, ..Plain::default() };
    let key = key_of(1).public_key();
    rep.eval();
    if broken.servers().await.is_ok() || broken.lookup_local_client(&key, None).await.is_ok() || broken.lookup_remote_client(&key, None).await.is_ok() || broken.lookup_remote_client_hint(&key, None).await.is_ok() || broken.lookup_server(&key).await.is_ok() {
        return Err("a failing router finds or misses something".into());
    }
    Ok(())
}

pub fn c09(tier: Tier) -> Property {
    let quick = tier == Tier::Quick;
    let mut units = Vec::new();
    let cast = || -> Vec<(&'static str, [u64; 4])> { vec![
        ("plain", [1, 2, 11, 12]),
        ("opposite", [Who::Key(3).id(), Who::Neg(3).id(), Who::Key(4).id(), Who::Neg(4).id()]),
        ("prefix", [SAME_PREFIX.0, SAME_PREFIX.1, 11, 12]),
        ("suffix", [SAME_SUFFIX.0, SAME_SUFFIX.1, SAME_PREFIX.0, SAME_PREFIX.1])
    ] };
    for by_request in [true, false] {
        for (name, [a, b, s, t]) in cast() {
            let depth = match (quick, by_request, name) {
                (true, false, "plain") => 4, (true, false, _) => 3, (true, true, "plain") => 3, (true, true, _) => 2,
                (false, false, "plain") => 5, (false, false, _) => 4, (false, true, "plain") => 4, (false, true, _) => 3
            };
            let letters = letters(a, b, s, t);
            for first in 0..letters.len() {
                let letters = letters.clone();
                units.push(Unit::new(format!("{}-{name}-{first}", if by_request { "server" } else { "table" }), move |rep| {
                    let rt = runtime();
                    let mut cache = Cache::default();
                    let mut stack: Vec<Vec<usize>> = vec![vec![first]];
                    while let Some(word) = stack.pop() {
                        let h: Vec<Option<Change>> = word.iter().enumerate().map(|(n, l)| letters[*l].as_ref().map(|c| marked(c, n as u64 + 1))).collect();
                        if !history(rep, &rt, &mut cache, by_request, first % 2 == 1, &[a, b, s], &h) { return; }
                        if word.len() < depth { for next in 0..letters.len() { let mut w = word.clone(); w.push(next); stack.push(w); } }
                    }
                    rep.sample(|| json!(letters[first].as_ref().map(Change::text)));
                }));
            }
        }
    }
    // Tables of every size up to beyond any batch size.
    for by_request in [false, true] {
        units.push(Unit::new(format!("many-{by_request}"), move |rep| many(rep, by_request)));
    }
    // Servers on other routers.
    units.push(Unit::new("router-scripted", |rep| {
        let says = [Says::Nothing, Says::There, Says::Away, Says::Fails];
        for local in says { for remote in says { for hint in [None, Some(0), Some(1), Some(3)] { for kind in [None, Some(TYPES[0]), Some(TYPES[2])] {
            let script = Scripted { local, remote, hint, who: key_of(1).public_key(), kind, gone: Default::default() };
            rep.nontrivial(&(local, remote, hint, kind.is_some()));
            let name = format!("local {local:?}, remote {remote:?}, hint {hint:?}, type {kind:?}");
            let result = guard(|| runtime().block_on(scripted(rep, script))).and_then(|r| r);
            if let Err(what) = result { rep.fail(name.clone(), format!("a router that says {name}: {what}"), json!({})); return; }
        } } } }
    }));
    units.push(Unit::new("router-plain", |rep| {
        if let Err(what) = guard(|| runtime().block_on(plain(rep))).and_then(|r| r) { rep.fail("plain router", what, json!({})); }
    }));
    Property {
        id: "C09",
        level: Level::ModelChecking,
        rule: "Every sequence up to the depth of connects (two types), disconnects, client and server announcements and restarts over two easily confused clients and servers, on the table directly and by requests to a server's endpoints; after each, every listing and every lookup (all keys, all type filters, asked by a stranger, by the client itself and by another client) is compared with the specification. Tables of every size up to the bound. A server on a router that answers and fails as told, in every combination; the lookups every router inherits, on every table of up to three records.",
        assumptions: vec!["histories longer than the depth reach no new kind of state: each step's effect depends on the current records only"],
        bounds: json!({ "depth_table": if quick { [3, 4] } else { [4, 5] }, "depth_requests": if quick { [2, 3] } else { [3, 4] }, "letters": 12, "table_size": 140 }),
        units
    }
}

fn many(rep: &mut Rep, by_request: bool) {
    let folder = rep.folder("many");
    let world = World::shared(&folder);
    world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(7); });
    let _in = world.enter();
    let rt = runtime();
    let mut cache = Cache::default();
    let mut spec = Spec::default();
    let result = guard(|| rt.block_on(async {
        let net = Net::default();
        let server = TestServer::start(&net, &secret(SERVER), "s8.example", &folder).await;
        let table = Table::new(PathBuf::from(&folder).join("router")).await.map_err(|err| err.to_string())?;
        for n in 0..140_u64 {
            for c in [Local { who: 100 + n, kind: (n % 4) as usize, mark: n }, Remote { who: 400 + n, kind: (n % 4) as usize, at: 500 + n % 7, mark: n }, Known { who: 700 + n, mark: n }] {
                change(&table, &mut cache, &c).await.map_err(|err| format!("{}: {err}", c.text()))?;
                spec.apply(&c);
            }
            rep.eval();
            rep.nontrivial(&(n, by_request));
            rep.count("transitions", 3);
            rep.state(&spec);
            if by_request && n % 13 != 0 { continue; }
            let (first, last) = (100 + n / 2, 400 + n);
            if by_request { compare_by_request(&server, &spec, &[first, last], true).await } else { compare(&table, &mut cache, &spec, &[first, last]).await }.map_err(|err| format!("with {n} records in each table: {}", err.chars().take(600).collect::<String>()))?;
        }
        Ok(())
    })).and_then(|r| r);
    if let Err(text) = result { rep.fail("many", text, Json::Null); }
}

// ---------------------------------------------------------------- C15

#[derive(Debug, Clone, PartialEq, Eq)]
enum Act { Change(Change), Locals, Remotes, Servers, FindLocal(u64), FindRemote(u64), FindServer(u64) }

impl Act {
    fn text(&self) -> String { match self { Act::Change(c) => c.text(), other => format!("{other:?}") } }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum In { Local, Remote, Servers }

/// What an action did to or saw of one key of one table.
#[derive(Debug, Clone, PartialEq, Eq)]
enum Touch { Set(Option<Change>), Saw(Option<Change>), Garbled(String) }

#[derive(Debug, Clone)]
struct Happened { act: Act, touches: BTreeMap<(In, u64), Touch>, error: Option<String>, start: u64, end: u64 }

fn seen(options: &[Change], text: &str, show: impl Fn(&Change) -> String) -> Option<Change> {
    options.iter().find(|c| show(c) == text).cloned()
}

/// All registrations that may occur, by table, with their textual records.
struct Catalogue { local: Vec<(Change, String)>, remote: Vec<(Change, String)>, servers: Vec<(Change, String)>, keys: BTreeSet<u64> }

impl Catalogue {
    fn new<'a>(changes: impl Iterator<Item = &'a Change>, cache: &mut Cache) -> Catalogue {
        let mut out = Catalogue { local: vec![], remote: vec![], servers: vec![], keys: BTreeSet::new() };
        for c in changes {
            match c {
                Local { who, .. } => { out.local.push((c.clone(), format!("{:?}", cache.client(c)))); out.keys.insert(*who); }
                Remote { who, .. } => { out.remote.push((c.clone(), format!("{:?}", (cache.client(c), record_server(c))))); out.keys.insert(*who); }
                Known { who, .. } => { out.servers.push((c.clone(), text_server(c))); out.keys.insert(*who); }
                Gone { who } => { out.keys.insert(*who); }
            }
        }
        out
    }

    fn whose(change: &Change) -> u64 { match change { Local { who, .. } | Remote { who, .. } | Known { who, .. } | Gone { who } => *who } }

    /// Translate a listing (or the result of a lookup of `only`) to touches.
    fn touches(&self, table: In, got: Vec<String>, only: Option<u64>) -> BTreeMap<(In, u64), Touch> {
        let options = match table { In::Local => &self.local, In::Remote => &self.remote, In::Servers => &self.servers };
        let mut out: BTreeMap<(In, u64), Touch> = BTreeMap::new();
        for key in &self.keys { if only.is_none() || only == Some(*key) { out.insert((table, *key), Touch::Saw(None)); } }
        for text in got {
            match options.iter().find(|(_, t)| *t == text) {
                Some((change, _)) => { out.insert((table, Self::whose(change)), Touch::Saw(Some(change.clone()))); }
                None => { out.insert((table, u64::MAX), Touch::Garbled(text)); }
            }
        }
        out
    }
}

async fn act(table: &Table, cache: &Mutex<Cache>, catalogue: &Catalogue, a: &Act) -> Result<BTreeMap<(In, u64), Touch>, String> {
    match a {
        Act::Change(c) => {
            // Records are made beforehand.
            let mut mine = Cache::default();
            if matches!(c, Local { .. } | Remote { .. }) { mine.clients.insert(c.text(), cache.lock().unwrap().client(c)); }
            change(table, &mut mine, c).await?;
            Ok(done(c))
        }
        Act::Locals => Ok(catalogue.touches(In::Local, table.local_clients().await.map_err(|err| err.to_string())?.iter().map(|c| format!("{c:?}")).collect(), None)),
        Act::Remotes => Ok(catalogue.touches(In::Remote, table.remote_clients().await.map_err(|err| err.to_string())?.iter().map(|c| format!("{c:?}")).collect(), None)),
        Act::Servers => Ok(catalogue.touches(In::Servers, table.servers().await.map_err(|err| err.to_string())?.iter().map(|c| format!("{c:?}")).collect(), None)),
        Act::FindLocal(who) => Ok(catalogue.touches(In::Local, table.lookup_local_client(&key_of(*who).public_key(), None).await.map_err(|err| err.to_string())?.iter().map(|c| format!("{:?}", c.0)).collect(), Some(*who))),
        Act::FindRemote(who) => Ok(catalogue.touches(In::Remote, table.lookup_remote_client(&key_of(*who).public_key(), None).await.map_err(|err| err.to_string())?.iter().map(|c| format!("{:?}", (&c.0, &c.1))).collect(), Some(*who))),
        Act::FindServer(who) => Ok(catalogue.touches(In::Servers, table.lookup_server(&key_of(*who).public_key()).await.map_err(|err| err.to_string())?.iter().map(|c| format!("{:?}", c.0)).collect(), Some(*who)))
    }
}

/// Whether the operations on one key are those of some sequential order
/// respecting real time.
fn one_key(initial: &Option<Change>, events: &[(u64, u64, Touch)]) -> bool {
    fn go(value: &Option<Change>, events: &[(u64, u64, Touch)], used: u32) -> bool {
        if used.count_ones() as usize == events.len() { return true; }
        (0..events.len()).any(|n| {
            if used & 1 << n != 0 { return false; }
            if (0..events.len()).any(|m| m != n && used & 1 << m == 0 && events[m].1 < events[n].0) { return false; }
            match &events[n].2 {
                Touch::Set(next) => go(next, events, used | 1 << n),
                Touch::Saw(saw) => saw == value && go(value, events, used | 1 << n),
                Touch::Garbled(_) => false
            }
        })
    }
    go(initial, events, 0)
}

#[derive(Debug, Clone)]
struct Scene { initial: Vec<Change>, callers: Vec<Vec<Act>>, bound: u32, server: bool }

/// A table, alone or behind a server's endpoints.
enum Behind { Table(Table), Server(TestServer) }

impl Behind {
    async fn open(server: bool, folder: &str) -> Behind {
        if server { Behind::Server(TestServer::start(&Net::default(), &secret(SERVER), "s8.example", folder).await) } else { Behind::Table(Table::new(folder).await.unwrap()) }
    }

    /// Where the table of a storage folder is.
    fn table(server: bool, folder: &str) -> PathBuf { if server { PathBuf::from(folder).join("router") } else { PathBuf::from(folder) } }

    async fn act(&self, cache: &Mutex<Cache>, catalogue: &Catalogue, a: &Act) -> Result<BTreeMap<(In, u64), Touch>, String> {
        let server = match self { Behind::Table(table) => return act(table, cache, catalogue, a).await, Behind::Server(server) => server };
        match a {
            Act::Change(c) => {
                change_by_request(server, c).await?;
                Ok(done(c))
            }
            Act::Locals => {
                let ClientsResponse { clients, .. } = server.get("/api/v1/clients").await?;
                Ok(catalogue.touches(In::Local, clients.iter().map(|c| format!("{c:?}")).collect(), None))
            }
            Act::Servers => {
                let ServersResponse { servers, .. } = server.get("/api/v1/servers").await?;
                Ok(catalogue.touches(In::Servers, servers.iter().map(|c| format!("{c:?}")).collect(), None))
            }
            // Scenes have clients known in one way only.
            Act::FindLocal(who) | Act::FindRemote(who) => {
                let request = LookupRequest::new(&key_of(77), key_of(*who).public_key(), None);
                let Response::Success { response, .. } = server.post::<_, LookupResponse>("/api/v1/lookup", &request).await?.0 else { return Err("the lookup was answered with an error".into()) };
                let got = match response {
                    LookupResponseBody::Local { client, .. } => vec![format!("{client:?}")],
                    LookupResponseBody::Remote { client, server, .. } => vec![format!("{:?}", (client, server))],
                    LookupResponseBody::Hint { .. } => vec![]
                };
                Ok(catalogue.touches(if matches!(a, Act::FindLocal(_)) { In::Local } else { In::Remote }, got, Some(*who)))
            }
            Act::Remotes | Act::FindServer(_) => unreachable!("no endpoint for {a:?}")
        }
    }
}

/// What a change does to each table.
fn done(c: &Change) -> BTreeMap<(In, u64), Touch> {
    match c {
        Local { who, .. } => [((In::Local, *who), Touch::Set(Some(c.clone())))].into(),
        Remote { who, .. } => [((In::Remote, *who), Touch::Set(Some(c.clone())))].into(),
        Known { who, .. } => [((In::Servers, *who), Touch::Set(Some(c.clone())))].into(),
        Gone { who } => [In::Local, In::Remote, In::Servers].map(|t| ((t, *who), Touch::Set(None))).into()
    }
}

fn scene(rep: &mut Rep, scene: &Scene) {
    let name = format!("[{}] then {}", scene.initial.iter().map(Change::text).collect::<Vec<_>>().join("; "),
        scene.callers.iter().map(|c| c.iter().map(Act::text).collect::<Vec<_>>().join("; ")).collect::<Vec<_>>().join(" || ")) + if scene.server { " by requests" } else { "" };
    let mut cache = Cache::default();
    let all: Vec<Change> = scene.initial.iter().cloned().chain(scene.callers.iter().flatten().filter_map(|a| match a { Act::Change(c) => Some(c.clone()), _ => None })).collect();
    let catalogue = Arc::new(Catalogue::new(all.iter(), &mut cache));
    let cache = Arc::new(Mutex::new(cache));
    let mut spec = Spec::default();
    for c in &scene.initial { spec.apply(c); }
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    dfs(rep, scene.bound, 3_000_000, |rep, prefix| {
        let folder = rep.folder("table");
        let world = World::new(&folder);
        world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(1); });
        rep.case(format!("{name} schedule {prefix:?}"));
        let table = {
            let _in = world.enter();
            let rt = runtime();
            rt.block_on(async {
                let table = Arc::new(Behind::open(scene.server, &folder).await);
                for c in &scene.initial { table.act(&cache, &catalogue, &Act::Change(c.clone())).await.unwrap(); }
                table
            })
        };
        let events: Arc<Mutex<Vec<Happened>>> = Arc::default();
        let ops: Vec<Box<dyn FnOnce() + Send>> = scene.callers.iter().cloned().map(|caller| {
            let (table, events, cache, catalogue) = (table.clone(), events.clone(), cache.clone(), catalogue.clone());
            Box::new(move || {
                let rt = runtime();
                for a in caller {
                    let start = world.tick();
                    let result = guard(|| rt.block_on(table.act(&cache, &catalogue, &a))).and_then(|r| r);
                    let end = world.tick();
                    let (touches, error) = match result { Ok(t) => (t, None), Err(text) => (BTreeMap::new(), Some(text)) };
                    events.lock().unwrap().push(Happened { act: a, touches, error, start, end });
                }
                world.end_op();
                drop(rt);
            }) as Box<dyn FnOnce() + Send>
        }).collect();
        let run = run_ops(world, prefix, 50_000, ops);
        if run.outcome == NONDETERMINISTIC { return Some(run); }
        rep.eval();
        let choices: Vec<usize> = run.trace.iter().map(|c| c.chosen).collect();
        if run.outcome != "done" {
            rep.fail(&name, format!("{name}: {}", run.outcome), json!({ "schedule": choices }));
            return None;
        }
        let mut events = events.lock().unwrap().clone();
        let show: Vec<String> = events.iter().map(|e| format!("{} = {} [{},{}]", e.act.text(), e.error.clone().unwrap_or_else(|| format!("{:?}", e.touches.values().collect::<Vec<_>>())), e.start, e.end)).collect();
        if let Some(bad) = events.iter().find(|e| e.error.is_some()) {
            rep.fail(&name, format!("{name}: {} failed: {}", bad.act.text(), bad.error.clone().unwrap()), json!({ "schedule": choices, "results": show }));
            return None;
        }
        // Final reads, by a restarted table, are part of the history.
        {
            let _in = world.enter();
            let rt = runtime();
            let fresh = rt.block_on(Table::new(Behind::table(scene.server, &folder))).unwrap();
            for a in [Act::Locals, Act::Remotes, Act::Servers] {
                let start = world.tick();
                let result = guard(|| rt.block_on(act(&fresh, &cache, &catalogue, &a))).and_then(|r| r);
                let end = world.tick();
                match result {
                    Ok(touches) => events.push(Happened { act: a, touches, error: None, start, end }),
                    Err(text) => {
                        rep.fail(&name, format!("{name}: afterwards {} failed: {text}; {show:?}", a.text()), json!({ "schedule": choices, "results": show }));
                        return None;
                    }
                }
            }
        }
        let mut by_key: BTreeMap<(In, u64), Vec<(u64, u64, Touch)>> = BTreeMap::new();
        for e in &events { for (key, touch) in &e.touches { by_key.entry(*key).or_default().push((e.start, e.end, touch.clone())); } }
        for ((table, key), list) in by_key {
            let initial = match table { In::Local => &spec.local, In::Remote => &spec.remote, In::Servers => &spec.servers }.get(&key).cloned();
            if !one_key(&initial, &list) {
                rep.fail(&name, format!("{name}: what was done to and seen of {table:?} record {key} is {list:?} (initially {initial:?}), which no order explains"), json!({ "schedule": choices, "results": show }));
                return None;
            }
        }
        rep.count("traces_validated_against_impl", 1);
        *outcomes.entry(show.iter().map(|s| s.split(" [").next().unwrap().to_string()).collect::<Vec<_>>().join("; ")).or_default() += 1;
        world.free();
        Some(run)
    });
    rep.count("distinct_outcomes", outcomes.len() as u64);
    rep.sample(|| json!({ "scene": name, "preemptions": scene.bound, "outcomes": outcomes.iter().take(3).map(|(o, n)| format!("{n} x {o}").chars().take(600).collect::<String>()).collect::<Vec<_>>() }));
}

pub fn c15(tier: Tier) -> Property {
    let quick = tier == Tier::Quick;
    let deep = if quick { 2 } else { 3 };
    let (l, r, s, gone) = (
        |who, mark| Local { who, kind: 1, mark }, |who, mark| Remote { who, kind: 1, at: 11, mark }, |who, mark| Known { who, mark }, |who| Gone { who });
    let mut scenes = Vec::new();
    // Every kind of read against every kind of change.
    let reads: Vec<(Act, In)> = vec![(Act::Locals, In::Local), (Act::FindLocal(1), In::Local), (Act::FindLocal(2), In::Local), (Act::Remotes, In::Remote), (Act::FindRemote(1), In::Remote), (Act::FindRemote(2), In::Remote), (Act::Servers, In::Servers), (Act::FindServer(1), In::Servers), (Act::FindServer(2), In::Servers)];
    for (read, table) in &reads {
        let make = |who, mark| match table { In::Local => l(who, mark), In::Remote => r(who, mark), In::Servers => s(who, mark) };
        for c in [make(1, 5), make(3, 6), gone(1)] {
            scenes.push(Scene { initial: vec![make(1, 1), make(2, 2)], callers: vec![vec![read.clone()], vec![Act::Change(c)]], bound: if quick { 3 } else { 4 }, server: false });
        }
        scenes.push(Scene { initial: vec![make(1, 1), make(2, 2)], callers: vec![vec![read.clone(), read.clone()], vec![Act::Change(gone(1)), Act::Change(make(1, 7))]], bound: deep, server: false });
    }
    // Changes against changes.
    for make in [l as fn(u64, u64) -> Change, r, s] {
        scenes.push(Scene { initial: vec![], callers: vec![vec![Act::Change(make(1, 1))], vec![Act::Change(make(1, 2))]], bound: if quick { 3 } else { 4 }, server: false });
        scenes.push(Scene { initial: vec![make(1, 3)], callers: vec![vec![Act::Change(make(1, 1))], vec![Act::Change(gone(1))]], bound: if quick { 3 } else { 4 }, server: false });
        scenes.push(Scene { initial: vec![make(1, 3)], callers: vec![vec![Act::Change(gone(1))], vec![Act::Change(gone(1))]], bound: if quick { 3 } else { 4 }, server: false });
        scenes.push(Scene { initial: vec![], callers: vec![vec![Act::Change(make(1, 1))], vec![Act::Change(make(2, 2))]], bound: if quick { 3 } else { 4 }, server: false });
        scenes.push(Scene { initial: vec![make(1, 3)], callers: vec![vec![Act::Change(make(1, 1))], vec![Act::Change(make(1, 2))], vec![Act::Change(gone(1))]], bound: deep, server: false });
    }
    scenes.push(Scene { initial: vec![l(1, 1), r(1, 2), s(1, 3)], callers: vec![vec![Act::Change(gone(1))], vec![Act::Locals, Act::Remotes, Act::Servers]], bound: 1, server: false });
    scenes.push(Scene { initial: vec![l(1, 1)], callers: vec![vec![Act::Change(r(1, 2))], vec![Act::Change(s(1, 3))], vec![Act::FindLocal(1)]], bound: deep, server: false });
    scenes.push(Scene { initial: vec![l(1, 1), l(2, 2)], callers: vec![vec![Act::Locals], vec![Act::Change(l(1, 3))], vec![Act::Change(gone(2))]], bound: deep, server: false });
    if !quick {
        scenes.push(Scene { initial: vec![l(1, 1), l(2, 2)], callers: vec![vec![Act::Locals], vec![Act::Change(l(1, 3)), Act::Change(gone(1))]], bound: 3, server: false });
        scenes.push(Scene { initial: vec![l(1, 1), l(2, 2), l(3, 3)], callers: vec![vec![Act::Locals], vec![Act::Change(gone(1)), Act::Change(gone(2)), Act::Change(gone(3))]], bound: if quick { 3 } else { 4 }, server: false });
    }
    // The same through a server's endpoints, where there is one.
    let by_requests: Vec<Scene> = scenes.iter().filter(|s| s.callers.iter().flatten().all(|a| !matches!(a, Act::Remotes | Act::FindServer(_)))).cloned()
        .map(|s| Scene { bound: s.bound.min(if quick || s.callers.len() > 2 { 2 } else { 3 }), server: true, ..s }).collect();
    scenes.extend(by_requests);
    let total = scenes.len();
    Property {
        id: "C15",
        level: Level::ModelChecking,
        rule: "Each scene gives initial records and two or three concurrent callers of listings, lookups, registrations and disconnects; every schedule of their file-system, lock and thread steps with at most the stated number of preemptions is executed on the real table, and again with the calls made through a server's endpoints. No call may fail, and for every key of every table the values written and seen (also by a restarted table at the end) must be those of some sequential order respecting real time.",
        assumptions: vec!["scheduling points are file-system calls and blocking synchronisation", "one read of a directory is atomic (directories of the explored sizes are read by one system call)"],
        bounds: json!({ "scenes": total, "callers": 3, "preemptions": if quick { [3, 2] } else { [4, 3] }, "preemptions_by_requests": if quick { [2, 2] } else { [3, 2] } }),
        units: scenes.into_iter().enumerate().map(|(n, s)| Unit::new(format!("scene-{n}"), move |rep| { rep.nontrivial(&n); scene(rep, &s) })).collect()
    }
}

// ---------------------------------------------------------------- C16

/// Histories whose last change (or read) is disturbed.
fn disturbed() -> Vec<(Vec<Change>, Act)> {
    let (l, r, s) = (|who, mark| Local { who, kind: 1, mark }, |who, mark| Remote { who, kind: 1, at: 11, mark }, |who, mark| Known { who, mark });
    let mut out = Vec::new();
    for make in [l as fn(u64, u64) -> Change, r, s] {
        for initial in [vec![], vec![make(1, 1)], vec![make(1, 1), make(2, 2)], vec![make(2, 2), l(1, 3), r(1, 4), s(1, 5)]] {
            out.push((initial.clone(), Act::Change(make(1, 9))));
            out.push((initial.clone(), Act::Change(Gone { who: 1 })));
        }
        let full = vec![make(1, 1), make(2, 2), make(3, 3)];
        for a in [Act::Locals, Act::Remotes, Act::Servers, Act::FindLocal(1), Act::FindRemote(2), Act::FindServer(3)] { out.push((full.clone(), a)); }
    }
    out
}

type Tables = BTreeMap<In, BTreeMap<u64, Change>>;

fn tables_of(spec: &Spec) -> Tables { [(In::Local, spec.local.clone()), (In::Remote, spec.remote.clone()), (In::Servers, spec.servers.clone())].into() }

/// Read all tables through a (restarted) table, strictly.
fn read_all(table: &Table, catalogue: &Catalogue) -> Result<Tables, String> {
    let rt = runtime();
    let cache = Mutex::new(Cache::default());
    let mut out = Tables::new();
    for (a, which) in [(Act::Locals, In::Local), (Act::Remotes, In::Remote), (Act::Servers, In::Servers)] {
        let touches = rt.block_on(act(table, &cache, catalogue, &a)).map_err(|err| format!("afterwards {} failed: {err}", a.text()))?;
        let mut rows = BTreeMap::new();
        for ((_, key), touch) in touches {
            match touch {
                Touch::Saw(Some(c)) => { rows.insert(key, c); }
                Touch::Saw(None) => (),
                other => return Err(format!("afterwards {} shows {other:?}", a.text()))
            }
        }
        // Lookups agree with the listing.
        for key in &catalogue.keys {
            let find = match which { In::Local => Act::FindLocal(*key), In::Remote => Act::FindRemote(*key), In::Servers => Act::FindServer(*key) };
            let touches = rt.block_on(act(table, &cache, catalogue, &find)).map_err(|err| format!("afterwards {} failed: {err}", find.text()))?;
            let found = match touches.get(&(which, *key)) { Some(Touch::Saw(c)) => c.clone(), other => return Err(format!("afterwards {} shows {other:?}", find.text())) };
            if found.as_ref() != rows.get(key) { return Err(format!("afterwards {} = {found:?} but the listing has {:?}", find.text(), rows.get(key))); }
        }
        out.insert(which, rows);
    }
    Ok(out)
}

struct Stage<'a> { cache: &'a Mutex<Cache>, catalogue: &'a Catalogue, initial: &'a [Change], last: &'a Act, before: Tables, after: Tables }

impl Stage<'_> {
    /// Set up, disturb the last action, and judge.
    fn run(&self, rep: &Rep, plan: Plan, restart: bool, log: bool) -> Result<(bool, Vec<Call>, bool), String> {
        let folder = rep.folder("stage");
        let world = World::shared(&folder);
        world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(5); });
        let _in = world.enter();
        let table = {
            let rt = runtime();
            let table = rt.block_on(Table::new(&folder)).unwrap();
            let mut cache = self.cache.lock().unwrap();
            for c in self.initial { rt.block_on(change(&table, &mut cache, c)).map_err(|err| format!("undisturbed {} failed: {err}", c.text()))?; }
            table
        };
        if log { world.with(|w| w.log = Some(Vec::new())); }
        world.set_plan(plan);
        let got = { let rt = runtime(); guard(|| rt.block_on(act(&table, self.cache, self.catalogue, self.last))) };
        let fired = world.with(|w| w.fired);
        world.reset_faults();
        let calls = world.with(|w| w.log.take().unwrap_or_default());
        let crash = matches!(plan, Plan::Crash { .. });
        let got = match got { Ok(r) => r, Err(text) if crash => Err(text), Err(text) => return Err(text) };
        let table = if restart || crash { drop(table); runtime().block_on(Table::new(&folder)).map_err(|err| format!("reopening failed: {err}"))? } else { table };
        let now = read_all(&table, self.catalogue)?;
        for (which, rows) in &now {
            for key in &self.catalogue.keys {
                let (row, old, new) = (rows.get(key), self.before[which].get(key), self.after[which].get(key));
                let fine = if row == old && row == new { true }
                    else if crash { if fired { row == old || row == new } else { row == new } }
                    else {
                        match (&got, self.last) {
                            (Ok(_), _) => row == new,
                            (Err(_), Act::Change(Gone { .. })) => row == old || row == new,
                            (Err(_), _) => row == old
                        }
                    };
                if !fine { return Err(format!("the operation gave {:?}; {which:?} record {key} was {old:?}, should become {new:?}, but is {row:?}", got.as_ref().map(|_| "success").map_err(|e| e.clone()))); }
            }
        }
        // A read that succeeds is right.
        if let (Ok(touches), false, false) = (&got, crash, matches!(self.last, Act::Change(_))) {
            for ((which, key), touch) in touches {
                if *touch != Touch::Saw(self.before[which].get(key).cloned()) { return Err(format!("{} succeeded but saw {touch:?} of {which:?} record {key} instead of {:?}", self.last.text(), self.before[which].get(key))); }
            }
        }
        // The table goes on working.
        let rt = runtime();
        let mut cache = self.cache.lock().unwrap();
        for c in [Local { who: 1, kind: 0, mark: 77 }, Remote { who: 1, kind: 0, at: 12, mark: 78 }, Known { who: 1, mark: 79 }] {
            rt.block_on(change(&table, &mut cache, &c)).map_err(|err| format!("afterwards {} failed: {err}", c.text()))?;
        }
        drop(cache);
        let then = read_all(&table, self.catalogue)?;
        for (which, rows) in then {
            let mut want = now[&which].clone();
            want.insert(1, match which { In::Local => Local { who: 1, kind: 0, mark: 77 }, In::Remote => Remote { who: 1, kind: 0, at: 12, mark: 78 }, In::Servers => Known { who: 1, mark: 79 } });
            if rows != want { return Err(format!("after another registration the {which:?} table is {rows:?} instead of {want:?}")); }
        }
        Ok((fired, calls, got.is_err()))
    }
}

fn disturb(rep: &mut Rep, initial: &[Change], last: &Act) {
    let mut cache = Cache::default();
    let extra = [Local { who: 1, kind: 0, mark: 77 }, Remote { who: 1, kind: 0, at: 12, mark: 78 }, Known { who: 1, mark: 79 }];
    let mut all: Vec<Change> = initial.iter().chain(&extra).cloned().collect();
    if let Act::Change(c) = last { all.push(c.clone()); }
    let catalogue = Catalogue::new(all.iter(), &mut cache);
    let cache = Mutex::new(cache);
    let mut spec = Spec::default();
    for c in initial { spec.apply(c); }
    let before = tables_of(&spec);
    if let Act::Change(c) = last { spec.apply(c); }
    let after = tables_of(&spec);
    let stage = Stage { cache: &cache, catalogue: &catalogue, initial, last, before, after };
    let name = format!("[{}] then {}", initial.iter().map(Change::text).collect::<Vec<_>>().join("; "), last.text());
    let calls = match stage.run(rep, Plan::None, false, true) {
        Ok((_, calls, _)) => calls,
        Err(text) => { rep.fail(&name, format!("{name}, undisturbed: {text}"), Json::Null); return; }
    };
    rep.sample(|| json!({ "history": name, "calls": calls.iter().map(|c| format!("{:?}", c.kind)).collect::<Vec<_>>() }));
    let mut plans: Vec<(Plan, bool)> = Vec::new();
    for plan in faults(&calls) { for restart in [false, true] { plans.push((plan, restart)); } }
    if matches!(last, Act::Change(_)) {
        let mutations: Vec<&Call> = calls.iter().filter(|c| c.kind.mutates()).collect();
        for (at, call) in mutations.iter().enumerate() {
            if call.kind == Kind::Write { for torn in torn_lengths(call.len, !rep.quick()) { plans.push((Plan::Crash { at, torn }, true)); } }
            else { plans.push((Plan::Crash { at, torn: 0 }, true)); }
        }
        plans.push((Plan::Crash { at: mutations.len(), torn: 0 }, true));
    }
    for (plan, restart) in plans {
        let what = format!("{name} with {plan:?}{}", if restart { ", then a restart" } else { "" });
        rep.case(&what);
        rep.nontrivial(&what);
        let result = guard(|| stage.run(rep, plan, restart, false)).and_then(|r| r);
        rep.eval();
        match result {
            Ok((fired, _, failed)) => {
                if fired { rep.count("faults_that_struck", 1); }
                if failed { rep.count("operations_reporting_an_error", 1); }
            }
            Err(text) => { rep.fail(&what, format!("{what}: {text}"), json!({ "history": name, "plan": format!("{plan:?}") })); return; }
        }
    }
}

/// Two concurrent actions of which one meets a fault, or during which the
/// process dies, under every schedule within the bound.
fn disturbed_scene(rep: &mut Rep, initial: &[Change], pair: &[Act; 2], crash: bool, bound: u32) {
    let mut cache = Cache::default();
    let all: Vec<Change> = initial.iter().cloned().chain(pair.iter().filter_map(|a| match a { Act::Change(c) => Some(c.clone()), _ => None })).collect();
    let catalogue = Arc::new(Catalogue::new(all.iter(), &mut cache));
    let cache = Arc::new(Mutex::new(cache));
    let mut spec = Spec::default();
    for c in initial { spec.apply(c); }
    let kinds: Vec<(Option<usize>, fn(usize) -> Plan)> = if crash {
        vec![(None, |at| Plan::Crash { at, torn: 0 }), (None, |at| Plan::Crash { at, torn: 9 })]
    } else {
        let mut kinds: Vec<(Option<usize>, fn(usize) -> Plan)> = Vec::new();
        for victim in [0, 1] {
            kinds.push((Some(victim), |at| Plan::Errno { at, errno: libc::EIO }));
            kinds.push((Some(victim), |at| Plan::Short { at, len: 7 }));
            kinds.push((Some(victim), |at| Plan::Full { at, len: 0 }));
        }
        kinds
    };
    for (victim, plan_at) in kinds {
        for at in 0.. {
            let plan = plan_at(at);
            let name = format!("[{}] then {} || {} with {plan:?}{}", initial.iter().map(Change::text).collect::<Vec<_>>().join("; "), pair[0].text(), pair[1].text(), victim.map(|v| format!(" in {}", pair[v].text())).unwrap_or_default());
            let mut struck = false;
            dfs(rep, bound, 500_000, |rep, prefix| {
                let folder = rep.folder("table");
                let world = World::new(&folder);
                world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(1); });
                rep.case(format!("{name} schedule {prefix:?}"));
                let table = {
                    let _in = world.enter();
                    let rt = runtime();
                    rt.block_on(async {
                        let table = Arc::new(Table::new(&folder).await.unwrap());
                        let mut cache = cache.lock().unwrap();
                        for c in initial { change(&table, &mut cache, c).await.unwrap(); }
                        table
                    })
                };
                world.set_plan(plan);
                world.with(|w| w.victim = victim);
                let events: Arc<Mutex<Vec<(usize, Happened, bool)>>> = Arc::default();
                let ops: Vec<Box<dyn FnOnce() + Send>> = pair.iter().cloned().enumerate().map(|(n, a)| {
                    let (table, events, cache, catalogue) = (table.clone(), events.clone(), cache.clone(), catalogue.clone());
                    Box::new(move || {
                        let rt = runtime();
                        let start = world.tick();
                        let result = guard(|| rt.block_on(act(&table, &cache, &catalogue, &a))).and_then(|r| r);
                        let end = world.tick();
                        let lives = world.with(|w| !w.dead);
                        let (touches, error) = match result { Ok(t) => (t, None), Err(text) => (BTreeMap::new(), Some(text)) };
                        events.lock().unwrap().push((n, Happened { act: a, touches, error, start, end }, lives));
                        world.end_op();
                        drop(rt);
                    }) as Box<dyn FnOnce() + Send>
                }).collect();
                let run = run_ops(world, prefix, 50_000, ops);
                let fired = world.with(|w| w.fired);
                if run.outcome == NONDETERMINISTIC { return Some(run); }
                rep.eval();
                struck |= fired;
                let choices: Vec<usize> = run.trace.iter().map(|c| c.chosen).collect();
                if run.outcome != "done" { rep.fail(&name, format!("{name}: {}", run.outcome), json!({ "schedule": choices })); return None; }
                world.reset_faults();
                world.with(|w| w.victim = None);
                let events = events.lock().unwrap().clone();
                let show: Vec<String> = events.iter().map(|(_, e, lives)| format!("{} = {} [{},{}]{}", e.act.text(), e.error.clone().unwrap_or_else(|| format!("{:?}", e.touches.values().collect::<Vec<_>>())), e.start, e.end, if *lives { "" } else { " (after the process died)" })).collect();
                let last = {
                    let _in = world.enter();
                    guard(|| read_all(&runtime().block_on(Table::new(&folder)).map_err(|e| e.to_string())?, &catalogue)).and_then(|r| r)
                };
                world.free();
                if fired { rep.nontrivial(&(&name, prefix)); }
                let mut wrong = None;
                let mut by_key: BTreeMap<(In, u64), (Vec<(u64, u64, Touch)>, Vec<(u64, u64, Touch)>)> = BTreeMap::new();
                for (n, e, lives) in &events {
                    let hit = fired && (victim == Some(*n) || matches!(plan, Plan::Full { .. }));
                    if e.error.is_some() && *lives && !hit { wrong = Some(format!("{} failed because of the other", e.act.text())); }
                    if *lives && e.error.is_none() {
                        for (key, touch) in &e.touches { by_key.entry(*key).or_default().0.push((e.start, e.end, touch.clone())); }
                    } else if let Act::Change(c) = &e.act {
                        // A failed registration changes nothing.
                        if !*lives || matches!(c, Gone { .. }) { for (key, touch) in done(c) { by_key.entry(key).or_default().1.push((e.start, u64::MAX, touch)); } }
                    }
                }
                match &last {
                    Err(text) => wrong = Some(text.clone()),
                    Ok(tables) => for (table, rows) in tables {
                        for key in &catalogue.keys { by_key.entry((*table, *key)).or_default().0.push((u64::MAX - 1, u64::MAX, Touch::Saw(rows.get(key).cloned()))); }
                    }
                }
                for ((table, key), (sure, perhaps)) in &by_key {
                    if wrong.is_some() { break; }
                    let before = match table { In::Local => &spec.local, In::Remote => &spec.remote, In::Servers => &spec.servers }.get(key).cloned();
                    let explained = (0..1_u32 << perhaps.len()).any(|chosen| {
                        let mut list = sure.clone();
                        list.extend(perhaps.iter().enumerate().filter(|(n, _)| chosen >> n & 1 == 1).map(|(_, t)| t.clone()));
                        one_key(&before, &list)
                    });
                    if !explained { wrong = Some(format!("what was done to and seen of {table:?} record {key} is {sure:?} (perhaps {perhaps:?}, initially {before:?}), which no order explains")); }
                }
                if let Some(text) = wrong {
                    rep.fail(&name, format!("{name}: {text}; {show:?}"), json!({ "schedule": choices, "results": show }));
                    return None;
                }
                Some(run)
            });
            if rep.failed() { return; }
            if !struck { break; }
        }
    }
}

fn disturbed_scenes(thorough: bool) -> Vec<Unit> {
    let (l, r, s) = (|who, mark| Local { who, kind: 1, mark }, |who, mark| Remote { who, kind: 1, at: 11, mark }, |who, mark| Known { who, mark });
    let mut out = Vec::new();
    for (t, make, list) in [(0, l as fn(u64, u64) -> Change, Act::Locals), (1, r, Act::Remotes), (2, s, Act::Servers)] {
        let find = [Act::FindLocal(1), Act::FindRemote(1), Act::FindServer(1)][t].clone();
        let (set, other, gone) = (Act::Change(make(1, 5)), Act::Change(make(3, 6)), Act::Change(Gone { who: 1 }));
        let mut pairs = vec![[set.clone(), list.clone()], [gone.clone(), list.clone()], [set.clone(), Act::Change(make(1, 7))], [set.clone(), gone.clone()], [set.clone(), other.clone()]];
        if thorough { pairs.extend([[set, find.clone()], [gone, find], [other, list]]); }
        for (n, pair) in pairs.into_iter().enumerate() {
            for crash in [false, true] {
                if !thorough && t > 0 && n > 1 && !crash { continue; }
                let pair = pair.clone();
                out.push(Unit::new(format!("concurrent-{t}-{n}-{}", if crash { "crash" } else { "fault" }), move |rep| disturbed_scene(rep, &[make(1, 1), make(2, 2)], &pair, crash, if thorough { 2 } else { 1 })));
            }
        }
    }
    out
}

pub fn c16(tier: Tier) -> Property {
    let list = disturbed();
    Property {
        id: "C16",
        level: Level::Faults,
        rule: "For every history the last operation (registering a new or known record in any table, removing a key, listing or looking up) is cut off at every mutating system call and after chosen (thorough: all) prefixes of every write, or has every system call fail with every errno of its kind's menu, transfer fewer bytes, or start a full disk. Afterwards, restarted or not, all listings and lookups must work and agree, untouched records be intact, the touched one be old or new as the outcome demands, and new registrations work. Pairs of concurrent operations are disturbed in the same way under every schedule with one (thorough: two) preemptions; what was done to and seen of each key must be explained by some order, and the undisturbed operation must not fail. Every fault is a distinct non-trivial case.",
        assumptions: vec!["the process dies, not the machine: completed system calls persist in order", "one fault per history"],
        bounds: json!({ "histories": list.len(), "records_per_table": 3, "torn_prefixes": if tier == Tier::Thorough { "all" } else { "0,1,7,8..64 by 8,half,-8,-1,all" } }),
        units: list.into_iter().enumerate().map(|(n, (initial, last))| Unit::new(format!("history-{n}"), move |rep| disturb(rep, &initial, &last))).chain(disturbed_scenes(tier == Tier::Thorough)).chain(crate::proof::endpoint_units(true, true, true)).collect()
    }
}
