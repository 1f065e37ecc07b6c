//! C18: client lookup over networks of servers. C19: network traversal.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::{Client, Server};
use serde_json::{json, Value as Json};

use crate::clients::{b64, key64, sign, HOME};
use crate::fixture::*;
use crate::net::*;
use crate::report::*;
use crate::sys::*;

const ME: u64 = 3;
const PEER: u64 = 4;
const GHOST: usize = usize::MAX;

pub fn address(n: usize) -> String { if n == GHOST { "ghost.example".into() } else { format!("s{n}.example") } }

fn secret_of(n: usize) -> u64 { HOME + n.min(ONE_KEY_FROM.with(Cell::get)) as u64 }

thread_local! {
    /// Servers from this one on share its key, as one server at several addresses does.
    static ONE_KEY_FROM: Cell<usize> = const { Cell::new(usize::MAX) };
}

// ---------------------------------------------------------------- C18

/// What a server of a modelled network answers to lookups.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
enum Does {
    Local(bool), Remote(bool), Hint(Vec<usize>),
    Down, NoBody, Error(u64), Garbage,

    /// Unproven claims.
    ForgedLocal, ForgedRemote, ForgedHint(Vec<usize>), BadSign(Vec<usize>)
}

use Does::*;

impl Does {
    fn knows(&self) -> bool { matches!(self, Local(_) | Remote(_)) }
}

fn known_client(n: usize) -> Client {
    client(&secret(PEER), &public(secret_of(n)), 1_600_000_000 + n as u64, ClientInfo::thick(format!("peer{n}.example")))
}

fn known_server(n: usize) -> Server { Server::new(public(700 + n as u64), format!("far{n}.example")) }

/// The parts of answers, made once.
#[derive(Default)]
struct Parts { signs: HashMap<(u64, u64), String>, bodies: HashMap<(usize, usize, Does), Json> }

thread_local! { static PARTS: RefCell<Parts> = RefCell::default(); }

fn sign_of(n: u64, seed: u64) -> String {
    PARTS.with(|p| p.borrow_mut().signs.entry((n, seed)).or_insert_with(|| b64(&sign(n, &seed.to_be_bytes()))).clone())
}

fn hint(list: &[usize]) -> LookupResponseBody {
    LookupResponseBody::hint(list.iter().map(|n| Server::new(public(if *n == GHOST { 99 } else { secret_of(*n) }), address(*n))).collect::<Vec<_>>())
}

fn answer(n: usize, does: &Does, seed: u64) -> Result<Json, String> {
    let success = |body: LookupResponseBody, signer: u64, key: u64| {
        let mut json = PARTS.with(|p| p.borrow_mut().bodies.entry((ONE_KEY_FROM.with(Cell::get), n, does.clone())).or_insert_with(|| {
            LookupResponse::success(ResponseStatus::Success, &secret(key), 1 << 63, body).to_json().unwrap()
        }).clone());
        json["proof"]["sign"] = json!(sign_of(signer, seed));
        json
    };
    let me = secret_of(n);
    Ok(match does {
        Local(available) => success(LookupResponseBody::local(known_client(n), *available), me, me),
        Remote(available) => success(LookupResponseBody::remote(known_client(n), known_server(n), *available), me, me),
        Hint(list) => success(hint(list), me, me),
        Down => return Err(format!("connection refused by {}", address(n))),
        NoBody => return Err(NO_BODY.into()),
        Error(code) => json!({ "standard": 1, "status": code, "reason": "no" }),
        Garbage => json!({ "standard": 1, "status": 100, "public_key": "?", "response": { "servers": [{ "public_key": key64(HOME), "address": address(0) }] } }),
        ForgedLocal => success(LookupResponseBody::local(known_client(n), true), ME, me),
        ForgedRemote => success(LookupResponseBody::remote(known_client(n), known_server(n), true), ME, me),
        ForgedHint(list) => success(hint(list), ME, me),
        BadSign(list) => { let mut json = success(hint(list), me, me); json["proof"]["sign"] = json!("AAAA"); json }
    })
}

fn reachable(net: &[Does]) -> BTreeSet<usize> {
    let mut out = BTreeSet::from([0]);
    let mut queue = vec![0];
    while let Some(n) = queue.pop() {
        let Some(Hint(list)) = net.get(n) else { continue };
        for m in list { if out.insert(*m) { queue.push(*m); } }
    }
    out
}

struct Asker { rt: tokio::runtime::Runtime, world: &'static World, net: Net, plan: Arc<Mutex<Vec<Does>>>, client: ConnectedClientMiddleware<Net> }

impl Asker {
    fn new(rep: &Rep) -> Asker {
        let rt = runtime();
        let folder = rep.folder("asker");
        let world = World::shared(&folder);
        world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(7); });
        let _in = world.enter();
        let net = Net::default();
        let plan: Arc<Mutex<Vec<Does>>> = Arc::default();
        let client = rt.block_on(async {
            let _server = TestServer::start(&net, &secret(HOME), &address(0), &folder).await;
            ClientMiddleware::new(net.clone(), ClientDriver::new(ClientInfo::thin(), secret(ME))).connect_to(address(0), public(HOME)).await.unwrap()
        });
        net.detach(&address(0));
        let hooked = plan.clone();
        net.hook(move |exchange| {
            let plan = hooked.lock().unwrap();
            if exchange.path != "/api/v1/lookup" || exchange.method != "POST" { return Some(Err("unexpected request".into())); }
            let n = (0..plan.len()).find(|n| address(*n) == exchange.host)?;
            Some(answer(n, &plan[n], exchange.body["proof"]["seed"].as_u64().unwrap_or(0)))
        });
        Asker { rt, world, net, plan, client }
    }

    /// Run one lookup and judge it.
    fn lookup(&self, rep: &mut Rep, net: &[Does], client_type: Option<ClientType>) -> Result<(), String> {
        let _in = self.world.enter();
        // The same seed again, so that signatures can be reused.
        self.world.with(|w| w.random = Some(7));
        *self.plan.lock().unwrap() = net.to_vec();
        self.net.take_log();
        self.net.limit(3 * net.len() + 8);
        let result = guard(|| self.rt.block_on(self.client.lookup(public(PEER), client_type)));
        let log = self.net.take_log();
        rep.eval();
        rep.state(&(net, client_type, ONE_KEY_FROM.with(Cell::get)));
        rep.count("transitions", log.len() as u64);
        rep.count("traces_validated_against_impl", 1);
        let result = result?;
        let asked: Vec<String> = log.iter().map(|e| e.host.clone()).collect();
        let reach = reachable(net);
        let mut seen = BTreeSet::new();
        for exchange in &log {
            if !seen.insert(&exchange.host) { return Err(format!("{} was asked more than once: {asked:?}", exchange.host)); }
            let wanted = json!({ "public_key": key64(PEER), "type": client_type.map(|t| t.to_string()) });
            let mut got = exchange.body["request"].clone();
            if let Some(got) = got.as_object_mut() { if !got.contains_key("type") { got.insert("type".into(), Json::Null); } }
            if got != wanted || exchange.body["public_key"] != json!(key64(ME)) { return Err(format!("asked {} for {got} by {}", exchange.host, exchange.body["public_key"])); }
            if exchange.url != format!("http://{}/api/v1/lookup", exchange.host) { return Err(format!("requested {}", exchange.url)); }
            if !reach.iter().any(|n| address(*n) == exchange.host) { return Err(format!("{} was asked, though no asked server validly hinted at it", exchange.host)); }
        }
        // Each server asked after the first was hinted by one asked before it.
        for (i, host) in asked.iter().enumerate().skip(1) {
            let hinted = asked[..i].iter().any(|h| (0..net.len()).find(|n| address(*n) == *h).is_some_and(|n| matches!(&net[n], Hint(list) if list.iter().any(|m| address(*m) == *host))));
            if !hinted { return Err(format!("{host} was asked before it was hinted at: {asked:?}")); }
        }
        let knowers: Vec<usize> = reach.iter().copied().filter(|n| net.get(*n).is_some_and(Does::knows)).collect();
        match result {
            Ok(Some((client, server, available))) => {
                let fine = knowers.iter().any(|n| seen.contains(&address(*n)) && match net[*n] {
                    Local(a) => client == known_client(*n) && server == Server::new(public(secret_of(*n)), address(*n)) && available == a,
                    Remote(a) => client == known_client(*n) && server == known_server(*n) && available == a,
                    _ => false
                });
                if !fine { return Err(format!("reported {:?} at {} ({available}), which no asked server knows so", client.info, server.address)); }
            }
            Ok(None) => {
                if !knowers.is_empty() { return Err(format!("reported not found, though {:?} know(s) the client; asked {asked:?}", knowers)); }
            }
            Err(err) => {
                // The connected server itself failed.
                let own = matches!(net[0], Down | NoBody | Error(_) | Garbage | ForgedLocal | ForgedRemote | ForgedHint(_) | BadSign(_));
                if !own { return Err(format!("failed with {err}; asked {asked:?}")); }
            }
        }
        Ok(())
    }
}

/// All sequences without repetition over a set.
fn orderings(items: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut n = 0;
    while n < out.len() {
        for item in items { if !out[n].contains(item) { let mut next = out[n].clone(); next.push(*item); out.push(next); } }
        n += 1;
    }
    out
}

fn subsets(items: &[usize]) -> Vec<Vec<usize>> {
    (0..1 << items.len()).map(|mask: usize| items.iter().enumerate().filter(|(n, _)| mask >> n & 1 == 1).map(|(_, i)| *i).collect()).collect()
}

fn odd_behaviours(all: &[usize]) -> Vec<Does> {
    vec![Local(true), Local(false), Remote(true), Remote(false), Down, NoBody, Error(311), Error(200), Garbage, ForgedLocal, ForgedRemote, ForgedHint(all.to_vec()), BadSign(all.to_vec())]
}

/// Every network of three servers whose connected one does `first`.
fn three(rep: &mut Rep, share: usize, shares: usize) {
    let asker = Asker::new(rep);
    let all = [0, 1, 2];
    let mut menu: Vec<Does> = odd_behaviours(&all);
    let lists = if rep.quick() { orderings(&all) } else { orderings(&[0, 1, 2, GHOST]) };
    menu.extend(lists.into_iter().map(Hint));
    for list in [vec![GHOST], vec![GHOST, 1], vec![GHOST, 2, GHOST], vec![1, 1], vec![2, 1, 2], vec![0, 0, 1, 0]] { if !menu.contains(&Hint(list.clone())) { menu.push(Hint(list)); } }
    rep.sample(|| json!({ "servers": 3, "behaviours": menu.len() }));
    for (n, a) in menu.iter().enumerate() {
        if n % shares != share { continue; }
        // A first server that gives no hints is alone.
        let others: Vec<&Does> = if matches!(a, Hint(_) | ForgedHint(_) | BadSign(_)) { menu.iter().collect() } else { vec![&menu[0]] };
        for b in &others { for c in &others {
            let net = vec![a.clone(), (*b).clone(), (*c).clone()];
            rep.case(format!("{net:?}"));
            if let Err(text) = asker.lookup(rep, &net, None) { fail(rep, &net, text); return; }
        } }
    }
}

fn fail(rep: &mut Rep, net: &[Does], text: String) {
    let shown: BTreeMap<String, String> = net.iter().enumerate().map(|(n, d)| (address(n), format!("{d:?}"))).collect();
    rep.fail(format!("{net:?}").chars().take(300).collect::<String>(), format!("lookup in {shown:?}: {text}").chars().take(1200).collect::<String>(), json!({ "network": shown }));
}

/// Networks of four servers with unordered hints.
fn four(rep: &mut Rep, share: usize, shares: usize) {
    let asker = Asker::new(rep);
    let all = [0, 1, 2, 3];
    let mut menu: Vec<Does> = vec![Local(true), Remote(false), Down, Error(311), ForgedLocal, ForgedHint(all.to_vec())];
    menu.extend(subsets(&all).into_iter().map(Hint));
    let firsts: Vec<Vec<usize>> = subsets(&[1, 2, 3]);
    let mut n = 0;
    for first in &firsts { for b in &menu { for c in &menu { for d in &menu {
        n += 1;
        if n % shares != share { continue; }
        let net = vec![Hint(first.clone()), b.clone(), c.clone(), d.clone()];
        rep.case(format!("{net:?}"));
        if let Err(text) = asker.lookup(rep, &net, None) { fail(rep, &net, text); return; }
    } } } }
}

/// Networks in which several addresses belong to one server key.
fn one_key(rep: &mut Rep, from: usize) {
    let asker = Asker::new(rep);
    ONE_KEY_FROM.with(|k| k.set(from));
    let all = [0, 1, 2];
    let mut menu: Vec<Does> = vec![Local(true), Remote(true), Down, NoBody, Error(311), Garbage, ForgedLocal, BadSign(all.to_vec())];
    menu.extend(orderings(&all).into_iter().map(Hint));
    for a in orderings(&all) { for b in &menu { for c in &menu {
        let net = vec![Hint(a.clone()), b.clone(), c.clone()];
        rep.case(format!("one key from {from}: {net:?}"));
        if let Err(text) = asker.lookup(rep, &net, None) { fail(rep, &net, format!("when the servers from {from} on share a key: {text}")); ONE_KEY_FROM.with(|k| k.set(usize::MAX)); return; }
    } } }
    shapes_of(rep, &asker);
    ONE_KEY_FROM.with(|k| k.set(usize::MAX));
}

/// Long and wide networks, and the client types.
fn shapes(rep: &mut Rep) {
    let asker = Asker::new(rep);
    shapes_of(rep, &asker);
}

fn shapes_of(rep: &mut Rep, asker: &Asker) {
    let mut nets: Vec<Vec<Does>> = Vec::new();
    for size in (2..12).chain([20, 40, 100]) {
        for end in [Local(true), Remote(true), Hint(vec![]), Down, Error(320)] {
            // A chain, a chain of which each also hints back, a ring.
            let mut chain: Vec<Does> = (1..size).map(|n| Hint(vec![n])).collect();
            chain.push(end.clone());
            nets.push(chain);
            let mut back: Vec<Does> = (1..size).map(|n| Hint((0..=n).collect())).collect();
            back.push(end.clone());
            nets.push(back);
            let mut ring: Vec<Does> = (1..=size).map(|n| Hint(vec![n % size])).collect();
            nets.push(ring.clone());
            ring[0] = Hint(vec![1, size - 1]);
            nets.push(ring);
            // A star with the knower last, all others failing somehow.
            for other in [Down, Error(311), Garbage, ForgedLocal, Hint(vec![]), Hint(vec![0]), NoBody] {
                let mut star = vec![Hint((1..size).collect())];
                star.extend((2..size).map(|_| other.clone()));
                star.push(end.clone());
                nets.push(star);
            }
        }
        // Everyone hints at everyone.
        nets.push((0..size).map(|_| Hint((0..size).collect())).collect());
    }
    for net in nets {
        rep.case(format!("{net:?}"));
        if let Err(text) = asker.lookup(rep, &net, None) { fail(rep, &net, text); return; }
    }
    for client_type in [None, Some(TYPES[0]), Some(TYPES[1]), Some(TYPES[2]), Some(TYPES[3])] {
        for depth in 1..4 {
            for end in [Local(true), Remote(false), Hint(vec![0]), Down] {
                let mut net: Vec<Does> = (1..depth).map(|n| Hint(vec![GHOST, n])).collect();
                net.push(end);
                rep.case(format!("{net:?} {client_type:?}"));
                if let Err(text) = asker.lookup(rep, &net, client_type) { fail(rep, &net, text); return; }
            }
        }
    }
}

/// Real servers: every relation of three servers knowing each other, the
/// client connected to one of them or announced to one.
fn real_lookup(rep: &mut Rep, share: usize, shares: usize) {
    let rt = runtime();
    let masks: Vec<u32> = (0..512).filter(|m| m % shares as u32 == share as u32).collect();
    for mask in masks {
        let folder = rep.folder("net");
        let world = World::shared(&folder);
        world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(u64::from(mask)); });
        let _in = world.enter();
        let knows = |n: usize, m: usize| mask >> (n * 3 + m) & 1 == 1;
        let mut stop = None;
        let result = guard(|| rt.block_on(async {
            let net = Net::default();
            let mut servers = Vec::new();
            for n in 0..3 { servers.push(TestServer::start(&net, &secret(secret_of(n)), &address(n), &format!("{folder}/{n}")).await); }
            for n in 0..3 { for m in 0..3 { if knows(n, m) { servers[n].middleware.driver().router().index_server(servers[m].record()).await.unwrap(); } } }
            let asking = ClientMiddleware::new(net.clone(), ClientDriver::new(ClientInfo::thin(), secret(ME))).connect_to(address(0), public(HOME)).await.map_err(|e| e.to_string())?;
            // Where peers are: a distinct key for each placement.
            let mut places = vec![(None, None)];
            for at in 0..3 { places.push((Some(at), None)); for told in 0..3 { places.push((Some(at), Some(told))); } }
            for (i, (at, told)) in places.iter().enumerate() {
                let key = secret(40 + i as u64);
                let mut wanted = BTreeMap::new();
                if let Some(at) = *at {
                    let peer = ClientMiddleware::new(net.clone(), ClientDriver::new(ClientInfo::thick(format!("p{i}")), key.clone())).connect_to(address(at), public(secret_of(at))).await.map_err(|e| e.to_string())?;
                    if let Some(told) = *told {
                        peer.announce(format!("http://{}", address(told))).await.map_err(|e| e.to_string())?;
                        wanted.insert(told, peer.get_client());
                    }
                    wanted.insert(at, peer.get_client());
                }
                for client_type in [None, Some(ClientType::Thick), Some(ClientType::Thin)] {
                    let found = if client_type == Some(ClientType::Thin) { BTreeMap::new() } else { wanted.clone() };
                    // Those who know the client give no hints.
                    let plan: Vec<Does> = (0..3).map(|n| if found.contains_key(&n) { Local(true) } else { Hint((0..3).filter(|m| knows(n, *m)).collect()) }).collect();
                    let reach = reachable(&plan);
                    let knowers: Vec<usize> = reach.iter().copied().filter(|n| plan[*n].knows()).collect();
                    net.take_log();
                    net.limit(12);
                    let case = format!("servers know {:?}, the client is at {at:?}, announced to {told:?}, asked as {client_type:?}", (0..3).map(|n| (0..3).filter(|m| knows(n, *m)).collect::<Vec<_>>()).collect::<Vec<_>>());
                    stop = Some(case.clone());
                    let got = asking.lookup(key.public_key(), client_type).await.map_err(|e| e.to_string())?;
                    let log = net.take_log();
                    let asked: Vec<String> = log.iter().map(|e| e.host.clone()).collect();
                    rep.eval();
                    rep.count("transitions", asked.len() as u64);
                    rep.count("traces_validated_against_impl", 1);
                    rep.state(&(mask, i, client_type));
                    if net.over() || asked.iter().collect::<BTreeSet<_>>().len() != asked.len() { return Err(format!("servers were asked repeatedly: {asked:?}")); }
                    if asked.iter().any(|host| !reach.iter().any(|n| address(*n) == *host)) { return Err(format!("asked {asked:?} though only {reach:?} are reachable")); }
                    match got {
                        None if knowers.is_empty() => (),
                        Some((client, server, _)) if !knowers.is_empty() => {
                            let at = at.unwrap();
                            if client != wanted[&at] || server != servers[at].record() { return Err(format!("got {client:?} at {server:?}")); }
                        }
                        got => return Err(format!("{knowers:?} know(s) the client, but the lookup gave {got:?}"))
                    }
                    net.limit(usize::MAX);
                }
            }
            Ok(())
        })).and_then(|r| r);
        if let Err(text) = result {
            let case = stop.unwrap_or_default();
            rep.fail(&case, format!("{case}: {text}").chars().take(1200).collect::<String>(), Json::Null);
            return;
        }
    }
}

pub fn c18(tier: Tier) -> Property {
    let mut units = vec![Unit::new("shapes", shapes)];
    for from in 0..2 { units.push(Unit::new(format!("one key {from}"), move |rep| one_key(rep, from))); }
    for share in 0..8 { units.push(Unit::new(format!("three {share}"), move |rep| three(rep, share, 8))); }
    let shares = if tier == Tier::Quick { 16 } else { 64 };
    for share in 0..8 {
        let quick = tier == Tier::Quick;
        units.push(Unit::new(format!("real {share}"), move |rep| if quick { real_lookup(rep, share, 8) } else { real_lookup(rep, share, 8) }));
    }
    if tier == Tier::Thorough { for share in 0..shares { units.push(Unit::new(format!("four {share}"), move |rep| four(rep, share, shares))); } }
    Property {
        id: "C18",
        level: Level::ModelChecking,
        rule: "A state is a network: what each server answers (the client as local or remote, any ordered list of hints, failures, forgeries). Every network of three servers (thorough: also four with sets of hints) and long chains, rings, stars and cliques, also with several addresses of one server key, are put behind the real client's lookup; its requests and its result are compared with reachability in the network. The same is done with real servers for all relations of three servers knowing each other and all places of the client.",
        assumptions: vec!["when the connected server itself fails, an error is as good as 'not found'", "which of several reachable records is returned is left open"],
        bounds: json!({ "servers": if tier == Tier::Quick { 3 } else { 4 }, "chains": 100 }),
        units
    }
}

// ---------------------------------------------------------------- C19

/// What a server answers to listings.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
enum Lists { Of(Vec<usize>), Down, NoBody, Broken(Vec<usize>), OldStandard(Vec<usize>), NotJson }

fn listing(lists: &Lists) -> Result<Json, String> {
    let servers = |list: &[usize]| -> Vec<Json> { list.iter().map(|n| json!({ "public_key": key64(if *n == GHOST { 99 } else { secret_of(*n) }), "address": address(*n) })).collect() };
    Ok(match lists {
        Lists::Of(list) => json!({ "standard": 1, "servers": servers(list) }),
        Lists::Down => return Err("connection refused".into()),
        Lists::NoBody => return Err(NO_BODY.into()),
        Lists::Broken(list) => { let mut servers = servers(list); servers.push(json!({ "public_key": "?", "address": "x" })); json!({ "standard": 1, "servers": servers }) }
        Lists::OldStandard(list) => json!({ "standard": 0, "servers": servers(list) }),
        Lists::NotJson => json!("what?")
    })
}

fn closure(initial: &BTreeSet<usize>, net: &[Lists]) -> BTreeSet<usize> {
    let mut out = initial.clone();
    let mut queue: Vec<usize> = initial.iter().copied().collect();
    while let Some(n) = queue.pop() {
        let Some(Lists::Of(list)) = net.get(n) else { continue };
        for m in list { if out.insert(*m) { queue.push(*m); } }
    }
    out
}

type Records = BTreeSet<(Vec<u8>, String)>;

fn records(list: &[Server]) -> Records { list.iter().map(|s| (s.public_key.to_bytes().to_vec(), s.address.clone())).collect() }

fn wanted(list: &BTreeSet<usize>) -> Records {
    list.iter().map(|n| (public(if *n == GHOST { 99 } else { secret_of(*n) }).to_bytes().to_vec(), address(*n))).collect()
}

/// Traverse one modelled network with a real server 0 and judge the result.
fn traverse(rep: &mut Rep, rt: &tokio::runtime::Runtime, initial: &BTreeSet<usize>, net: &[Lists], again: bool) -> Result<(), String> {
    let folder = rep.folder("server");
    let world = World::shared(&folder);
    world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(1); });
    let _in = world.enter();
    let client = Net::default();
    let plan = net.to_vec();
    client.hook(move |exchange| {
        if exchange.method != "GET" || exchange.path != "/api/v1/servers" { return Some(Err("unexpected request".into())); }
        let n = (0..plan.len()).find(|n| address(*n) == exchange.host)?;
        Some(listing(&plan[n]))
    });
    client.limit(4 * net.len() + 8);
    let result = guard(|| rt.block_on(async {
        let driver: Driver = hyperborealib::drivers::ServerDriver::new(
            GlobalTableRouter::new(std::path::PathBuf::from(&folder).join("router")).await.unwrap(),
            BfsRecursionTraversal,
            StoredQueueMessagesInbox::new(std::path::PathBuf::from(&folder).join("inbox")).await.unwrap(),
            ServerParams { secret_key: secret(HOME), address: address(0) }
        );
        for n in initial { driver.router().index_server(Server::new(public(if *n == GHOST { 99 } else { secret_of(*n) }), address(*n))).await.unwrap(); }
        let kept = client_record(500);
        driver.router().index_local_client(kept.clone()).await.unwrap();
        let mut logs = Vec::new();
        for _ in 0..if again { 2 } else { 1 } {
            driver.traversal().traverse(client.clone(), &driver).await;
            logs.push(client.take_log());
        }
        let servers = driver.router().servers().await.map_err(|e| format!("the listing fails afterwards: {e}"))?;
        let clients = driver.router().local_clients().await.map_err(|e| format!("the listing fails afterwards: {e}"))?;
        if clients != vec![kept] { return Err("the clients changed".into()); }
        Ok((servers, logs))
    })).and_then(|r| r);
    rep.eval();
    let (servers, logs) = result?;
    rep.count("traces_validated_against_impl", 1);
    let want = closure(initial, net);
    for log in &logs {
        rep.count("transitions", log.len() as u64);
        let asked: Vec<&String> = log.iter().map(|e| &e.host).collect();
        if client.over() { return Err(format!("does not end: asked {asked:?}")); }
        if asked.iter().collect::<BTreeSet<_>>().len() != asked.len() { return Err(format!("a server was asked more than once: {asked:?}")); }
        if let Some(host) = asked.iter().find(|h| !want.iter().any(|n| address(*n) == ***h)) { return Err(format!("{host} was asked, though nobody listed it")); }
    }
    let (got, want) = (records(&servers), wanted(&want));
    if servers.len() != got.len() { return Err("a server is listed twice".into()); }
    if got != want {
        let names = |r: &Records| r.iter().map(|(_, a)| a.clone()).collect::<Vec<_>>();
        return Err(format!("knows {:?} afterwards instead of {:?}", names(&got), names(&want)));
    }
    Ok(())
}

fn client_record(n: u64) -> Client { marked_client(n, HOME, 1, ClientType::Thin) }

fn fail19(rep: &mut Rep, initial: &BTreeSet<usize>, net: &[Lists], text: String) {
    let name = format!("server 0 knows {initial:?}, the servers list {net:?}");
    rep.fail(name.chars().take(300).collect::<String>(), format!("{name}: {text}").chars().take(1200).collect::<String>(), json!({ "known": initial, "listed": format!("{net:?}") }));
}

fn maps(rep: &mut Rep, share: usize, shares: usize) {
    let rt = runtime();
    let all = [0, 1, 2, 3];
    let mut menu: Vec<Lists> = subsets(&all).into_iter().map(Lists::Of).collect();
    menu.extend([Lists::Down, Lists::Broken(all.to_vec())]);
    if !rep.quick() { menu.extend([Lists::NoBody, Lists::OldStandard(all.to_vec()), Lists::NotJson, Lists::Of(vec![3, 2, 1]), Lists::Of(vec![2, 2, 1, 1, GHOST])]); }
    let initials: Vec<Vec<usize>> = if rep.quick() { vec![vec![1], vec![0, 1, 2]] } else { vec![vec![1], vec![2, 3], vec![0, 1], vec![0, 1, 2, 3]] };
    let mut n = 0;
    for initial in &initials { for a in &menu { for b in &menu { for c in &menu {
        n += 1;
        if n % shares != share { continue; }
        // Server 0 as the others see it: what it knew at first.
        let net = vec![Lists::Of(initial.clone()), a.clone(), b.clone(), c.clone()];
        let initial: BTreeSet<usize> = initial.iter().copied().collect();
        rep.case(format!("{initial:?} {net:?}"));
        rep.state(&(&initial, &net));
        if let Err(text) = traverse(rep, &rt, &initial, &net, false) { fail19(rep, &initial, &net, text); return; }
    } } } }
}

/// Every menu entry on two servers, every initial knowledge, twice; shapes.
fn small_maps(rep: &mut Rep, share: usize, shares: usize) {
    let rt = runtime();
    let mut n = 0;
    let all = [0, 1, 2, GHOST];
    let mut menu: Vec<Lists> = orderings(&[0, 1, 2]).into_iter().map(Lists::Of).collect();
    menu.extend(subsets(&all).into_iter().filter(|s| s.contains(&GHOST)).map(Lists::Of));
    menu.extend([Lists::Down, Lists::NoBody, Lists::Broken(vec![0, 1, 2]), Lists::OldStandard(vec![0, 1, 2]), Lists::NotJson, Lists::Of(vec![1, 1, 2, 2, 0, 0]), Lists::Of(vec![2, 1, 2])]);
    for initial in subsets(&[0, 1, 2]) { for a in &menu { for b in &menu {
        let initial: BTreeSet<usize> = initial.iter().copied().collect();
        n += 1;
        if n % shares != share { continue; }
        let net = vec![Lists::Of(vec![1, 2]), a.clone(), b.clone()];
        rep.case(format!("{initial:?} {net:?}"));
        rep.state(&(&initial, &net));
        if let Err(text) = traverse(rep, &rt, &initial, &net, true) { fail19(rep, &initial, &net, text); return; }
    } } }
}

fn map_shapes(rep: &mut Rep) {
    let rt = runtime();
    let mut nets: Vec<(Vec<usize>, Vec<Lists>)> = Vec::new();
    for size in (2..10).chain([20, 40, 100]) {
        nets.push((vec![1], (0..size).map(|n| Lists::Of(if n + 1 < size { vec![n + 1] } else { vec![] })).collect()));
        nets.push((vec![1], (0..size).map(|n| Lists::Of(vec![(n + 1) % size])).collect()));
        nets.push((vec![1], (0..size).map(|n| Lists::Of((0..=(n + 1).min(size - 1)).collect())).collect()));
        nets.push((vec![1], (0..size).map(|n| if n == 1 || n == size - 1 { Lists::Of((0..size).collect()) } else { Lists::Down }).collect()));
        nets.push(((1..size).collect(), (0..size).map(|n| if n % 2 == 0 { Lists::Of(vec![size, size + 1]) } else { Lists::Broken(vec![size + 2]) }).collect()));
        if size <= 40 { nets.push((vec![size - 1], (0..size).map(|_| Lists::Of((0..size).collect())).collect())); }
    }
    for (initial, net) in nets {
        let initial: BTreeSet<usize> = initial.into_iter().collect();
        rep.case(format!("{initial:?} {net:?}"));
        rep.state(&(&initial, &net));
        if let Err(text) = traverse(rep, &rt, &initial, &net, true) { fail19(rep, &initial, &net, text); return; }
    }
}

/// Servers listed with different addresses: the known keys are exact, and
/// every known address was listed or known.
fn conflicts(rep: &mut Rep) {
    let rt = runtime();
    // Server 1 lists key k at address a, server 2 lists key k at address b.
    let entries: Vec<(u64, String)> = [0_usize, 1, 2, 5].iter().flat_map(|k| [1_usize, 2, 5, 6].iter().map(move |a| (secret_of(*k), address(*a)))).collect();
    for first in &entries { for second in &entries { for known in [vec![1], vec![1, 2], vec![2, 5]] {
        let folder = rep.folder("server");
        let world = World::shared(&folder);
        world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(1); });
        let _in = world.enter();
        let client = Net::default();
        let list = |(key, address): &(u64, String)| json!({ "standard": 1, "servers": [{ "public_key": key64(*key), "address": address }, { "public_key": key64(secret_of(2)), "address": "s2.example" }] });
        let (one, two) = (list(first), list(second));
        client.hook(move |exchange| match exchange.host.as_str() { "s1.example" => Some(Ok(one.clone())), "s2.example" => Some(Ok(two.clone())), _ => Some(Ok(json!({ "standard": 1, "servers": [] }))) });
        client.limit(30);
        let case = format!("known {known:?}, s1 lists {} at {}, s2 lists {} at {}", first.0, first.1, second.0, second.1);
        rep.case(&case);
        rep.state(&case);
        let result = guard(|| rt.block_on(async {
            let driver: Driver = hyperborealib::drivers::ServerDriver::new(
                GlobalTableRouter::new(std::path::PathBuf::from(&folder).join("router")).await.unwrap(),
                BfsRecursionTraversal,
                StoredQueueMessagesInbox::new(std::path::PathBuf::from(&folder).join("inbox")).await.unwrap(),
                ServerParams { secret_key: secret(HOME), address: address(0) }
            );
            for n in &known { driver.router().index_server(Server::new(public(secret_of(*n)), address(*n))).await.unwrap(); }
            driver.traversal().traverse(client.clone(), &driver).await;
            driver.router().servers().await.map_err(|e| e.to_string())
        })).and_then(|r| r);
        rep.eval();
        let log = client.take_log();
        rep.count("transitions", log.len() as u64);
        rep.count("traces_validated_against_impl", 1);
        let judged = result.and_then(|servers| {
            let asked: Vec<String> = log.iter().map(|e| e.host.clone()).collect();
            if client.over() || asked.iter().collect::<BTreeSet<_>>().len() != asked.len() { return Err(format!("servers were asked repeatedly: {asked:?}")); }
            // All that was known or listed by those asked.
            let mut seen: BTreeSet<(u64, String)> = known.iter().map(|n| (secret_of(*n), address(*n))).collect();
            for host in &asked {
                if host == "s1.example" { seen.insert(first.clone()); seen.insert((secret_of(2), address(2))); }
                if host == "s2.example" { seen.insert(second.clone()); seen.insert((secret_of(2), address(2))); }
            }
            if let Some((_, host)) = seen.iter().find(|(_, a)| !asked.contains(a)) {
                // An address superseded by another of the same key need not be asked.
                let superseded = seen.iter().filter(|(k, a)| seen.iter().any(|(l, b)| k == l && b != a)).any(|(_, a)| a == host);
                if !superseded { return Err(format!("{host} was not asked: {asked:?}")); }
            }
            let keys: BTreeSet<Vec<u8>> = seen.iter().map(|(k, _)| public(*k).to_bytes().to_vec()).collect();
            let got = records(&servers);
            if got.iter().map(|(k, _)| k.clone()).collect::<BTreeSet<_>>() != keys || servers.len() != keys.len() { return Err(format!("knows {servers:?}")); }
            for (key, address) in &got {
                if !seen.iter().any(|(k, a)| public(*k).to_bytes().to_vec() == *key && a == address) { return Err(format!("knows a server at {address}, where nobody listed it")); }
            }
            Ok(())
        });
        if let Err(text) = judged { rep.fail(&case, format!("{case}: {text}"), Json::Null); return; }
    } } }
}

/// Real servers: all relations of three, each updating in turn.
fn real_maps(rep: &mut Rep, share: usize, shares: usize) {
    let rt = runtime();
    for mask in (0..512_u32).filter(|m| m % shares as u32 == share as u32) {
        let folder = rep.folder("net");
        let world = World::shared(&folder);
        world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(u64::from(mask)); });
        let _in = world.enter();
        let case = format!("servers know {:?}", (0..3).map(|n| (0..3).filter(|m| mask >> (n * 3 + m) & 1 == 1).collect::<Vec<usize>>()).collect::<Vec<_>>());
        rep.case(&case);
        rep.state(&case);
        let result = guard(|| rt.block_on(async {
            let net = Net::default();
            let mut servers = Vec::new();
            let mut known: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); 3];
            for n in 0..3 { servers.push(TestServer::start(&net, &secret(secret_of(n)), &address(n), &format!("{folder}/{n}")).await); }
            for n in 0..3 { for m in 0..3 { if mask >> (n * 3 + m) & 1 == 1 { servers[n].middleware.driver().router().index_server(servers[m].record()).await.unwrap(); known[n].insert(m); } } }
            for step in 0..6 {
                let n = step % 3;
                // One server is down in the second round.
                if step == 3 { net.detach(&address(2)); }
                let lists: Vec<Lists> = (0..3).map(|m| if step >= 3 && m == 2 { Lists::Down } else { Lists::Of(known[m].iter().copied().collect()) }).collect();
                net.take_log();
                net.limit(16);
                let driver = servers[n].middleware.driver();
                driver.traversal().traverse(net.clone(), &driver).await;
                let asked: Vec<String> = net.take_log().into_iter().map(|e| e.host).collect();
                if net.over() || asked.iter().collect::<BTreeSet<_>>().len() != asked.len() { return Err(format!("servers were asked repeatedly: {asked:?}")); }
                net.limit(usize::MAX);
                rep.eval();
                rep.count("transitions", asked.len() as u64);
                rep.count("traces_validated_against_impl", 1);
                known[n] = closure(&known[n], &lists);
                let got = driver.router().servers().await.map_err(|e| e.to_string())?;
                if records(&got) != wanted(&known[n]) { return Err(format!("after update {step}, server {n} knows {:?} instead of {:?}", got.iter().map(|s| &s.address).collect::<Vec<_>>(), known[n])); }
            }
            Ok(())
        })).and_then(|r| r);
        if let Err(text) = result { rep.fail(&case, format!("{case}: {text}").chars().take(1200).collect::<String>(), Json::Null); return; }
    }
}

pub fn c19(tier: Tier) -> Property {
    let mut units = vec![Unit::new("shapes", map_shapes), Unit::new("conflicts", conflicts)];
    for share in 0..8 { units.push(Unit::new(format!("small {share}"), move |rep| small_maps(rep, share, 8))); }
    for share in 0..4 { units.push(Unit::new(format!("real {share}"), move |rep| real_maps(rep, share, 4))); }
    let shares = if tier == Tier::Quick { 8 } else { 64 };
    for share in 0..shares { units.push(Unit::new(format!("maps {share}"), move |rep| maps(rep, share, shares))); }
    Property {
        id: "C19",
        level: Level::ModelChecking,
        rule: "A state is what the updating server knows and what every server lists (any set of servers, the updating one and itself included, or a failure or malformed answer). Every such network of the updating server and three others, and long chains, rings, stars and cliques, is put behind the real traversal on a real routing table; its requests and the resulting table are compared with the transitive closure. Real servers are updated in turn for every relation of three.",
        assumptions: vec!["a server listed under several addresses may be kept under any of them"],
        bounds: json!({ "servers": 4, "chains": 100 }),
        units
    }
}
