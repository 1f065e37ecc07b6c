//! C20: addresses.

use std::collections::BTreeSet;

use hyperborealib::address::{parse, Address};
use hyperborealib::prelude::*;
use hyperborealib::rest_api::prelude::Server;
use serde_json::json;

use crate::clients::{b64, key64, unb64, HOME};
use crate::fixture::*;
use crate::net::*;
use crate::report::*;
use crate::sys::*;

/// What a text denotes by the documented table, decided independently.
#[derive(Debug, PartialEq)]
enum Denotes { Client(Vec<u8>, Option<&'static str>), Refused, Http(String), Https(String), Raw }

/// An independent reading of a public key.
fn key_of_text(text: &str) -> Option<Vec<u8>> {
    let bytes = unb64(text)?;
    let key = k256::PublicKey::from_sec1_bytes(&bytes).ok()?;
    Some(key.to_sec1_bytes().to_vec())
}

fn denotes(text: &str) -> Denotes {
    let Some(at) = text.find("://") else { return Denotes::Raw };
    let (scheme, rest) = (&text[..at], &text[at + 3..]);
    let client = |text: &str, kind| key_of_text(text).map(|key| Denotes::Client(key, kind)).unwrap_or(Denotes::Refused);
    match scheme {
        "http" => Denotes::Http(rest.into()),
        "https" => Denotes::Https(rest.into()),
        "hyperborea-client" | "hyp-client" => client(rest, Some("thin")),
        "hyperborea-server" | "hyp-server" => client(rest, Some("server")),
        "hyperborea-file" | "hyp-file" => client(rest, Some("file")),
        "hyperborea" | "hyp" => {
            for kind in ["thin", "thick", "server", "file"] {
                if let Some(rest) = rest.strip_prefix(kind).and_then(|r| r.strip_prefix(':')) { return client(rest, Some(kind)); }
            }
            client(rest, None)
        }
        _ => Denotes::Raw
    }
}

fn kind_name(kind: Option<ClientType>) -> Option<&'static str> {
    kind.map(|k| match k { ClientType::Thin => "thin", ClientType::Thick => "thick", ClientType::Server => "server", ClientType::File => "file" })
}

fn check(rep: &mut Rep, text: &str) -> bool {
    if rep.failed() { return false; }
    let want = denotes(text);
    let got = guard(|| parse(text));
    rep.eval();
    if want != Denotes::Raw { rep.nontrivial(&text); }
    let fine = match (&want, &got) {
        (Denotes::Client(key, kind), Ok(Ok(Address::Hyperborea { public_key, client_type }))) => public_key.to_bytes().to_vec() == *key && kind_name(*client_type) == *kind,
        (Denotes::Http(a), Ok(Ok(Address::Http { address }))) | (Denotes::Https(a), Ok(Ok(Address::Https { address }))) => a == address,
        (Denotes::Refused, Ok(Err(_))) => true,
        // With or without the unsupported scheme.
        (Denotes::Raw, Ok(Ok(Address::Raw(raw)))) => raw == text || text.find("://").is_some_and(|at| raw == &text[at + 3..]),
        _ => false
    };
    if !fine { rep.fail(text, format!("{text:?} denotes {want:?} but was parsed to {got:?}"), json!({ "text": text })); }
    fine
}

/// Only that parsing ends, and refuses client URIs without a key.
pub fn check_refusals(rep: &mut Rep, text: &str) -> bool {
    if rep.failed() { return false; }
    rep.eval();
    let refused = denotes(text) == Denotes::Refused;
    if refused { rep.nontrivial(&text); }
    match guard(|| parse(text).is_ok()) {
        Err(what) => rep.fail(text, format!("parsing {text:?} panics: {what}"), json!({ "text": text })),
        Ok(true) if refused => rep.fail(text, format!("{text:?} is accepted"), json!({ "text": text })),
        _ => return true
    }
    false
}

const SCHEMES: [&str; 8] = ["hyperborea", "hyperborea-client", "hyperborea-server", "hyperborea-file", "hyp", "hyp-client", "hyp-server", "hyp-file"];

fn prefixes() -> Vec<String> {
    let mut out: Vec<String> = SCHEMES.iter().map(|s| format!("{s}://")).collect();
    for scheme in ["hyperborea", "hyp"] { for kind in ["thin", "thick", "server", "file"] { out.push(format!("{scheme}://{kind}:")); } }
    out.push("http://".into());
    out.push("https://".into());
    out
}

/// All sequences of URI pieces.
pub fn pieces(rep: &mut Rep, check: fn(&mut Rep, &str) -> bool, share: usize, shares: usize) {
    let key = key64(5);
    let tokens: Vec<&str> = vec!["hyp", "hyperborea", "-client", "-server", "-file", "-thick", "http", "https", "://", ":", "/", "thin:", "thick:", "server:", "file:", &key, "s1.example:80", "", " ", "HYP"];
    let depth = if rep.quick() { 5 } else { 6 };
    let total = tokens.len().pow(depth);
    for n in 0..total {
        if n % shares != share { continue; }
        let mut text = String::new();
        let mut rest = n;
        for _ in 0..depth { text.push_str(tokens[rest % tokens.len()]); rest /= tokens.len(); }
        if n % 64 == share { rep.case(&text); }
        if !check(rep, &text) { return; }
    }
}

/// Every form with many keys, and everything one edit away.
pub fn edits(rep: &mut Rep, check: fn(&mut Rep, &str) -> bool, share: usize, shares: usize) {
    let keys: Vec<Vec<u8>> = (1..if rep.quick() { 40 } else { 400 }).flat_map(|n| [public(n).to_bytes().to_vec(), secret_neg(n).public_key().to_bytes().to_vec()]).collect();
    for prefix in prefixes() { for key in &keys { if !check(rep, &format!("{prefix}{}", b64(key))) { return; } } }
    // Other forms of the key: uncompressed, hybrid, identity, not on the curve, short, long.
    let point = k256::PublicKey::from_sec1_bytes(&keys[0]).unwrap();
    use k256::elliptic_curve::sec1::ToEncodedPoint;
    let full = point.to_encoded_point(false).as_bytes().to_vec();
    let mut odd: Vec<Vec<u8>> = vec![full.clone(), vec![0], vec![0; 33], vec![], keys[0][..32].to_vec(), { let mut k = keys[0].clone(); k.push(0); k }, vec![255; 33], { let mut k = full.clone(); k[0] = 6; k }, { let mut k = full.clone(); k[64] ^= 1; k }, { let mut k = keys[0].clone(); k[0] = 5; k }];
    for x in 0..40_u8 { let mut k = vec![2; 1]; k.extend([0; 31]); k.push(x); odd.push(k); }
    for prefix in prefixes() { for key in &odd { if !check(rep, &format!("{prefix}{}", b64(key))) { return; } } }
    let mut characters: Vec<char> = "abhtpsAZ09:/-_+=.%@?# \n\0é".chars().collect();
    if !rep.quick() { characters.extend((33..127_u8).map(char::from)); }
    for (n, prefix) in prefixes().iter().enumerate() {
        if n % shares != share { continue; }
        for body in [key64(5), "s1.example:80/path".to_string()] {
            let text: Vec<char> = format!("{prefix}{body}").chars().collect();
            rep.case(text.iter().collect::<String>());
            for at in 0..=text.len() {
                if at < text.len() {
                    let mut edit = text.clone(); edit.remove(at);
                    if !check(rep, &edit.iter().collect::<String>()) { return; }
                    let mut edit = text.clone(); edit.insert(at, text[at]);
                    if !check(rep, &edit.iter().collect::<String>()) { return; }
                    let mut edit = text.clone(); edit[at] = if text[at].is_uppercase() { text[at].to_ascii_lowercase() } else { text[at].to_ascii_uppercase() };
                    if !check(rep, &edit.iter().collect::<String>()) { return; }
                }
                for c in &characters {
                    let mut edit = text.clone(); edit.insert(at, *c);
                    if !check(rep, &edit.iter().collect::<String>()) { return; }
                    if at < text.len() { let mut edit = text.clone(); edit[at] = *c; if !check(rep, &edit.iter().collect::<String>()) { return; } }
                }
            }
        }
    }
}

const ME: u64 = 3;
const PEER: u64 = 4;

/// Where a peer can be known: at home, announced at home, at a hinted server,
/// announced at a hinted server, nowhere.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Place { Home, ToldHome(usize), Hinted(usize), Nowhere }

const PLACES: [Place; 6] = [Place::Home, Place::ToldHome(1), Place::ToldHome(2), Place::Hinted(1), Place::Hinted(2), Place::Nowhere];

fn host(n: usize) -> String { format!("s{n}.example") }

/// Real servers, every place of the peer and every URI form: sends and
/// announcements arrive at exactly the right server.
fn deliveries(rep: &mut Rep, place: Place) {
    let rt = runtime();
    for registered in TYPES { for second in [None, Some(TYPES[0]), Some(TYPES[2])] {
        if second == Some(registered) || second.is_some() && place == Place::Home { continue; }
        let folder = rep.folder("net");
        let world = World::shared(&folder);
        world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(3); });
        let _in = world.enter();
        let mut case = String::new();
        let result = guard(|| rt.block_on(async {
            let net = Net::default();
            let mut servers = Vec::new();
            for n in 0..4 { servers.push(TestServer::start(&net, &secret(HOME + n as u64), &host(n), &format!("{folder}/{n}")).await); }
            // Home hints at 1 and 2; nobody knows 3.
            for n in [1, 2] { servers[0].middleware.driver().router().index_server(servers[n].record()).await.unwrap(); }
            let me = ClientMiddleware::new(net.clone(), ClientDriver::new(ClientInfo::thin(), secret(ME))).connect_to(host(0), public(HOME)).await.map_err(|e| e.to_string())?;
            let info = |t: ClientType| ClientInfo::new(t, Some("peer.example".to_string()));
            let register = |n: usize, t: ClientType| { let net = net.clone(); async move {
                ClientMiddleware::new(net, ClientDriver::new(info(t), secret(PEER))).connect_to(host(n), public(HOME + n as u64)).await
            } };
            // (type, server) as the lookup finds them.
            let mut found: Vec<(ClientType, usize)> = Vec::new();
            // A record of another type, local at home.
            if let Some(second) = second { register(0, second).await.map_err(|e| e.to_string())?; found.push((second, 0)); }
            match place {
                Place::Home => { register(0, registered).await.map_err(|e| e.to_string())?; found.push((registered, 0)); }
                Place::ToldHome(n) => {
                    let peer = register(n, registered).await.map_err(|e| e.to_string())?;
                    peer.announce("http://s0.example").await.map_err(|e| e.to_string())?;
                    found.push((registered, n));
                }
                Place::Hinted(n) => { register(n, registered).await.map_err(|e| e.to_string())?; found.push((registered, n)); }
                Place::Nowhere => ()
            }
            let mut uris: Vec<(String, Option<usize>)> = Vec::new();
            for form in prefixes() {
                if form.starts_with("http") { continue; }
                let text = format!("{form}{}", key64(PEER));
                let Denotes::Client(_, kind) = denotes(&text) else { return Err("oracle".into()) };
                let to = found.iter().find(|(t, _)| kind.is_none() || kind == kind_name(Some(*t))).map(|(_, n)| *n);
                uris.push((text, to));
                // Another client's address does not lead to this one's server.
                uris.push((format!("{form}{}", key64(66)), None));
            }
            for n in 0..4 { uris.push((format!("http://{}", host(n)), Some(n))); uris.push((format!("https://{}", host(n)), Some(n))); }
            uris.push(("http://nobody.example".into(), None));
            uris.push(("hyp://?".into(), None));
            uris.push((format!("hyp://thin:{}x", key64(PEER)), None));
            for (n, (uri, to)) in uris.into_iter().enumerate() {
                let resolved = hyperborealib::address::resolve(&uri, &me).await;
                case = format!("peer {place:?} as {registered:?} (and {second:?} at home), to {uri}");
                rep.state(&case);
                rep.eval();
                let expected = to.map(|n| if uri.starts_with("https") { format!("https://{}", host(n)) } else { format!("http://{}", host(n)) });
                let plain = uri == "http://nobody.example";
                match (&resolved, &expected) {
                    (Ok(url), Some(want)) if url == want => (),
                    (Ok(url), None) if plain && url == &uri => (),
                    (Err(_), None) if !plain => (),
                    _ => return Err(format!("resolved to {resolved:?} instead of {expected:?}"))
                }
                net.take_log();
                let sent = me.send(&uri, public(PEER), "chan", plain_message(n)).await;
                check_urls(&net, expected.as_deref(), "/api/v1/send")?;
                if sent.is_ok() != to.is_some() { return Err(format!("sending ended in {sent:?}")); }
                let announced = me.announce(&uri).await;
                check_urls(&net, expected.as_deref(), "/api/v1/announce")?;
                if announced.is_ok() != to.is_some() { return Err(format!("announcing ended in {announced:?}")); }
                rep.count("transitions", 2);
                rep.count("traces_validated_against_impl", 2);
                for (m, server) in servers.iter().enumerate() {
                    let driver = server.middleware.driver();
                    let (messages, left) = driver.messages_inbox().poll_messages(public(PEER), "chan".into(), None).await.map_err(|e| e.to_string())?;
                    let contents: Vec<String> = messages.iter().map(|i| i.message.content.clone()).collect();
                    let want = if to == Some(m) { vec![plain_message(n).content] } else { vec![] };
                    if contents != want || left != 0 { return Err(format!("{} holds {contents:?}, not {want:?}", host(m))); }
                    let known = driver.router().lookup_remote_client(&public(ME), None).await.map_err(|e| e.to_string())?;
                    if known.is_some() != (to == Some(m)) { return Err(format!("{} was announced to: {}", host(m), known.is_some())); }
                    if let Some((client, server, _)) = known { if client != me.get_client() || server != *me.connected_server() { return Err(format!("announced {client:?} at {server:?}")); } }
                    // Forget the announcement again.
                    driver.router().disconnect(&public(ME)).await.map_err(|e| e.to_string())?;
                }
                // The disconnect above also made home forget this client.
                me.disconnected().connect_to(host(0), public(HOME)).await.map_err(|e| e.to_string())?;
            }
            Ok(())
        })).and_then(|r| r);
        if let Err(text) = result { rep.fail(&case, format!("{case}: {text}").chars().take(1200).collect::<String>(), json!({ "case": case })); return; }
    } }
}

/// Every address of pieces, as that of an HTTP server and of a client's server.
fn resolutions(rep: &mut Rep, share: usize, shares: usize) {
    let tokens = ["s1.example", "S1", "127.0.0.1", "[::1]", ":80", ":443", ":8080", ":", "/", "/a", "?b=c", "#d", "user@", "http", "https", "://", "", " ", "é", "hyp", "."];
    let depth = if rep.quick() { 4 } else { 5 };
    let rt = runtime();
    let folder = rep.folder("resolve");
    let world = World::shared(&folder);
    world.with(|w| { w.now = Some(1_800_000_000); w.random = Some(3); });
    let _in = world.enter();
    let mut case = String::new();
    let result = guard(|| rt.block_on(async {
        let net = Net::default();
        let home = TestServer::start(&net, &secret(HOME), &host(0), &format!("{folder}/0")).await;
        let me = ClientMiddleware::new(net.clone(), ClientDriver::new(ClientInfo::thin(), secret(ME))).connect_to(host(0), public(HOME)).await.map_err(|e| e.to_string())?;
        for n in 0..tokens.len().pow(depth) {
            if n % shares != share { continue; }
            let (mut address, mut rest) = (String::new(), n);
            for _ in 0..depth { address.push_str(tokens[rest % tokens.len()]); rest /= tokens.len(); }
            case = address.clone();
            if n % 64 == share { rep.case(&case); }
            rep.nontrivial(&address);
            for scheme in ["http", "https"] {
                let uri = format!("{scheme}://{address}");
                let got = hyperborealib::address::resolve(&uri, &me).await;
                rep.eval();
                if got.as_ref().ok() != Some(&uri) { return Err(format!("{uri:?} is resolved to {got:?}")); }
            }
            // The announced server of a client; fewer of them are needed.
            if n / shares % 8 != 0 { continue; }
            let record = crate::fixture::client(&secret(PEER), &public(11), 1_700_000_000, ClientInfo::new(TYPES[1], Some("peer.example")));
            home.middleware.driver().router().index_remote_client(record, Server::new(public(11), &address)).await.map_err(|e| e.to_string())?;
            let got = hyperborealib::address::resolve(format!("hyp://{}", key64(PEER)), &me).await;
            rep.eval();
            if got.as_ref().ok() != Some(&format!("http://{address}")) { return Err(format!("a client at {address:?} is resolved to {got:?}")); }
        }
        Ok(())
    })).and_then(|r| r);
    if let Err(text) = result { rep.fail(&case, format!("address {case:?}: {text}"), json!({ "address": case })); }
}

fn plain_message(n: usize) -> Message { plain(&format!("m{n}")) }

fn check_urls(net: &Net, expected: Option<&str>, path: &str) -> Result<(), String> {
    let urls: BTreeSet<String> = net.take_log().into_iter().filter(|e| e.path == path || e.url.ends_with(path)).map(|e| e.url).collect();
    match expected {
        Some(base) if urls == BTreeSet::from([format!("{base}{path}")]) => Ok(()),
        None if urls.is_empty() || urls == BTreeSet::from([format!("http://nobody.example{path}")]) => Ok(()),
        _ => Err(format!("requested {urls:?} instead of {expected:?}{path}"))
    }
}

pub fn c20(_tier: Tier) -> Property {
    let _ = Server::new(public(1), "");
    let mut units: Vec<Unit> = PLACES.iter().map(|p| { let p = *p; Unit::new(format!("{p:?}"), move |rep| deliveries(rep, p)) }).collect();
    for share in 0..8 {
        units.push(Unit::new(format!("pieces {share}"), move |rep| pieces(rep, check, share, 8)));
        units.push(Unit::new(format!("edits {share}"), move |rep| edits(rep, check, share, 8)));
        units.push(Unit::new(format!("resolutions {share}"), move |rep| resolutions(rep, share, 8)));
    }
    Property {
        id: "C20",
        level: Level::ModelChecking,
        rule: "States are networks of four servers with the peer in every place, under every type, together with every form of address; each is resolved, sent to and announced to on real servers, whose stores are compared. Every address put together from pieces is resolved as that of an HTTP(S) server and of a client's server. Parsing is compared with an independent reading of the documented table on every sequence of URI pieces to a depth, every form with many keys, and everything one edit away from a form.",
        assumptions: vec!["a raw address may be kept with or without the unsupported scheme in front of it"],
        bounds: json!({ "pieces": 20, "piece_depth": if _tier == Tier::Quick { 5 } else { 6 }, "edits": 1, "address_pieces": 21, "address_depth": if _tier == Tier::Quick { 4 } else { 5 } }),
        units
    }
}
