//! C21: port forwarding, on a simulated gateway.

use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;

use easy_upnp::sim::{self, Call, Mapping};
use hyperborealib::port_forward::{PortForwarder, Protocol, UpnpPortForwarder};
use serde_json::json;

use crate::fixture::runtime;
use crate::report::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Op { Open(u16, Protocol, u64), Close(u16, Protocol), Discard }

use Op::*;

const PROTOCOLS: [Protocol; 3] = [Protocol::TCP, Protocol::UDP, Protocol::Both];

fn requested(port: u16, protocol: Protocol) -> Vec<Mapping> {
    match protocol { Protocol::TCP => vec![(port, false)], Protocol::UDP => vec![(port, true)], Protocol::Both => vec![(port, false), (port, true)] }
}

/// A mapping that somebody else made.
const FOREIGN: [(Mapping, u32); 3] = [((80, false), 7), ((9000, false), 7), ((9000, true), 7)];

/// One operation on a forwarder (of two) with the outcomes of its calls.
type Step = (usize, Op, u64);

/// Run a history on fresh forwarders. Gives the number of gateway calls of
/// the last step.
fn run(rep: &mut Rep, rt: &tokio::runtime::Runtime, steps: &[Step], foreign: bool) -> Result<u32, String> {
    sim::reset();
    let forwarders = [UpnpPortForwarder::new(), UpnpPortForwarder::new()];
    let mut held: [BTreeMap<Mapping, u32>; 2] = Default::default();
    if foreign { sim::gateway().as_mut().unwrap().mappings.extend(FOREIGN); }
    let mut made = 0;
    for (n, (who, op, mask)) in steps.iter().enumerate() {
        {
            let mut gateway = sim::gateway();
            let gateway = gateway.as_mut().unwrap();
            gateway.calls.clear();
            gateway.made = 0;
            gateway.fail_mask = *mask;
        }
        let before = held[*who].clone();
        let told = guard(|| rt.block_on(async {
            let forwarder = &forwarders[*who];
            match *op {
                Open(port, protocol, lease) => forwarder.open(port, protocol, Duration::from_secs(lease)).await,
                Close(port, protocol) => forwarder.close(port, protocol).await,
                Discard => forwarder.discard().await
            }.map_err(|err| err.to_string())
        }))?;
        let (calls, mappings) = { let gateway = sim::gateway(); let gateway = gateway.as_ref().unwrap(); made = gateway.made; (gateway.calls.clone(), gateway.mappings.clone()) };
        if n + 1 == steps.len() { rep.count("transitions", 1); }
        let failed = calls.iter().any(|c| matches!(c, Call::Add { ok: false, .. } | Call::Remove { ok: false, .. }));
        for call in &calls {
            match call {
                Call::Add { mapping, duration, ok } => {
                    let Open(port, protocol, lease) = *op else { return Err(format!("made a mapping: {call:?}")) };
                    if !requested(port, protocol).contains(mapping) || u64::from(*duration) != lease { return Err(format!("asked for another mapping: {call:?}")); }
                    if *ok { held[*who].insert(*mapping, *duration); }
                }
                Call::Remove { mapping, ok } => {
                    if !held[*who].contains_key(mapping) { return Err(format!("removed a mapping it does not hold: {call:?}")); }
                    let asked = match *op { Open(port, protocol, _) | Close(port, protocol) => requested(port, protocol).contains(mapping), Discard => true };
                    if !asked { return Err(format!("removed a mapping not asked for: {call:?}")); }
                    if *ok { held[*who].remove(mapping); }
                }
            }
        }
        let success = told == Ok(true);
        if !failed && !success { return Err(format!("ended in {told:?} though the gateway did all it was asked")); }
        match *op {
            Open(port, protocol, lease) => {
                for mapping in requested(port, protocol) {
                    if success && mappings.get(&mapping).map(|l| u64::from(*l)) != Some(lease) { return Err(format!("reported success, but the gateway has {mappings:?}")); }
                }
            }
            Close(port, protocol) => {
                let attempted: BTreeSet<Mapping> = calls.iter().filter_map(|c| if let Call::Remove { mapping, .. } = c { Some(*mapping) } else { None }).collect();
                for mapping in requested(port, protocol) {
                    if success && held[*who].contains_key(&mapping) { return Err(format!("reported success, but {mapping:?} is still there")); }
                    if before.contains_key(&mapping) && !attempted.contains(&mapping) { return Err(format!("did not try to remove {mapping:?}")); }
                }
            }
            Discard => {
                let attempted: BTreeSet<Mapping> = calls.iter().filter_map(|c| if let Call::Remove { mapping, .. } = c { Some(*mapping) } else { None }).collect();
                if let Some(mapping) = before.keys().find(|m| !attempted.contains(m)) { return Err(format!("did not try to remove {mapping:?}")); }
                if success && !held[*who].is_empty() { return Err(format!("reported success, but {:?} are still there", held[*who])); }
            }
        }
        rep.state(&(&held, &mappings));
    }
    rep.count("traces_validated_against_impl", 1);
    rep.eval();
    Ok(made)
}

fn explore(rep: &mut Rep, rt: &tokio::runtime::Runtime, menu: &[(usize, Op)], steps: &mut Vec<Step>, depth: usize, foreign: bool) -> bool {
    if depth == 0 { return true; }
    for (who, op) in menu {
        // With no failure first, to see how many calls there are.
        let mut mask = 0;
        let mut limit = 1;
        while mask < limit {
            steps.push((*who, *op, mask));
            rep.case(format!("{steps:?}"));
            match run(rep, rt, steps, foreign) {
                Ok(made) => { if mask == 0 { limit = 1 << made.min(6); } else if made > 0 && made < 7 { limit = limit.max(1 << made); } }
                Err(text) => {
                    let name = describe(steps);
                    rep.fail(name.chars().take(300).collect::<String>(), format!("{name}: the last step {text}"), json!({ "steps": name }));
                    return false;
                }
            }
            if !explore(rep, rt, menu, steps, depth - 1, foreign) { return false; }
            steps.pop();
            mask += 1;
        }
    }
    true
}

fn describe(steps: &[Step]) -> String {
    steps.iter().map(|(who, op, mask)| format!("{op:?}{}{}", if *who > 0 { " by another forwarder" } else { "" }, if *mask > 0 { format!(" with calls failing {mask:b}") } else { String::new() })).collect::<Vec<_>>().join(", ")
}

fn ops(ports: &[u16], leases: &[u64]) -> Vec<Op> {
    let mut out = vec![Discard];
    for port in ports { for protocol in PROTOCOLS { for lease in leases { out.push(Open(*port, protocol, *lease)); } out.push(Close(*port, protocol)); } }
    out
}

pub fn c21(tier: Tier) -> Property {
    let mut units = Vec::new();
    let deeper = usize::from(tier == Tier::Thorough);
    let configs: [(&str, Vec<(usize, Op)>, usize, bool); 4] = [
        ("one port", ops(&[80], &[60]).into_iter().map(|o| (0, o)).collect(), 5 + deeper, false),
        ("two ports", ops(&[80, 81], &[60]).into_iter().map(|o| (0, o)).collect(), 4 + deeper, true),
        ("leases", ops(&[0, 65535], &[0, 1, 3600, u64::from(u32::MAX)]).into_iter().map(|o| (0, o)).collect(), 2 + deeper, true),
        ("two forwarders", ops(&[80], &[60]).into_iter().flat_map(|o| [(0, o), (1, o)]).filter(|(who, o)| *who == 0 || !matches!(o, Open(_, Protocol::UDP, _) | Close(_, Protocol::UDP))).collect(), 4 + deeper, false)
    ];
    for (name, menu, depth, foreign) in configs {
        // One unit per first operation.
        for first in menu.clone() {
            let menu = menu.clone();
            units.push(Unit::new(format!("{name}: {first:?}"), move |rep| {
                let rt = runtime();
                let mut steps = Vec::new();
                // The first operation with all outcomes, then everything.
                for mask in 0..4 {
                    steps.push((first.0, first.1, mask));
                    match run(rep, &rt, &steps, foreign) {
                        Ok(made) if mask >= 1 << made => { steps.pop(); continue; }
                        Ok(_) => (),
                        Err(text) => { let name = describe(&steps); rep.fail(&name, format!("{name}: the last step {text}"), json!({ "steps": name })); return; }
                    }
                    if !explore(rep, &rt, &menu, &mut steps, depth - 1, foreign) { return; }
                    steps.pop();
                }
            }));
        }
    }
    Property {
        id: "C21",
        level: Level::ModelChecking,
        rule: "Every sequence of opening, closing (TCP, UDP, both) and discarding to a depth, with every combination of gateway calls failing, is run on the real forwarder over a simulated gateway; which mappings it holds follows from the calls the gateway granted, and every result, call and lease is judged against that. A state is what is held and what is on the gateway.",
        assumptions: vec!["the simulated easy_upnp has the real one's interface; a call that fails has had no effect", "leases are at most 2^32-1 seconds, as in the UPnP protocol"],
        bounds: json!({ "one_port_depth": 5 + deeper, "two_ports_depth": 4 + deeper, "two_forwarders_depth": 4 + deeper }),
        units
    }
}
