//! C10-C14: the messages inbox.

use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

use hyperborealib::prelude::*;
use serde_json::{json, Value as Json};

use crate::explore::{dfs, run_ops, NONDETERMINISTIC};
use crate::fixture::*;
use crate::net::*;
use crate::report::*;
use crate::sys::*;

pub type Inbox = StoredQueueMessagesInbox;

/// One operation on the inbox of receiver `to`.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Op {
    Send { to: u64, channel: String, text: String },
    Poll { to: u64, channel: String, limit: Option<u64> }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Out {
    Sent,
    Polled(Vec<String>, u64),
    Failed(String)
}

pub fn send(to: u64, channel: &str, text: &str) -> Op { Op::Send { to, channel: channel.into(), text: text.into() } }
pub fn poll(to: u64, channel: &str, limit: Option<u64>) -> Op { Op::Poll { to, channel: channel.into(), limit } }

impl Op {
    pub fn inbox(&self) -> (u64, String) {
        match self { Op::Send { to, channel, .. } | Op::Poll { to, channel, .. } => (*to, channel.clone()) }
    }

    pub fn text(&self) -> String {
        match self {
            Op::Send { to, channel, text } => format!("send({to},{channel},{text})"),
            Op::Poll { to, channel, limit } => format!("poll({to},{channel},{limit:?})")
        }
    }
}

/// What is stored for the message `text`: sender key scalar 7 at server 8.
pub fn stored(text: &str) -> (Sender, Message) { (sender(7, 8), plain(text)) }

/// The text of a polled message, or a description of how it was corrupted.
pub fn text_of(info: &MessageInfo, channel: &str) -> String {
    let (sender, message) = stored(&info.message.content);
    if info.sender != sender { return format!("<sender changed: {:?}>", info.sender); }
    if info.message != message { return format!("<message changed: {:?}>", info.message); }
    if info.channel != channel { return format!("<channel changed: {:?}>", info.channel); }
    info.message.content.clone()
}

pub async fn exec(inbox: &Inbox, op: &Op) -> Out {
    match op {
        Op::Send { to, channel, text } => {
            let (sender, message) = stored(text);
            match inbox.add_message(sender, public(*to), channel.clone(), message).await {
                Ok(()) => Out::Sent,
                Err(err) => Out::Failed(err.to_string())
            }
        }
        Op::Poll { to, channel, limit } => match inbox.poll_messages(public(*to), channel.clone(), *limit).await {
            Ok((messages, left)) => Out::Polled(messages.iter().map(|m| text_of(m, channel)).collect(), left),
            Err(err) => Out::Failed(err.to_string())
        }
    }
}

/// The specification: one FIFO queue per receiver and channel.
#[derive(Debug, Clone, Default, PartialEq, Eq, Hash)]
pub struct Model(pub BTreeMap<(u64, String), Vec<String>>);

impl Model {
    pub fn apply(&mut self, op: &Op) -> Out {
        let queue = self.0.entry(op.inbox()).or_default();
        match op {
            Op::Send { text, .. } => { queue.push(text.clone()); Out::Sent }
            Op::Poll { limit, .. } => {
                let n = limit.map(|l| l.min(queue.len() as u64) as usize).unwrap_or(queue.len());
                let taken = queue.drain(..n).collect();
                Out::Polled(taken, queue.len() as u64)
            }
        }
    }

    pub fn clean(mut self) -> Model { self.0.retain(|_, q| !q.is_empty()); self }
}

/// Empty every given inbox and say what was in it: the first message through
/// the living driver, the rest through a restarted one.
pub fn drain(rt: &tokio::runtime::Runtime, inbox: &Inbox, keys: &[(u64, String)]) -> Result<Model, String> {
    let mut model = Model::default();
    rt.block_on(async {
        for (to, channel) in keys {
            match exec(inbox, &poll(*to, channel, Some(1))).await {
                Out::Polled(messages, _) => model.0.entry((*to, channel.clone())).or_default().extend(messages),
                other => return Err(format!("the final poll of ({to},{channel}) failed: {other:?}"))
            }
        }
        let fresh = Inbox::new(inbox.storage_folder.clone()).await.map_err(|err| format!("reopening failed: {err}"))?;
        for (to, channel) in keys {
            match exec(&fresh, &poll(*to, channel, None)).await {
                Out::Polled(messages, 0) => model.0.entry((*to, channel.clone())).or_default().extend(messages),
                other => return Err(format!("the final poll of ({to},{channel}) after a restart failed: {other:?}"))
            }
            match exec(&fresh, &poll(*to, channel, None)).await {
                Out::Polled(messages, 0) if messages.is_empty() => (),
                other => return Err(format!("a poll of the emptied inbox ({to},{channel}) gave {other:?}"))
            }
        }
        Ok(())
    })?;
    Ok(model.clean())
}

pub fn open(rt: &tokio::runtime::Runtime, folder: &str) -> Inbox {
    rt.block_on(Inbox::new(PathBuf::from(folder))).unwrap()
}

// ---------------------------------------------------------------- C12

#[derive(Debug, Clone)]
struct Event { op: Op, out: Out, start: u64, end: u64 }

/// Whether some sequential order of the events, respecting their real-time
/// order, explains all results and the final contents.
fn linearizable(initial: &Model, events: &[Event], last: &Model) -> bool {
    fn go(model: &Model, events: &[Event], used: u32, last: &Model) -> bool {
        if used.count_ones() as usize == events.len() { return &model.clone().clean() == last; }
        (0..events.len()).any(|n| {
            if used & 1 << n != 0 { return false; }
            let mine = &events[n];
            let minimal = (0..events.len()).all(|m| m == n || used & 1 << m != 0 || events[m].end > mine.start);
            if !minimal { return false; }
            let mut next = model.clone();
            next.apply(&mine.op) == mine.out && go(&next, events, used | 1 << n, last)
        })
    }
    go(initial, events, 0, last)
}

#[derive(Debug, Clone)]
struct Scenario {
    initial: Vec<Op>,
    /// Each list is a sequence of operations of one caller.
    callers: Vec<Vec<Op>>,
    bound: u32,
    /// Through a server's endpoints, or on the inbox itself.
    server: bool
}

fn schedule(rep: &mut Rep, scenario: &Scenario) {
    let describe = || {
        let callers: Vec<String> = scenario.callers.iter().map(|c| c.iter().map(Op::text).collect::<Vec<_>>().join("; ")).collect();
        format!("[{}] then {}{}", scenario.initial.iter().map(Op::text).collect::<Vec<_>>().join("; "), callers.join(" || "), if scenario.server { " by requests" } else { "" })
    };
    let name = describe();
    let mut initial = Model::default();
    for op in &scenario.initial { initial.apply(op); }
    let mut keys: Vec<(u64, String)> = scenario.initial.iter().chain(scenario.callers.iter().flatten()).map(Op::inbox).collect();
    keys.sort();
    keys.dedup();
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    dfs(rep, scenario.bound, 2_000_000, |rep, prefix| {
        let folder = rep.folder("inbox");
        let world = World::new(&folder);
        world.with(|w| { w.now = Some(1_700_000_000); w.random = Some(1); });
        rep.case(format!("{name} schedule {prefix:?}"));
        let rt = runtime();
        let face = {
            let _in = world.enter();
            rt.block_on(async {
                let face = Face::open(scenario.server, &folder).await;
                for op in &scenario.initial { assert_eq!(face.exec(op).await.0, Out::Sent); }
                Arc::new(face)
            })
        };
        drop(rt);
        let events: Arc<Mutex<Vec<Event>>> = Arc::default();
        let ops: Vec<Box<dyn FnOnce() + Send>> = scenario.callers.iter().cloned().enumerate().map(|(n, caller)| {
            // The second caller has a handle of its own to the same inbox.
            let handle = match &*face { Face::Driver(inbox) if n == 1 => Arc::new(Face::Driver(inbox.clone())), _ => face.clone() };
            let (face, events) = (handle, events.clone());
            Box::new(move || {
                let rt = runtime();
                for op in caller {
                    let start = world.tick();
                    let out = match guard(|| rt.block_on(face.exec(&op))) { Ok((out, _)) => out, Err(text) => Out::Failed(text) };
                    let end = world.tick();
                    events.lock().unwrap().push(Event { op, out, start, end });
                }
                world.end_op();
                drop(rt);
            }) as Box<dyn FnOnce() + Send>
        }).collect();
        let run = run_ops(world, prefix, 20_000, ops);
        rep.eval();
        let choices: Vec<usize> = run.trace.iter().map(|c| c.chosen).collect();
        let key = name.clone();
        if run.outcome == NONDETERMINISTIC { return Some(run); }
        if run.outcome != "done" {
            rep.fail(key, format!("{name}: {}", run.outcome), json!({ "schedule": choices }));
            return None;
        }
        let events = events.lock().unwrap().clone();
        let show: Vec<String> = events.iter().map(|e| format!("{} = {:?} [{},{}]", e.op.text(), e.out, e.start, e.end)).collect();
        let _in = world.enter();
        let rt = runtime();
        let last = match guard(|| face.drain(&rt, &keys)).and_then(|r| r) {
            Ok(last) => last,
            Err(text) => {
                rep.fail(key, format!("{name}: {text}; results {show:?}"), json!({ "schedule": choices, "results": show }));
                return None;
            }
        };
        drop(rt);
        if !linearizable(&initial, &events, &last) {
            rep.fail(key, format!("{name}: results {show:?} with final contents {:?} match no sequential order", last.0), json!({ "schedule": choices, "results": show, "final": format!("{:?}", last.0) }));
            return None;
        }
        rep.count("traces_validated_against_impl", 1);
        *outcomes.entry(format!("{:?} {:?}", events.iter().map(|e| (e.op.text(), &e.out)).collect::<Vec<_>>(), last.0)).or_default() += 1;
        world.free();
        Some(run)
    });
    rep.count("distinct_outcomes", outcomes.len() as u64);
    rep.sample(|| json!({ "scenario": name, "preemptions": scenario.bound, "outcomes": outcomes.into_iter().take(4).map(|(o, n)| format!("{n} x {o}")).collect::<Vec<_>>() }));
}

pub fn c12(tier: Tier) -> Property {
    let quick = tier == Tier::Quick;
    let mut scenarios: Vec<Scenario> = Vec::new();
    let seed = |n: usize| -> Vec<Op> { (0..n).map(|i| send(1, "a", &format!("i{i}"))).collect() };
    let polls = [None, Some(1), Some(0), Some(2)];
    let deep = if quick { 3 } else { 4 };
    // Pairs on one inbox.
    for n in 0..3 {
        scenarios.push(Scenario { initial: seed(n), callers: vec![vec![send(1, "a", "x")], vec![send(1, "a", "y")]], bound: deep, server: false });
        for limit in &polls[..if quick { 2 } else { 4 }] {
            scenarios.push(Scenario { initial: seed(n), callers: vec![vec![send(1, "a", "x")], vec![poll(1, "a", *limit)]], bound: deep, server: false });
            for other in &polls[..2] {
                if quick && n == 1 { continue; }
                scenarios.push(Scenario { initial: seed(n), callers: vec![vec![poll(1, "a", *other)], vec![poll(1, "a", *limit)]], bound: deep, server: false });
            }
        }
    }
    // Different inboxes, the first operation on each.
    for (to, channel) in [(1, "b"), (2, "a")] {
        scenarios.push(Scenario { initial: vec![], callers: vec![vec![send(1, "a", "x")], vec![send(to, channel, "y")]], bound: 2, server: false });
        scenarios.push(Scenario { initial: vec![send(1, "a", "i0"), send(to, channel, "j0")], callers: vec![vec![poll(1, "a", None)], vec![send(to, channel, "y")]], bound: 2, server: false });
        scenarios.push(Scenario { initial: vec![send(1, "a", "i0"), send(to, channel, "j0")], callers: vec![vec![poll(1, "a", None)], vec![poll(to, channel, None)]], bound: 2, server: false });
    }
    // Three callers, and callers making two calls.
    let three = if quick { 2 } else { 3 };
    scenarios.push(Scenario { initial: vec![], callers: vec![vec![send(1, "a", "x")], vec![send(1, "a", "y")], vec![send(1, "a", "z")]], bound: three, server: false });
    scenarios.push(Scenario { initial: seed(1), callers: vec![vec![send(1, "a", "x")], vec![send(1, "a", "y")], vec![poll(1, "a", None)]], bound: three, server: false });
    scenarios.push(Scenario { initial: seed(2), callers: vec![vec![send(1, "a", "x")], vec![poll(1, "a", Some(1))], vec![poll(1, "a", None)]], bound: three, server: false });
    scenarios.push(Scenario { initial: seed(1), callers: vec![vec![send(1, "a", "x"), poll(1, "a", Some(1))], vec![send(1, "a", "y"), poll(1, "a", None)]], bound: three, server: false });
    scenarios.push(Scenario { initial: vec![], callers: vec![vec![send(1, "a", "x"), send(1, "a", "y")], vec![poll(1, "a", None), poll(1, "a", None)]], bound: three, server: false });
    // The same through a server's endpoints.
    let by_requests: Vec<Scenario> = scenarios.iter().filter(|s| !quick || s.initial.len() != 1 || s.callers.len() > 2).cloned()
        .map(|s| Scenario { bound: s.bound.min(if quick { 2 } else { 3 }), server: true, ..s }).collect();
    scenarios.extend(by_requests);
    Property {
        id: "C12",
        level: Level::ModelChecking,
        rule: "Each scenario gives initial messages and up to three concurrent callers; every schedule of their file-system, lock and thread steps with at most the stated number of preemptions is executed on the real inbox, and again with the calls made through a server's endpoints, and its results and final contents are compared with all sequential orders of a FIFO model. A scenario is non-trivial if at least two operations overlap.",
        assumptions: vec!["scheduling points are file-system calls and blocking synchronisation; code between them touches shared memory only through std/tokio synchronisation", "callers run on separate threads, as on a multi-threaded runtime"],
        bounds: json!({ "callers": 3, "operations_per_caller": 2, "initial_messages": 2, "preemptions_pairs": deep, "preemptions_other": [three, 2], "preemptions_by_requests": if quick { 2 } else { 3 } }),
        units: scenarios.into_iter().enumerate().map(|(n, scenario)| {
            Unit::new(format!("schedule-{n}"), move |rep| {
                rep.nontrivial(&n);
                schedule(rep, &scenario)
            })
        }).collect()
    }
}


// ---------------------------------------------------------------- C10

/// Pairs of inboxes that a faulty naming scheme could confuse.
fn inbox_pairs() -> Vec<(&'static str, [(Who, &'static str); 2])> {
    use Who::*;
    vec![
        ("channels", [(Key(1), "a"), (Key(1), "b")]),
        ("channel-prefix", [(Key(1), "a"), (Key(1), "ab")]),
        ("channel-case", [(Key(1), "News"), (Key(1), "news")]),
        ("receivers", [(Key(1), "a"), (Key(2), "a")]),
        ("receiver-opposite", [(Key(3), "a"), (Neg(3), "a")]),
        ("receiver-prefix", [(Key(SAME_PREFIX.0), "a"), (Key(SAME_PREFIX.1), "a")]),
        ("receiver-suffix", [(Key(SAME_SUFFIX.0), "a"), (Key(SAME_SUFFIX.1), "a")])
    ]
}

/// A key pair by scalar; operations carry scalars, opposite points are
/// numbered from `NEG` on.
#[derive(Debug, Clone, Copy)]
pub enum Who { Key(u64), Neg(u64) }

const NEG: u64 = 1 << 40;

impl Who {
    pub fn id(self) -> u64 { match self { Who::Key(n) => n, Who::Neg(n) => NEG + n } }
}

pub fn key_of(id: u64) -> SecretKey { if id >= NEG { secret_neg(id - NEG) } else { secret(id) } }

/// Seconds of the controlled clock for each operation.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Clock { Forward, Still, Backward }

impl Clock {
    fn at(self, n: u64) -> u64 {
        match self {
            Clock::Forward => 1_700_000_000 + 1000 * n,
            Clock::Still => 1_700_000_000,
            Clock::Backward => 1_700_000_000 - 1000 * n
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
enum Step { Op(Op), Restart }

/// Drives an inbox either directly or through a server's endpoints.
enum Face { Driver(Inbox), Server(Box<TestServer>, Net) }

impl Face {
    fn drain(&self, rt: &tokio::runtime::Runtime, keys: &[(u64, String)]) -> Result<Model, String> {
        match self { Face::Driver(inbox) => drain(rt, inbox, keys), Face::Server(server, _) => drain(rt, server.middleware.driver().messages_inbox(), keys) }
    }

    async fn open(server: bool, folder: &str) -> Face {
        if server {
            let net = Net::default();
            let server = TestServer::start(&net, &secret(8), "s8.example", folder).await;
            Face::Server(Box::new(server), net)
        } else {
            Face::Driver(Inbox::new(PathBuf::from(folder)).await.unwrap())
        }
    }

    /// Returns the messages with their receipt times.
    async fn exec(&self, op: &Op) -> (Out, Vec<u64>) {
        match (self, op) {
            (Face::Driver(inbox), Op::Send { to, channel, text }) => {
                let (sender, message) = stored(text);
                let out = match inbox.add_message(sender, key_of(*to).public_key(), channel.clone(), message).await {
                    Ok(()) => Out::Sent,
                    Err(err) => Out::Failed(err.to_string())
                };
                (out, vec![])
            }
            (Face::Driver(inbox), Op::Poll { to, channel, limit }) => {
                match inbox.poll_messages(key_of(*to).public_key(), channel.clone(), *limit).await {
                    Ok((messages, left)) => polled(&messages, left, channel),
                    Err(err) => (Out::Failed(err.to_string()), vec![])
                }
            }
            (Face::Server(server, _), Op::Send { to, channel, text }) => {
                let (sender, message) = stored(text);
                let request = SendRequest::new(&secret(7), sender, key_of(*to).public_key(), channel, message);
                let out = match server.post::<_, SendResponse>("/api/v1/send", &request).await.map(|r| r.0) {
                    Ok(Response::Success { .. }) => Out::Sent,
                    Ok(Response::Error { reason, .. }) => Out::Failed(reason),
                    Err(err) => Out::Failed(err)
                };
                (out, vec![])
            }
            (Face::Server(server, _), Op::Poll { to, channel, limit }) => {
                let request = PollRequest::new(&key_of(*to), channel, *limit);
                match server.post::<_, PollResponse>("/api/v1/poll", &request).await.map(|r| r.0) {
                    Ok(Response::Success { response, .. }) => polled(&response.messages, response.remaining, channel),
                    Ok(Response::Error { reason, .. }) => (Out::Failed(reason), vec![]),
                    Err(err) => (Out::Failed(err), vec![])
                }
            }
        }
    }
}

fn polled(messages: &[MessageInfo], left: u64, channel: &str) -> (Out, Vec<u64>) {
    (Out::Polled(messages.iter().map(|m| text_of(m, channel)).collect(), left), messages.iter().map(|m| m.received_at).collect())
}

/// Run one sequence; every operation's result must be the model's.
fn sequence(rep: &mut Rep, rt: &tokio::runtime::Runtime, folder: &str, server: bool, clock: Clock, steps: &[Step]) -> Result<(), String> {
    let world = World::shared(folder);
    world.with(|w| { w.now = Some(clock.at(0)); w.random = Some(7); });
    let _in = world.enter();
    let mut model = Model::default();
    let mut times: BTreeMap<String, u64> = BTreeMap::new();
    let result = rt.block_on(async {
        let mut face = Face::open(server, folder).await;
        for (n, step) in steps.iter().enumerate() {
            let now = clock.at(n as u64 + 1);
            world.with(|w| w.now = Some(now));
            match step {
                Step::Restart => face = Face::open(server, folder).await,
                Step::Op(op) => {
                    if let Op::Send { text, .. } = op { times.insert(text.clone(), now); }
                    let (got, at) = face.exec(op).await;
                    let want = model.apply(op);
                    if got != want { return Err(format!("step {n} {}: got {got:?}, should be {want:?}", op.text())); }
                    if let Out::Polled(texts, _) = &got {
                        for (text, at) in texts.iter().zip(at) {
                            if times[text] != at { return Err(format!("step {n}: message {text} received at {} says {at}", times[text])); }
                        }
                    }
                }
            }
            rep.count("transitions", 1);
            rep.state(&model);
        }
        Ok(())
    });
    drop(_in);
    result
}

fn steps_text(steps: &[Step]) -> String {
    steps.iter().map(|s| match s { Step::Restart => "restart".into(), Step::Op(op) => op.text() }).collect::<Vec<_>>().join("; ")
}

fn run_sequence(rep: &mut Rep, rt: &tokio::runtime::Runtime, server: bool, clock: Clock, steps: &[Step]) -> bool {
    let folder = rep.folder("seq");
    rep.case(steps_text(steps));
    let result = guard(|| sequence(rep, rt, &folder, server, clock, steps)).and_then(|r| r);
    rep.eval();
    rep.count("traces_validated_against_impl", 1);
    if let Err(text) = result {
        let name = steps_text(steps);
        rep.fail(&name, format!("{name} (clock {clock:?}{}): {text}", if server { ", through the server" } else { "" }), json!({ "steps": name }));
        return false;
    }
    true
}

/// All sequences of `depth` letters starting with `first`; send letters get
/// distinct texts.
fn all_sequences(depth: usize, letters: usize, first: &[usize], f: &mut dyn FnMut(&[usize]) -> bool) {
    let mut word = first.to_vec();
    word.resize(depth, 0);
    loop {
        if !f(&word) { return; }
        let mut n = depth;
        loop {
            if n == first.len() { return; }
            n -= 1;
            word[n] += 1;
            if word[n] < letters { break; }
            word[n] = 0;
        }
    }
}

fn words_to_steps(letters: &[Step], word: &[usize]) -> Vec<Step> {
    word.iter().enumerate().map(|(n, l)| match &letters[*l] {
        Step::Op(Op::Send { to, channel, .. }) => Step::Op(send(*to, channel, &format!("m{n}"))),
        other => other.clone()
    }).collect()
}

pub fn c10(tier: Tier) -> Property {
    let quick = tier == Tier::Quick;
    let mut units = Vec::new();
    for server in [false, true] {
        for (name, pair) in inbox_pairs() {
            let main = matches!(name, "channels" | "receivers");
            let depth = match (quick, server) { (true, false) => if main { 5 } else { 4 }, (true, true) => 3, (false, false) => if main { 6 } else { 5 }, (false, true) => 4 };
            let mut letters = Vec::new();
            for (who, channel) in pair {
                letters.push(Step::Op(send(who.id(), channel, "")));
                letters.push(Step::Op(poll(who.id(), channel, None)));
                letters.push(Step::Op(poll(who.id(), channel, Some(1))));
            }
            letters.push(Step::Op(poll(pair[0].0.id(), pair[0].1, Some(0))));
            letters.push(Step::Op(poll(pair[0].0.id(), pair[0].1, Some(2))));
            letters.push(Step::Restart);
            for first in 0..letters.len() {
                // Only the first inbox's operations start a history, by symmetry of the rest.
                let clock = [Clock::Forward, Clock::Still, Clock::Backward][first % 3];
                let letters = letters.clone();
                units.push(Unit::new(format!("{}-{name}-{first}", if server { "server" } else { "driver" }), move |rep| {
                    let rt = runtime();
                    all_sequences(depth, letters.len(), &[first], &mut |word| {
                        let steps = words_to_steps(&letters, word);
                        rep.nontrivial(&steps_text(&steps));
                        run_sequence(rep, &rt, server, clock, &steps)
                    });
                    rep.sample(|| json!(steps_text(&words_to_steps(&letters, &vec![0; depth]))));
                }));
            }
        }
    }
    // Every fill level against every limit, with the backlog built and taken in one go.
    for clock in [Clock::Forward, Clock::Still, Clock::Backward] {
        for server in [false, true] {
            units.push(Unit::new(format!("limits-{clock:?}-{server}"), move |rep| {
                let rt = runtime();
                let limits = |n: u64| [None, Some(0), Some(1), Some(n.saturating_sub(1)), Some(n), Some(n + 1), Some(255), Some(256), Some(u32::MAX as u64), Some(1 << 32), Some((1 << 32) + 1), Some(i64::MAX as u64), Some(1 << 63), Some(u64::MAX - 1), Some(u64::MAX)];
                for n in 0..if rep.quick() { 6 } else { 12 } {
                    for first in limits(n) {
                        for second in [None, Some(1), Some(u64::MAX)] {
                            let mut steps: Vec<Step> = (0..n).map(|i| Step::Op(send(1, "a", &format!("m{i}")))).collect();
                            steps.push(Step::Op(poll(1, "a", first)));
                            steps.push(Step::Op(send(1, "a", "late")));
                            steps.push(Step::Op(poll(1, "a", second)));
                            steps.push(Step::Restart);
                            steps.push(Step::Op(poll(1, "a", None)));
                            if !run_sequence(rep, &rt, server, clock, &steps) { return; }
                        }
                    }
                }
            }));
        }
    }
    // Long backlogs.
    for (n, chunk) in [(300_u64, 7_u64), (1000, 64)] {
        units.push(Unit::new(format!("backlog-{n}"), move |rep| {
            let rt = runtime();
            let mut steps: Vec<Step> = (0..n).map(|i| Step::Op(send(1, if i % 5 == 4 { "b" } else { "a" }, &format!("m{i}")))).collect();
            for i in 0..n / chunk {
                steps.push(Step::Op(poll(1, "a", Some(chunk))));
                if i == 3 { steps.push(Step::Restart); }
                steps.push(Step::Op(send(1, "a", &format!("n{i}"))));
            }
            steps.push(Step::Op(poll(1, "a", None)));
            steps.push(Step::Op(poll(1, "b", None)));
            run_sequence(rep, &rt, false, Clock::Still, &steps);
        }));
    }
    // A server on another inbox.
    units.push(Unit::new("inbox-scripted", |rep| {
        for adds in [true, false] { for channel in ["a", "", "../x", "\u{44f}"] { for limit in [None, Some(0), Some(1), Some(2), Some(1 << 32), Some(u64::MAX)] {
            for answer in [None, Some((0, 0)), Some((0, 5)), Some((1, 0)), Some((3, u64::MAX)), Some((40, 1))] {
                let case = format!("adds {adds}, channel {channel:?}, limit {limit:?}, answer {answer:?}");
                rep.nontrivial(&case);
                let script = Scripted { adds, answer, calls: Default::default() };
                if let Err(what) = guard(|| runtime().block_on(scripted(rep, script, channel, limit))).and_then(|r| r) { rep.fail(case.clone(), format!("{case}: {what}"), json!({})); return; }
            }
        } } }
    }));
    // The content of messages.
    for server in [false, true] {
        units.push(Unit::new(format!("content-{server}"), move |rep| content(rep, server)));
    }
    Property {
        id: "C10",
        level: Level::ModelChecking,
        rule: "Every sequence of sends, polls (no limit, 0, 1, 2) and restarts of the stated length over two easily confused inboxes, on the stored queue directly and through the server's endpoints, under a forward, still and backward clock; each result is compared with a FIFO model. Every fill level against boundary limits; long backlogs; every variation of message content; servers on an inbox that answers and fails as told.",
        assumptions: vec!["message identifiers drawn by the implementation come from a deterministic stream (no 64-bit collision)"],
        bounds: json!({ "sequence_length_driver": if quick { [4, 5] } else { [5, 6] }, "sequence_length_server": if quick { 3 } else { 4 }, "letters": 9, "inbox_pairs": inbox_pairs().len(), "backlog": 1000 }),
        units
    }
}

#[derive(Debug)]
struct Failure;

impl std::fmt::Display for Failure { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "the inbox's failure") } }
impl std::error::Error for Failure {}

/// An inbox that does as told and writes down what it was asked.
#[derive(Clone)]
struct Scripted { adds: bool, answer: Option<(usize, u64)>, calls: Arc<Mutex<Vec<String>>> }

impl Scripted {
    fn messages(many: usize) -> Vec<MessageInfo> {
        (0..many as u64).map(|n| MessageInfo { sender: sender(n % 5 + 3, n % 3 + 2), channel: format!("c{n}"), message: plain(&format!("m{n}")), received_at: n * 1_000_003 }).collect()
    }
}

#[async_trait::async_trait]
impl MessagesInbox for Scripted {
    type Error = Failure;

    async fn add_message(&self, sender: Sender, receiver: PublicKey, channel: String, message: Message) -> Result<(), Failure> {
        self.calls.lock().unwrap().push(format!("{sender:?} {receiver:?} {channel:?} {message:?}"));
        if self.adds { Ok(()) } else { Err(Failure) }
    }

    async fn poll_messages(&self, receiver: PublicKey, channel: String, limit: Option<u64>) -> Result<(Vec<MessageInfo>, u64), Failure> {
        self.calls.lock().unwrap().push(format!("{receiver:?} {channel:?} {limit:?}"));
        self.answer.map(|(many, left)| (Self::messages(many), left)).ok_or(Failure)
    }
}

/// The server hands requests to its inbox and answers unchanged, whatever inbox it is.
async fn scripted(rep: &mut Rep, script: Scripted, channel: &str, limit: Option<u64>) -> Result<(), String> {
    let folder = PathBuf::from(rep.folder("scripted"));
    let routes = Routes::default();
    let router = GlobalTableRouter::new(folder.join("router")).await.map_err(|err| err.to_string())?;
    let driver = ServerDriver::new(router, BfsRecursionTraversal, script.clone(), ServerParams { secret_key: secret(60), address: "home".into() });
    let _middleware = ServerMiddleware::new(Net::default(), routes.clone(), driver).await;
    let (from, message) = (sender(4, 5), plain("text"));
    let request = SendRequest::new(&secret(4), from.clone(), public(6), channel, message.clone());
    let answer = routes.call("POST", "/api/v1/send", &request.to_json().unwrap()).await?;
    rep.eval();
    let sent = matches!(SendResponse::from_json(&answer).map_err(|err| err.to_string())?.0, Response::Success { .. });
    if sent != script.adds { return Err(format!("the send was answered with {answer}")); }
    let want = format!("{from:?} {:?} {channel:?} {message:?}", public(6));
    if *script.calls.lock().unwrap() != [want.clone()] { return Err(format!("the inbox was asked {:?} instead of {want}", script.calls.lock().unwrap())); }
    script.calls.lock().unwrap().clear();
    let answer = routes.call("POST", "/api/v1/poll", &PollRequest::new(&secret(6), channel, limit).to_json().unwrap()).await?;
    rep.eval();
    let polled = match PollResponse::from_json(&answer).map_err(|err| err.to_string())?.0 { Response::Success { response, .. } => Some((response.messages, response.remaining)), Response::Error { .. } => None };
    let want = script.answer.map(|(many, left)| (Scripted::messages(many), left));
    if polled != want { return Err(format!("the poll was answered with {answer}")); }
    let want = format!("{:?} {channel:?} {limit:?}", public(6));
    if *script.calls.lock().unwrap() != [want.clone()] { return Err(format!("the inbox was asked {:?} instead of {want}", script.calls.lock().unwrap())); }
    Ok(())
}

/// Messages differing in every field and in size come back unchanged.
fn content(rep: &mut Rep, server: bool) {
    let rt = runtime();
    let texts = [String::new(), "x".into(), "null".into(), "\"quoted\"\\ \n\r\t\u{0}\u{7f}".into(), "\u{1F600}\u{e9}e\u{301}\u{202e}".into(), "\u{feff}bom".into(), "a".repeat(100_000), "{\"content\":1}".into()];
    let channels = ["a", "", "c d", "\u{44f}"];
    let encodings: Vec<MessageEncoding> = [Encryption::None, Encryption::Aes256Gcm, Encryption::ChaCha20Poly1305].into_iter()
        .flat_map(|e| [Compression::None, Compression::Deflate, Compression::Brotli].into_iter().map(move |c| MessageEncoding::new(Encoding::Base64, e, c))).collect();
    let infos = [ClientInfo::thin(), ClientInfo::thick("a:1"), ClientInfo::server(""), ClientInfo::file("\u{44f}"), ClientInfo::new(ClientType::Thick, None::<String>)];
    let mut variants: Vec<(Sender, String, Message, u64)> = Vec::new();
    let base_sender = sender(7, 8);
    for (n, text) in texts.iter().enumerate() {
        for (m, sign) in texts.iter().enumerate() {
            variants.push((base_sender.clone(), channels[(n + m) % 4].into(), Message::new(text, sign, encodings[(n * 3 + m) % 9]), 1_700_000_000 + (n * m) as u64));
        }
    }
    for info in &infos {
        for date in [0, 1, u32::MAX as u64 + 1, i64::MAX as u64, u64::MAX] {
            for address in ["h:1", "", "\u{44f}\"\\"] {
                let who = hyperborealib::rest_api::prelude::Client::new(public(9), cert(&secret(9), &public(8), date), info.clone());
                variants.push((Sender::new(who, hyperborealib::rest_api::prelude::Server::new(public(11), address)), "a".into(), plain("m"), date.min(1 << 40)));
            }
        }
    }
    for sign in [vec![], vec![0], vec![255; 64], vec![1; 65], vec![7; 1000]] {
        let mut who = marked_client(9, 8, 1, ClientType::File);
        who.certificate.sign = sign;
        variants.push((Sender::new(who, fixture_server()), "a".into(), plain("m"), 0));
    }
    for encoding in &encodings { variants.push((base_sender.clone(), "a".into(), Message::new("c", "s", *encoding), 5)); }
    for (n, (sender, channel, message, now)) in variants.into_iter().enumerate() {
        let folder = rep.folder("content");
        let world = World::shared(&folder);
        world.with(|w| { w.now = Some(now); w.random = Some(n as u64); });
        let _in = world.enter();
        let want = MessageInfo::new(sender.clone(), &channel, message.clone(), now);
        rep.case(format!("{want:?}").chars().take(600).collect::<String>());
        rep.nontrivial(&want);
        let got = guard(|| rt.block_on(async {
            match Face::open(server, &folder).await {
                Face::Driver(inbox) => {
                    inbox.add_message(sender, public(1), channel.clone(), message).await.map_err(|err| err.to_string())?;
                    world.with(|w| w.now = Some(now + 77));
                    inbox.poll_messages(public(1), channel, None).await.map_err(|err| err.to_string())
                }
                Face::Server(server, _net) => {
                    let sent: SendResponse = server.post("/api/v1/send", &SendRequest::new(&secret(7), sender, public(1), &channel, message)).await?;
                    if !sent.0.status().is_success() { return Err(format!("send refused: {:?}", sent.0)); }
                    world.with(|w| w.now = Some(now + 77));
                    match server.post::<_, PollResponse>("/api/v1/poll", &PollRequest::new(&secret(1), &channel, None)).await?.0 {
                        Response::Success { response, .. } => Ok((response.messages, response.remaining)),
                        Response::Error { reason, .. } => Err(reason)
                    }
                }
            }
        })).and_then(|r| r);
        rep.eval();
        rep.count("transitions", 2);
        rep.count("traces_validated_against_impl", 1);
        if got.as_ref() != Ok(&(vec![want.clone()], 0)) {
            rep.fail(format!("content variant {n}"), format!("message {want:?} came back as {got:?}").chars().take(1500).collect::<String>(), Json::Null);
            return;
        }
    }
}

fn fixture_server() -> hyperborealib::rest_api::prelude::Server { server(8, "s8.example") }

// ---------------------------------------------------------------- C11

fn hostile_names() -> Vec<String> {
    let mut names: Vec<String> = [
        "", " ", ".", "..", "...", "/", "//", "\\", "..\\a", "a", "a/", "/a", "a//b", "a/b", "a/./b", "a/../a", "a/..", "./a", "../a", "../../a", "../../../../../../a",
        "/tmp/mc-escape", "/dev/shm/mc-escape", "a\\b", "a%2Fb", "a%2fb", "%2E%2E", "%", "%%", "%25", "%2F", "a%", "%61", "_", "-", "~", "~root", "$HOME", "*", "?", "a:b", "a|b",
        "index", "index/", "/index", "a/index", "index/index", "0", "1", "18446744073709551615", "index.tmp", "index~", ".index", "tmp", ".tmp", "new", "con", "NUL", "A", "a.", "a ",
        "\n", "\r\n", "\t", "\u{1}", "\u{7f}", "\u{0}", "a\u{0}b", "\u{e9}", "e\u{301}", "\u{2215}", "\u{ff0f}", "\u{2024}\u{2024}", "\u{1F600}", "\u{202e}a", "\u{ad}", "a\u{200b}", "=", "==", "YQ==", "YQ", "61"
    ].into_iter().map(String::from).collect();
    for n in [84, 85, 100, 127, 128, 200, 254, 255, 256, 300, 1000, 5000] { names.push("n".repeat(n)); names.push(format!("{}x", "n".repeat(n - 1))); names.push("/".repeat(n)); }
    for n in [1_u64, 2] {
        let key = public(n).to_base64();
        for form in ["{}", "../{}", "../{}/a", "{}/a", "../{}/index", "a/../../{}/a", "{}/index"] { names.push(form.replace("{}", &key)); }
    }
    names.sort();
    names.dedup();
    names
}

/// Names made from the files the implementation itself creates.
fn own_names(rep: &mut Rep) -> Vec<String> {
    let rt = runtime();
    let folder = rep.folder("own");
    let world = World::shared(&folder);
    world.with(|w| { w.now = Some(1); w.random = Some(1); w.log = Some(Vec::new()); });
    let _in = world.enter();
    rt.block_on(async {
        let inbox = Inbox::new(PathBuf::from(&folder)).await.unwrap();
        for channel in ["a", "b", "c/d"] {
            for to in [1, 2] {
                let _ = exec(&inbox, &send(to, channel, "m")).await;
                let _ = exec(&inbox, &send(to, channel, "n")).await;
                let _ = exec(&inbox, &poll(to, channel, Some(1))).await;
            }
        }
    });
    let mut names = Vec::new();
    for call in world.with(|w| w.log.take().unwrap()) {
        let Some(rel) = call.path.strip_prefix(&folder) else { continue };
        let parts: Vec<&str> = rel.split('/').filter(|p| !p.is_empty()).collect();
        for from in 0..parts.len() {
            for to in from + 1..=parts.len() {
                let name = parts[from..to].join("/");
                names.push(format!("../{name}"));
                names.push(format!("../../{name}"));
                names.push(name);
            }
        }
    }
    names.sort();
    names.dedup();
    names
}

/// Exercise the inboxes `a` and `b` against the model; returns what is wrong.
fn isolated(folder: &str, rt: &tokio::runtime::Runtime, server: bool, a: &(u64, String), b: &(u64, String), accepted: &dyn Fn(&str) -> bool) -> Result<u64, String> {
    let world = World::shared(folder);
    world.with(|w| { w.now = Some(1_700_000_000); w.random = Some(3); w.contain = true; });
    let _in = world.enter();
    let mut refused = 0;
    let result = rt.block_on(async {
        let mut face = Face::open(server, folder).await;
        let mut model = Model::default();
        let ops = [
            send(a.0, &a.1, "1"), send(b.0, &b.1, "2"), send(a.0, &a.1, "3"), poll(b.0, &b.1, Some(1)), send(b.0, &b.1, "4"),
            poll(a.0, &a.1, Some(1)), send(b.0, &b.1, "5"), poll(b.0, &b.1, None), poll(a.0, &a.1, None), send(a.0, &a.1, "6"), poll(b.0, &b.1, None), poll(a.0, &a.1, None)
        ];
        for (n, op) in ops.iter().enumerate() {
            if n == 6 { face = Face::open(server, folder).await; }
            let (got, _) = face.exec(op).await;
            match (op, got) {
                (Op::Send { channel, .. }, Out::Failed(text)) => {
                    if accepted(channel) { return Err(format!("step {n}: {} failed ({text}), though the name is accepted on its own", op.text())); }
                    refused += 1;
                }
                (Op::Poll { to, channel, .. }, Out::Failed(text)) => {
                    if model.0.get(&(*to, channel.clone())).is_some() { return Err(format!("step {n}: {} failed: {text}", op.text())); }
                }
                (_, got) => {
                    let want = model.apply(op);
                    if got != want { return Err(format!("step {n}: {} = {got:?}, should be {want:?}", op.text())); }
                }
            }
        }
        Ok(())
    });
    let escapes = world.with(|w| std::mem::take(&mut w.escapes));
    drop(_in);
    if !escapes.is_empty() { return Err(format!("paths outside the inbox storage were touched: {escapes:?}")); }
    result?;
    Ok(refused)
}

/// The names a fresh server accepts a message for.
fn accepted_names(rep: &mut Rep, rt: &tokio::runtime::Runtime, names: &[String]) -> HashSet<String> {
    let base = rep.folder("alone");
    let deep = format!("{base}/1/2/3/4/5/6/7/8/inbox");
    let mut out = HashSet::new();
    for name in names {
        off(|| { let _ = std::fs::remove_dir_all(&base); std::fs::create_dir_all(&deep).unwrap(); });
        let world = World::shared(&deep);
        world.with(|w| { w.now = Some(1_700_000_000); w.random = Some(3); w.contain = true; });
        let _in = world.enter();
        let sent = guard(|| rt.block_on(async {
            let inbox = Inbox::new(PathBuf::from(&deep)).await.unwrap();
            exec(&inbox, &send(1, name, "m")).await == Out::Sent
        }));
        if sent == Ok(true) { out.insert(name.clone()); }
    }
    out
}

/// All inboxes at once: each accepted one holds exactly its own messages.
fn together(rep: &mut Rep, rt: &tokio::runtime::Runtime, names: &[String], accepted: &HashSet<String>, reverse: bool) -> Result<(), String> {
    let base = rep.folder("together");
    let deep = format!("{base}/1/2/3/4/5/6/7/8/inbox");
    off(|| std::fs::create_dir_all(&deep).unwrap());
    let world = World::shared(&deep);
    world.with(|w| { w.now = Some(1_700_000_000); w.random = Some(3); w.contain = true; });
    let _in = world.enter();
    let mut inboxes: Vec<(u64, String)> = names.iter().filter(|n| accepted.contains(*n)).flat_map(|n| [(1, n.clone()), (2, n.clone())]).collect();
    if reverse { inboxes.reverse(); }
    let short = |s: &str| s.chars().take(80).collect::<String>();
    let result = rt.block_on(async {
        let mut inbox = Inbox::new(PathBuf::from(&deep)).await.map_err(|err| err.to_string())?;
        for round in 0..3 {
            for (n, (to, name)) in inboxes.iter().enumerate() {
                let out = exec(&inbox, &send(*to, name, &format!("{n}-{round}"))).await;
                if out != Out::Sent { return Err(format!("round {round}: a send to ({to},{:?}) among the others gave {out:?}", short(name))); }
            }
        }
        for (round, limit) in [(0, Some(1)), (1, None)] {
            for (n, (to, name)) in inboxes.iter().enumerate() {
                let out = exec(&inbox, &poll(*to, name, limit)).await;
                let want = if round == 0 { Out::Polled(vec![format!("{n}-0")], 2) } else { Out::Polled(vec![format!("{n}-1"), format!("{n}-2")], 0) };
                if out != want { return Err(format!("the poll {round} of ({to},{:?}) among the others gave {out:?} instead of {want:?}", short(name))); }
            }
            inbox = Inbox::new(PathBuf::from(&deep)).await.map_err(|err| err.to_string())?;
        }
        Ok(())
    });
    let escapes = world.with(|w| std::mem::take(&mut w.escapes));
    if !escapes.is_empty() { return Err(format!("paths outside the inbox storage were touched: {escapes:?}")); }
    rep.eval();
    rep.count("transitions", inboxes.len() as u64 * 5);
    rep.count("traces_validated_against_impl", 1);
    rep.count("states", inboxes.len() as u64 * 5);
    result
}

pub fn c11(tier: Tier) -> Property {
    let quick = tier == Tier::Quick;
    let mut units = Vec::new();
    const PARTS: usize = 24;
    for part in 0..PARTS {
        units.push(Unit::new(format!("pairs-{part}"), move |rep| {
            let mut names = hostile_names();
            names.extend(own_names(rep));
            names.sort();
            names.dedup();
            let rt = runtime();
            let accepted = accepted_names(rep, &rt, &names);
            let core: HashSet<&str> = ["", "a", "..", "a/b", "index", "../a", "0", "a/", "%"].into();
            rep.count("names", if part == 0 { names.len() as u64 } else { 0 });
            // Deep storage root, so that relative escapes stay in the scratch folder.
            let base = rep.folder("deep");
            let deep = format!("{base}/1/2/3/4/5/6/7/8/inbox");
            // Against every other name on the same receiver, and every name on another receiver.
            for (n, first) in names.iter().enumerate() {
                if n % PARTS != part { continue; }
                for (m, second) in names.iter().enumerate() {
                    for other in [1_u64, 2] {
                        if other == 1 && m <= n { continue; }
                        // Unless thorough, interleavings only with a few partners; collisions of any two are found by the batch.
                        if quick && !(core.contains(second.as_str()) || (other == 1 && core.contains(first.as_str())) || (other == 2 && second == first)) { continue; }
                        off(|| { let _ = std::fs::remove_dir_all(&base); std::fs::create_dir_all(&deep).unwrap(); });
                        let (a, b) = ((1, first.clone()), (other, second.clone()));
                        rep.case(format!("{a:?} and {b:?}"));
                        rep.nontrivial(&(&a, &b));
                        let result = guard(|| isolated(&deep, &rt, false, &a, &b, &|n| accepted.contains(n))).and_then(|r| r);
                        rep.eval();
                        rep.count("transitions", 12);
                        rep.count("traces_validated_against_impl", 1);
                        match result {
                            Ok(refused) => rep.count("refused_sends", refused),
                            Err(text) => {
                                let short = |s: &str| s.chars().take(80).collect::<String>();
                                rep.fail(format!("{:?} {:?} {}", short(&a.1), short(&b.1), b.0), format!("inboxes (1,{:?}) and ({},{:?}): {text}", short(&a.1), b.0, short(&b.1)), json!({ "first": a, "second": b }));
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
    for reverse in [false, true] {
        units.push(Unit::new(format!("together-{reverse}"), move |rep: &mut Rep| {
            let mut names = hostile_names();
            names.extend(own_names(rep));
            names.sort();
            names.dedup();
            let rt = runtime();
            let accepted = accepted_names(rep, &rt, &names);
            rep.count("accepted_names", if reverse { 0 } else { accepted.len() as u64 });
            let result = guard(|| together(rep, &rt, &names, &accepted, reverse)).and_then(|r| r);
            if let Err(text) = result { rep.fail("together", text.chars().take(1500).collect::<String>(), Json::Null); }
        }));
    }
    for part in 0..8 {
      units.push(Unit::new(format!("server-{part}"), move |rep: &mut Rep| {
        let mut names = hostile_names();
        names.extend(own_names(rep));
        names.sort();
        names.dedup();
        let names: Vec<String> = names.into_iter().enumerate().filter(|(n, _)| n % 8 == part).map(|(_, n)| n).collect();
        let rt = runtime();
        let accepted = accepted_names(rep, &rt, &names);
        let base = rep.folder("deep");
        let deep = format!("{base}/1/2/3/4/5/6/7/8/server");
        for name in names {
            for other in [(1, "a".to_string()), (2, name.clone()), (2, "index".to_string())] {
                if other.1 == name && other.0 == 1 { continue; }
                off(|| { let _ = std::fs::remove_dir_all(&base); std::fs::create_dir_all(&deep).unwrap(); });
                let a = (1, name.clone());
                rep.case(format!("{a:?} and {other:?}"));
                let result = guard(|| isolated(&deep, &rt, true, &a, &other, &|n| accepted.contains(n))).and_then(|r| r);
                rep.eval();
                rep.count("transitions", 12);
                rep.count("traces_validated_against_impl", 1);
                if let Err(text) = result {
                    rep.fail(format!("server {:?} {:?} {}", a.1, other.1, other.0), format!("inboxes {a:?} and {other:?} through the server: {text}").chars().take(1500).collect::<String>(), json!({ "first": a, "second": other }));
                    return;
                }
            }
        }
    }));
    }
    // Ordinary names must be accepted.
    units.push(Unit::new("ordinary", |rep: &mut Rep| {
        let rt = runtime();
        for name in ["a", "chat", "default channel", "my-app.v1", "files_2", "application/json", "a/b/c", "\u{43a}\u{430}\u{43d}\u{430}\u{43b}", "\u{1F600}", "index", "0", "UPPER", &"n".repeat(64)] {
            let folder = rep.folder("ordinary");
            let result = guard(|| isolated(&folder, &rt, false, &(1, name.to_string()), &(2, "a".into()), &|_| true)).and_then(|r| r);
            rep.eval();
            if result != Ok(0) {
                rep.fail(format!("ordinary {name:?}"), format!("channel {name:?}: {result:?} (refused sends or an error)"), Json::Null);
                return;
            }
        }
    }));
    Property {
        id: "C11",
        level: Level::ModelChecking,
        rule: "Every pair of inboxes whose channel names come from a list of hostile names and from the names of the files the implementation itself creates (every sub-path of them, also behind parent references) is run through a fixed interleaving of sends, polls and a restart against a FIFO model that keeps them apart, with every path given to the operating system checked to lie inside the storage folder. A pair is distinct by its two names and receivers.",
        assumptions: vec!["paths are compared lexically; the storage folder contains no symbolic links"],
        bounds: json!({ "hostile_names": hostile_names().len(), "interleaving": 12 }),
        units
    }
}

// ---------------------------------------------------------------- C13, C14

/// The histories whose last operation is disturbed.
fn histories(thorough: bool) -> Vec<Vec<Op>> {
    let mut out = Vec::new();
    let prefixes: Vec<Vec<Op>> = {
        let mut p: Vec<Vec<Op>> = (0..if thorough { 5 } else { 4 }).map(|n| (0..n).map(|i| send(1, "a", &format!("i{i}"))).collect()).collect();
        p.push(vec![send(1, "a", "i0"), send(1, "a", "i1"), poll(1, "a", Some(1))]);
        p.push(vec![send(1, "a", "i0"), poll(1, "a", None)]);
        p.push(vec![send(1, "b", "j0"), send(1, "a", "i0")]);
        p.push(vec![send(2, "a", "j0")]);
        if thorough {
            p.push(vec![send(1, "a", "i0"), poll(1, "a", None), send(1, "a", "i1"), send(1, "a", "i2")]);
            p.push(vec![poll(1, "a", None)]);
        }
        p
    };
    for prefix in prefixes {
        for last in [send(1, "a", "x"), poll(1, "a", None), poll(1, "a", Some(1)), poll(1, "a", Some(2))] {
            if !thorough && matches!(last, Op::Poll { limit: Some(2), .. }) && prefix.len() != 3 { continue; }
            let mut h = prefix.clone();
            h.push(last);
            out.push(h);
        }
    }
    out
}

fn history_text(h: &[Op]) -> String { h.iter().map(Op::text).collect::<Vec<_>>().join("; ") }

/// A runtime per operation: dropping it waits for everything it started.
fn with_rt<R>(f: impl FnOnce(&tokio::runtime::Runtime) -> R) -> R {
    let rt = runtime();
    f(&rt)
}

/// Torn lengths for a write of `len` bytes: whole prefixes that matter.
pub fn torn_lengths(len: usize, every: bool) -> Vec<usize> {
    let mut out: Vec<usize> = if every { (0..len.min(2000)).collect() } else {
        let mut out = vec![0, 1, 7, len / 2, len.saturating_sub(8), len.saturating_sub(1), len];
        out.extend((8..len.min(64)).step_by(8));
        out
    };
    out.retain(|n| *n <= len);
    out.sort();
    out.dedup();
    out
}

struct Undisturbed { calls: Vec<Call>, folder: String }

/// Run all but the last operation, then `f`, in a fresh folder.
fn prepared<R>(rep: &mut Rep, history: &[Op], f: impl FnOnce(&'static World, Inbox, &str, &Model) -> R) -> R {
    let folder = rep.folder("history");
    let world = World::shared(&folder);
    world.with(|w| { w.now = Some(1_700_000_000); w.random = Some(5); });
    let _in = world.enter();
    let mut model = Model::default();
    let inbox = with_rt(|rt| {
        let inbox = open(rt, &folder);
        for op in &history[..history.len() - 1] {
            let got = rt.block_on(exec(&inbox, op));
            let want = model.apply(op);
            if got != want { panic!("undisturbed {} gave {got:?} instead of {want:?}", op.text()); }
        }
        inbox
    });
    let result = f(world, inbox, &folder, &model);
    drop(_in);
    result
}

fn keys_of(history: &[Op]) -> Vec<(u64, String)> {
    let mut keys: Vec<_> = history.iter().map(Op::inbox).collect();
    keys.sort();
    keys.dedup();
    keys
}

fn record_calls(rep: &mut Rep, history: &[Op]) -> Vec<Call> {
    prepared(rep, history, |world, inbox, _, _| {
        world.with(|w| w.log = Some(Vec::new()));
        with_rt(|rt| rt.block_on(exec(&inbox, history.last().unwrap())));
        world.with(|w| w.log.take().unwrap())
    })
}

/// The inbox must hold what one of `models` says, and go on working.
fn holds_one(inbox: &Inbox, keys: &[(u64, String)], probe: &(u64, String), models: &[Model]) -> Result<Model, String> {
    with_rt(|rt| {
        // It goes on working: a poll of one message, a send, and then the rest.
        let steps = [poll(probe.0, &probe.1, Some(1)), send(probe.0, &probe.1, "probe")];
        let outs: Vec<Out> = steps.iter().map(|op| rt.block_on(exec(inbox, op))).collect();
        let rest = drain(rt, inbox, keys).map_err(|text| format!("{text}; before that {outs:?}"))?;
        for model in models {
            let mut m = model.clone();
            let want: Vec<Out> = steps.iter().map(|op| m.apply(op)).collect();
            if want == outs && m.clean() == rest { return Ok(model.clone()); }
        }
        let shown: Vec<_> = models.iter().map(|m| &m.0).collect();
        Err(format!("a poll and a send gave {outs:?} and then it held {:?}; it should have held one of {shown:?}", rest.0))
    })
}

fn crash_history(rep: &mut Rep, history: &[Op]) {
    let every = !rep.quick();
    let calls = record_calls(rep, history);
    let last = history.last().unwrap();
    let keys = keys_of(history);
    let mutations: Vec<&Call> = calls.iter().filter(|c| c.kind.mutates()).collect();
    rep.sample(|| json!({ "history": history_text(history), "mutations": mutations.iter().map(|c| format!("{:?} {} bytes", c.kind, c.len)).collect::<Vec<_>>() }));
    let mut points: Vec<(usize, usize)> = Vec::new();
    for (n, call) in mutations.iter().enumerate() {
        if call.kind == Kind::Write { for t in torn_lengths(call.len, every) { points.push((n, t)); } }
        else { points.push((n, 0)); }
    }
    points.push((mutations.len(), 0));
    for (at, torn) in points {
        // Alone, and followed by a second crash during each kind of operation.
        let seconds: Vec<Option<Op>> = if torn > 1 && !every { vec![None] } else { vec![None, Some(send(1, "a", "y")), Some(poll(1, "a", None))] };
        for second in seconds {
            let mut at2 = 0;
            loop {
                let what = format!("{} with a crash at mutation {at} ({} {torn} bytes written){}", history_text(history),
                    mutations.get(at).map(|c| format!("{:?}", c.kind)).unwrap_or("after the last".into()),
                    second.as_ref().map(|op| format!(", restart, {} with a crash at mutation {at2}", op.text())).unwrap_or_default());
                rep.case(&what);
                rep.nontrivial(&what);
                let result = guard(|| prepared(rep, history, |world, inbox, folder, before| {
                    world.set_plan(Plan::Crash { at, torn });
                    let _ = with_rt(|rt| guard(|| rt.block_on(exec(&inbox, last))));
                    drop(inbox);
                    let fired = world.with(|w| w.fired);
                    world.reset_faults();
                    let mut after = before.clone();
                    after.apply(last);
                    let mut models = vec![before.clone()];
                    if !fired { models.clear(); }
                    models.push(after);
                    let mut more = false;
                    if let Some(op) = &second {
                        let inbox = with_rt(|rt| open(rt, folder));
                        world.set_plan(Plan::Crash { at: at2, torn: 0 });
                        let _ = with_rt(|rt| guard(|| rt.block_on(exec(&inbox, op))));
                        drop(inbox);
                        more = world.with(|w| w.fired);
                        world.reset_faults();
                        for n in 0..models.len() {
                            let mut m = models[n].clone();
                            m.apply(op);
                            models.push(m);
                        }
                    }
                    let inbox = with_rt(|rt| rt.block_on(Inbox::new(PathBuf::from(folder)))).map_err(|err| format!("reopening failed: {err}"))?;
                    holds_one(&inbox, &keys, &last.inbox(), &models)?;
                    Ok::<bool, String>(more)
                })).and_then(|r| r);
                rep.eval();
                match result {
                    Ok(more) => {
                        if second.is_none() || !more { break; }
                        at2 += 1;
                    }
                    Err(text) => {
                        rep.fail(&what, format!("{what}: {text}"), json!({ "history": history_text(history), "mutation": at, "torn": torn }));
                        return;
                    }
                }
            }
        }
    }
}

/// Polls the inner future at most `left` times, then abandons it.
pub struct Abandon<F> { pub inner: Option<F>, pub left: usize }

impl<F: std::future::Future + Unpin> std::future::Future for Abandon<F> {
    type Output = Option<F::Output>;

    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        use std::task::Poll;
        if self.left == 0 { self.inner = None; return Poll::Ready(None); }
        self.left -= 1;
        match std::pin::Pin::new(self.inner.as_mut().unwrap()).poll(cx) {
            Poll::Ready(out) => Poll::Ready(Some(out)),
            Poll::Pending => {
                if self.left == 0 { self.inner = None; return Poll::Ready(None); }
                Poll::Pending
            }
        }
    }
}

/// One caller gives up after `k` polls of its operation while another works.
fn abandoned(rep: &mut Rep, initial: &[Op], given_up: &Op, other: &[Op], k: usize, bound: u32) -> bool {
    let name = format!("[{}] then {} abandoned at its suspension {k} || {}", history_text(initial), given_up.text(), history_text(other));
    let mut start = Model::default();
    for op in initial { start.apply(op); }
    let mut keys: Vec<_> = initial.iter().chain(other).chain([given_up]).map(Op::inbox).collect();
    keys.sort();
    keys.dedup();
    let mut ran_out = true;
    dfs(rep, bound, 500_000, |rep, prefix| {
        let folder = rep.folder("abandon");
        let world = World::new(&folder);
        world.with(|w| { w.now = Some(1_700_000_000); w.random = Some(1); });
        rep.case(format!("{name} schedule {prefix:?}"));
        let inbox = {
            let _in = world.enter();
            let rt = runtime();
            let inbox = Arc::new(open(&rt, &folder));
            rt.block_on(async { for op in initial { exec(&inbox, op).await; } });
            inbox
        };
        let events: Arc<Mutex<Vec<Event>>> = Arc::default();
        let quitter: Arc<Mutex<Option<Event>>> = Arc::default();
        let mut ops: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        {
            let (inbox, quitter, op) = (inbox.clone(), quitter.clone(), given_up.clone());
            ops.push(Box::new(move || {
                let rt = runtime();
                let start = world.tick();
                let out = guard(|| rt.block_on(Abandon { inner: Some(Box::pin(exec(&inbox, &op))), left: k }));
                let end = world.tick();
                let event = match out {
                    Ok(Some(out)) => Event { op, out, start, end },
                    Ok(None) => Event { op, out: Out::Failed("abandoned".into()), start, end: u64::MAX },
                    Err(text) => Event { op, out: Out::Failed(text), start, end }
                };
                *quitter.lock().unwrap() = Some(event);
                world.end_op();
                drop(rt);
            }));
        }
        {
            let (inbox, events, other) = (inbox.clone(), events.clone(), other.to_vec());
            ops.push(Box::new(move || {
                let rt = runtime();
                for op in other {
                    let start = world.tick();
                    let out = match guard(|| rt.block_on(exec(&inbox, &op))) { Ok(out) => out, Err(text) => Out::Failed(text) };
                    let end = world.tick();
                    events.lock().unwrap().push(Event { op, out, start, end });
                }
                world.end_op();
                drop(rt);
            }));
        }
        let run = run_ops(world, prefix, 20_000, ops);
        rep.eval();
        rep.nontrivial(&(&name, prefix));
        if run.outcome == NONDETERMINISTIC { return Some(run); }
        if run.outcome != "done" { rep.fail(&name, format!("{name}: {}", run.outcome), Json::Null); return None; }
        let mut events = events.lock().unwrap().clone();
        let quit = quitter.lock().unwrap().clone().unwrap();
        if quit.end == u64::MAX { ran_out = false; }
        let show = format!("{:?} and {:?}", quit, events);
        let last = {
            let _in = world.enter();
            let rt = runtime();
            guard(|| drain(&rt, &inbox, &keys)).and_then(|r| r)
        };
        world.free();
        let ok = match &last {
            Err(_) => false,
            Ok(last) => {
                let without = linearizable(&start, &events, last);
                if quit.end == u64::MAX {
                    without || (0..1).any(|_| linearizable_ignoring(&start, &events, &quit, last))
                } else {
                    events.push(quit.clone());
                    linearizable(&start, &events, last)
                }
            }
        };
        if !ok {
            rep.fail(&name, format!("{name}: results {show}, final contents {last:?} match no order with the abandoned operation done or not done"), json!({ "schedule": run.trace.iter().map(|c| c.chosen).collect::<Vec<_>>() }));
            return None;
        }
        Some(run)
    });
    // Whether the operation always finished within `k` polls.
    ran_out
}

/// Like [`linearizable`] with one more operation whose result is unknown.
fn linearizable_ignoring(initial: &Model, events: &[Event], quit: &Event, last: &Model) -> bool {
    fn go(model: &Model, events: &[Event], used: u32, quit: &Event, quit_done: bool, last: &Model) -> bool {
        if used.count_ones() as usize == events.len() && quit_done { return &model.clone().clean() == last; }
        let pending_starts = |n: usize| (0..events.len()).all(|m| m == n || used & 1 << m != 0 || events[m].end > events[n].start);
        for n in 0..events.len() {
            if used & 1 << n != 0 || !pending_starts(n) { continue; }
            let mut next = model.clone();
            if next.apply(&events[n].op) == events[n].out && go(&next, events, used | 1 << n, quit, quit_done, last) { return true; }
        }
        if !quit_done && (0..events.len()).all(|m| used & 1 << m != 0 || events[m].end > quit.start) {
            let mut next = model.clone();
            next.apply(&quit.op);
            if go(&next, events, used, quit, true, last) { return true; }
        }
        false
    }
    go(initial, events, 0, quit, false, last)
}

/// Concurrent operations (the first two callers, one operation each) of which
/// one meets a fault, or during which the process dies.
fn disturbed_schedules(rep: &mut Rep, initial: &[Op], pair: &[Op; 2], crash: bool, bound: u32) {
    let mut start = Model::default();
    for op in initial { start.apply(op); }
    let mut keys: Vec<_> = initial.iter().chain(pair).map(Op::inbox).collect();
    keys.sort();
    keys.dedup();
    // Kinds of disturbance; each is tried at every call until none is left.
    let kinds: Vec<(Option<usize>, fn(usize) -> Plan)> = if crash {
        vec![(None, |at| Plan::Crash { at, torn: 0 }), (None, |at| Plan::Crash { at, torn: 9 })]
    } else {
        let mut kinds: Vec<(Option<usize>, fn(usize) -> Plan)> = Vec::new();
        for victim in [0, 1] {
            kinds.push((Some(victim), |at| Plan::Errno { at, errno: libc::EIO }));
            kinds.push((Some(victim), |at| Plan::Short { at, len: 7 }));
            kinds.push((Some(victim), |at| Plan::Full { at, len: 0 }));
        }
        kinds
    };
    for (victim, plan_at) in kinds {
        for at in 0.. {
            let plan = plan_at(at);
            let name = format!("[{}] then {} || {} with {plan:?}{}", history_text(initial), pair[0].text(), pair[1].text(), victim.map(|v| format!(" in {}", pair[v].text())).unwrap_or_default());
            let mut struck = false;
            dfs(rep, bound, 200_000, |rep, prefix| {
                let folder = rep.folder("disturbed");
                let world = World::new(&folder);
                world.with(|w| { w.now = Some(1_700_000_000); w.random = Some(1); });
                rep.case(format!("{name} schedule {prefix:?}"));
                let inbox = {
                    let _in = world.enter();
                    let rt = runtime();
                    let inbox = Arc::new(open(&rt, &folder));
                    rt.block_on(async { for op in initial { exec(&inbox, op).await; } });
                    inbox
                };
                world.set_plan(plan);
                world.with(|w| w.victim = victim);
                // Whether the process still lived when the operation returned.
                let events: Arc<Mutex<Vec<(usize, Event, bool)>>> = Arc::default();
                let ops: Vec<Box<dyn FnOnce() + Send>> = pair.iter().cloned().enumerate().map(|(n, op)| {
                    let (inbox, events) = (inbox.clone(), events.clone());
                    Box::new(move || {
                        let rt = runtime();
                        let start = world.tick();
                        let out = match guard(|| rt.block_on(exec(&inbox, &op))) { Ok(out) => out, Err(text) => Out::Failed(text) };
                        let end = world.tick();
                        let lives = world.with(|w| !w.dead);
                        events.lock().unwrap().push((n, Event { op, out, start, end }, lives));
                        world.end_op();
                        drop(rt);
                    }) as Box<dyn FnOnce() + Send>
                }).collect();
                let run = run_ops(world, prefix, 20_000, ops);
                let fired = world.with(|w| w.fired);
                if run.outcome == NONDETERMINISTIC { return Some(run); }
                rep.eval();
                struck |= fired;
                if run.outcome != "done" { rep.fail(&name, format!("{name}: {}", run.outcome), json!({ "schedule": run.trace.iter().map(|c| c.chosen).collect::<Vec<_>>() })); return None; }
                world.reset_faults();
                world.with(|w| w.victim = None);
                let events = events.lock().unwrap().clone();
                let last = {
                    let _in = world.enter();
                    let rt = runtime();
                    guard(|| { let again; let inbox = if crash { again = open(&rt, &folder); &again } else { &inbox }; drain(&rt, inbox, &keys) }).and_then(|r| r)
                };
                world.free();
                if fired { rep.nontrivial(&(&name, prefix)); }
                // What surely happened, and what may have.
                let (mut sure, mut perhaps, mut wrong) = (Vec::new(), Vec::new(), None);
                for (n, event, lives) in &events {
                    let hit = fired && (victim == Some(*n) || matches!(plan, Plan::Full { .. }));
                    match (&event.out, &event.op) {
                        _ if !lives => perhaps.push(event.clone()),
                        (Out::Failed(why), _) if !hit => wrong = Some(format!("{} failed: {why}", event.op.text())),
                        (Out::Failed(_), Op::Send { .. }) => perhaps.push(event.clone()),
                        (Out::Failed(_), Op::Poll { .. }) => (),
                        _ => sure.push(event.clone())
                    }
                }
                let explained = wrong.is_none() && last.as_ref().is_ok_and(|last| (0..1_u32 << perhaps.len()).any(|chosen| {
                    // Those that took effect may have done so at any later time.
                    let took: Vec<&Event> = perhaps.iter().enumerate().filter(|(n, _)| chosen >> n & 1 == 1).map(|(_, e)| e).collect();
                    match took.len() {
                        0 => linearizable(&start, &sure, last),
                        1 => linearizable_ignoring(&start, &sure, took[0], last),
                        _ => [[0, 1], [1, 0]].iter().any(|order| {
                            let mut model = start.clone();
                            for n in order { model.apply(&took[*n].op); }
                            &model.clean() == last
                        })
                    }
                }));
                if !explained {
                    let show: Vec<String> = events.iter().map(|(_, e, lives)| format!("{} = {:?} [{},{}]{}", e.op.text(), e.out, e.start, e.end, if *lives { "" } else { " (after the process died)" })).collect();
                    rep.fail(&name, format!("{name}: {}results {show:?} with final contents {last:?} match no sequential order", wrong.map(|w| w + "; ").unwrap_or_default()), json!({ "schedule": run.trace.iter().map(|c| c.chosen).collect::<Vec<_>>() }));
                    return None;
                }
                Some(run)
            });
            if rep.failed() { return; }
            if !struck { break; }
        }
    }
}

/// Units of [`disturbed_schedules`].
fn disturbed_units(crash: bool, thorough: bool) -> Vec<Unit> {
    let ops = [send(1, "a", "x"), send(1, "a", "y"), poll(1, "a", None), poll(1, "a", Some(1))];
    let mut out = Vec::new();
    for (n, pair) in [[0, 1], [0, 2], [0, 3], [2, 3], [2, 2]].into_iter().enumerate() {
        for initial in [vec![], vec![send(1, "a", "i0")], vec![send(1, "a", "i0"), send(1, "a", "i1")]] {
            if initial.is_empty() && pair[0] > 1 || initial.len() == 1 && !thorough && n != 1 { continue; }
            let pair = pair.map(|p| ops[p].clone());
            out.push(Unit::new(format!("concurrent-{n}-{}", initial.len()), move |rep| disturbed_schedules(rep, &initial, &pair, crash, if thorough { 2 } else { 1 })));
        }
    }
    out
}

pub fn c13(tier: Tier) -> Property {
    let thorough = tier == Tier::Thorough;
    let mut units: Vec<Unit> = histories(thorough).into_iter().enumerate()
        .map(|(n, history)| Unit::new(format!("crash-{n}"), move |rep| crash_history(rep, &history))).collect();
    let initial = vec![send(1, "a", "i0"), send(1, "a", "i1")];
    let others: Vec<Vec<Op>> = vec![vec![], vec![send(1, "a", "y"), poll(1, "a", None)], vec![poll(1, "a", Some(1)), send(1, "a", "y")]];
    for (n, given_up) in [send(1, "a", "x"), poll(1, "a", None), poll(1, "a", Some(1))].into_iter().enumerate() {
        for (m, other) in others.iter().cloned().enumerate() {
            for start in [vec![], initial.clone()] {
                let (given_up, other) = (given_up.clone(), other.clone());
                units.push(Unit::new(format!("abandon-{n}-{m}-{}", start.len()), move |rep| {
                    for k in 0..30 {
                        if abandoned(rep, &start, &given_up, &other, k, if thorough { 2 } else { 1 }) || rep.failed() { return; }
                    }
                }));
            }
        }
    }
    units.extend(disturbed_units(true, thorough));
    units.extend(crate::proof::endpoint_units(false, false, true));
    Property {
        id: "C13",
        level: Level::Faults,
        rule: "For every history, the last operation is cut off at every mutating system call and after every chosen prefix of every write (the process being dead from then on), alone or followed by a restart and a second operation cut off at every mutation; the storage is then reopened, probed and drained, and must hold what the history with or without the cut-off operations leaves. Two concurrent operations are cut off at every mutation under every schedule with one (thorough: two) preemptions. Abandoned operations are dropped at every suspension point under all schedules with another caller within the preemption bound. Every fault point is a distinct non-trivial case.",
        assumptions: vec!["the process dies, not the machine: completed system calls persist in order", "a dying write leaves a prefix"],
        bounds: json!({ "histories": histories(thorough).len(), "torn_prefixes": if thorough { "all" } else { "0,1,7,8..64 by 8,half,-8,-1,all" }, "crashes": 2, "abandon_preemptions": if thorough { 2 } else { 1 } }),
        units
    }
}

/// The ways a call of a kind can go wrong.
pub fn menu(kind: Kind) -> Vec<i32> {
    match kind {
        Kind::OpenRead => vec![libc::EACCES, libc::EMFILE, libc::EIO, libc::EINTR],
        Kind::OpenWrite => vec![libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOSPC, libc::EINTR],
        Kind::Read => vec![libc::EIO, libc::EINTR],
        Kind::Write => vec![libc::ENOSPC, libc::EIO, libc::EINTR],
        Kind::Rename => vec![libc::EIO, libc::EACCES, libc::ENOSPC],
        Kind::Unlink | Kind::Rmdir => vec![libc::EACCES, libc::EIO, libc::EBUSY],
        Kind::Mkdir | Kind::Link => vec![libc::EACCES, libc::ENOSPC],
        Kind::Truncate | Kind::Sync | Kind::Other => vec![libc::EIO],
        Kind::OpenDir | Kind::ReadDir => vec![libc::EIO, libc::EACCES, libc::EMFILE],
        Kind::Stat => vec![libc::EIO, libc::EACCES]
    }
}

/// Every single fault of the given calls.
pub fn faults(calls: &[Call]) -> Vec<Plan> {
    let mut out = Vec::new();
    for (at, call) in calls.iter().enumerate() {
        for errno in menu(call.kind) { out.push(Plan::Errno { at, errno }); }
        if matches!(call.kind, Kind::Read | Kind::Write) {
            for len in [1, 7, 8, 9, 16, call.len / 2, call.len.saturating_sub(1)] {
                if len > 0 && len < call.len { out.push(Plan::Short { at, len }); }
            }
        }
        if call.kind == Kind::Write { for len in torn_lengths(call.len, false) { out.push(Plan::Full { at, len }); } }
        else if call.kind.mutates() { out.push(Plan::Full { at, len: 0 }); }
    }
    out.dedup();
    out
}

fn faulty_history(rep: &mut Rep, history: &[Op]) {
    let last = history.last().unwrap();
    let calls = record_calls(rep, history);
    let keys = keys_of(history);
    rep.sample(|| json!({ "history": history_text(history), "calls": calls.iter().map(|c| format!("{:?}", c.kind)).collect::<Vec<_>>() }));
    for plan in faults(&calls) {
        let (Plan::Errno { at, .. } | Plan::Short { at, .. } | Plan::Full { at, .. } | Plan::Crash { at, .. }) = plan else { continue };
        for restart in [false, true] {
            let what = format!("{} with {plan:?} ({:?}) in its last operation{}", history_text(history), calls[at].kind, if restart { ", then a restart" } else { "" });
            rep.case(&what);
            rep.nontrivial(&what);
            let result = guard(|| prepared(rep, history, |world, inbox, folder, before| {
                world.set_plan(plan);
                let got = with_rt(|rt| guard(|| rt.block_on(exec(&inbox, last))));
                world.reset_faults();
                let got = got.map_err(|text| format!("the operation {text}"))?;
                let mut after = before.clone();
                let want = after.apply(last);
                let models = match (&got, last) {
                    (Out::Failed(_), Op::Send { .. }) => vec![before.clone(), after],
                    (Out::Failed(_), Op::Poll { .. }) => vec![before.clone()],
                    (got, _) => {
                        if got != &want { return Err(format!("the operation gave {got:?} instead of {want:?} or an error")); }
                        vec![after]
                    }
                };
                let inbox = if restart { with_rt(|rt| open(rt, folder)) } else { inbox };
                holds_one(&inbox, &keys, &last.inbox(), &models).map_err(|text| format!("the operation gave {got:?}; {text}"))?;
                Ok::<_, String>(matches!(got, Out::Failed(_)))
            })).and_then(|r| r);
            rep.eval();
            match result {
                Ok(failed) => rep.count(if failed { "operations_reporting_an_error" } else { "operations_succeeding_despite_the_fault" }, 1),
                Err(text) => {
                    rep.fail(&what, format!("{what}: {text}"), json!({ "history": history_text(history), "plan": format!("{plan:?}") }));
                    return;
                }
            }
        }
    }
}

/// Two operations in a row that each meet a fault, or the second a crash.
fn faulty_twice(rep: &mut Rep, history: &[Op], second: &Op) {
    let last = history.last().unwrap();
    let mut calls = record_calls(rep, history);
    let keys = keys_of(history);
    let mut first: Vec<Plan> = Vec::new();
    for (at, call) in calls.drain(..).enumerate() {
        first.push(Plan::Errno { at, errno: libc::EIO });
        if call.kind.mutates() { first.push(Plan::Full { at, len: call.len / 2 }); }
    }
    let kinds: [fn(usize) -> Plan; 5] = [|at| Plan::Errno { at, errno: libc::EIO }, |at| Plan::Short { at, len: 7 }, |at| Plan::Full { at, len: 0 }, |at| Plan::Crash { at, torn: 0 }, |at| Plan::Crash { at, torn: 9 }];
    // What a fault allows to be left.
    let allowed = |models: &[Model], op: &Op, got: &Out| -> Vec<Model> {
        let mut out = Vec::new();
        for before in models {
            let mut after = before.clone();
            let want = after.apply(op);
            match (got, op) {
                (Out::Failed(_), Op::Send { .. }) => out.extend([before.clone(), after]),
                (Out::Failed(_), Op::Poll { .. }) => out.push(before.clone()),
                _ => if *got == want { out.push(after) }
            }
        }
        out
    };
    for plan in first {
        for kind in kinds {
            for at in 0.. {
                let again = kind(at);
                let what = format!("{} with {plan:?} in its last operation, then {} with {again:?}", history_text(history), second.text());
                rep.case(&what);
                let result = guard(|| prepared(rep, history, |world, inbox, folder, before| {
                    world.set_plan(plan);
                    let got = with_rt(|rt| guard(|| rt.block_on(exec(&inbox, last))));
                    world.reset_faults();
                    let got = got.map_err(|text| format!("the operation {text}"))?;
                    let models = allowed(&[before.clone()], last, &got);
                    world.set_plan(again);
                    let then = with_rt(|rt| guard(|| rt.block_on(exec(&inbox, second))));
                    let (fired, dead) = world.with(|w| (w.fired, w.dead));
                    world.reset_faults();
                    let (inbox, models) = if dead {
                        drop(inbox);
                        let done = models.iter().map(|m| { let mut m = m.clone(); m.apply(second); m });
                        (with_rt(|rt| rt.block_on(Inbox::new(PathBuf::from(folder)))).map_err(|err| format!("reopening failed: {err}"))?, models.iter().cloned().chain(done).collect())
                    } else {
                        (inbox, allowed(&models, second, &then.clone().map_err(|text| format!("the second operation {text}"))?))
                    };
                    holds_one(&inbox, &keys, &last.inbox(), &models).map_err(|text| format!("the operations gave {got:?} and {then:?}; {text}"))?;
                    Ok::<_, String>(fired)
                })).and_then(|r| r);
                rep.eval();
                match result {
                    Ok(true) => rep.nontrivial(&what),
                    Ok(false) => break,
                    Err(text) => {
                        rep.fail(&what, format!("{what}: {text}"), json!({ "history": history_text(history), "plans": format!("{plan:?} {again:?}") }));
                        return;
                    }
                }
            }
        }
    }
}

/// Units of [`faulty_twice`].
fn twice_units(thorough: bool) -> Vec<Unit> {
    let mut out = Vec::new();
    for n in 0..if thorough { 4 } else { 3 } {
        for last in [send(1, "a", "x"), poll(1, "a", None), poll(1, "a", Some(1))] {
            for second in [send(1, "a", "y"), poll(1, "a", None), poll(1, "a", Some(1))] {
                if n == 0 && matches!(last, Op::Poll { .. }) || !thorough && n == 1 { continue; }
                let mut history: Vec<Op> = (0..n).map(|i| send(1, "a", &format!("i{i}"))).collect();
                history.push(last.clone());
                out.push(Unit::new(format!("twice-{n}-{}-{}", last.text(), second.text()), move |rep| faulty_twice(rep, &history, &second)));
            }
        }
    }
    out
}

pub fn c14(tier: Tier) -> Property {
    let thorough = tier == Tier::Thorough;
    let units = histories(thorough).into_iter().enumerate()
        .map(|(n, history)| Unit::new(format!("fault-{n}"), move |rep| faulty_history(rep, &history)))
        .chain(twice_units(thorough))
        .chain(disturbed_units(false, thorough))
        .chain(crate::proof::endpoint_units(false, true, false)).collect();
    Property {
        id: "C14",
        level: Level::Faults,
        rule: "For every history, every system call of the last operation is made to fail with every errno of its kind's menu, to be interrupted, to transfer fewer bytes, or to be the point from which the disk is full; the operation must give the model's result or an error, and a probe and drain afterwards, with the same server or after a restart, must find what the history leaves. The same holds for every pair of faults (or a fault and then a crash) in two successive operations, and for every fault in one of two concurrent operations under every schedule with one (thorough: two) preemptions, where the other operation must not fail. Every fault is a distinct non-trivial case.",
        assumptions: vec!["at most one fault (or one period of a full disk) per operation"],
        bounds: json!({ "histories": histories(thorough).len(), "faults_per_call": "errno menu by kind, short transfers, disk full" }),
        units
    }
}
