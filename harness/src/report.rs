//! Running a property's units in forked worker processes, collecting counts,
//! samples and violations, and writing the evidence file.

use std::collections::{BTreeMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use serde_json::{json, Value as Json};

pub const WORKERS: usize = 8;

/// Seconds without a finished case after which a unit counts as hanging.
const STALL_S: u64 = 150;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Level { Exploration, Faults, ModelChecking }

pub struct Unit {
    pub name: String,
    pub run: Box<dyn Fn(&mut Rep)>
}

impl Unit {
    pub fn new(name: impl ToString, run: impl Fn(&mut Rep) + 'static) -> Unit {
        Unit { name: name.to_string(), run: Box::new(run) }
    }
}

pub struct Property {
    pub id: &'static str,
    pub level: Level,

    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub bounds: Json,
    pub units: Vec<Unit>
}

/// What a unit reports to.
pub struct Rep {
    pub tier: Tier,
    pub scratch: String,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Json>,
    pub violations: Vec<Json>,
    seen: HashSet<u64>,
    states: HashSet<u64>,
    case: String,
    shared: Option<&'static Slot>,
    known: Vec<String>,
    max_samples: usize
}

#[repr(C)]
pub struct Slot { beat: AtomicU64, unit: AtomicU64 }

#[repr(C)]
struct Shared { next: AtomicU64, stop: AtomicU64, slots: [Slot; WORKERS] }

pub fn hash(value: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    value.hash(&mut h);
    h.finish()
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

/// Run code under test; a panic becomes an error with its message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|err| panic_text(&err))
}

pub fn panic_text(err: &Box<dyn std::any::Any + Send>) -> String {
    let text = err.downcast_ref::<&str>().map(|s| s.to_string())
        .or_else(|| err.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| String::from("?"));
    let place = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
    format!("panicked: {text} {place}")
}

impl Rep {
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }

    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_default() += n;
    }

    /// One case evaluated.
    pub fn eval(&mut self) {
        self.count("evaluations", 1);
        self.beat();
    }

    pub fn beat(&mut self) {
        if let Some(slot) = self.shared { slot.beat.fetch_add(1, Ordering::Relaxed); }
    }

    /// One non-trivial case, counted once per distinct key.
    pub fn nontrivial(&mut self, key: &impl Hash) {
        if self.seen.insert(hash(key)) { self.count("distinct_nontrivial", 1); }
    }

    /// One state, counted once per distinct key.
    pub fn state(&mut self, key: &impl Hash) {
        if self.states.insert(hash(key)) { self.count("states", 1); }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> Json) {
        if self.samples.len() < self.max_samples { let s = f(); self.samples.push(s); }
    }

    /// The property is violated. `key` identifies the failing input or history.
    pub fn fail(&mut self, key: impl ToString, what: impl ToString, detail: Json) {
        let key = key.to_string();
        if self.known.contains(&key) {
            self.violations.push(json!({ "known": true, "key": key, "what": what.to_string() }));
            return;
        }
        if self.failed() { return; }
        self.violations.push(json!({ "key": key, "what": what.to_string(), "detail": detail }));
    }

    /// Whether a violation was found (units should stop soon).
    pub fn failed(&self) -> bool {
        self.violations.iter().any(|v| v["known"].is_null())
    }

    pub fn case(&mut self, text: impl ToString) { self.case = text.to_string(); }

    /// A fresh empty folder for a case.
    pub fn folder(&self, name: &str) -> String {
        let path = format!("{}/{name}", self.scratch);
        crate::sys::off(|| {
            let _ = std::fs::remove_dir_all(&path);
            std::fs::create_dir_all(&path).unwrap();
        });
        path
    }
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let place = info.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(place));
    }));
}

fn map_shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    }
}

fn known_findings(id: &str) -> Vec<String> {
    let path = format!("{}/known-findings.txt", root());
    let text = std::fs::read_to_string(path).unwrap_or_default();
    text.lines()
        .filter_map(|line| line.strip_prefix(&format!("finding: property={id} key=")))
        .filter_map(|rest| rest.split_once(" :: ").map(|(key, _)| key.to_string()))
        .collect()
}

pub fn root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| String::from("/verif"))
}

pub fn run(mut property: Property, tier: Tier, only: Option<String>) -> i32 {
    install_panic_hook();
    let start = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if let Some(only) = &only { property.units.retain(|u| u.name.contains(only.as_str())); }
    let scratch = format!("/dev/shm/mc-{}-{}", property.id, std::process::id());
    let scratch = if std::fs::create_dir_all(&scratch).is_ok() { scratch } else {
        let scratch = format!("{}/mc-{}-{}", std::env::temp_dir().display(), property.id, std::process::id());
        std::fs::create_dir_all(&scratch).unwrap();
        scratch
    };
    let known = known_findings(property.id);
    let shared = map_shared();
    let total = property.units.len();
    let workers = WORKERS.min(total.max(1));
    let mut pids = Vec::new();
    for me in 0..workers {
        match unsafe { libc::fork() } {
            0 => {
                unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); }
                work(&property, tier, shared, me, &scratch, &known);
                unsafe { libc::_exit(0) }
            }
            pid if pid > 0 => pids.push(Some(pid)),
            _ => panic!("fork failed")
        }
    }

    // Wait for the workers, watching for ones that hang or die.
    let mut trouble: Vec<(usize, String)> = Vec::new();
    let mut beats = vec![(u64::MAX, Instant::now()); workers];
    while pids.iter().any(Option::is_some) {
        std::thread::sleep(Duration::from_millis(20));
        for (me, slot) in pids.iter_mut().enumerate() {
            let Some(pid) = *slot else { continue };
            let mut status = 0;
            let got = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
            if got == pid {
                *slot = None;
                if !(libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 0) {
                    trouble.push((me, format!("worker process ended abnormally (status {status:#x})")));
                    shared.stop.store(1, Ordering::SeqCst);
                }
                continue;
            }
            let beat = shared.slots[me].beat.load(Ordering::Relaxed);
            if beats[me].0 != beat { beats[me] = (beat, Instant::now()); }
            else if beats[me].1.elapsed() > Duration::from_secs(STALL_S) {
                trouble.push((me, format!("no case finished for {STALL_S} s: the code under test does not terminate")));
                shared.stop.store(1, Ordering::SeqCst);
                unsafe { libc::kill(pid, libc::SIGKILL); }
                let mut s = 0;
                unsafe { libc::waitpid(pid, &mut s, 0); }
                *slot = None;
            }
        }
    }

    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut violations = Vec::new();
    for me in 0..workers {
        let text = std::fs::read_to_string(format!("{scratch}/result-{me}")).unwrap_or_default();
        for line in text.lines() {
            let Ok(part) = serde_json::from_str::<Json>(line) else { continue };
            for (name, n) in part["counters"].as_object().into_iter().flatten() {
                *counters.entry(name.clone()).or_default() += n.as_u64().unwrap_or(0);
            }
            for s in part["samples"].as_array().into_iter().flatten() {
                if samples.len() < 12 { samples.push(json!({ "unit": part["unit"], "case": s })); }
            }
            for v in part["violations"].as_array().into_iter().flatten() {
                let mut v = v.clone();
                v["unit"] = part["unit"].clone();
                violations.push(v);
            }
        }
    }
    for (me, what) in &trouble {
        let unit = shared.slots[*me].unit.load(Ordering::SeqCst) as usize;
        let name = property.units.get(unit).map(|u| u.name.clone()).unwrap_or_default();
        violations.push(json!({ "key": name, "what": what, "unit": name, "detail": null }));
    }
    let _ = std::fs::remove_dir_all(&scratch);

    for v in violations.iter().filter(|v| v["known"] == json!(true)) {
        println!("KNOWN-FINDING: property={} {}: {}", property.id, v["key"].as_str().unwrap_or(""), v["what"].as_str().unwrap_or(""));
    }
    let fresh: Vec<&Json> = violations.iter().filter(|v| v["known"].is_null()).collect();
    let units_done = counters.remove("units").unwrap_or(0);

    let mut coverage = serde_json::Map::new();
    for (name, n) in &counters { coverage.insert(name.clone(), json!(n)); }
    let evaluations = counters.get("evaluations").copied().unwrap_or(0);
    coverage.entry("evaluations").or_insert(json!(0));
    match property.level {
        Level::ModelChecking => {
            for name in ["states", "transitions", "traces_validated_against_impl"] { coverage.entry(name).or_insert(json!(0)); }
        }
        _ => { coverage.entry("distinct_nontrivial").or_insert(json!(0)); }
    }
    coverage.insert("rule".into(), json!(property.rule));
    coverage.insert("samples".into(), json!(samples));
    coverage.insert("bounds".into(), property.bounds.clone());
    coverage.insert("units".into(), json!(units_done));
    coverage.insert("units_total".into(), json!(total));
    coverage.insert("exhaustive".into(), json!(fresh.is_empty() && units_done as usize == total));

    let evidence = json!({
        "property": property.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": match property.level {
            Level::Exploration => "exploration",
            Level::Faults => "fault_enumeration",
            Level::ModelChecking => "model_checking"
        },
        "coverage": coverage,
        "assumptions": property.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": fresh.len()
    });
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if only.is_none() {
        std::fs::write(format!("{dir}/{}.json", property.id), serde_json::to_string_pretty(&evidence).unwrap()).unwrap();
    }

    if fresh.is_empty() && (units_done as usize) < total {
        eprintln!("{}: only {units_done} of {total} units ran", property.id);
        return 2;
    }
    println!("{}: {} units, {} evaluations, {:.1} s, {} violation(s)", property.id, units_done, evaluations, start.elapsed().as_secs_f64(), fresh.len());
    for (name, n) in &counters { println!("  {name}: {n}"); }
    if fresh.is_empty() { return 0; }
    let replays = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&replays);
    for (n, v) in fresh.iter().enumerate().take(3) {
        let path = format!("{replays}/{}-{n}.json", property.id);
        let replay = json!({
            "property": property.id,
            "rerun": format!("VERIF_TIER={} ./check.sh {} --unit '{}'", if tier == Tier::Quick { "quick" } else { "thorough" }, property.id, v["unit"].as_str().unwrap_or("")),
            "violation": v
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap());
        let mut what = v["what"].as_str().unwrap_or("").replace('\n', " ");
        if what.len() > 300 { let mut n = 300; while !what.is_char_boundary(n) { n -= 1; } what.truncate(n); }
        println!("  [{}] {}: {what}", v["unit"].as_str().unwrap_or(""), v["key"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={path}", property.id);
    }
    1
}

fn work(property: &Property, tier: Tier, shared: &'static Shared, me: usize, scratch: &str, known: &[String]) {
    let mut out = std::fs::File::create(format!("{scratch}/result-{me}")).unwrap();
    let mine = format!("{scratch}/w{me}");
    std::fs::create_dir_all(&mine).unwrap();
    loop {
        if shared.stop.load(Ordering::SeqCst) != 0 { return; }
        let n = shared.next.fetch_add(1, Ordering::SeqCst) as usize;
        let Some(unit) = property.units.get(n) else { return };
        shared.slots[me].unit.store(n as u64, Ordering::SeqCst);
        let began = Instant::now();
        let mut rep = Rep {
            tier, scratch: mine.clone(), counters: BTreeMap::new(), samples: Vec::new(), violations: Vec::new(),
            seen: HashSet::new(), states: HashSet::new(), case: String::new(), shared: Some(&shared.slots[me]),
            known: known.to_vec(), max_samples: 2
        };
        rep.beat();
        let result = catch_unwind(AssertUnwindSafe(|| (unit.run)(&mut rep)));
        if let Err(err) = result {
            let text = panic_text(&err);
            let case = rep.case.clone();
            rep.fail(format!("{}: {case}", unit.name), text, json!({ "case": case }));
        }
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!("[{me}] {} {:.2} s {:?}", unit.name, began.elapsed().as_secs_f64(), rep.counters);
        }
        rep.count("units", 1);
        let failed = rep.failed();
        let line = json!({ "unit": unit.name, "counters": rep.counters, "samples": rep.samples, "violations": rep.violations });
        writeln!(out, "{line}").unwrap();
        out.flush().unwrap();
        if failed { shared.stop.store(1, Ordering::SeqCst); return; }
    }
}
