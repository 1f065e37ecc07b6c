//! Interposition of the libc symbols through which the code under test (and
//! `std`, tokio) reaches the kernel, and the controlled scheduler on top of it.
//!
//! Threads that belong to no [`World`] are passed through untouched. A thread
//! in a world has its file-system calls counted, optionally failed, and checked
//! for containment; its clock and random numbers are the world's. A controlled
//! thread additionally runs only when the scheduler says so.

use std::cell::{Cell, UnsafeCell};
use std::collections::HashMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};
use std::sync::Arc;

use libc::{c_char, c_int, c_long, c_void, mode_t, off64_t, size_t, ssize_t, timespec};

const NONE: usize = usize::MAX;

thread_local! {
    static CUR: Cell<*const World> = const { Cell::new(std::ptr::null()) };
    static TID: Cell<usize> = const { Cell::new(NONE) };
}

// ---------------------------------------------------------------- raw calls

#[inline]
unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n as isize => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

#[inline]
fn fail(errno: c_int) -> isize {
    unsafe { *libc::__errno_location() = errno; }
    -1
}

#[inline]
fn cvt(ret: isize) -> isize {
    if (-4095..0).contains(&ret) { fail(-ret as c_int) } else { ret }
}

unsafe fn call3(n: c_long, a: usize, b: usize, c: usize) -> isize {
    cvt(raw6(n, a, b, c, 0, 0, 0))
}

unsafe fn call6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    cvt(raw6(n, a, b, c, d, e, f))
}

fn raw_wait(addr: &AtomicU32, val: u32) {
    unsafe { raw6(libc::SYS_futex, addr as *const _ as usize, 128, val as usize, 0, 0, 0); }
}

fn raw_sleep(ns: i64) {
    let ts = timespec { tv_sec: 0, tv_nsec: ns };
    unsafe { raw6(libc::SYS_nanosleep, &ts as *const _ as usize, 0, 0, 0, 0, 0); }
}

fn raw_wake(addr: &AtomicU32) {
    unsafe { raw6(libc::SYS_futex, addr as *const _ as usize, 129, i32::MAX as usize, 0, 0, 0); }
}

struct Next(AtomicUsize, &'static CStr);

impl Next {
    fn get(&self) -> usize {
        let mut p = self.0.load(Ordering::Relaxed);
        if p == 0 {
            p = unsafe { libc::dlsym(libc::RTLD_NEXT, self.1.as_ptr()) } as usize;
            self.0.store(p, Ordering::Relaxed);
        }
        p
    }
}

macro_rules! next {
    ($name:literal, $ty:ty) => {{
        static N: Next = Next(AtomicUsize::new(0), $name);
        std::mem::transmute::<usize, $ty>(N.get())
    }};
}

// ---------------------------------------------------------------- the world

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    OpenRead, OpenWrite, Read, Write, Rename, Unlink, Mkdir, Rmdir, Link,
    Truncate, Sync, OpenDir, ReadDir, Stat, Other
}

impl Kind {
    pub fn mutates(self) -> bool {
        matches!(self, Kind::OpenWrite | Kind::Write | Kind::Rename | Kind::Unlink
            | Kind::Mkdir | Kind::Rmdir | Kind::Link | Kind::Truncate | Kind::Other)
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Call {
    pub kind: Kind,
    pub path: String,
    pub len: usize,
    pub op: usize
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Plan {
    None,

    /// The process dies at mutation number `at` (counted from 0); if it is a
    /// write, `torn` bytes of it still reach the file.
    Crash { at: usize, torn: usize },

    /// Call number `at` fails with the errno.
    Errno { at: usize, errno: c_int },

    /// Call number `at` (a read or write) transfers at most `len` bytes.
    Short { at: usize, len: usize },

    /// From call number `at` on, there is no space: a write stores at most
    /// `len` bytes once, and every later write or creation fails.
    Full { at: usize, len: usize }
}

pub enum Action { Go, Fail(c_int), Len(usize), TornThenDead(usize) }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum St {
    Ready,
    Run,
    Futex { addr: usize, val: u32, deadline: Option<u64> },
    Sleep { deadline: u64 },
    Join(libc::pthread_t),
    End,
    Done
}

struct Th {
    op: usize,
    st: St,
    token: Arc<AtomicU32>,
    pt: libc::pthread_t,
    timed_out: bool
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Choice {
    /// Preemption cost of each alternative; the first is the default.
    pub costs: Vec<u8>,
    pub chosen: usize
}

#[derive(Default)]
pub struct Inner {
    /// Calls on paths outside this folder are not file-system calls of the
    /// code under test (or, for mutations, are escapes).
    pub root: String,
    pub contain: bool,
    pub calls: usize,
    pub mutations: usize,
    pub plan: Option<Plan>,
    /// Only calls of this operation count for the plan (except crashes).
    pub victim: Option<usize>,
    pub dead: bool,
    full: bool,
    pub fired: bool,
    pub log: Option<Vec<Call>>,
    pub escapes: Vec<String>,
    fds: HashMap<c_int, String>,
    dirs: HashMap<usize, (String, bool)>,

    /// Wall-clock seconds, if controlled.
    pub now: Option<u64>,

    /// State of the random stream, if controlled.
    pub random: Option<u64>,

    /// Bytes handed out first, before the stream.
    pub random_prefix: Vec<u8>,

    threads: Vec<Th>,
    last: HashMap<usize, usize>,
    pub prefix: Vec<usize>,
    pub trace: Vec<Choice>,
    pub steps: usize,
    pub max_steps: usize,
    no_choice: bool,
    cur_op: usize,
    mono: u64,
    ops_left: usize,
    pub outcome: Option<&'static str>,
    clock: u64
}

pub struct World {
    lock: AtomicBool,
    inner: UnsafeCell<Inner>,
    done: AtomicU32
}

unsafe impl Send for World {}
unsafe impl Sync for World {}

/// Errno given to a dead process.
const DEAD: c_int = libc::EIO;

impl World {
    pub fn new(root: &str) -> &'static World {
        Box::leak(Box::new(World {
            lock: AtomicBool::new(false),
            inner: UnsafeCell::new(Inner { root: root.to_string(), ..Inner::default() }),
            done: AtomicU32::new(0)
        }))
    }

    /// The process-wide world for uncontrolled runs, started afresh. Pool
    /// threads of long-lived runtimes stay part of it.
    pub fn shared(root: &str) -> &'static World {
        static SHARED: AtomicUsize = AtomicUsize::new(0);
        let mut p = SHARED.load(Ordering::SeqCst);
        if p == 0 {
            p = World::new(root) as *const World as usize;
            SHARED.store(p, Ordering::SeqCst);
        }
        let world = unsafe { &*(p as *const World) };
        world.with(|w| *w = Inner { root: root.to_string(), ..Inner::default() });
        world
    }

    /// Free a world of a finished controlled run.
    pub fn free(&'static self) { unsafe { drop(Box::from_raw(self as *const World as *mut World)); } }

    pub fn with<R>(&self, f: impl FnOnce(&mut Inner) -> R) -> R {
        let mut spins = 0;
        while self.lock.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
            spins += 1;
            if spins > 100 { unsafe { raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0); } }
        }
        struct Unlock<'a>(&'a AtomicBool);
        impl Drop for Unlock<'_> { fn drop(&mut self) { self.0.store(false, Ordering::Release); } }
        let _unlock = Unlock(&self.lock);
        f(unsafe { &mut *self.inner.get() })
    }

    /// Make the calling thread (and the threads it creates from now on) part
    /// of this world, uncontrolled, until the guard is dropped.
    pub fn enter(&'static self) -> Enter {
        let prev = (CUR.replace(self), TID.replace(NONE));
        Enter(prev)
    }

    pub fn reset_faults(&self) {
        self.with(|w| { w.plan = None; w.dead = false; w.full = false; w.fired = false; w.calls = 0; w.mutations = 0; });
    }

    pub fn set_plan(&self, plan: Plan) {
        self.with(|w| { w.plan = Some(plan); w.dead = false; w.full = false; w.fired = false; w.calls = 0; w.mutations = 0; });
    }

    /// Count a call about to be made and decide its fate.
    fn enter_call(&self, kind: Kind, path: &str, len: usize) -> Action {
        if TID.get() != NONE { self.point(); }
        self.with(|w| {
            let mutates = kind.mutates();
            if let Some(log) = &mut w.log {
                let op = if TID.get() == NONE { NONE } else { w.threads[TID.get()].op };
                log.push(Call { kind, path: path.to_string(), len, op });
            }
            if w.dead {
                w.calls += 1;
                return Action::Fail(DEAD);
            }
            let counts = w.victim.is_none() || (TID.get() != NONE && w.victim == Some(w.threads[TID.get()].op));
            let at_call = if counts { w.calls } else { usize::MAX };
            let at_mut = w.mutations;
            if counts { w.calls += 1; }
            if mutates { w.mutations += 1; }
            match w.plan {
                None | Some(Plan::None) => Action::Go,
                Some(Plan::Crash { at, torn }) => {
                    if !mutates || at_mut < at { return Action::Go; }
                    w.dead = true;
                    w.fired = true;
                    if kind == Kind::Write && torn > 0 { return Action::TornThenDead(torn); }
                    Action::Fail(DEAD)
                }
                Some(Plan::Errno { at, errno }) => {
                    if at_call != at { return Action::Go; }
                    w.fired = true;
                    Action::Fail(errno)
                }
                Some(Plan::Short { at, len }) => {
                    if at_call != at { return Action::Go; }
                    w.fired = true;
                    Action::Len(len)
                }
                Some(Plan::Full { at, len }) => {
                    if w.full {
                        if matches!(kind, Kind::OpenWrite | Kind::Write | Kind::Mkdir | Kind::Link) { return Action::Fail(libc::ENOSPC); }
                        return Action::Go;
                    }
                    if at_call < at || !counts { return Action::Go; }
                    w.full = true;
                    w.fired = true;
                    if kind == Kind::Write && len > 0 { return Action::Len(len); }
                    if matches!(kind, Kind::OpenWrite | Kind::Write | Kind::Mkdir | Kind::Link) { return Action::Fail(libc::ENOSPC); }
                    Action::Go
                }
            }
        })
    }

    // ------------------------------------------------------------ scheduler

    /// Prepare a controlled run of `ops` operations following `prefix`.
    pub fn begin(&self, ops: usize, prefix: &[usize], max_steps: usize) {
        self.done.store(0, Ordering::SeqCst);
        self.with(|w| {
            w.threads.clear();
            w.last.clear();
            for op in 0..ops {
                w.threads.push(Th { op, st: St::Ready, token: Arc::new(AtomicU32::new(0)), pt: 0, timed_out: false });
            }
            w.prefix = prefix.to_vec();
            w.trace.clear();
            w.steps = 0;
            w.max_steps = max_steps;
            w.no_choice = false;
            w.cur_op = NONE;
            w.mono = 1_000_000_000_000;
            w.ops_left = ops;
            w.outcome = None;
            w.clock = 0;
        });
    }

    /// Called by the thread of operation `op`; returns when first scheduled.
    pub fn start_op(&'static self, op: usize) {
        CUR.set(self);
        TID.set(op);
        let token = self.with(|w| w.threads[op].token.clone());
        wait_token(&token);
    }

    /// Let the prepared operations run until all have finished and nothing can
    /// run any more. Returns how it ended.
    pub fn run(&self) -> &'static str {
        let wake = self.with(|w| {
            let next = w.pick(NONE);
            next.map(|next| w.resume(next))
        });
        if let Some(token) = wake { give_token(&token); } else { self.finish("deadlock"); }
        while self.done.load(Ordering::SeqCst) == 0 { raw_wait(&self.done, 0); }
        self.with(|w| w.outcome.unwrap_or("?"))
    }

    /// Operation is over; wait until everything else has come to rest.
    pub fn end_op(&self) {
        self.with(|w| w.ops_left -= 1);
        self.block(St::End);
    }

    /// Leave the world for good; the thread must not be used for it again.
    /// It goes on only when the whole run is over.
    pub fn exit_op(&self) {
        self.exit_thread();
        while self.done.load(Ordering::SeqCst) == 0 { raw_wait(&self.done, 0); }
    }

    /// A logical clock for invocation and response events.
    pub fn tick(&self) -> u64 {
        self.with(|w| { w.clock += 1; w.clock })
    }

    fn finish(&self, outcome: &'static str) {
        self.with(|w| if w.outcome.is_none() { w.outcome = Some(outcome); });
        self.done.store(1, Ordering::SeqCst);
        raw_wake(&self.done);
    }

    /// A scheduling point of the running thread.
    fn point(&self) {
        let me = TID.get();
        let mut limit = false;
        let handoff = self.with(|w| {
            w.steps += 1;
            if w.steps > w.max_steps { limit = true; return None; }
            let next = w.pick(me).unwrap();
            if next == me { return None; }
            w.threads[me].st = St::Ready;
            Some((w.resume(next), w.threads[me].token.clone()))
        });
        if limit {
            self.finish("no progress");
            loop { let never = AtomicU32::new(0); raw_wait(&never, 0); }
        }
        if let Some((next, mine)) = handoff {
            give_token(&next);
            wait_token(&mine);
        }
    }

    /// Yield without choice, to the next thread in turn.
    fn pass(&self) {
        let me = TID.get();
        let mut limit = false;
        let handoff = self.with(|w| {
            w.steps += 1;
            if w.steps > w.max_steps { limit = true; return None; }
            let n = w.threads.len();
            let next = (1..n).map(|d| (me + d) % n).find(|t| w.threads[*t].st == St::Ready)?;
            w.threads[me].st = St::Ready;
            Some((w.resume(next), w.threads[me].token.clone()))
        });
        if limit {
            self.finish("no progress");
            loop { let never = AtomicU32::new(0); raw_wait(&never, 0); }
        }
        if let Some((next, mine)) = handoff {
            give_token(&next);
            wait_token(&mine);
        }
    }

    /// Block the running thread. Returns whether it timed out.
    fn block(&self, st: St) -> bool {
        let me = TID.get();
        let (next, mine) = self.with(|w| {
            w.threads[me].st = st;
            w.threads[me].timed_out = false;
            let mine = w.threads[me].token.clone();
            (w.next_or_idle(), mine)
        });
        match next {
            Ok(next) => {
                if !Arc::ptr_eq(&next, &mine) { give_token(&next); wait_token(&mine); }
            }
            Err(outcome) => { self.finish(outcome); wait_token(&mine); }
        }
        self.with(|w| w.threads[me].timed_out)
    }

    fn exit_thread(&self) {
        let me = TID.get();
        let next = self.with(|w| {
            w.threads[me].st = St::Done;
            let pt = w.threads[me].pt;
            for th in &mut w.threads {
                if th.st == St::Join(pt) { th.st = St::Ready; }
            }
            w.next_or_idle()
        });
        CUR.set(std::ptr::null());
        TID.set(NONE);
        match next {
            Ok(next) => give_token(&next),
            Err(outcome) => self.finish(outcome)
        }
    }
}

impl Inner {
    fn resume(&mut self, next: usize) -> Arc<AtomicU32> {
        let op = self.threads[next].op;
        self.threads[next].st = St::Run;
        self.cur_op = op;
        self.last.insert(op, next);
        self.threads[next].token.clone()
    }

    /// Choose the next thread to run; `me` is the running thread if it can go on.
    fn pick(&mut self, me: usize) -> Option<usize> {
        let ready = |w: &Inner, t: usize| t == me || w.threads[t].st == St::Ready;
        let n = self.threads.len();
        let mut ops: Vec<usize> = (0..n).filter(|t| ready(self, *t)).map(|t| self.threads[t].op).collect();
        ops.sort();
        ops.dedup();
        if ops.is_empty() { return None; }
        let cur = self.cur_op;
        let cur_ready = ops.contains(&cur);
        if cur_ready { ops.retain(|op| *op != cur); ops.insert(0, cur); }
        let mut alts: Vec<(usize, u8)> = Vec::new();
        for (i, op) in ops.iter().enumerate() {
            let mut mine: Vec<usize> = (0..n).filter(|t| ready(self, *t) && self.threads[*t].op == *op).collect();
            if let Some(last) = self.last.get(op).copied() {
                if let Some(p) = mine.iter().position(|t| *t == last) { mine.remove(p); mine.insert(0, last); }
            }
            let base = if cur_ready && i > 0 { 1 } else { 0 };
            for (j, t) in mine.into_iter().enumerate() {
                let cost = base + if j > 0 { 1 } else { 0 };
                if cost <= 1 { alts.push((t, cost)); }
            }
        }
        if alts.len() == 1 || self.no_choice { return Some(alts[0].0); }
        let k = self.trace.len();
        let chosen = self.prefix.get(k).copied().unwrap_or(0);
        if chosen >= alts.len() {
            self.outcome = Some("nondeterministic replay");
            return Some(alts[0].0);
        }
        self.trace.push(Choice { costs: alts.iter().map(|a| a.1).collect(), chosen });
        Some(alts[chosen].0)
    }

    fn next_or_idle(&mut self) -> Result<Arc<AtomicU32>, &'static str> {
        loop {
            if let Some(next) = self.pick(NONE) { return Ok(self.resume(next)); }
            if self.ops_left == 0 && !self.no_choice {
                // Everything is at rest: let the operations wind up.
                self.no_choice = true;
                let mut any = false;
                for th in &mut self.threads {
                    if th.st == St::End { th.st = St::Ready; any = true; }
                }
                if any { continue; }
            }
            if self.threads.iter().all(|th| th.st == St::Done) { return Err("done"); }
            // A thread that winds up outside of the scheduler's control may have
            // released what is waited for.
            if self.wake_changed() { continue; }
            let due = self.threads.iter().enumerate().filter_map(|(t, th)| match th.st {
                St::Futex { deadline: Some(d), .. } | St::Sleep { deadline: d } => Some((d, t)),
                _ => None
            }).min();
            match due {
                Some((d, t)) => {
                    self.mono = self.mono.max(d);
                    self.threads[t].timed_out = true;
                    self.threads[t].st = St::Ready;
                }
                None => {
                    if (0..100).any(|_| { raw_sleep(1_000_000); self.wake_changed() }) { continue; }
                    if std::env::var_os("MC_DEBUG").is_some() {
                        let _off = Enter((CUR.replace(std::ptr::null()), TID.replace(NONE)));
                        for (t, th) in self.threads.iter().enumerate() { eprintln!("thread {t} of op {}: {:?} pt {:x}", th.op, th.st, th.pt); }
                        eprintln!("ops_left {} no_choice {} steps {}", self.ops_left, self.no_choice, self.steps);
                    }
                    return Err("deadlock")
                }
            }
        }
    }

    fn wake_changed(&mut self) -> bool {
        let mut any = false;
        for th in &mut self.threads {
            if let St::Futex { addr, val, .. } = th.st {
                if unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) } != val { th.st = St::Ready; any = true; }
            }
        }
        any
    }

    fn inside(&self, path: &str) -> bool {
        path == self.root || path.strip_prefix(self.root.as_str()).is_some_and(|rest| rest.starts_with('/'))
    }
}

fn wait_token(token: &AtomicU32) {
    while token.swap(0, Ordering::AcqRel) == 0 { raw_wait(token, 0); }
}

fn give_token(token: &AtomicU32) {
    token.store(1, Ordering::Release);
    raw_wake(token);
}

pub struct Enter((*const World, usize));

impl Drop for Enter {
    fn drop(&mut self) {
        CUR.set(self.0.0);
        TID.set(self.0.1);
    }
}

/// Run `f` outside of any world.
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    let _enter = Enter((CUR.replace(std::ptr::null()), TID.replace(NONE)));
    f()
}

#[inline]
fn cur() -> Option<&'static World> {
    let p = CUR.get();
    if p.is_null() { None } else { Some(unsafe { &*p }) }
}

/// Lexical absolute form of a path.
pub fn normal(path: &str) -> String {
    let mut parts: Vec<&str> = Vec::new();
    for part in path.split('/') {
        match part {
            "" | "." => (),
            ".." => { parts.pop(); }
            part => parts.push(part)
        }
    }
    format!("/{}", parts.join("/"))
}

unsafe fn full_path(w: &World, dirfd: c_int, path: *const c_char) -> String {
    let path = String::from_utf8_lossy(CStr::from_ptr(path).to_bytes()).into_owned();
    if path.starts_with('/') { return normal(&path); }
    if dirfd != libc::AT_FDCWD {
        if let Some(dir) = w.with(|w| w.fds.get(&dirfd).cloned()) { return normal(&format!("{dir}/{path}")); }
        return normal(&format!("/fd{dirfd}/{path}"));
    }
    normal(&format!("/cwd/{path}"))
}

const SYSTEM: [&str; 6] = ["/proc", "/sys", "/dev/null", "/dev/urandom", "/etc", "/usr"];

/// The fate of a call on a path; `None` when it is not a tracked call.
fn on_path(w: &World, kind: Kind, path: &str, len: usize) -> Option<Action> {
    let (inside, contain) = w.with(|w| (w.inside(path), w.contain));
    if inside { return Some(w.enter_call(kind, path, len)); }
    if kind.mutates() || !SYSTEM.iter().any(|s| path.starts_with(s)) {
        w.with(|w| if w.escapes.len() < 50 { w.escapes.push(format!("{kind:?} {path}")) });
        if contain && kind.mutates() { return Some(Action::Fail(libc::EACCES)); }
    }
    None
}

macro_rules! gate {
    ($action:expr) => {
        match $action {
            Some(Action::Fail(errno)) => return fail(errno) as _,
            _ => ()
        }
    };
}

// ---------------------------------------------------------------- file system

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let Some(w) = cur() else {
        return call6(libc::SYS_openat, dirfd as isize as usize, path as usize, flags as usize, mode as usize, 0, 0) as c_int;
    };
    let full = full_path(w, dirfd, path);
    let kind = if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 { Kind::OpenWrite }
        else if flags & libc::O_DIRECTORY != 0 { Kind::OpenDir } else { Kind::OpenRead };
    gate!(on_path(w, kind, &full, 0));
    let fd = call6(libc::SYS_openat, dirfd as isize as usize, path as usize, flags as usize, mode as usize, 0, 0) as c_int;
    if fd >= 0 { w.with(|w| if w.inside(&full) { w.fds.insert(fd, full); }); }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int { do_open(libc::AT_FDCWD, path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int { do_open(libc::AT_FDCWD, path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int { do_open(dirfd, path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int { do_open(dirfd, path, flags, mode) }

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(w) = cur() { w.with(|w| { w.fds.remove(&fd); }); }
    call3(libc::SYS_close, fd as usize, 0, 0) as c_int
}

fn on_fd(w: &World, kind: Kind, fd: c_int, len: usize) -> Option<Action> {
    let path = w.with(|w| w.fds.get(&fd).cloned())?;
    Some(w.enter_call(kind, &path, len))
}

unsafe fn do_read(n: c_long, fd: c_int, buf: usize, count: size_t, off: usize) -> ssize_t {
    let mut count = count;
    if let Some(w) = cur() {
        match on_fd(w, Kind::Read, fd, count) {
            Some(Action::Fail(errno)) => return fail(errno),
            Some(Action::Len(len)) => count = count.min(len),
            _ => ()
        }
    }
    call6(n, fd as usize, buf, count, off, 0, 0)
}

unsafe fn do_write(n: c_long, fd: c_int, buf: usize, count: size_t, off: usize) -> ssize_t {
    let mut count = count;
    if let Some(w) = cur() {
        match on_fd(w, Kind::Write, fd, count) {
            Some(Action::Fail(errno)) => return fail(errno),
            Some(Action::Len(len)) => count = count.min(len),
            Some(Action::TornThenDead(len)) => {
                call6(n, fd as usize, buf, count.min(len), off, 0, 0);
                return fail(DEAD);
            }
            _ => ()
        }
    }
    call6(n, fd as usize, buf, count, off, 0, 0)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, count: size_t) -> ssize_t { do_read(libc::SYS_read, fd, buf as usize, count, 0) }
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, count: size_t) -> ssize_t { do_write(libc::SYS_write, fd, buf as usize, count, 0) }
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, count: size_t, off: off64_t) -> ssize_t { do_read(libc::SYS_pread64, fd, buf as usize, count, off as usize) }
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, count: size_t, off: off64_t) -> ssize_t { do_write(libc::SYS_pwrite64, fd, buf as usize, count, off as usize) }

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if let Some(w) = cur() {
        if w.with(|w| w.fds.contains_key(&fd)) && n > 0 {
            return do_read(libc::SYS_read, fd, (*iov).iov_base as usize, (*iov).iov_len, 0);
        }
    }
    call3(libc::SYS_readv, fd as usize, iov as usize, n as usize)
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if let Some(w) = cur() {
        if w.with(|w| w.fds.contains_key(&fd)) && n > 0 {
            return do_write(libc::SYS_write, fd, (*iov).iov_base as usize, (*iov).iov_len, 0);
        }
    }
    call3(libc::SYS_writev, fd as usize, iov as usize, n as usize)
}

unsafe fn do_path1(kind: Kind, n: c_long, dirfd: c_int, path: *const c_char, a: usize, b: usize) -> c_int {
    if let Some(w) = cur() {
        let full = full_path(w, dirfd, path);
        gate!(on_path(w, kind, &full, 0));
    }
    call6(n, dirfd as isize as usize, path as usize, a, b, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int { do_path1(Kind::Unlink, libc::SYS_unlinkat, libc::AT_FDCWD, path, 0, 0) }
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dirfd: c_int, path: *const c_char, flags: c_int) -> c_int {
    do_path1(if flags & libc::AT_REMOVEDIR != 0 { Kind::Rmdir } else { Kind::Unlink }, libc::SYS_unlinkat, dirfd, path, flags as usize, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int { do_path1(Kind::Rmdir, libc::SYS_unlinkat, libc::AT_FDCWD, path, libc::AT_REMOVEDIR as usize, 0) }
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int { do_path1(Kind::Mkdir, libc::SYS_mkdirat, libc::AT_FDCWD, path, mode as usize, 0) }
#[no_mangle]
pub unsafe extern "C" fn mkdirat(dirfd: c_int, path: *const c_char, mode: mode_t) -> c_int { do_path1(Kind::Mkdir, libc::SYS_mkdirat, dirfd, path, mode as usize, 0) }
#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, len: off64_t) -> c_int {
    if let Some(w) = cur() {
        let full = full_path(w, libc::AT_FDCWD, path);
        gate!(on_path(w, Kind::Truncate, &full, 0));
    }
    call3(libc::SYS_truncate, path as usize, len as usize, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    if let Some(w) = cur() {
        let full = full_path(w, libc::AT_FDCWD, path);
        gate!(on_path(w, Kind::Other, &full, 0));
    }
    call3(libc::SYS_chmod, path as usize, mode as usize, 0) as c_int
}

unsafe fn do_rename(od: c_int, old: *const c_char, nd: c_int, new: *const c_char, flags: usize) -> c_int {
    if let Some(w) = cur() {
        let a = full_path(w, od, old);
        let b = full_path(w, nd, new);
        if !w.with(|w| w.inside(&a)) { gate!(on_path(w, Kind::Rename, &a, 0)); }
        gate!(on_path(w, Kind::Rename, &b, 0));
    }
    call6(libc::SYS_renameat2, od as isize as usize, old as usize, nd as isize as usize, new as usize, flags, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rename(old: *const c_char, new: *const c_char) -> c_int { do_rename(libc::AT_FDCWD, old, libc::AT_FDCWD, new, 0) }
#[no_mangle]
pub unsafe extern "C" fn renameat(od: c_int, old: *const c_char, nd: c_int, new: *const c_char) -> c_int { do_rename(od, old, nd, new, 0) }
#[no_mangle]
pub unsafe extern "C" fn renameat2(od: c_int, old: *const c_char, nd: c_int, new: *const c_char, flags: u32) -> c_int { do_rename(od, old, nd, new, flags as usize) }

#[no_mangle]
pub unsafe extern "C" fn linkat(od: c_int, old: *const c_char, nd: c_int, new: *const c_char, flags: c_int) -> c_int {
    if let Some(w) = cur() {
        let b = full_path(w, nd, new);
        gate!(on_path(w, Kind::Link, &b, 0));
    }
    call6(libc::SYS_linkat, od as isize as usize, old as usize, nd as isize as usize, new as usize, flags as usize, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(old: *const c_char, new: *const c_char) -> c_int { linkat(libc::AT_FDCWD, old, libc::AT_FDCWD, new, 0) }
#[no_mangle]
pub unsafe extern "C" fn symlink(old: *const c_char, new: *const c_char) -> c_int {
    if let Some(w) = cur() {
        let b = full_path(w, libc::AT_FDCWD, new);
        gate!(on_path(w, Kind::Link, &b, 0));
    }
    call3(libc::SYS_symlink, old as usize, new as usize, 0) as c_int
}

unsafe fn do_fd(kind: Kind, n: c_long, fd: c_int, a: usize) -> c_int {
    if let Some(w) = cur() { gate!(on_fd(w, kind, fd, 0)); }
    call3(n, fd as usize, a, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int { do_fd(Kind::Truncate, libc::SYS_ftruncate, fd, len as usize) }
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int { do_fd(Kind::Truncate, libc::SYS_ftruncate, fd, len as usize) }
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { do_fd(Kind::Sync, libc::SYS_fsync, fd, 0) }
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { do_fd(Kind::Sync, libc::SYS_fdatasync, fd, 0) }

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(fi: c_int, oi: *mut off64_t, fo: c_int, oo: *mut off64_t, len: size_t, flags: u32) -> ssize_t {
    if let Some(w) = cur() {
        // Make std fall back to plain reads and writes, which are tracked.
        if w.with(|w| w.fds.contains_key(&fo) || w.fds.contains_key(&fi)) { return fail(libc::ENOSYS); }
    }
    call6(libc::SYS_copy_file_range, fi as usize, oi as usize, fo as usize, oo as usize, len, flags as usize)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(fo: c_int, fi: c_int, off: *mut off64_t, len: size_t) -> ssize_t {
    if let Some(w) = cur() {
        if w.with(|w| w.fds.contains_key(&fo) || w.fds.contains_key(&fi)) { return fail(libc::ENOSYS); }
    }
    call6(libc::SYS_sendfile, fo as usize, fi as usize, off as usize, len, 0, 0)
}

#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    let Some(w) = cur() else { return call3(libc::SYS_flock, fd as usize, op as usize, 0) as c_int; };
    if TID.get() == NONE { return call3(libc::SYS_flock, fd as usize, op as usize, 0) as c_int; }
    w.point();
    loop {
        let ret = call3(libc::SYS_flock, fd as usize, (op | libc::LOCK_NB) as usize, 0) as c_int;
        if ret == 0 || op & libc::LOCK_NB != 0 || *libc::__errno_location() != libc::EWOULDBLOCK { return ret; }
        w.pass();
    }
}

unsafe fn do_stat(dirfd: c_int, path: *const c_char) -> Option<c_int> {
    let w = cur()?;
    if path.is_null() || *path == 0 { return None; }
    let full = full_path(w, dirfd, path);
    match on_path(w, Kind::Stat, &full, 0) {
        Some(Action::Fail(errno)) => Some(fail(errno) as c_int),
        _ => None
    }
}

#[no_mangle]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut c_void) -> c_int {
    if let Some(ret) = do_stat(dirfd, path) { return ret; }
    call6(libc::SYS_statx, dirfd as isize as usize, path as usize, flags as usize, mask as usize, buf as usize, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut c_void) -> c_int {
    if let Some(ret) = do_stat(libc::AT_FDCWD, path) { return ret; }
    call3(libc::SYS_stat, path as usize, buf as usize, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut c_void) -> c_int {
    if let Some(ret) = do_stat(libc::AT_FDCWD, path) { return ret; }
    call3(libc::SYS_lstat, path as usize, buf as usize, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    let real = next!(c"opendir", unsafe extern "C" fn(*const c_char) -> *mut c_void);
    let Some(w) = cur() else { return real(path); };
    let full = full_path(w, libc::AT_FDCWD, path);
    if let Some(Action::Fail(errno)) = on_path(w, Kind::OpenDir, &full, 0) {
        fail(errno);
        return std::ptr::null_mut();
    }
    let dir = real(path);
    if !dir.is_null() { w.with(|w| if w.inside(&full) { w.dirs.insert(dir as usize, (full, false)); }); }
    dir
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut c_void) -> *mut c_void {
    let real = next!(c"readdir64", unsafe extern "C" fn(*mut c_void) -> *mut c_void);
    if let Some(w) = cur() {
        // The directory is really read once, by the first call.
        let first = w.with(|w| match w.dirs.get_mut(&(dir as usize)) {
            Some((path, read)) if !*read => { *read = true; Some(path.clone()) }
            _ => None
        });
        if let Some(path) = first {
            if let Action::Fail(errno) = w.enter_call(Kind::ReadDir, &path, 0) {
                fail(errno);
                return std::ptr::null_mut();
            }
        }
    }
    real(dir)
}

#[no_mangle]
pub unsafe extern "C" fn closedir(dir: *mut c_void) -> c_int {
    let real = next!(c"closedir", unsafe extern "C" fn(*mut c_void) -> c_int);
    if let Some(w) = cur() { w.with(|w| { w.dirs.remove(&(dir as usize)); }); }
    real(dir)
}

// ---------------------------------------------------------------- time, randomness

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut timespec) -> c_int {
    if let Some(w) = cur() {
        let controlled = TID.get() != NONE;
        let value = w.with(|w| match clock {
            libc::CLOCK_REALTIME => w.now.map(|s| (s, 0)),
            libc::CLOCK_MONOTONIC if controlled => Some((w.mono / 1_000_000_000, w.mono % 1_000_000_000)),
            _ => None
        });
        if let Some((s, ns)) = value {
            (*ts).tv_sec = s as _;
            (*ts).tv_nsec = ns as _;
            return 0;
        }
    }
    let real = next!(c"clock_gettime", unsafe extern "C" fn(c_int, *mut timespec) -> c_int);
    real(clock, ts)
}

unsafe fn do_random(buf: *mut u8, len: usize) -> Option<isize> {
    let w = cur()?;
    w.with(|w| {
        let state = w.random.as_mut()?;
        let mut i = 0;
        while i < len && !w.random_prefix.is_empty() {
            *buf.add(i) = w.random_prefix.remove(0);
            i += 1;
        }
        while i < len {
            *state = state.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = *state;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^= z >> 31;
            for b in z.to_le_bytes() {
                if i < len { *buf.add(i) = b; i += 1; }
            }
        }
        Some(len as isize)
    })
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> ssize_t {
    if let Some(ret) = do_random(buf as *mut u8, len) { return ret; }
    call3(libc::SYS_getrandom, buf as usize, len, flags as usize)
}

// ---------------------------------------------------------------- threads

unsafe fn futex(w: &World, a: usize, b: usize, c: usize, d: usize, f: usize) -> c_long {
    let op = b as c_int & 127 & !libc::FUTEX_CLOCK_REALTIME;
    match op {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let _ = f;
            if (*(a as *const AtomicU32)).load(Ordering::SeqCst) != c as u32 { return fail(libc::EAGAIN) as c_long; }
            let deadline = if d == 0 { None } else {
                let ts = &*(d as *const timespec);
                let t = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                Some(if op == libc::FUTEX_WAIT { w.with(|w| w.mono) + t } else { t })
            };
            if w.block(St::Futex { addr: a, val: c as u32, deadline }) { fail(libc::ETIMEDOUT) as c_long } else { 0 }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let max = c as c_int as i64;
            let woken = w.with(|w| {
                let mut woken = 0_i64;
                for th in &mut w.threads {
                    if woken >= max { break; }
                    if matches!(th.st, St::Futex { addr, .. } if addr == a) { th.st = St::Ready; woken += 1; }
                }
                woken
            });
            if woken < max { raw6(libc::SYS_futex, a, b, (max - woken) as usize, 0, 0, f); }
            woken as c_long
        }
        _ => call6(libc::SYS_futex, a, b, c, d, 0, f) as c_long
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if let Some(w) = cur() {
        if n == libc::SYS_getrandom {
            if let Some(ret) = do_random(a as *mut u8, b) { return ret as c_long; }
        }
        if n == libc::SYS_futex && TID.get() != NONE { return futex(w, a, b, c, d, f); }
        if n == libc::SYS_copy_file_range { return copy_file_range(a as c_int, b as _, c as c_int, d as _, e, f as u32) as c_long; }
        if n == libc::SYS_statx { return statx(a as c_int, b as _, c as c_int, d as u32, e as _) as c_long; }
        if n == libc::SYS_renameat2 { return do_rename(a as c_int, b as _, c as c_int, d as _, e) as c_long; }
    }
    call6(n, a, b, c, d, e, f) as c_long
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if let Some(w) = cur() {
        if TID.get() != NONE { w.pass(); return 0; }
    }
    raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(w) = cur() {
        if TID.get() != NONE {
            let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
            let deadline = if flags & libc::TIMER_ABSTIME != 0 { t } else { w.with(|w| w.mono) + t };
            w.block(St::Sleep { deadline });
            return 0;
        }
    }
    -raw6(libc::SYS_clock_nanosleep, clock as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if cur().is_some() && TID.get() != NONE { return clock_nanosleep(libc::CLOCK_MONOTONIC, 0, req, rem); }
    call3(libc::SYS_nanosleep, req as usize, rem as usize, 0) as c_int
}

struct Birth {
    world: &'static World,
    tid: usize,
    start: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void
}

extern "C" fn born(p: *mut c_void) -> *mut c_void {
    let birth = unsafe { Box::from_raw(p as *mut Birth) };
    CUR.set(birth.world);
    if birth.tid == NONE { return (birth.start)(birth.arg); }
    TID.set(birth.tid);
    let token = birth.world.with(|w| w.threads[birth.tid].token.clone());
    wait_token(&token);
    birth.world.with(|w| w.threads[birth.tid].pt = unsafe { libc::pthread_self() });
    let ret = (birth.start)(birth.arg);
    birth.world.exit_thread();
    ret
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void
) -> c_int {
    let real = next!(c"pthread_create", unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int);
    let Some(world) = cur() else { return real(out, attr, start, arg); };
    let tid = if TID.get() == NONE { NONE } else {
        world.with(|w| {
            let op = w.threads[TID.get()].op;
            w.threads.push(Th { op, st: St::Ready, token: Arc::new(AtomicU32::new(0)), pt: 0, timed_out: false });
            w.threads.len() - 1
        })
    };
    let birth = Box::into_raw(Box::new(Birth { world, tid, start, arg }));
    let ret = real(out, attr, born, birth as *mut c_void);
    if ret != 0 {
        drop(Box::from_raw(birth));
        if tid != NONE { world.with(|w| w.threads[tid].st = St::Done); }
    } else if tid != NONE {
        world.with(|w| w.threads[tid].pt = *out);
    }
    ret
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(pt: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let real = next!(c"pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int);
    if let Some(w) = cur() {
        if TID.get() != NONE {
            let alive = w.with(|w| w.threads.iter().any(|th| th.pt == pt && th.st != St::Done));
            if alive { w.block(St::Join(pt)); }
        }
    }
    real(pt, out)
}
