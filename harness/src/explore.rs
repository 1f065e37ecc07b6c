//! Exhaustive depth-first search over schedules.

use std::sync::Arc;

use crate::report::Rep;
use crate::sys::{Choice, World};

pub const NONDETERMINISTIC: &str = "nondeterministic replay";

/// One run under a schedule: the choices made and how it ended.
pub struct Run {
    pub trace: Vec<Choice>,
    pub steps: usize,
    pub outcome: &'static str
}

/// Execute `ops` as operations of `world` under the choices of `prefix`
/// (afterwards the default choice). Each operation runs on its own thread.
pub fn run_ops(world: &'static World, prefix: &[usize], max_steps: usize, ops: Vec<Box<dyn FnOnce() + Send>>) -> Run {
    world.begin(ops.len(), prefix, max_steps);
    let mut threads = Vec::new();
    let ready = Arc::new(std::sync::Barrier::new(ops.len() + 1));
    for (n, op) in ops.into_iter().enumerate() {
        let ready = ready.clone();
        threads.push(std::thread::spawn(move || {
            ready.wait();
            world.start_op(n);
            op();
            world.exit_op();
        }));
    }
    ready.wait();
    let outcome = world.run();
    if outcome == "done" {
        for thread in threads { thread.join().unwrap(); }
    }
    let (trace, steps) = world.with(|w| (std::mem::take(&mut w.trace), w.steps));
    Run { trace, steps, outcome }
}

/// Enumerate every schedule with at most `bound` preemptions. `execute` runs
/// one schedule and returns what happened, or `None` to stop.
pub fn dfs(rep: &mut Rep, bound: u32, max_runs: u64, mut execute: impl FnMut(&mut Rep, &[usize]) -> Option<Run>) {
    let mut stack: Vec<Vec<usize>> = vec![Vec::new()];
    let mut runs = 0_u64;
    let mut retries = 0;
    while let Some(prefix) = stack.pop() {
        runs += 1;
        assert!(runs <= max_runs, "more than {max_runs} schedules: the scenario's bound is too large");
        let Some(run) = execute(rep, &prefix) else { return };
        if run.outcome == NONDETERMINISTIC {
            // The prefix did not fit: what ran meanwhile was not under control.
            retries += 1;
            if retries < 5 { runs -= 1; stack.push(prefix); continue; }
            retries = 0;
            rep.count("schedules_not_reproduced", 1);
            continue;
        }
        retries = 0;
        rep.count("schedules", 1);
        rep.count("transitions", run.steps as u64);
        rep.count("states", (run.trace.len() - prefix.len().min(run.trace.len())) as u64 + 1);
        let mut cost = 0_u32;
        let chosen: Vec<usize> = run.trace.iter().map(|c| c.chosen).collect();
        for (n, choice) in run.trace.iter().enumerate() {
            if n >= prefix.len() {
                for (alt, alt_cost) in choice.costs.iter().enumerate() {
                    if alt != choice.chosen && cost + *alt_cost as u32 <= bound {
                        let mut next = chosen[..n].to_vec();
                        next.push(alt);
                        stack.push(next);
                    }
                }
            }
            cost += choice.costs[choice.chosen] as u32;
        }
    }
}
