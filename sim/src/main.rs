//! bvsim: deterministic simulation of boostvoronoi with fault injection.
//!
//!   bvsim check PROPERTY [--tier quick|thorough] [--runs N] [--from I] [--wall S]
//!   bvsim replay FILE
//!   bvsim determinism PROPERTY N      runs N seeds twice and compares the event logs
#![allow(static_mut_refs)]
#![allow(clippy::type_complexity)]

mod common;
mod gen;
mod io;
mod model;
mod plane;
mod props;
mod disk;

use rt::sys;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

#[global_allocator]
static ALLOC: rt::alloc::SimAlloc = rt::alloc::SimAlloc;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    /// how cases are made
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

const CPU_LIMIT: u64 = 60;
const WALL_LIMIT: u32 = 100;

#[derive(Clone, Debug, PartialEq)]
enum Status {
    Ok,
    Violation,
    Harness,
}

#[derive(Clone)]
struct Outcome {
    status: Status,
    class: String,
    msg: String,
    digest: u64,
    sched_digest: u64,
    steps: u64,
    tapes: [Vec<u32>; 3],
}

fn seed_of(seed: u64, prop: &str, run: u64) -> u64 {
    let mut h = rt::fnv(0xcbf29ce484222325, prop.as_bytes());
    h = rt::fnv(h, &seed.to_le_bytes());
    h = rt::fnv(h, &run.to_le_bytes());
    rt::Rng(h).next()
}

enum Source<'a> {
    Seed(u64),
    Tapes(&'a [Vec<u32>; 3]),
}

/// one simulated run, in a process of its own
fn execute(p: &Prop, src: Source<'_>, trace: bool) -> Outcome {
    unsafe {
        rt::clear_shm();
        let pid = sys::fork();
        if pid == 0 {
            sys::rlimit(0, CPU_LIMIT, CPU_LIMIT + 5);
            sys::rlimit(4, 0, 0); // no core files
            sys::alarm(WALL_LIMIT);
            rt::TRACE_ON = trace;
            match src {
                Source::Seed(s) => rt::tapes_from_seed(s),
                Source::Tapes(t) => rt::tapes_from(t.clone()),
            }
            disk::install();
            sys::simulate_env(true);
            rt::set_budget(common::DEFAULT_BUDGET);
            let r = std::panic::catch_unwind(p.run);
            rt::ARMED = false;
            if r.is_err() {
                rt::violation("panic", format_args!("unexpected panic: {}", rt::last_panic()));
            }
            rt::passed();
        }
        let st = sys::wait(pid);
        let s = &*rt::SHM;
        let (status, class, msg) = match s.status {
            rt::OK => (Status::Ok, String::new(), String::new()),
            rt::VIOLATION | rt::HARNESS => (
                if s.status == rt::VIOLATION { Status::Violation } else { Status::Harness },
                String::from_utf8_lossy(&s.class[..s.class_len as usize]).into_owned(),
                String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned(),
            ),
            _ => {
                let sig = st & 0x7f;
                let (c, m) = match sig {
                    6 => ("abort", "the process aborted (SIGABRT)".to_string()),
                    7 | 11 => ("crash", format!("the process crashed (signal {sig}): stack overflow or wild access")),
                    24 => ("no-progress", format!("no progress within {CPU_LIMIT} s of processor time")),
                    14 => ("stall", "the run stalled".to_string()),
                    4 | 5 | 8 => ("crash", format!("the process crashed (signal {sig})")),
                    _ => ("harness", format!("the run ended with wait status {st:#x}")),
                };
                (if c == "harness" { Status::Harness } else { Status::Violation }, c.to_string(), m)
            }
        };
        let tapes = if status == Status::Ok {
            [Vec::new(), Vec::new(), Vec::new()]
        } else {
            [0, 1, 2].map(|i| s.tape[i][..s.tape_len[i] as usize].to_vec())
        };
        Outcome { status, class, msg, digest: s.digest, sched_digest: s.sched_digest, steps: s.steps, tapes }
    }
}

fn trace_lines() -> Vec<String> {
    unsafe {
        let s = &*rt::SHM;
        String::from_utf8_lossy(&s.trace[..s.trace_len as usize]).lines().map(|x| x.to_string()).collect()
    }
}

// ---------------------------------------------------------------------------------------------
// shards

const MAX_SHARDS: usize = 64;
const SETCAP: usize = 1 << 21;

#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop_at: AtomicU64,
    harness: AtomicU64,
    nondet: AtomicU64,
    rechecked: AtomicU64,
    shard: [Stats; MAX_SHARDS],
}
#[repr(C)]
struct Stats {
    done: u64,
    steps: u64,
    sim_ns: u64,
    events: u64,
    switches: u64,
    preempt: u64,
    threads: u64,
    max_steps: u64,
    peak: u64,
    faults: [u64; 64],
    fault_runs: [u64; 64],
    probes: [u64; 64],
    probe_runs: [u64; 64],
    cov: [u8; rt::COV],
    nscheds: u64,
    ndigests: u64,
}

struct Opts {
    tier: &'static str,
    seed: u64,
    runs: u64,
    from: u64,
    wall: f64,
    recheck: u64,
}

fn shard(p: &Prop, o: &Opts, sh: &'static Shared, me: usize, sets: *mut u64) -> ! {
    let t0 = Instant::now();
    let mut scheds = HashSet::new();
    let mut digests = HashSet::new();
    unsafe {
        rt::SHM = rt::new_shm();
        rt::SCRATCH = rt::map_shared(rt::SCRATCH_LEN);
        let st = &mut *(std::ptr::addr_of!(sh.shard[me]) as *mut Stats);
        loop {
            let i = sh.next.fetch_add(1, Ordering::SeqCst);
            if i >= o.from + o.runs || i > sh.stop_at.load(Ordering::SeqCst) || t0.elapsed().as_secs_f64() > o.wall {
                break;
            }
            let r = execute(p, Source::Seed(seed_of(o.seed, p.id, i)), false);
            let s = &*rt::SHM;
            st.done += 1;
            st.steps += s.steps;
            st.sim_ns += s.sim_ns;
            st.events += s.events;
            st.switches += s.switches;
            st.preempt += s.preemptions;
            st.threads += s.nthreads as u64;
            st.max_steps = st.max_steps.max(s.steps);
            st.peak = st.peak.max(s.peak_alloc);
            for k in 0..64 {
                st.faults[k] += s.faults[k] as u64;
                st.fault_runs[k] += (s.faults[k] > 0) as u64;
                st.probes[k] += s.probes[k] as u64;
                st.probe_runs[k] += (s.probes[k] > 0) as u64;
            }
            for k in 0..rt::COV {
                st.cov[k] |= s.cov[k];
            }
            if scheds.len() < SETCAP / 2 {
                scheds.insert(r.sched_digest);
            }
            if digests.len() < SETCAP / 2 {
                digests.insert(r.digest);
            }
            match r.status {
                Status::Ok => {
                    if o.recheck > 0 && i % o.recheck == 0 {
                        sh.rechecked.fetch_add(1, Ordering::SeqCst);
                        let r2 = execute(p, Source::Seed(seed_of(o.seed, p.id, i)), false);
                        if (r2.digest, r2.steps, &r2.status) != (r.digest, r.steps, &r.status) {
                            sh.nondet.fetch_add(1, Ordering::SeqCst);
                        }
                    }
                }
                Status::Violation => {
                    if !known::listed(p.id, &r.class, &r.msg) {
                        sh.stop_at.fetch_min(i, Ordering::SeqCst);
                    }
                }
                Status::Harness => {
                    sys::eprint(&format!("harness error in run {i} of {}: {}\n", p.id, r.msg));
                    sh.harness.fetch_add(1, Ordering::SeqCst);
                    sh.stop_at.fetch_min(i, Ordering::SeqCst);
                }
            }
        }
        let mut k = 0;
        for (set, n) in [(&scheds, &mut st.nscheds), (&digests, &mut st.ndigests)] {
            for v in set.iter() {
                *sets.add(k) = *v;
                k += 1;
            }
            *n = set.len() as u64;
        }
        sys::exit(0)
    }
}

mod known {
    //! /verif/KNOWN_FINDINGS.txt
    //!   KNOWN-FINDING: property=<id> class=<class> match=<text> ; <what fails>
    //!   fixed: property=<id> <commit> <what failed>          (suppresses nothing)
    pub struct Known {
        pub prop: String,
        pub class: String,
        pub text: String,
        pub what: String,
    }
    static mut LIST: Vec<Known> = Vec::new();
    pub fn load() {
        let s = std::fs::read_to_string(super::root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
        for l in s.lines() {
            let Some(l) = l.strip_prefix("KNOWN-FINDING: ") else { continue };
            let (head, what) = l.split_once(" ; ").unwrap_or((l, ""));
            let get = |k: &str| {
                head.split_once(k).map(|x| x.1.split(" match=").next().unwrap_or("").split(" class=").next().unwrap_or("").trim().to_string())
            };
            if let (Some(prop), Some(class), Some(text)) =
                (get("property="), get("class="), head.split_once("match=").map(|x| x.1.trim().to_string()))
            {
                unsafe { LIST.push(Known { prop, class, text, what: what.to_string() }) }
            }
        }
    }
    pub fn listed(prop: &str, class: &str, msg: &str) -> bool {
        unsafe { LIST.iter().any(|k| k.prop == prop && k.class == class && !k.text.is_empty() && msg.contains(&k.text)) }
    }
    pub fn print(prop: &str) {
        for k in unsafe { LIST.iter() } {
            if k.prop == prop {
                println!("KNOWN-FINDING: property={} {} ({}: {})", k.prop, k.what, k.class, k.text);
            }
        }
    }
}

fn root() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT").map(Into::into).unwrap_or_else(|| "/verif".into())
}

// ---------------------------------------------------------------------------------------------
// minimisation

fn minimise(p: &Prop, first: &Outcome, limit_s: f64) -> (Outcome, u64) {
    let t0 = Instant::now();
    let mut best = first.clone();
    let mut trials = 0u64;
    let class = first.class.clone();
    let mut attempt = |best: &mut Outcome, t: [Vec<u32>; 3]| -> bool {
        if t == best.tapes {
            return false;
        }
        trials += 1;
        let r = execute(p, Source::Tapes(&t), false);
        let size = |t: &[Vec<u32>; 3]| {
            let n: usize = t.iter().map(|x| x.len()).sum();
            let v: u64 = t.iter().flatten().map(|x| *x as u64).sum();
            (n, v)
        };
        if r.status == Status::Violation && r.class == class {
            let mut r = r;
            for l in r.tapes.iter_mut() {
                while l.last() == Some(&0) {
                    l.pop();
                }
            }
            if size(&r.tapes) < size(&best.tapes) {
                *best = r;
                return true;
            }
        }
        false
    };
    if limit_s <= 0.0 {
        return (best, 0);
    }
    // drop everything the violation didn't need
    let t = best.tapes.clone();
    attempt(&mut best, t);
    loop {
        let before = best.tapes.clone();
        for lane in [rt::FAULT, rt::SCHED, rt::OPS] {
            let mut t = best.tapes.clone();
            t[lane].clear();
            attempt(&mut best, t);
            // cut the tail
            let mut n = best.tapes[lane].len();
            while n > 0 {
                n /= 2;
                let mut t = best.tapes.clone();
                if n >= t[lane].len() {
                    continue;
                }
                t[lane].truncate(n);
                if !attempt(&mut best, t) {
                    break;
                }
            }
            // delete and zero chunks, reduce values
            let mut size = (best.tapes[lane].len() / 2).max(1);
            loop {
                let mut at = 0;
                while at < best.tapes[lane].len() {
                    if t0.elapsed().as_secs_f64() > limit_s {
                        return (best, trials);
                    }
                    let end = (at + size).min(best.tapes[lane].len());
                    let mut t = best.tapes.clone();
                    t[lane].drain(at..end);
                    if attempt(&mut best, t) {
                        continue;
                    }
                    let mut t = best.tapes.clone();
                    if t[lane][at..end].iter().any(|x| *x != 0) {
                        t[lane][at..end].fill(0);
                        attempt(&mut best, t);
                    }
                    at += size;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            for at in 0..best.tapes[lane].len() {
                let mut lo = 0;
                while at < best.tapes[lane].len() && lo < best.tapes[lane][at] {
                    if t0.elapsed().as_secs_f64() > limit_s {
                        return (best, trials);
                    }
                    let mut t = best.tapes.clone();
                    let v = t[lane][at];
                    t[lane][at] = lo + (v - lo) / 2;
                    if t[lane][at] == v || !attempt(&mut best, t) {
                        if lo + 1 >= v {
                            break;
                        }
                        lo = lo + (v - lo) / 2 + 1;
                    }
                }
            }
        }
        if best.tapes == before {
            return (best, trials);
        }
    }
}

fn write_replay(p: &Prop, o: &Opts, run: u64, full: &Outcome, min: &Outcome, trials: u64) -> std::path::PathBuf {
    let r = execute(p, Source::Tapes(&min.tapes), true);
    let lines = trace_lines();
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!("{}-seed{}-run{}.json", p.id, o.seed, run));
    let v = serde_json::json!({
        "property": p.id, "verif_seed": o.seed, "run": run, "run_seed": seed_of(o.seed, p.id, run),
        "class": r.class, "message": r.msg, "digest": format!("{:016x}", r.digest), "steps": r.steps,
        "minimised": {"trials": trials,
            "from": full.tapes.iter().map(|x| x.len()).collect::<Vec<_>>(),
            "to": min.tapes.iter().map(|x| x.len()).collect::<Vec<_>>()},
        "ops": min.tapes[0], "sched": min.tapes[1], "fault": min.tapes[2],
        "trace": lines,
    });
    if std::fs::write(&file, serde_json::to_string_pretty(&v).unwrap()).is_err() {
        eprintln!("can't write {}", file.display());
        std::process::exit(2);
    }
    file
}

fn init_single() {
    unsafe {
        rt::SHM = rt::new_shm();
        rt::SCRATCH = rt::map_shared(rt::SCRATCH_LEN);
    }
}

fn check(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    println!("{}: VERIF_SEED={} tier={} runs={}", p.id, o.seed, o.tier, o.runs);
    known::print(p.id);
    let sh: &'static Shared = unsafe { &*(rt::map_shared(std::mem::size_of::<Shared>()) as *const Shared) };
    sh.next.store(o.from, Ordering::SeqCst);
    sh.stop_at.store(u64::MAX, Ordering::SeqCst);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(MAX_SHARDS);
    let mut kids = Vec::new();
    for me in 0..n {
        let sets = rt::map_shared(SETCAP * 8) as *mut u64;
        let pid = sys::fork();
        if pid == 0 {
            shard(p, o, sh, me, sets);
        }
        kids.push((pid, sets));
    }
    let mut bad = 0;
    for (pid, _) in &kids {
        let st = sys::wait(*pid);
        if st != 0 {
            eprintln!("shard ended with wait status {st:#x}");
            bad += 1;
        }
    }
    if bad > 0 {
        eprintln!("{bad} shards died");
        return 2;
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let mut scheds = HashSet::new();
    let mut digests = HashSet::new();
    let mut tot = Stats {
        done: 0, steps: 0, sim_ns: 0, events: 0, switches: 0, preempt: 0, threads: 0, max_steps: 0, peak: 0,
        faults: [0; 64], fault_runs: [0; 64], probes: [0; 64], probe_runs: [0; 64], cov: [0; rt::COV],
        nscheds: 0, ndigests: 0,
    };
    for (me, (_, sets)) in kids.iter().enumerate() {
        let s = &sh.shard[me];
        tot.done += s.done;
        tot.steps += s.steps;
        tot.sim_ns += s.sim_ns;
        tot.events += s.events;
        tot.switches += s.switches;
        tot.preempt += s.preempt;
        tot.threads += s.threads;
        tot.max_steps = tot.max_steps.max(s.max_steps);
        tot.peak = tot.peak.max(s.peak);
        for k in 0..64 {
            tot.faults[k] += s.faults[k];
            tot.fault_runs[k] += s.fault_runs[k];
            tot.probes[k] += s.probes[k];
            tot.probe_runs[k] += s.probe_runs[k];
        }
        for k in 0..rt::COV {
            tot.cov[k] |= s.cov[k];
        }
        unsafe {
            for k in 0..s.nscheds as usize {
                scheds.insert(*sets.add(k));
            }
            for k in 0..s.ndigests as usize {
                digests.insert(*sets.add(s.nscheds as usize + k));
            }
        }
    }
    let blocks = tot.cov.iter().filter(|x| **x != 0).count();
    if sh.harness.load(Ordering::SeqCst) > 0 {
        eprintln!("harness error, no verdict");
        return 2;
    }
    init_single();
    let stop = sh.stop_at.load(Ordering::SeqCst);
    let mut violations = 0;
    let mut line = None;
    if stop != u64::MAX {
        violations = 1;
        let t1 = Instant::now();
        let first = execute(p, Source::Seed(seed_of(o.seed, p.id, stop)), false);
        // runs that hang are too dear to be repeated many times
        let dear = t1.elapsed().as_secs_f64() > 8.0;
        let mut note = "";
        let (full, min, trials) = if first.status == Status::Violation {
            let again = execute(p, Source::Tapes(&first.tapes), false);
            if again.class == first.class {
                let (m, t) = minimise(p, &first, if dear { 0.0 } else if o.tier == "quick" { 30.0 } else { 120.0 });
                (first, m, t)
            } else {
                note = " (the tapes alone don't reproduce it)";
                (first.clone(), first, 0)
            }
        } else {
            note = " (did not reproduce when run again: the code under test behaves differently in identical runs)";
            (first.clone(), first, 0)
        };
        let file = write_replay(p, o, stop, &full, &min, trials);
        println!("violation in run {stop}: {}: {}{note}", min.class, min.msg);
        println!("minimised in {trials} trials: {:?} -> {:?} choices", full.tapes.each_ref().map(|x| x.len()), min.tapes.each_ref().map(|x| x.len()));
        line = Some(format!("VIOLATION property={} replay={}", p.id, file.display()));
    } else if sh.nondet.load(Ordering::SeqCst) > 0 && p.id == "C07" {
        violations = 1;
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let file = dir.join("C07-nondeterminism.txt");
        let _ = std::fs::write(&file, "identical runs (same seed, same simulated environment) took different paths\n");
        line = Some(format!("VIOLATION property={} replay={}", p.id, file.display()));
    }
    // samples: the first runs, written out
    let mut samples = Vec::new();
    for i in o.from..o.from + 3.min(o.runs) {
        let r = execute(p, Source::Seed(seed_of(o.seed, p.id, i)), true);
        let mut l = trace_lines();
        let total = l.len();
        l.truncate(40);
        for x in l.iter_mut() {
            if x.len() > 400 {
                let mut k = 400;
                while !x.is_char_boundary(k) {
                    k -= 1;
                }
                x.truncate(k);
                x.push_str("...");
            }
        }
        samples.push(serde_json::json!({"run": i, "run_seed": seed_of(o.seed, p.id, i), "digest": format!("{:016x}", r.digest),
            "steps": r.steps, "events": total, "log_head": l}));
    }
    let named = |v: &[u64; 64], r: &[u64; 64], names: &[&str]| {
        let mut m = serde_json::Map::new();
        for (k, n) in names.iter().enumerate() {
            if v[k] > 0 {
                m.insert(n.to_string(), serde_json::json!({"fired": v[k], "in_runs": r[k]}));
            }
        }
        serde_json::Value::Object(m)
    };
    let hours = explore_s / 3600.0;
    let ev = serde_json::json!({
        "property": p.id, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "violations": violations, "wall_s": t0.elapsed().as_secs_f64(),
        "coverage": {
            "evaluations": tot.done,
            "distinct_nontrivial": digests.len(),
            "rule": p.rule,
            "samples": samples,
            "simulated_runs": tot.done,
            "distinct_seeds": tot.done,
            "runs_per_hour": (tot.done as f64 / hours) as u64,
            "simulated_seconds": (tot.steps + tot.sim_ns) as f64 / 1e9,
            "simulated_time_rule": "1 ns per instrumented step of code under test plus the delays of simulated I/O and sleeps",
            "instrumented_steps": tot.steps,
            "max_steps_of_a_run": tot.max_steps,
            "logged_events": tot.events,
            "faults_injected": named(&tot.faults, &tot.fault_runs, common::FAULTS),
            "conditions_reached": named(&tot.probes, &tot.probe_runs, common::PROBES),
            "distinct_schedules_and_fault_sequences": scheds.len(),
            "distinct_schedules_rule": "FNV digest of all scheduling and fault choices of a run",
            "distinct_histories": digests.len(),
            "distinct_histories_rule": "FNV digest of the whole event log of a run",
            "thread_switches": tot.switches,
            "preemptions": tot.preempt,
            "simulated_threads": tot.threads,
            "instrumented_blocks_reached": blocks,
            "instrumented_blocks_total": rt::num_guards(),
            "peak_bytes_of_code_under_test": tot.peak,
            "determinism_rechecks": sh.rechecked.load(Ordering::SeqCst),
            "determinism_mismatches": sh.nondet.load(Ordering::SeqCst),
            "shards": n,
            "real_components": p.real,
            "stub_components": p.stub,
        },
        "assumptions": common::ASSUMPTIONS,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        eprintln!("can't write the evidence file");
        return 2;
    }
    println!(
        "{}: {} runs, {} distinct histories, {} distinct schedules/fault sequences, {} blocks, {:.1} s, rechecked {} (mismatches {})",
        p.id, tot.done, digests.len(), scheds.len(), blocks, explore_s,
        sh.rechecked.load(Ordering::SeqCst), sh.nondet.load(Ordering::SeqCst)
    );
    if let Some(l) = line {
        println!("{l}");
        return 1;
    }
    println!("{}: held on everything explored", p.id);
    0
}

fn replay(file: &str) -> i32 {
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let v: serde_json::Value = match serde_json::from_str(&s) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let Some(p) = props::all().into_iter().find(|p| v["property"] == p.id) else {
        eprintln!("unknown property");
        return 2;
    };
    let lane = |k: &str| -> Vec<u32> {
        v[k].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default()
    };
    init_single();
    let tapes = [lane("ops"), lane("sched"), lane("fault")];
    let r = execute(&p, Source::Tapes(&tapes), true);
    for l in trace_lines() {
        println!("  {l}");
    }
    if r.status == Status::Violation {
        let same = v["class"] == r.class.as_str() && v["digest"] == format!("{:016x}", r.digest);
        println!("{}: {}", r.class, r.msg);
        println!("{} (digest {:016x})", if same { "reproduced exactly" } else { "a violation, but not the recorded one" }, r.digest);
        println!("VIOLATION property={} replay={}", p.id, file);
        return 1;
    }
    println!("no violation (status {:?})", r.status);
    if r.status == Status::Harness { 2 } else { 0 }
}

fn determinism(p: &Prop, seed: u64, n: u64) -> i32 {
    // prints one line per run; to be compared between processes
    init_single();
    let mut h = 0xcbf29ce484222325;
    for i in 0..n {
        let r = execute(p, Source::Seed(seed_of(seed, p.id, i)), false);
        h = rt::fnv(h, &r.digest.to_le_bytes());
        h = rt::fnv(h, &r.steps.to_le_bytes());
        h = rt::fnv(h, &r.sched_digest.to_le_bytes());
        if r.status != Status::Ok {
            println!("run {i}: {:?} {} {}", r.status, r.class, r.msg);
        }
        if std::env::var_os("VERBOSE").is_some() {
            println!("{i} {:016x} {} {:016x}", r.digest, r.steps, r.sched_digest);
        }
    }
    println!("{} seed {seed} runs {n}: {h:016x}", p.id);
    0
}

fn main() {
    if std::env::var_os("BVSIM_NOASLR").is_none() && sys::no_aslr() {
        // already off, or not permitted
    } else if std::env::var_os("BVSIM_NOASLR").is_none() {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("BVSIM_NOASLR", "1").exec();
        eprintln!("exec: {e}");
    }
    rt::install_panic_hook();
    rt::alloc::map_arena();
    known::load();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let env = |k: &str| std::env::var(k).ok();
    let seed = env("VERIF_SEED").and_then(|x| x.parse().ok()).unwrap_or(1);
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let find = |id: &str| props::all().into_iter().find(|p| p.id == id);
    let code = match a.first().map(|x| x.as_str()) {
        Some("check") => match a.get(1).and_then(|x| find(x)) {
            Some(p) => {
                let tier = opt("--tier").or(env("VERIF_TIER")).unwrap_or("quick".into());
                let tier = if tier == "thorough" { "thorough" } else { "quick" };
                let o = Opts {
                    tier,
                    seed,
                    runs: opt("--runs").and_then(|x| x.parse().ok()).unwrap_or(if tier == "quick" { p.quick } else { p.thorough }),
                    from: opt("--from").and_then(|x| x.parse().ok()).unwrap_or(0),
                    wall: opt("--wall").and_then(|x| x.parse().ok()).unwrap_or(if tier == "quick" { 60.0 } else { 1500.0 }),
                    recheck: if tier == "quick" { 23 } else { 97 },
                };
                check(&p, &o)
            }
            None => {
                eprintln!("unknown property");
                2
            }
        },
        Some("replay") => a.get(1).map(|x| replay(x)).unwrap_or(2),
        Some("determinism") => match (a.get(1).and_then(|x| find(x)), a.get(2).and_then(|x| x.parse().ok())) {
            (Some(p), Some(n)) => determinism(&p, seed, n),
            _ => 2,
        },
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: bvsim check ID | replay FILE | determinism ID N | list");
            2
        }
    };
    std::process::exit(code);
}
