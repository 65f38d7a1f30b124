//! Driver of the deterministic simulation of pa2.
mod case;
mod exec;
mod families;
mod gen;
mod minimise;
mod oracle;
mod rng;
mod topo;

use case::{Case, Check, Finding};
use exec::{End, Outcome, Worker};
use serde_json::json;
use simcore::hist::{self, k};
use simcore::scenario::{class, Scenario};
use simcore::shm::verdict;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn pa2sim() -> String {
    let me = std::env::current_exe().unwrap();
    me.parent().unwrap().join("pa2sim").to_string_lossy().to_string()
}

/// What came out of one case.
pub struct Judged {
    pub findings: Vec<Finding>,
    pub outs: Vec<Outcome>,
    /// runs of config commands before them
    pub commands: Vec<Outcome>,
    /// what the first of `outs` is a run of, when it is not the scenario of the case
    pub resolved: Option<Scenario>,
}

/// Pass the configuration through the config commands. Err: no judgement possible.
fn resolve(w: &mut Worker, topo: &topo::Topo, sc: &Scenario, done: &mut Vec<Outcome>) -> Result<Result<Scenario, Finding>, String> {
    let mut out = sc.clone();
    out.steps = vec![];
    for step in &sc.steps {
        let mut t = Scenario { config: out.config.clone(), tool: step.args.clone(), hash_seed: step.hash_seed, ..Default::default() };
        t.yaml = step.yaml;
        t.config_stdin = step.config_stdin;
        t.config_io = step.io.clone();
        if let Some(x) = &step.config {
            t.config = x.clone();
        }
        if let Some(e) = t.config_io.err.as_mut() {
            // not behind its end
            e.0 = e.0.min(t.config.len() as u64);
        }
        let o = w.run(&t);
        if let Some(p) = harness_problem(&o) {
            return Err(p);
        }
        let r = oracle::command(step, &out.config, topo, &o);
        done.push(o);
        match r {
            Err(f) => return Ok(Err(f)),
            Ok(Some(text)) => out.config = text,
            Ok(None) => (),
        }
    }
    Ok(Ok(out))
}

/// more was recorded than there is room for: the run is not judged
const UNDECIDED: &str = "recording overflowed";
/// stopped by the limits on polls, processor time or memory
fn endless(o: &Outcome) -> bool {
    matches!(o.end, End::Signal(_)) || matches!(o.verdict, verdict::STEP_LIMIT | verdict::HANG)
}

pub fn harness_problem(o: &Outcome) -> Option<String> {
    if o.verdict == verdict::HARNESS {
        return Some(format!("simulator stopped: {}", String::from_utf8_lossy(&o.stderr)));
    }
    if !o.started {
        return Some(format!("the simulated pa2 did not start ({:?})", o.end));
    }
    if o.overflow != 0 && !endless(o) {
        return Some(UNDECIDED.into());
    }
    if o.end == End::WallTimeout {
        return Some("no answer within real time".into());
    }
    None
}

/// Run a case (with its variants) and judge it. Err: no judgement possible.
pub fn run_case(w: &mut Worker, c: &Case) -> Result<Judged, String> {
    let mut commands = vec![];
    let mut resolved = None;
    let c2;
    let c = if c.sc.steps.is_empty() && c.variants.iter().all(|v| v.steps.is_empty()) {
        c
    } else {
        let mut x = c.clone();
        for sc in std::iter::once(&mut x.sc).chain(x.variants.iter_mut()) {
            match resolve(w, &c.topo, sc, &mut commands)? {
                Ok(r) => *sc = r,
                Err(f) => {
                    let last = commands.pop().unwrap();
                    return Ok(Judged { findings: vec![f], outs: vec![last], commands, resolved });
                }
            }
        }
        resolved = Some(x.sc.clone());
        c2 = x;
        &c2
    };
    let o = w.run(&c.sc);
    if let Some(p) = harness_problem(&o) {
        return Err(p);
    }
    let only_end = Case { checks: vec![Check::Ends], ..c.clone() };
    let mut findings = oracle::evaluate(if o.overflow != 0 { &only_end } else { c }, &o, &c.sc);
    let mut outs = vec![o];
    if c.checks.contains(&Check::Rewritten) {
        // one way to write it behaves differently from another
        let mut each = vec![std::mem::take(&mut findings)];
        for sc in c.variants.iter() {
            let o = w.run(sc);
            if let Some(p) = harness_problem(&o) {
                return Err(p);
            }
            if o.overflow == 0 && outs[0].overflow == 0 {
                each.push(oracle::evaluate(c, &o, sc));
            }
            outs.push(o);
        }
        let good = each.iter().position(|x| x.is_empty());
        let bad = each.iter().position(|x| !x.is_empty());
        if let (Some(g), Some(b)) = (good, bad) {
            findings.push(Finding {
                code: "rewritten".into(),
                msg: format!("written as in variant {}: {}; not so when the same is written as in variant {}", b, each[b][0].msg, g),
            });
        }
        return Ok(Judged { findings, outs, commands, resolved });
    }
    if c.checks.contains(&Check::SameAs) && findings.is_empty() {
        for sc in c.variants.iter() {
            let o = w.run(sc);
            if let Some(p) = harness_problem(&o) {
                return Err(p);
            }
            findings.extend(oracle::evaluate(c, &o, sc));
            outs.push(o);
            if !findings.is_empty() {
                break;
            }
        }
        if findings.is_empty() {
            if let Some(f) = oracle::same_result(c, &outs) {
                findings.push(f)
            }
        }
    }
    if let Some(points) = c.checks.iter().find_map(|x| if let Check::Crashes { points } = x { Some(*points) } else { None }) {
        let total = outs[0].hist.iter().filter(|r| r.kind != simcore::hist::k::TICK).count() as u64;
        for i in 0..points as u64 {
            if !findings.is_empty() || total == 0 {
                break;
            }
            let mut sc = c.sc.clone();
            sc.limits.crash_at = Some(1 + mixs(c.seed, i) % total);
            let o = w.run(&sc);
            if let Some(p) = harness_problem(&o) {
                return Err(p);
            }
            findings.extend(oracle::after_crash(c, &o, &sc));
            let again = oracle::run_again(c, &o, &sc);
            outs.push(o);
            if findings.is_empty() {
                let o = w.run(&again);
                if let Some(p) = harness_problem(&o) {
                    return Err(p);
                }
                findings.extend(oracle::evaluate(c, &o, &again).into_iter().map(|f| Finding { msg: format!("run again after it was killed: {}", f.msg), ..f }));
                outs.push(o);
            }
        }
    }
    Ok(Judged { findings, outs, commands, resolved })
}

fn mixs(a: u64, b: u64) -> u64 {
    simcore::world::mix(a ^ simcore::world::mix(b))
}
fn base_seed(prop: &str, seed: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mixs(h, seed)
}
fn case_seed(prop: &str, seed: u64, i: u64) -> u64 {
    mixs(base_seed(prop, seed), i) >> 1
}

#[derive(Default)]
struct Stats {
    runs: u64,
    cases: u64,
    sim_ns: u128,
    polls: u64,
    events: u64,
    timers: u64,
    faults: BTreeMap<String, u64>,
    decisions: BTreeMap<String, u64>,
    traces: HashSet<u64>,
    nontrivial: HashSet<u64>,
    bytes: u64,
    families: BTreeMap<String, u64>,
    ends: BTreeMap<String, u64>,
    problems: Vec<String>,
    undecided: Vec<u64>,
    reruns: u64,
    commands: u64,
    samples: Vec<serde_json::Value>,
}
impl Stats {
    fn add(&mut self, c: &Case, j: &Judged) {
        self.cases += 1;
        *self.families.entry(c.family.clone()).or_default() += 1;
        for o in &j.commands {
            self.commands += 1;
            for r in o.hist.iter().filter(|r| r.kind == k::FAULT) {
                let n = hist::fault::NAMES.get(r.aux as usize).copied().unwrap_or("other");
                *self.faults.entry(n.to_string()).or_default() += 1;
            }
        }
        for o in &j.outs {
            self.runs += 1;
            self.sim_ns += o.sim_ns as u128;
            self.polls += o.polls;
            self.events += o.events;
            self.timers += o.timers;
            let mut moved = 0;
            let mut touched = 0u64;
            for r in &o.hist {
                match r.kind {
                    k::FAULT => {
                        let n = hist::fault::NAMES.get(r.aux as usize).copied().unwrap_or("other");
                        *self.faults.entry(n.to_string()).or_default() += 1;
                        touched += 1;
                    }
                    k::PA_WRITE => moved += r.data.len() as u64,
                    _ => (),
                }
            }
            self.bytes += moved;
            for (i, n) in o.cls.iter().enumerate() {
                if *n > 0 {
                    *self.decisions.entry(class::NAMES[i].to_string()).or_default() += n;
                    touched += n;
                }
            }
            self.traces.insert(o.trace);
            if moved > 0 && touched > 0 {
                self.nontrivial.insert(o.trace);
            }
            let e = match (&o.end, o.verdict) {
                (_, verdict::HANG) => "hang".to_string(),
                (_, verdict::STEP_LIMIT) | (_, verdict::SPIN) => "livelock".to_string(),
                (End::Exit(c), _) => format!("exit_{}", c),
                (e, _) => format!("{:?}", e),
            };
            *self.ends.entry(e).or_default() += 1;
        }
        if self.samples.len() < 3 && (self.cases % 40 == 5 || self.cases < 2) {
            let o = &j.outs[0];
            let text: String = c.sc.config.chars().take(900).collect();
            self.samples.push(json!({
                "case_seed": c.seed, "family": c.family, "config": text, "decisions_off_default": o.decisions.len(),
                "simulated_s": o.sim_ns as f64 / 1e9, "history_records": o.hist.len(), "end": format!("{:?}", o.end),
            }));
        }
    }
}

struct Found {
    case: Case,
    finding: Finding,
    fp: (String, u64, u64, u64),
}

struct Known {
    case: Case,
    code: String,
    text: String,
}

/// Lines "finding: property=<id> case=<file> <text>": a defect that is not repaired, as the one case that shows it.
/// The generators do not make such cases, so everything they find is something else.
fn known(prop: &str) -> Vec<Known> {
    let p = format!("{}/known-findings.txt", verif_dir());
    let s = std::fs::read_to_string(p).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (id, rest) = l.split_once(" case=")?;
            let (file, text) = rest.split_once(' ')?;
            if id != prop {
                return None;
            }
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(format!("{}/{}", verif_dir(), file)).ok()?).ok()?;
            Some(Known {
                case: serde_json::from_value(v["case"].clone()).ok()?,
                code: v["finding"]["code"].as_str()?.to_string(),
                text: text.to_string(),
            })
        })
        .collect()
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn explore(prop: &str, seed: u64, secs: f64, min_cases: u64, max_cases: u64, stop_at: usize) -> (Stats, Vec<Found>, f64) {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let stats = Mutex::new(Stats::default());
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(8);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let mut w = Worker::new(&pa2sim());
                let mut local = 0u64;
                while !stop.load(Ordering::Relaxed) {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= max_cases || (i >= min_cases && t0.elapsed().as_secs_f64() > secs) || t0.elapsed().as_secs_f64() > secs * 4.0 {
                        break;
                    }
                    let c = families::generate(prop, case_seed(prop, seed, i));
                    let mut j = run_case(&mut w, &c);
                    if j.is_err() {
                        // once more, alone in a fresh process
                        w = Worker::new(&pa2sim());
                        j = run_case(&mut w, &c);
                    }
                    local += 1;
                    match j {
                        Err(e) => {
                            let mut st = stats.lock().unwrap();
                            if e == UNDECIDED {
                                st.undecided.push(c.seed);
                            } else {
                                st.problems.push(format!("case seed {}: {}", c.seed, e));
                            }
                            if st.problems.len() > 20 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        Ok(j) => {
                            if local % 64 == 1 && (c.sc.steps.is_empty() || j.resolved.is_some()) {
                                // the same seed must give the same execution
                                let again = w.run(j.resolved.as_ref().unwrap_or(&c.sc));
                                let mut st = stats.lock().unwrap();
                                st.reruns += 1;
                                if again.fingerprint() != j.outs[0].fingerprint() {
                                    st.problems.push(format!("case seed {} is not repeatable: {:?} / {:?}", c.seed, again.fingerprint(), j.outs[0].fingerprint()));
                                }
                            }
                            stats.lock().unwrap().add(&c, &j);
                            if let Some(f) = j.findings.first() {
                                let fp = j.outs[0].fingerprint();
                                let mut fd = found.lock().unwrap();
                                fd.push(Found { case: c, finding: f.clone(), fp });
                                if fd.len() >= stop_at {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    (stats.into_inner().unwrap(), found.into_inner().unwrap(), t0.elapsed().as_secs_f64())
}

fn check(prop: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let (secs, min_cases, max_cases) = match tier {
        "thorough" => (std::env::var("DST_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(600.0), 2000, u64::MAX),
        _ => (std::env::var("DST_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(35.0), 400, u64::MAX),
    };
    let (st, found, explore_s) = explore(prop, seed, secs, min_cases, max_cases, 3);
    let mut code = 0;
    let mut violations = 0;
    let mut replays = vec![];
    let mut unstable = vec![];
    for fd in &found {
        // confirm in a fresh process
        let mut w = Worker::new(&pa2sim());
        let again = run_case(&mut w, &fd.case);
        let same = match &again {
            Ok(j) => j.findings.first() == Some(&fd.finding) && j.outs[0].fingerprint() == fd.fp,
            Err(_) => false,
        };
        if !same {
            unstable.push(format!("case seed {}: {} ({}) did not reproduce", fd.case.seed, fd.finding.code, fd.finding.msg));
            continue;
        }
        if violations > 0 {
            violations += 1;
            continue;
        }
        violations += 1;
        let m = minimise::minimise(&mut w, &fd.case, &fd.finding, Duration::from_secs(if tier == "thorough" { 120 } else { 25 }));
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}.json", dir, prop, fd.case.seed);
        std::fs::write(&path, serde_json::to_vec_pretty(&minimise::replay_value(prop, &m, seed)).unwrap()).unwrap();
        println!("  case seed {} family {}: {}", fd.case.seed, fd.case.family, m.finding.msg);
        println!(
            "  minimised: {} of {} schedule decisions, {} of {} data items",
            m.case.sc.decisions.as_ref().map(|d| d.len()).unwrap_or(0),
            m.decisions_before,
            m.items_after,
            m.items_before
        );
        println!("VIOLATION property={} replay={}", prop, path);
        replays.push(path);
        code = 1;
    }
    for k in known(prop) {
        let mut w = Worker::new(&pa2sim());
        match run_case(&mut w, &k.case) {
            Ok(j) if j.findings.iter().any(|f| f.code == k.code) => println!("KNOWN-FINDING: property={} {}", prop, k.text),
            Ok(_) => println!("NOTE no longer seen: {}", k.text),
            Err(e) => println!("NOTE {}: {}", k.text, e),
        }
    }
    for u in &unstable {
        println!("NOTE {}", u);
    }
    for p in st.problems.iter().take(5) {
        println!("NOTE {}", p);
    }
    if code == 0 && (!st.problems.is_empty() || !unstable.is_empty()) {
        println!("ERROR the simulation itself had problems ({} / {})", st.problems.len(), unstable.len());
        code = 2;
    }
    if code == 0 && st.undecided.len() as u64 * 50 > st.runs + 100 {
        println!("ERROR {} of {} runs recorded more than there is room for", st.undecided.len(), st.runs);
        code = 2;
    }
    if code == 0 && st.runs < 50 {
        println!("ERROR only {} runs", st.runs);
        code = 2;
    }
    let per_hour = |n: u64| (n as f64 / explore_s * 3600.0) as u64;
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": "One evaluation is one complete simulated execution of pa2 (a generated pipeline, its data, program behaviours, faults and a seeded schedule). It counts as non-trivial when pa2 moved data and at least one scheduling decision, delay, short operation or fault departed from the default; distinct ones have different hashes over the whole recorded event sequence.",
            "samples": st.samples,
            "cases": st.cases,
            "seeds": st.cases,
            "distinct_event_sequences": st.traces.len(),
            "runs_per_hour": per_hour(st.runs),
            "seeds_per_hour": per_hour(st.cases),
            "simulated_seconds": st.sim_ns as f64 / 1e9,
            "task_polls": st.polls,
            "environment_events": st.events,
            "internal_timers_fired": st.timers,
            "bytes_delivered_by_pa2": st.bytes,
            "faults_injected": st.faults,
            "schedule_decisions_off_default": st.decisions,
            "case_families": st.families,
            "outcomes": st.ends,
            "repeatability_reruns": st.reruns,
            "config_command_runs": st.commands,
            "not_judged_recording_full": st.undecided.len(),
            "replays": replays,
            "real_components": "pa2's main, argument and configuration handling, connection manipulation, waiter, faucet, launch, junction, buffer, regulator, drain, motion, back-off (built from /repo's working tree), serde, clap, futures, async-channel",
            "stubbed_components": "async-std executor, timers, blocking pool, files, stdin/stdout/stderr and process spawning; launched programs (scripted models); operating system pipes; clock and hash seeds",
        },
        "assumptions": [
            "the simulated kernel (pipes, files, process exit) behaves like the real one as documented",
            "async-std's own executor, reactor and blocking pool are correct; they are replaced by the simulator",
        ],
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} {} seed {}: {} runs of {} cases, {:.0} s simulated, {} distinct histories, {:.1} s",
        prop,
        tier,
        seed,
        st.runs,
        st.cases,
        st.sim_ns as f64 / 1e9,
        st.traces.len(),
        t0.elapsed().as_secs_f64()
    );
    code
}

fn print_outcome(o: &Outcome, full: bool) {
    println!("end {:?} verdict {} sim {:.6}s polls {} events {} timers {} hist {} overflow {} decisions {}", o.end, o.verdict, o.sim_ns as f64 / 1e9, o.polls, o.events, o.timers, o.hist.len(), o.overflow, o.decisions.len());
    println!("stderr: {}", String::from_utf8_lossy(&o.stderr));
    if full {
        println!("stdout: {}", oracle::show(&o.stdout));
        let names = ["?", "SPAWN", "prog_read", "prog_eof", "prog_write", "prog_close", "prog_exit", "READ", "EOF", "READ_ERR", "WRITE", "WRITE_ERR", "CLOSE", "OPEN", "STATUS", "STATUS_ERR", "tick", "fault", "END", "unknown_path", "prog_epipe", "chunk"];
        for r in &o.hist {
            println!("{:>14.6} {:<12} id {:#x} aux {} {}", r.t as f64 / 1e9, names.get(r.kind as usize).unwrap_or(&"?"), r.id, r.aux, oracle::show(&r.data));
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let env_seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let code = match cmd {
        "check" => {
            let tier = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            check(&a[2], &tier, env_seed)
        }
        // many cases, all failures listed, nothing minimised
        "scan" => {
            let n: u64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(500);
            let (st, found, secs) = explore(&a[2], env_seed, 1e9, 0, n, usize::MAX);
            let mut groups: BTreeMap<(String, String), Vec<&Found>> = BTreeMap::new();
            for f in &found {
                groups.entry((f.case.family.clone(), f.finding.code.clone())).or_default().push(f);
            }
            for ((fam, code), v) in groups {
                println!("{} {}: {} times", fam, code, v.len());
                for f in v.iter().take(6) {
                    println!("   seed {} {}", f.case.seed, f.finding.msg);
                }
            }
            println!(
                "{}: {} runs, {} failures, {} problems, {:.1}s, {:.0} sim s, {} distinct, ends {:?}",
                a[2],
                st.runs,
                found.len(),
                st.problems.len(),
                secs,
                st.sim_ns as f64 / 1e9,
                st.traces.len(),
                st.ends
            );
            if !st.undecided.is_empty() {
                println!("   undecided: {:?}", st.undecided);
            }
            for p in st.problems.iter().take(5) {
                println!("   PROBLEM {}", p);
            }
            (found.len() > 0) as i32
        }
        // every family, until something is found
        "any" => {
            let n: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(200);
            for p in families::ALL {
                let (st, found, _) = explore(p, env_seed, 20.0, 0, n, 1);
                if let Some(f) = found.first() {
                    println!("{} {} {} {}", p, st.runs, f.case.seed, f.finding.msg);
                    std::process::exit(1);
                }
                if let Some(x) = st.problems.first() {
                    println!("{} {} PROBLEM {}", p, st.runs, x);
                    std::process::exit(1);
                }
            }
            println!("nothing found");
            0
        }
        "list" => {
            for i in 0..a.get(3).and_then(|s| s.parse().ok()).unwrap_or(50u64) {
                let c = families::generate(&a[2], case_seed(&a[2], env_seed, i));
                println!("{} {} {}", c.seed, c.family, c.topo.nodes.len());
            }
            0
        }
        "one" => {
            let c = families::generate(&a[2], a[3].parse().unwrap());
            let full = a.get(4).map(|s| s == "full").unwrap_or(false);
            println!("{}", c.sc.config);
            for s in &c.sc.steps {
                println!("  step {:?} yaml {} stdin {} fails {} {:?}", s.args, s.yaml, s.config_stdin, s.fails, s.io);
            }
            for n in &c.topo.nodes {
                println!("  node {:?} {} end {:?} reg {:?}", n.kind, n.name, n.end, n.reg);
            }
            for (i, p) in c.sc.progs.iter().enumerate() {
                let mut q = p.clone();
                q.emit = vec![];
                println!("  prog {} {} emits; {}", i, p.emit.len(), serde_json::to_string(&q).unwrap());
            }
            println!("  timing {:?}", c.sc.timing);
            println!("  checks {:?}", c.checks);
            let mut w = Worker::new(&pa2sim());
            match run_case(&mut w, &c) {
                Ok(j) => {
                    for o in &j.outs {
                        print_outcome(o, full);
                    }
                    for f in &j.findings {
                        println!("FINDING {}: {}", f.code, f.msg);
                    }
                    if j.findings.is_empty() {
                        println!("no finding");
                    }
                }
                Err(e) => println!("PROBLEM {}", e),
            }
            0
        }
        "replay" => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            let c: Case = serde_json::from_value(v["case"].clone()).unwrap();
            let mut w = Worker::new(&pa2sim());
            match run_case(&mut w, &c) {
                Ok(j) => {
                    print_outcome(&j.outs[j.outs.len() - 1], a.get(3).map(|s| s == "full").unwrap_or(false));
                    match j.findings.first() {
                        Some(f) => {
                            println!("reproduced: {}: {}", f.code, f.msg);
                            let same = serde_json::to_value(j.outs[0].fingerprint()).unwrap() == v["expected"]["fingerprint"];
                            println!("execution identical to the recorded one: {}", same);
                            println!("VIOLATION property={} replay={}", c.property, a[2]);
                            1
                        }
                        None => {
                            println!("property {} held on this schedule", c.property);
                            0
                        }
                    }
                }
                Err(e) => {
                    println!("PROBLEM {}", e);
                    2
                }
            }
        }
        _ => {
            eprintln!("usage: dst check PROPERTY [quick|thorough] | scan PROPERTY [cases] | one PROPERTY SEED [full] | replay FILE [full]");
            2
        }
    };
    std::process::exit(code);
}
