//! Runs simulations in forked children, collects results, minimises, replays, writes evidence.
use crate::rng::mix2;
use crate::sched::{self, Act, Entry};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::os::raw::c_int;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    pub prop: String,
    pub class: String,
    /// Stable signature: identifies the failing input, call site or history for known findings.
    pub sig: String,
    pub msg: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct RunOut {
    pub viols: Vec<Viol>,
    pub sched: Vec<(u64, i64, u64)>,
    pub counters: BTreeMap<String, u64>,
    /// Hash of everything that happened (schedule and replies).
    pub trace: u64,
    /// Measure of distinctness (interleaving / state / history), by the scenario's rule.
    pub distinct: Vec<u64>,
    pub nontrivial: bool,
    pub inconclusive: Option<String>,
    pub steps: u64,
    pub sim_ns: u64,
    pub sample: Value,
    pub died: Option<i32>,
    #[serde(default)]
    pub wall_ms: u64,
}

impl RunOut {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn viol(&mut self, prop: &str, class: &str, sig: impl Into<String>, msg: impl Into<String>) {
        if self.viols.len() < 20 {
            self.viols.push(Viol { prop: prop.into(), class: class.into(), sig: sig.into(), msg: msg.into() });
        }
    }
    pub fn take_sched(&mut self) {
        self.sched = enc(&sched::recorded());
        self.steps = sched::steps();
        self.sim_ns = sched::now() - 1_000_000_000_000;
        let st = sched::stats();
        for (k, v) in [
            ("thread switches", st.switches),
            ("forced preemptions", st.preempts),
            ("fault: stalled thread", st.stalls),
            ("fault: spurious wake-up", st.spurious),
            ("futex waits", st.futex_waits),
            ("futex wakes", st.futex_wakes),
            ("yields", st.yields),
            ("clock jumps", st.time_jumps),
            ("fault: thread killed by crash", st.killed_threads),
        ] {
            if v > 0 {
                self.count(k, v);
            }
        }
    }
}

pub fn enc(v: &[Entry]) -> Vec<(u64, i64, u64)> {
    v.iter()
        .map(|e| match e.act {
            Act::Switch(t) => (e.step, t as i64, 0),
            Act::Stall(d) => (e.step, -1, d),
            Act::Irq => (e.step, -2, 0),
        })
        .collect()
}

pub fn dec(v: &[(u64, i64, u64)]) -> Vec<Entry> {
    v.iter()
        .map(|&(step, a, d)| Entry {
            step,
            act: match a {
                -1 => Act::Stall(d),
                -2 => Act::Irq,
                t => Act::Switch(t as u32),
            },
        })
        .collect()
}

pub type Sched = Vec<(u64, i64, u64)>;

pub trait Scenario: Sync {
    /// The plan of a run: everything decided before it starts, derived from the seed alone.
    fn plan(&self, seed: u64, idx: u64) -> Value;
    /// Executes a plan in this process (a forked child). `sched`: follow this recorded schedule.
    fn run(&self, plan: &Value, sched: Option<Sched>) -> RunOut;
    /// Smaller plans to try when minimising.
    fn shrink(&self, plan: &Value) -> Vec<Value>;
    /// A line per operation, for people.
    fn describe(&self, plan: &Value) -> Value {
        plan.clone()
    }
}

static mut OUT_FD: c_int = -1;

fn emit(out: &RunOut) -> ! {
    let b = serde_json::to_vec(out).unwrap();
    unsafe {
        let mut off = 0;
        while off < b.len() {
            let n = crate::raw::sys6(libc::SYS_write, OUT_FD as i64, b.as_ptr().add(off) as i64, (b.len() - off) as i64, 0, 0, 0);
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
        crate::raw::sys6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

/// Ends the run from anywhere in the child with a whole-run violation.
pub fn die(class: &str, msg: &str) -> ! {
    let mut out = RunOut::default();
    out.viol("*", class, class, format!("{} [{}]", msg, sched::describe_threads()));
    out.sched = enc(&sched::recorded());
    emit(&out)
}

struct Child {
    pid: i32,
    fd: c_int,
    buf: Vec<u8>,
    idx: usize,
    started: Instant,
}

/// Forks a child that runs one plan.
fn spawn_run(sc: &dyn Scenario, plan: &Value, sched: Option<Sched>, idx: usize) -> Child {
    let mut fds = [0; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            OUT_FD = fds[1];
            crate::raw::sys6(libc::SYS_close, fds[0] as i64, 0, 0, 0, 0, 0);
            let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            if std::env::var_os("SIM_DEBUG").is_none() {
                let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
                libc::dup2(null, 1);
                libc::dup2(null, 2);
                std::panic::set_hook(Box::new(|_| {}));
            }
            // The controller is a fresh thread, so that its thread-local state (hash keys) does
            // not depend on what the parent did before the fork.
            let r = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sc.run(plan, sched)));
                        match out {
                            Ok(o) => emit(&o),
                            Err(e) => {
                                let m = e
                                    .downcast_ref::<String>()
                                    .cloned()
                                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                    .unwrap_or_default();
                                let mut o = RunOut::default();
                                o.inconclusive = Some(format!("harness panic: {}", m));
                                emit(&o)
                            }
                        }
                    })
                    .unwrap()
                    .join()
            });
            let _: Result<(), _> = r;
            libc::_exit(0);
        }
        crate::raw::sys6(libc::SYS_close, fds[1] as i64, 0, 0, 0, 0, 0);
        Child { pid, fd: fds[0], buf: vec![], idx, started: Instant::now() }
    }
}

const RUN_WALL: Duration = Duration::from_secs(60);

/// Reads from children until one is done; returns it with its result.
fn reap(ch: &mut Vec<Child>) -> (usize, RunOut) {
    loop {
        let mut p: Vec<libc::pollfd> = ch.iter().map(|c| libc::pollfd { fd: c.fd, events: libc::POLLIN, revents: 0 }).collect();
        unsafe { libc::poll(p.as_mut_ptr(), p.len() as u64, 1000) };
        for i in 0..p.len() {
            if p[i].revents != 0 {
                let mut b = [0u8; 65536];
                let n = unsafe { crate::raw::sys6(libc::SYS_read, ch[i].fd as i64, b.as_mut_ptr() as i64, b.len() as i64, 0, 0, 0) };
                if n > 0 {
                    ch[i].buf.extend_from_slice(&b[..n as usize]);
                    continue;
                }
                let c = ch.remove(i);
                let mut st = 0;
                unsafe {
                    libc::waitpid(c.pid, &mut st, 0);
                    crate::raw::sys6(libc::SYS_close, c.fd as i64, 0, 0, 0, 0, 0);
                }
                let out = match serde_json::from_slice::<RunOut>(&c.buf) {
                    Ok(o) => o,
                    Err(_) => {
                        let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 1000 + libc::WEXITSTATUS(st) };
                        let mut o = RunOut { died: Some(sig), ..Default::default() };
                        if sig == libc::SIGKILL {
                            o.inconclusive = Some("killed".into());
                        } else {
                            o.viol("*", "process-died", format!("signal {}", sig), format!("the simulated process died with signal {}", sig));
                        }
                        o
                    }
                };
                let mut out = out;
                out.wall_ms = c.started.elapsed().as_millis() as u64;
                return (c.idx, out);
            }
        }
        for c in ch.iter() {
            if c.started.elapsed() > RUN_WALL {
                unsafe { libc::kill(c.pid, libc::SIGKILL) };
            }
        }
    }
}

/// One run, by itself.
pub fn run_one(sc: &dyn Scenario, plan: &Value, sched: Option<Sched>) -> RunOut {
    let mut ch = vec![spawn_run(sc, plan, sched, 0)];
    reap(&mut ch).1
}

/// Many runs, `par` at a time, results in order.
pub fn run_many(sc: &dyn Scenario, jobs: &[(Value, Option<Sched>)], par: usize) -> Vec<RunOut> {
    let mut out: Vec<Option<RunOut>> = jobs.iter().map(|_| None).collect();
    let mut ch = vec![];
    let mut next = 0;
    while next < jobs.len() || !ch.is_empty() {
        while next < jobs.len() && ch.len() < par {
            ch.push(spawn_run(sc, &jobs[next].0, jobs[next].1.clone(), next));
            next += 1;
        }
        let (i, o) = reap(&mut ch);
        out[i] = Some(o);
    }
    out.into_iter().map(|o| o.unwrap()).collect()
}

pub struct CheckCfg<'a> {
    pub prop: &'a str,
    pub tier: &'a str,
    pub seed: u64,
    pub level: &'a str,
    pub wall: Duration,
    pub max_runs: u64,
    pub par: usize,
    pub rule: &'a str,
    pub real: &'a str,
    pub stub: &'a str,
    pub assumptions: Vec<String>,
    /// Violations of these properties are this check's business ("*" counts always).
    pub root: String,
}

#[derive(Deserialize, Clone)]
pub struct Known {
    pub property: String,
    pub sig: String,
    pub what: String,
    #[serde(default)]
    pub status: String,
}

pub fn known(root: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.jsonl", root)) {
        for l in s.lines().filter(|l| !l.trim().is_empty()) {
            let k: Known = serde_json::from_str(l).expect("known_findings.jsonl");
            if k.status != "fixed" {
                v.push(k);
            }
        }
    }
    v
}

fn mine<'a>(prop: &str, out: &'a RunOut, kn: &[Known]) -> Option<&'a Viol> {
    out.viols.iter().find(|v| (v.prop == prop || v.prop == "*") && !kn.iter().any(|k| k.property == prop && k.sig == v.sig))
}

/// Learns, from a few runs, which accesses touch memory that several threads use.
pub fn calibrate(sc: &dyn Scenario, base: u64) {
    sched::calibration(true);
    let jobs: Vec<(Value, Option<Sched>)> = (0..24u64).map(|i| (sc.plan(mix2(base, 0xCA11 + i), i), None)).collect();
    run_many(sc, &jobs, 1);
    sched::calibration(false);
}

/// Runs a check to the end. Returns the process exit code.
pub fn check(cfg: CheckCfg, sc: &dyn Scenario) -> i32 {
    let t0 = Instant::now();
    let kn = known(&cfg.root);
    println!("check {} tier={} VERIF_SEED={} instrumented edges={}", cfg.prop, cfg.tier, cfg.seed, sched::guards());
    sched::map_coverage();
    let base = mix2(cfg.seed, cfg.prop.bytes().fold(0u64, |a, b| mix2(a, b as u64)));
    calibrate(sc, base);
    println!("access sites of shared memory: {}", sched::shared_sites().len());
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: BTreeSet<u64> = BTreeSet::new();
    let mut traces: BTreeSet<u64> = BTreeSet::new();
    let mut samples: Vec<Value> = vec![];
    let (mut evals, mut nontriv, mut inconc, mut steps, mut simns) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut walls: Vec<u64> = vec![];
    let mut inconc_why: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen_known: BTreeMap<String, u64> = BTreeMap::new();
    let mut first: Vec<(u64, u64)> = vec![];
    let mut ch: Vec<Child> = vec![];
    let mut plans: BTreeMap<usize, Value> = BTreeMap::new();
    let mut next = 0u64;
    let mut bad: Option<(u64, Value, RunOut)> = None;
    loop {
        while bad.is_none() && ch.len() < cfg.par && next < cfg.max_runs && t0.elapsed() < cfg.wall {
            let seed = mix2(base, next);
            let plan = sc.plan(seed, next);
            ch.push(spawn_run(sc, &plan, None, next as usize));
            plans.insert(next as usize, plan);
            next += 1;
        }
        if ch.is_empty() {
            break;
        }
        let (i, out) = reap(&mut ch);
        let plan = plans.remove(&i).unwrap();
        evals += 1;
        steps += out.steps;
        simns += out.sim_ns;
        for (k, v) in &out.counters {
            *counters.entry(k.clone()).or_insert(0) += v;
        }
        if let Some(w) = &out.inconclusive {
            inconc += 1;
            if w == "killed" {
                println!("run {} killed: it took more than {:?}", i, RUN_WALL);
            }
            *inconc_why.entry(w.clone()).or_insert(0) += 1;
        }
        walls.push(out.wall_ms);
        traces.insert(out.trace);
        if out.nontrivial {
            nontriv += 1;
            for d in &out.distinct {
                distinct.insert(*d);
            }
        }
        if first.len() < 16 {
            first.push((i as u64, out.trace));
        }
        if samples.len() < 4 && out.nontrivial {
            samples.push(json!({"run": i, "seed": mix2(base, i as u64), "plan": trunc(sc.describe(&plan)), "result": trunc(out.sample.clone())}));
        }
        for v in &out.viols {
            if kn.iter().any(|k| k.property == cfg.prop && v.prop == cfg.prop && k.sig == v.sig) {
                *seen_known.entry(v.sig.clone()).or_insert(0) += 1;
            }
        }
        if bad.is_none() && mine(cfg.prop, &out, &kn).is_some() {
            bad = Some((i as u64, plan, out));
        }
    }
    // Determinism: the first runs again, alone, must do exactly the same.
    let mut diverged = 0;
    let mut redone = 0;
    if bad.is_none() {
        let jobs: Vec<(Value, Option<Sched>)> = first.iter().map(|(i, _)| (sc.plan(mix2(base, *i), *i), None)).collect();
        for (k, o) in run_many(sc, &jobs, 3).iter().enumerate() {
            redone += 1;
            if o.trace != first[k].1 {
                diverged += 1;
                println!("NONDETERMINISM: run {} gave trace {:x} then {:x}", first[k].0, first[k].1, o.trace);
            }
        }
    }
    let mut code = 0;
    let mut vtext = Value::Null;
    if let Some((i, plan, out)) = &bad {
        let v = mine(cfg.prop, out, &kn).unwrap().clone();
        println!("run {} (seed {:#x}) violates {}: [{}] {}", i, mix2(base, *i), cfg.prop, v.class, v.msg);
        let (plan, out, v, tried) = minimise(&cfg, sc, plan.clone(), out.clone(), v, &kn);
        let dir = format!("{}/replays", cfg.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{:016x}.json", dir, cfg.prop, mix2(base, *i));
        let file = json!({
            "property": cfg.prop, "verif_seed": cfg.seed, "run": i, "run_seed": mix2(base, *i),
            "violation": v, "plan": plan, "schedule": out.sched, "trace": out.trace,
            "schedule_format": "[step, thread] switch to thread; [step,-1,ns] stall the running thread; [step,-2,0] crash the server",
            "described": sc.describe(&plan),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).unwrap();
        // replay in a fresh process
        let exe = std::env::current_exe().unwrap();
        let again = std::process::Command::new(exe).arg("replay").arg(&path).env_remove("SIM_REEXEC").output();
        let ok = again.map(|o| o.status.code() == Some(1)).unwrap_or(false);
        println!("minimised after {} tries: {} schedule entries; replay in a fresh process {}", tried, out.sched.len(), if ok { "reproduces it" } else { "does NOT reproduce it" });
        println!("violation: [{}] {}", v.class, v.msg);
        println!("VIOLATION property={} replay={}", cfg.prop, path);
        vtext = json!(v);
        code = 1;
    }
    for k in kn.iter().filter(|k| k.property == cfg.prop) {
        println!("KNOWN-FINDING: property={} {} (met {} times in this run)", cfg.prop, k.what, seen_known.get(&k.sig).unwrap_or(&0));
    }
    let cov = sched::coverage();
    let wall = t0.elapsed().as_secs_f64();
    let faults: BTreeMap<&String, &u64> = counters.iter().filter(|(k, _)| k.starts_with("fault")).collect();
    let others: BTreeMap<&String, &u64> = counters.iter().filter(|(k, _)| !k.starts_with("fault")).collect();
    let ev = json!({
        "property": cfg.prop, "tier": cfg.tier, "seed": cfg.seed, "level": cfg.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct.len(),
            "rule": cfg.rule,
            "samples": samples,
            "nontrivial_runs": nontriv,
            "distinct_traces": traces.len(),
            "runs_per_hour": if wall > 0.0 { (evals as f64 / wall * 3600.0) as u64 } else { 0 },
            "seeds": format!("{} run seeds derived from VERIF_SEED={}", evals, cfg.seed),
            "simulated_seconds": simns as f64 / 1e9,
            "executed_edges": steps,
            "edges_of_reveaal_reached": cov.iter().filter(|c| **c > 0).count(),
            "edges_of_reveaal_instrumented": sched::guards(),
            "faults_injected": faults,
            "counters": others,
            "inconclusive_runs": inconc,
            "inconclusive_reasons": inconc_why,
            "determinism_reruns": redone,
            "determinism_divergences": diverged,
            "real_components": cfg.real,
            "stubbed_components": cfg.stub,
            "known_findings_met": seen_known,
            "violation": vtext,
        },
        "assumptions": cfg.assumptions,
        "wall_s": wall,
        "violations": if code == 1 { 1 } else { 0 },
    });
    write_evidence(&cfg.root, cfg.prop, &ev);
    println!(
        "{}: {} runs, {} distinct, {} inconclusive, {:.1}s simulated, {} edges reached of {}, {:.1}s wall",
        cfg.prop, evals, distinct.len(), inconc, simns as f64 / 1e9, cov.iter().filter(|c| **c > 0).count(), sched::guards(), wall
    );
    if !inconc_why.is_empty() {
        println!("inconclusive: {:?}", inconc_why);
    }
    if std::env::var_os("SIM_VERBOSE").is_some() {
        walls.sort();
        if !walls.is_empty() {
            println!("ms per run: median {} p90 {} p99 {} max {}", walls[walls.len() / 2], walls[walls.len() * 9 / 10], walls[walls.len() * 99 / 100], walls[walls.len() - 1]);
        }
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["counters"]).unwrap());
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["faults_injected"]).unwrap());
    }
    code
}

pub fn write_evidence(root: &str, prop: &str, ev: &Value) {
    let dir = format!("{}/evidence", root);
    let _ = std::fs::create_dir_all(&dir);
    let mut f = std::fs::File::create(format!("{}/{}.json", dir, prop)).unwrap();
    f.write_all(serde_json::to_string_pretty(ev).unwrap().as_bytes()).unwrap();
}

fn trunc(v: Value) -> Value {
    match v {
        Value::String(s) if s.len() > 600 => Value::String(format!("{}...", s.chars().take(600).collect::<String>())),
        Value::Array(a) => {
            let n = a.len();
            let mut b: Vec<Value> = a.into_iter().take(12).map(trunc).collect();
            if n > 12 {
                b.push(Value::String(format!("... {} more", n - 12)));
            }
            Value::Array(b)
        }
        Value::Object(o) => Value::Object(o.into_iter().map(|(k, v)| (k, trunc(v))).collect()),
        v => v,
    }
}

/// Shrinks plan and schedule while a violation of the same property and class remains.
fn minimise(cfg: &CheckCfg, sc: &dyn Scenario, plan: Value, out: RunOut, v: Viol, kn: &[Known]) -> (Value, RunOut, Viol, u64) {
    let t0 = Instant::now();
    let lim = Duration::from_secs(if cfg.tier == "quick" { 60 } else { 300 });
    let mut tried = 0u64;
    let same = |o: &RunOut| -> Option<Viol> { o.viols.iter().find(|w| (w.prop == cfg.prop || w.prop == "*") && w.class == v.class && !kn.iter().any(|k| k.property == cfg.prop && k.sig == w.sig)).cloned() };
    let (mut plan, mut out, mut v0) = (plan, out, v.clone());
    // does the recorded schedule reproduce it at all?
    tried += 1;
    let o = run_one(sc, &plan, Some(out.sched.clone()));
    let mut replayable = false;
    if let Some(w) = same(&o) {
        replayable = true;
        v0 = w;
        let s = o.sched.clone();
        out = o;
        if s.len() > 0 {
            out.sched = s;
        }
    } else {
        println!("note: the recorded schedule did not reproduce the violation on the first try");
    }
    if !replayable {
        return (plan, out, v0, tried);
    }
    // 1. a sequential schedule?
    tried += 1;
    let o = run_one(sc, &plan, Some(vec![]));
    if let Some(w) = same(&o) {
        v0 = w;
        out = o;
    }
    // 2. smaller plans, each with: the same schedule, none, and the plan's own random schedule
    let mut progress = true;
    while progress && t0.elapsed() < lim {
        progress = false;
        let cands = sc.shrink(&plan);
        'outer: for chunk in cands.chunks(8) {
            if t0.elapsed() > lim {
                break;
            }
            let mut jobs = vec![];
            for c in chunk {
                jobs.push((c.clone(), Some(out.sched.clone())));
                if !out.sched.is_empty() {
                    jobs.push((c.clone(), None));
                }
            }
            tried += jobs.len() as u64;
            for (k, o) in run_many(sc, &jobs, 8).into_iter().enumerate() {
                if let Some(w) = same(&o) {
                    plan = jobs[k].0.clone();
                    v0 = w;
                    out = o;
                    progress = true;
                    break 'outer;
                }
            }
        }
    }
    // 3. fewer schedule entries
    let mut n = 2usize;
    while out.sched.len() > 0 && t0.elapsed() < lim + Duration::from_secs(30) {
        let s = out.sched.clone();
        n = n.min(s.len());
        let size = (s.len() + n - 1) / n;
        let mut jobs = vec![];
        let mut at = 0;
        while at < s.len() {
            let mut c = s.clone();
            c.drain(at..(at + size).min(s.len()));
            jobs.push((plan.clone(), Some(c)));
            at += size;
        }
        tried += jobs.len() as u64;
        let mut hit = false;
        for (_, o) in run_many(sc, &jobs, 8).into_iter().enumerate() {
            if let Some(w) = same(&o) {
                if o.sched.len() < s.len() {
                    v0 = w;
                    out = o;
                    hit = true;
                    break;
                }
            }
        }
        if hit {
            n = 2.max(n.saturating_sub(1));
        } else if n >= s.len() {
            break;
        } else {
            n = (n * 2).min(s.len());
        }
    }
    (plan, out, v0, tried)
}

/// Replays a file: exit code 1 if the recorded violation occurs again.
pub fn replay(sc: &dyn Scenario, file: &Value) -> i32 {
    let sched: Sched = serde_json::from_value(file["schedule"].clone()).unwrap();
    let v: Viol = serde_json::from_value(file["violation"].clone()).unwrap();
    let prop = file["property"].as_str().unwrap();
    let o = run_one(sc, &file["plan"], Some(sched));
    println!("trace {:#x} (recorded {})", o.trace, file["trace"]);
    for w in &o.viols {
        println!("[{} {}] {}", w.prop, w.class, w.msg);
    }
    if let Some(w) = &o.inconclusive {
        println!("inconclusive: {}", w);
    }
    if o.viols.iter().any(|w| (w.prop == prop || w.prop == "*") && w.class == v.class) {
        println!("reproduced");
        1
    } else {
        println!("not reproduced");
        0
    }
}

/// Runs `f` in a child of its own, which shares nothing with this process from here on. `None` if it died or
/// took longer than `secs` of real time.
pub fn isolate(secs: u64, f: impl FnOnce() -> Value + Send) -> Option<Value> {
    let mut fds = [0; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(secs as u32);
            crate::raw::sys6(libc::SYS_close, fds[0] as i64, 0, 0, 0, 0, 0);
            OUT_FD = fds[1];
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(json!({"harness-panic": true}));
                        let b = serde_json::to_vec(&v).unwrap();
                        let mut off = 0;
                        while off < b.len() {
                            let n = crate::raw::sys6(libc::SYS_write, OUT_FD as i64, b.as_ptr().add(off) as i64, (b.len() - off) as i64, 0, 0, 0);
                            if n <= 0 {
                                break;
                            }
                            off += n as usize;
                        }
                        crate::raw::sys6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
                    })
                    .unwrap();
            });
            libc::_exit(0);
        }
        crate::raw::sys6(libc::SYS_close, fds[1] as i64, 0, 0, 0, 0, 0);
        let mut buf = vec![];
        let mut b = [0u8; 65536];
        loop {
            let n = crate::raw::sys6(libc::SYS_read, fds[0] as i64, b.as_mut_ptr() as i64, b.len() as i64, 0, 0, 0);
            if n == -(libc::EINTR as i64) {
                continue;
            }
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&b[..n as usize]);
        }
        crate::raw::sys6(libc::SYS_close, fds[0] as i64, 0, 0, 0, 0, 0);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        serde_json::from_slice(&buf).ok()
    }
}
