//! The command line program, run as a process of its own under the simulator.
use crate::disk::{self, Disk, PlannedFault};
use crate::rng::mix2;
use crate::runner::isolate;
use crate::sched::{self, Policy, SimCfg, Woke};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int};

static mut ARGV: *mut *const c_char = std::ptr::null_mut();
static mut ARGC: usize = 0;

extern "C" fn at_start(argc: c_int, argv: *mut *const c_char, _: *const *const c_char) {
    unsafe {
        ARGV = argv;
        ARGC = argc as usize;
    }
}
#[used]
#[link_section = ".init_array.00098"]
static AT_START: extern "C" fn(c_int, *mut *const c_char, *const *const c_char) = at_start;

/// Gives this process other arguments.
fn set_args(a: &[String]) {
    unsafe {
        assert!(a.len() < ARGC, "no room for {} arguments", a.len());
        for (i, s) in a.iter().enumerate() {
            *ARGV.add(i) = CString::new(s.as_str()).unwrap().into_raw();
        }
        *ARGV.add(a.len()) = std::ptr::null();
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Job {
    /// The program with a query.
    Cli { query: String, path: String, reduce: bool },
    /// A query without a program around it.
    Query { query: String, path: String },
    /// The loader, asked for everything.
    Load { path: String, xml: bool, names: Vec<String> },
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub enum End {
    /// Finished, with this status.
    Done(bool),
    Panic(String),
    Exit(i32),
    Killed,
    /// It never finished: what it waited for.
    Stuck(String),
    #[default]
    Lost,
}

impl End {
    /// Success, as far as anybody watching can tell.
    pub fn ok(&self) -> bool {
        matches!(self, End::Done(true) | End::Exit(0))
    }
}

#[derive(Clone, Default, Serialize, Deserialize)]
pub struct Ran {
    pub end: End,
    /// What it printed, or what was loaded.
    pub text: String,
    pub disk: Disk,
    pub ops: u64,
    pub fired: BTreeMap<String, u64>,
    pub trace: u64,
    pub ns: u64,
    pub log: Vec<String>,
}

fn one(job: &Job) -> (End, String) {
    match job {
        Job::Cli { query, path, reduce } => {
            let mut a = vec!["Reveaal".to_string(), "query".into(), query.clone(), "-i".into(), path.clone()];
            if *reduce {
                a.push("-e".into());
            }
            sched::quiet(|| set_args(&a));
            match sched::real(simglue::cli) {
                Ok(b) => (End::Done(b), String::new()),
                Err(e) => (End::Panic(e), String::new()),
            }
        }
        Job::Query { query, path } => match sched::real(|| simglue::query(path, query)) {
            Ok(b) => (End::Done(b), String::new()),
            Err(e) => (End::Panic(e), String::new()),
        },
        Job::Load { path, xml, names } => match sched::real(|| simglue::load(path, *xml, names)) {
            Ok(t) => (End::Done(true), t),
            Err(e) => (End::Panic(e), String::new()),
        },
    }
}

/// How many steps of the program's control flow a process may take.
pub static BUDGET: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(400_000_000);

/// One process, from start to end or until a fault kills it. `beside`: another process at the same time,
/// whose outcome does not matter, scheduled against the first at every call to the system.
pub fn run(job: &Job, beside: Option<&Job>, disk: &Disk, faults: &[PlannedFault], seed: u64, hash_seed: u64) -> Ran {
    let v = isolate(40, || {
        sched::start(SimCfg {
            seed,
            hash_seed: mix2(hash_seed, 77),
            policy: if beside.is_some() { Policy::Geo(60) } else { Policy::Run },
            max_steps: u64::MAX,
            stall_permille: 0,
            spurious_permille: 0,
            fault_ns: 0,
            irqs: vec![],
        });
        sched::budget(BUDGET.load(std::sync::atomic::Ordering::Relaxed));
        disk::install(disk.clone());
        let d = disk::disk();
        d.total_ops = 0;
        d.log.clear();
        d.fired.clear();
        disk::capture();
        disk::program(true);
        // process numbers come around
        unsafe { disk::PID = 100 + (seed % 3) as i32 };
        d.arm(faults.to_vec());
        let cell = std::sync::Arc::new(std::sync::Mutex::new(None));
        let (c2, j2) = (cell.clone(), job.clone());
        let t0 = sched::now();
        let t = sched::spawn("program", 1, 64 << 20, move || {
            let r = one(&j2);
            *c2.lock().unwrap() = Some(r);
        });
        let mut other = None;
        if let Some(b) = beside {
            let j3 = b.clone();
            other = Some(sched::spawn("other program", 2, 64 << 20, move || {
                let _ = one(&j3);
            }));
            sched::begin_schedule();
        }
        let w = sched::join(t);
        if let Some(o) = other {
            sched::join(o);
        }
        sched::end_schedule();
        disk::program(false);
        let d = disk::disk();
        d.disarm();
        let (mut end, mut text) = match (cell.lock().unwrap().take(), disk::exited()) {
            (Some(r), _) => r,
            (None, Some(c)) => (End::Exit(c), String::new()),
            (None, None) if d.killed => (End::Killed, String::new()),
            _ => (End::Stuck(format!("{:?}", w)), String::new()),
        };
        if w == Woke::Budget {
            end = End::Stuck("no end in sight".into());
        }
        if let Job::Cli { .. } = job {
            text = disk::captured();
        }
        let d = disk::disk();
        let ran = Ran {
            end,
            text,
            ops: d.ops,
            fired: std::mem::take(&mut d.fired),
            trace: sched::trace_hash(),
            ns: sched::now() - t0,
            log: std::mem::take(&mut d.log),
            disk: std::mem::take(d),
        };
        serde_json::to_value(ran).unwrap()
    });
    match v {
        Some(v) if v.get("harness-panic").is_none() => serde_json::from_value(v).unwrap_or_default(),
        _ => Ran::default(),
    }
}

#[allow(dead_code)]
pub fn describe(j: &Job) -> Value {
    json!(format!("{:?}", j))
}
