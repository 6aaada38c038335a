//! Saved components against the systems they were computed from.
use crate::c08::{comp_text, shrink_comps};
use crate::c16::{Found, Ref};
use crate::disk::Disk;
use crate::model::Comp;
use crate::program::{run, End, Job, Ran};
use crate::refsem::{apply, delay, Acts, Lt, Sys, Tr};
use crate::rng::{mix2, Rng};
use crate::runner::{RunOut, Scenario, Sched};
use crate::saved::{self, Bad};
use crate::w1::hash_str;
use crate::w2::{comp_path, gen, project, PROJ};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    expr: String,
    reduce: bool,
    /// Save what pruning leaves of the system.
    #[serde(default)]
    prune: bool,
    /// The power fails right after.
    power: Option<u64>,
    /// Save over a component of the project that is not part of the system.
    over: Option<String>,
    seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    seed: u64,
    comps: Vec<Comp>,
    pretty: bool,
    cases: Vec<Case>,
}

pub struct C12;

const FORMS: &[&str] = &[
    "A", "A2", "B", "T", "D", "A && A2", "A || B", "A2 || B", "B || D", "A || B || D", "(A && A2) || B", "T // B", "A || D", "A && A && A2", "(A || B) && T", "(A2 || B) && T",
    "(A || B) && (A2 || B)", "A || (B || D)", "A && A", "(T // B) && A", "A && (T // B)", "T // (B || D)", "(T // B) || D",
];

/// All that a side may have become by one timed run.
type States = BTreeSet<(Lt, Vec<i64>)>;

/// One run: every delay and action one side allows, the other does as well; the first may do more if
/// the second is only a part of it.
fn cosim(r: &mut Rng, s: &Sys, t: &Sys, part: bool, acts: &Acts, steps: usize) -> Result<usize, String> {
    let start = |x: &Sys| -> States {
        let v = vec![0; x.clocks];
        if x.inv_of(&x.initial()).eval(&v) {
            [(x.initial(), v)].into()
        } else {
            Default::default()
        }
    };
    let wait = |x: &Sys, st: &States, d: i64| -> States {
        st.iter().map(|(l, v)| (l.clone(), delay(v, d))).filter(|(l, v)| x.inv_of(l).eval(v)).collect()
    };
    let step = |x: &Sys, st: &States, a: &str| -> States {
        let mut n = States::new();
        for (l, v) in st {
            let ts: Vec<Tr> = x.next(l, a);
            n.extend(ts.iter().filter(|t| x.enabled(t, v)).map(|t| (t.target.clone(), apply(&t.upd, v))));
        }
        n
    };
    let show = |x: &Sys, st: &States| st.iter().take(3).map(|(l, v)| format!("{} {}", x.loc_text(l), x.val_text(v))).collect::<Vec<_>>().join(" or ");
    let (mut a, mut b) = (start(s), start(t));
    let differ = |a: &States, b: &States| if part { a.is_empty() && !b.is_empty() } else { a.is_empty() != b.is_empty() };
    if differ(&a, &b) {
        return Err("only one of them has an initial state".into());
    }
    let mut log: Vec<String> = vec![];
    let mut done = 0;
    for _ in 0..steps {
        if b.is_empty() || a.len() > 60 || b.len() > 60 {
            break;
        }
        let (y, st) = if !part && r.chance(1, 2) { (s, &a) } else { (t, &b) };
        let (l, v) = r.pick(&st.iter().cloned().collect::<Vec<_>>()).clone();
        // now and then as late as possible, and later
        let d = y.pick_delay(r, &l, &v) + if r.chance(1, 6) { *r.pick(&[1, crate::zone::SC / 2, crate::zone::SC]) } else { 0 };
        let (na, nb) = (wait(s, &a, d), wait(t, &b, d));
        if differ(&na, &nb) {
            return Err(format!(
                "after {:?} in {} and {}, a delay of {} is possible in {} only",
                log, show(s, &a), show(t, &b), d as f64 / crate::zone::SC as f64, if na.is_empty() { "the saved component" } else { "the system" }
            ));
        }
        if nb.is_empty() {
            continue;
        }
        (a, b) = (na, nb);
        if d > 0 {
            log.push(format!("{}", d as f64 / crate::zone::SC as f64));
        }
        let mut next = vec![];
        for x in acts {
            let (na, nb) = (step(s, &a, x), step(t, &b, x));
            if differ(&na, &nb) {
                return Err(format!(
                    "after {:?} in {} and {}, action {} is possible in {} only",
                    log, show(s, &a), show(t, &b), x, if na.is_empty() { "the saved component" } else { "the system" }
                ));
            }
            if !nb.is_empty() {
                next.push((x.clone(), na, nb));
            }
        }
        if next.is_empty() {
            continue;
        }
        let (x, na, nb) = r.pick(&next).clone();
        log.push(x);
        (a, b) = (na, nb);
        done += 1;
    }
    Ok(done)
}

pub fn answers(text: &str) -> Vec<String> {
    text.lines().filter_map(|l| l.rsplit_once(" -- ").map(|x| x.1.to_string())).collect()
}

const YES: &str = "Property is satisfied";

/// What a new process says to these queries, one after the other, after the others before them.
pub fn ask(disk: &Disk, before: &[String], qs: &[String], reduce: bool, seed: u64) -> (Ran, Vec<String>) {
    let go = |qs: &[String]| run(&Job::Cli { query: [before, qs].concat().join("; "), path: PROJ.into(), reduce }, None, disk, &[], seed, mix2(seed, 0x5a));
    let r = go(qs);
    let a = answers(&r.text);
    if r.end == End::Done(true) && a.len() == before.len() + qs.len() {
        return (r, a[before.len()..].to_vec());
    }
    if let End::Stuck(_) | End::Lost = r.end {
        return (r, vec!["Stuck".into(); qs.len()]);
    }
    // one of them ends the process
    let a = qs
        .iter()
        .map(|q| {
            let r = go(&[q.clone()]);
            match (&r.end, answers(&r.text).pop()) {
                (End::Done(true), Some(a)) => a,
                (e, _) => format!("{:?}", e).chars().take(300).collect(),
            }
        })
        .collect();
    (r, a)
}

fn case(p: &Plan, c: &Case, out: &mut RunOut, lines: &mut Vec<String>) -> Option<(String, String)> {
    let name = c.over.clone().unwrap_or("S".into());
    let mut r = Rng::new(mix2(c.seed, 0x1212));
    let e = Sys::new(&c.expr, &p.comps);
    let listed: Vec<String> = p.comps.iter().map(|c| c.name.clone()).filter(|n| *n != name).collect();
    let disk = project(&p.comps, &listed, &[], p.pretty);
    let query = format!("{}: {} save-as {}", if c.prune { "prune" } else { "get-component" }, c.expr, name);
    let shown = format!("{} (clock reduction {})", query, if c.reduce { "enabled" } else { "disabled" });
    let about = |n: &str| {
        vec![format!("refinement: {} <= {}", n, c.expr), format!("refinement: {} <= {}", c.expr, n), format!("refinement: {} <= {}", n, n), format!("consistency: {}", n), format!("determinism: {}", n)]
    };
    let mut first = vec![];
    // another component of that name, before the save
    if c.over.is_some() {
        first.push(format!("consistency: {}", name));
    }
    first.push(query);
    let (ran, _) = ask(&disk, &first[..first.len() - 1], &first[first.len() - 1..], c.reduce, c.seed);
    out.sim_ns += ran.ns;
    out.steps += ran.ops;
    out.trace = mix2(out.trace, mix2(ran.trace, hash_str(&ran.text)));
    let mut after = ran.disk.clone();
    match c.power {
        Some(x) => {
            after.power_loss(x);
            out.count("crash: the power failed", 1);
        }
        None => after.process_crash(),
    }
    let path = comp_path(&name);
    let bytes = after.all().remove(&path).filter(|b| Some(b) != disk.all().get(&path));
    if ran.end != End::Done(true) {
        out.count("systems not saved", 1);
        lines.push(format!("{}: {:?}", shown, ran.end));
        if c.over.is_none() && !matches!(ran.end, End::Stuck(_) | End::Lost) {
            // does any query work on this system?
            let (_, sys) = ask(&disk, &[], &[format!("consistency: {}", c.expr)], c.reduce, mix2(c.seed, 4));
            if sys[0] == YES && !c.prune {
                return Some(("panic".into(), format!("{}: {:?}", shown, ran.end)));
            }
        }
        return None;
    }
    let Some(bytes) = bytes else { return Some(("missing".into(), format!("{} succeeded, but nothing is in {}", shown, path))) };
    let f = match saved::value(&bytes).and_then(|v| saved::component(&v)) {
        Ok(f) => f,
        Err(b) => return Some(("unreadable".into(), format!("{}: {:?} in {}", shown, b, String::from_utf8_lossy(&bytes)))),
    };
    let s = match f.sys() {
        Ok(s) => s,
        Err(Bad::Unknown(m)) => {
            out.count("saved components beyond the reader", 1);
            let _ = m;
            return None;
        }
        Err(b) => return Some(("unreadable".into(), format!("{}: {:?} in {}", shown, b, String::from_utf8_lossy(&bytes)))),
    };
    out.count("systems saved", 1);
    out.count(&format!("saved{}: {}", if c.prune { " after pruning" } else { "" }, c.expr), 1);
    out.nontrivial = true;
    if f.name != name {
        return Some(("name".into(), format!("{}: the saved component is called {}", shown, f.name)));
    }
    let (ei, eo) = e.alphabet(&e.ex);
    let (si, so) = s.alphabet(&s.ex);
    if !si.is_subset(&ei) || !so.is_subset(&eo) {
        return Some(("behaviour".into(), format!("{}: inputs {:?} and outputs {:?} instead of {:?} and {:?}", shown, si, so, ei, eo)));
    }
    let acts: Acts = ei.union(&eo).cloned().collect();
    for _ in 0..12 {
        out.count("runs of both", 1);
        match cosim(&mut r, &e, &s, c.prune, &acts, 25) {
            Ok(n) => out.count("steps of both", n as u64),
            Err(m) => return Some(("behaviour".into(), format!("{}: {}", shown, m))),
        }
    }
    if f.edges.len() > 100 {
        // the tool would take too long over it
        out.count("large components not asked about", 1);
        lines.push(format!("{}: {} locations, {} edges", shown, f.locs.len(), f.edges.len()));
        return None;
    }
    let whole = si == ei && so == eo;
    let det = |x: &[String]| x[4] == YES;
    // this and any later process
    let (_, same) = ask(&disk, &first, &about(&name), c.reduce, c.seed);
    let (ran2, later) = ask(&after, &[], &about(&name), c.reduce, mix2(c.seed, 2));
    let (_, sys) = ask(&after, &[], &about(&c.expr)[2..], false, mix2(c.seed, 3));
    out.sim_ns += ran2.ns;
    out.trace = mix2(out.trace, hash_str(&ran2.text));
    lines.push(format!("{}: {} locations, {} edges; {:?} then {:?}, system {:?}", shown, f.locs.len(), f.edges.len(), same, later, sys));
    if [&same, &later, &sys].iter().any(|a| a.iter().any(|x| x.starts_with("Lost") || x.starts_with("Stuck"))) {
        out.count("systems without an answer in time", 1);
        return None;
    }
    if same != later {
        for (k, q) in about(&name).iter().enumerate() {
            if same[k] != later[k] {
                return Some(("restart".into(), format!("{}, then {}: {} in the process that saved it and {} in a new one", shown, q, same[k], later[k])));
            }
        }
    }
    // a quotient may hold moments without a way on, which are left to pruning; a component may not
    let judged = !e.ex.has_quo() || later[3] == YES;
    if c.prune {
        if sys[1] == YES && later[3] != YES {
            return Some(("pruned".into(), format!("{}, then consistency: {}: {}, although the system is consistent", shown, name, later[3])));
        }
        return None;
    }
    if whole && sys[0] == YES && judged {
        for (k, q) in about(&name)[..3].iter().enumerate() {
            if later[k] != YES {
                return Some(("verdict".into(), format!("{}, then {}: {}, although {} refines itself", shown, q, later[k], c.expr)));
            }
        }
    }
    for (k, q) in [(3, "consistency"), (4, "determinism")] {
        // the parts of a system are judged one by one, in all that they may do alone
        if sys[k - 2] == YES && later[k] != YES && judged {
            return Some(("verdict".into(), format!("{}, then {}: {} for {} and {} for the system", shown, q, later[k], name, sys[k - 2])));
        }
    }
    if det(&later) {
        for (l, t) in [(e.clone(), s.clone()), (s.clone(), e.clone())] {
            let rf = Ref::of(l, t);
            if !rf.starts() || !rf.fits() {
                continue;
            }
            match rf.explore(&mut r, 600) {
                Found::Miss(m) if rf.confirm(&m) => return Some(("behaviour".into(), format!("{}: {}", shown, rf.miss_text(&m)))),
                Found::None => out.count("pairs explored in full", 1),
                _ => out.count("pairs explored in part", 1),
            }
        }
    }
    None
}

impl Scenario for C12 {
    fn plan(&self, seed: u64, _: u64) -> Value {
        let mut r = Rng::new(seed);
        let mut comps = gen(&mut r);
        if r.chance(1, 2) {
            // names that are easily mixed up
            for c in comps.iter_mut() {
                for k in 0..c.clocks.len() {
                    let n = r.pick(&["x_e", "x_e1", "x_e2", "x_e0", "x_e11", "y_e", "x"]).to_string();
                    if !c.clocks.contains(&n) {
                        c.clocks[k] = n;
                    }
                }
            }
        }
        let n = 1 + r.below(3);
        let cases = (0..n)
            .map(|_| {
                let expr = r.pick(FORMS).to_string();
                let free: Vec<String> = comps.iter().map(|c| c.name.clone()).filter(|n| !expr.split(|c: char| !c.is_alphanumeric()).any(|x| x == n)).collect();
                Case {
                    reduce: r.chance(1, 3),
                    prune: r.chance(1, 5),
                    power: if r.chance(1, 3) { Some(r.next()) } else { None },
                    over: if r.chance(1, 5) && !free.is_empty() { Some(r.pick(&free).clone()) } else { None },
                    seed: r.next(),
                    expr,
                }
            })
            .collect();
        serde_json::to_value(Plan { seed: r.next(), comps, pretty: r.chance(1, 2), cases }).unwrap()
    }

    fn run(&self, plan: &Value, _: Option<Sched>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut out = RunOut::default();
        out.trace = p.seed;
        let mut lines = vec![];
        crate::program::BUDGET.store(60_000_000, std::sync::atomic::Ordering::Relaxed);
        for c in &p.cases {
            if let Some((sig, m)) = case(&p, c, &mut out, &mut lines) {
                out.viol("C12", &sig.clone(), &sig, m);
                break;
            }
        }
        out.sample = json!({"saves": lines});
        out.distinct = vec![out.trace];
        out
    }

    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut v = vec![];
        if p.cases.len() > 1 {
            for c in &p.cases {
                v.push(Plan { cases: vec![c.clone()], ..p.clone() });
            }
        }
        for c in p.cases.iter().take(1) {
            if c.power.is_some() {
                v.push(Plan { cases: vec![Case { power: None, ..c.clone() }], ..p.clone() });
            }
            if c.over.is_some() {
                v.push(Plan { cases: vec![Case { over: None, ..c.clone() }], ..p.clone() });
            }
            if c.reduce {
                v.push(Plan { cases: vec![Case { reduce: false, ..c.clone() }], ..p.clone() });
            }
        }
        for q in shrink_comps(&p.comps) {
            v.push(Plan { comps: q, ..p.clone() });
        }
        v.into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
    }

    fn describe(&self, plan: &Value) -> Value {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        json!({"components": p.comps.iter().map(comp_text).collect::<Vec<_>>(),
            "saves": p.cases.iter().map(|c| format!("{:?}", c)).collect::<Vec<_>>()})
    }
}
