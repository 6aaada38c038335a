//! Determinism and consistency answers against simulated runs.
use crate::c08::{self, comp_text, gen_text, shrink_comps};
use crate::canon;
use crate::model::{self, Comp, GenCfg};
use crate::refsem::{self, Ex, Lt, Pred, Sys, Tr};
use crate::rng::{mix2, Rng};
use crate::runner::{RunOut, Scenario, Sched};
use crate::sched;
use crate::w1::hash_str;
use crate::zone::{Dbm, Fed};
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simglue::{call, Rep, Req};
use std::collections::BTreeSet;

struct Node {
    l: Lt,
    f: Fed,
    ins: Vec<usize>,
    outs: Vec<usize>,
}

fn text_of(e: &Ex, sys: &Sys) -> String {
    match e {
        Ex::Leaf(i) => sys.comps[*i].name.clone(),
        Ex::And(a, b) => format!("({} && {})", text_of(a, sys), text_of(b, sys)),
        Ex::Par(a, b) => format!("({} || {})", text_of(a, sys), text_of(b, sys)),
        Ex::Quo(a, b) => format!("({} // {})", text_of(a, sys), text_of(b, sys)),
    }
}

/// The sets of states the system can be driven through, by its inputs and its outputs.
fn graph(sys: &Sys, cap: usize) -> Option<Vec<Node>> {
    refsem::truncated(true);
    let mut max = vec![-1; sys.clocks];
    sys.max_consts(&mut max);
    let same = |a: &Fed, b: &Fed| -> Option<bool> { Some(a.minus(b)?.is_empty() && b.minus(a)?.is_empty()) };
    let mut nodes: Vec<Node> = vec![];
    let mut add = |nodes: &mut Vec<Node>, l: Lt, mut f: Fed| -> Option<usize> {
        f.0.iter_mut().for_each(|z| z.extrapolate(&max));
        for (i, n) in nodes.iter().enumerate() {
            if n.l == l && same(&n.f, &f)? {
                return Some(i);
            }
        }
        if f.0.len() > 60 {
            return None;
        }
        nodes.push(Node { l, f, ins: vec![], outs: vec![] });
        Some(nodes.len() - 1)
    };
    let (i, o) = sys.alphabet(&sys.ex);
    add(&mut nodes, sys.initial(), sys.initial_fed())?;
    let mut k = 0;
    while k < nodes.len() {
        if nodes.len() > cap || refsem::truncated(false) {
            return None;
        }
        let (l, f) = (nodes[k].l.clone(), nodes[k].f.clone());
        if l != Lt::Univ && l != Lt::Err {
            for (acts, input) in [(&i, true), (&o, false)] {
                for a in acts {
                    for t in sys.next(&l, a) {
                        let g = sys.post(&f, &t);
                        if g.is_empty() {
                            continue;
                        }
                        let n = add(&mut nodes, t.target.clone(), g)?;
                        if input {
                            nodes[k].ins.push(n);
                        } else {
                            nodes[k].outs.push(n);
                        }
                    }
                }
            }
        }
        k += 1;
    }
    Some(nodes)
}

/// (can be driven into a dead end whatever outputs are chosen, can be kept out of dead ends when states
/// may be judged together with larger ones). Exactly one holds wherever that question has one answer.
fn dead_ends(sys: &Sys, nodes: &[Node]) -> Option<(bool, bool)> {
    let free = |f: &Fed, all: bool| {
        let mut v = f.0.iter().filter(|z| !z.is_empty()).map(|z| (1..=sys.clocks).all(|c| z.unbounded(c)));
        if all {
            v.all(|x| x)
        } else {
            v.any(|x| x)
        }
    };
    let n = nodes.len();
    let mut above: Vec<Vec<usize>> = vec![vec![]; n];
    for i in 0..n {
        for j in 0..n {
            if nodes[i].l == nodes[j].l && (i == j || nodes[i].f.minus(&nodes[j].f)?.is_empty()) {
                above[i].push(j);
            }
        }
    }
    let fix = |loose: bool| {
        let mut good = vec![true; n];
        loop {
            let own: Vec<bool> = (0..n)
                .map(|i| match nodes[i].l {
                    Lt::Univ => true,
                    Lt::Err => false,
                    _ => nodes[i].ins.iter().all(|j| good[*j]) && (free(&nodes[i].f, !loose) || nodes[i].outs.iter().any(|j| good[*j])),
                })
                .collect();
            let next: Vec<bool> = if loose { (0..n).map(|i| above[i].iter().any(|j| own[*j])).collect() } else { own };
            let next: Vec<bool> = (0..n).map(|i| good[i] && next[i]).collect();
            if next == good {
                return good[0];
            }
            good = next;
        }
    };
    Some((!fix(false), fix(true)))
}

/// Two transitions for one action that can be taken from one state: their meeting, if any.
fn overlap(sys: &Sys, l: &Lt, f: &Fed, ts: &[Tr]) -> bool {
    for (i, x) in ts.iter().enumerate() {
        for y in &ts[i + 1..] {
            let p = Pred::And(vec![sys.allowed(&sys.ex, x), sys.allowed(&sys.ex, y), sys.inv_of(l)]);
            if !p.restrict(f).is_empty() {
                return true;
            }
        }
    }
    false
}

struct Det {
    /// Where, and for which action, a run meets two transitions at one moment.
    met: Vec<(String, String)>,
    full: bool,
}

fn determinism(c: &Comp) -> Det {
    refsem::truncated(true);
    let sys = Sys::new(&c.name, std::slice::from_ref(c));
    let mut max = vec![-1; sys.clocks];
    sys.max_consts(&mut max);
    let mut d = Det { met: vec![], full: true };
    let mut passed: Vec<(Lt, Dbm)> = vec![];
    let mut q: Vec<(Lt, Dbm)> = sys.initial_fed().0.into_iter().map(|z| (sys.initial(), z)).collect();
    while let Some((l, mut z)) = q.pop() {
        z.extrapolate(&max);
        if passed.iter().any(|(p, o)| *p == l && o.includes(&z)) {
            continue;
        }
        passed.push((l.clone(), z.clone()));
        if passed.len() > 600 || refsem::truncated(false) {
            d.full = false;
            return d;
        }
        for a in sys.actions() {
            let ts = sys.next(&l, &a);
            let f = Fed(vec![z.clone()]);
            if overlap(&sys, &l, &f, &ts) {
                d.met.push((sys.loc_text(&l), a.clone()));
            }
            for t in &ts {
                q.extend(sys.post(&f, t).0.into_iter().map(|z| (t.target.clone(), z)));
            }
        }
    }
    d.full = !refsem::truncated(false);
    d
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    seed: u64,
    hash_seed: u64,
    comps: Vec<Comp>,
    /// (composition, is it about consistency?, disable_clock_reduction)
    queries: Vec<(String, bool, Option<bool>)>,
}

pub struct C17;

/// The subexpressions whose consistency decides that of the whole, and whether it is asked while the
/// system is built (a conjunction) or afterwards.
fn parts<'a>(e: &'a Ex, out: &mut Vec<&'a Ex>) {
    match e {
        Ex::Leaf(_) | Ex::And(..) => out.push(e),
        Ex::Par(a, b) | Ex::Quo(a, b) => {
            parts(a, out);
            parts(b, out);
        }
    }
}
/// The components and conjunctions in it: when all of them are consistent, so is the whole.
fn all_parts<'a>(e: &'a Ex, out: &mut Vec<&'a Ex>) {
    match e {
        Ex::Leaf(_) => out.push(e),
        Ex::And(a, b) | Ex::Par(a, b) | Ex::Quo(a, b) => {
            all_parts(a, out);
            all_parts(b, out);
            if let Ex::And(..) = e {
                out.push(e);
            }
        }
    }
}
/// Every conjunction, and every operand of a quotient, is asked about while the system is built.
fn built<'a>(e: &'a Ex, out: &mut Vec<(&'a Ex, bool)>) {
    match e {
        Ex::Leaf(_) => {}
        Ex::And(a, b) => {
            built(a, out);
            built(b, out);
            out.push((e, false));
        }
        Ex::Par(a, b) => {
            built(a, out);
            built(b, out);
        }
        Ex::Quo(a, b) => {
            built(a, out);
            built(b, out);
            for x in [a, b] {
                let mut v = vec![];
                parts(x, &mut v);
                out.extend(v.into_iter().map(|x| (x, true)));
            }
        }
    }
}

fn leaves(e: &Ex, out: &mut Vec<usize>) {
    match e {
        Ex::Leaf(i) => out.push(*i),
        Ex::And(a, b) | Ex::Par(a, b) | Ex::Quo(a, b) => {
            leaves(a, out);
            leaves(b, out);
        }
    }
}

/// What the graph of a part of the system takes of its components: edges and locations.
fn used(sys: &Sys, e: &Ex, edges: &mut BTreeSet<(usize, String)>, locs: &mut BTreeSet<(usize, usize)>) {
    fn at(e: &Ex, l: &Lt, locs: &mut BTreeSet<(usize, usize)>) {
        match (e, l) {
            (Ex::Leaf(i), Lt::Leaf(k)) => {
                locs.insert((*i, *k));
            }
            (Ex::And(a, b) | Ex::Par(a, b) | Ex::Quo(a, b), Lt::Pair(x, y)) => {
                at(a, x, locs);
                at(b, y, locs);
            }
            _ => {}
        }
    }
    fn quotients(sys: &Sys, e: &Ex, edges: &mut BTreeSet<(usize, String)>, locs: &mut BTreeSet<(usize, usize)>) {
        if let Ex::And(a, b) | Ex::Par(a, b) | Ex::Quo(a, b) = e {
            for x in [a, b] {
                if let Ex::Quo(..) = e {
                    used(sys, x, edges, locs);
                } else {
                    quotients(sys, x, edges, locs);
                }
            }
        }
    }
    quotients(sys, e, edges, locs);
    let (i, o) = sys.alphabet(e);
    let mut q = vec![sys.initial_of(e)];
    let mut seen: BTreeSet<String> = BTreeSet::new();
    while let Some(l) = q.pop() {
        if !seen.insert(format!("{:?}", l)) {
            continue;
        }
        at(e, &l, locs);
        for a in i.iter().chain(&o) {
            for t in sys.trans(e, &l, a) {
                edges.extend(t.edges);
                q.push(t.target);
            }
        }
    }
}

/// Some clock of a component is read in a part of it that the whole never uses. Clock reduction looks at
/// the whole and makes these parts impassable (or merges clocks that only such a part tells apart), although
/// the components are then judged one by one.
pub fn cut_by_reduction(sys: &Sys) -> bool {
    if matches!(sys.ex, Ex::Leaf(_)) {
        return false;
    }
    let (mut edges, mut locs) = (BTreeSet::new(), BTreeSet::new());
    used(sys, &sys.ex, &mut edges, &mut locs);
    sys.comps.iter().enumerate().any(|(i, c)| {
        let (mut read, mut lost) = (BTreeSet::new(), BTreeSet::new());
        for e in &c.edges {
            let v = if edges.contains(&(i, e.id.clone())) { &mut read } else { &mut lost };
            v.extend(e.guard.iter().flatten().filter(|a| a.op != ">=" || a.k > 0).map(|a| a.clock));
        }
        for (k, l) in c.locs.iter().enumerate() {
            let v = if locs.contains(&(i, k)) { &mut read } else { &mut lost };
            v.extend(l.inv.iter().map(|a| a.clock));
        }
        // Clocks that the whole always resets alike are merged
        let last = |e: &model::Edge, x: usize| e.resets.iter().rev().find(|r| r.0 == x).map(|r| r.1);
        let differ = |kept: bool, x: usize, y: usize| c.edges.iter().any(|e| edges.contains(&(i, e.id.clone())) == kept && last(e, x) != last(e, y));
        let n = c.clocks.len();
        !lost.is_subset(&read) || (0..n).any(|x| (0..x).any(|y| differ(false, x, y) && !differ(true, x, y)))
    })
}

/// Judgement of a subexpression on its own: (inconsistent for certain, consistent for certain).
fn judge(e: &Ex, sys: &Sys) -> Option<(bool, bool)> {
    let sub = Sys::new(&text_of(e, sys), &sys.comps);
    let z = vec![0; sub.clocks];
    if !sub.inv_of(&sub.initial()).eval(&z) {
        return Some((true, false));
    }
    let g = graph(&sub, 250)?;
    let (driven, kept) = dead_ends(&sub, &g)?;
    Some((!kept, !driven))
}

/// Some part of it can neither be driven into a dead end whatever it does nor stay clear of dead ends wherever
/// it goes: the implementation settles on an answer by whole zones, and the zones it looks at depend on clocks.
pub fn unsettled(sys: &Sys) -> bool {
    let mut v = vec![];
    all_parts(&sys.ex, &mut v);
    let mut w = vec![];
    built(&sys.ex, &mut w);
    v.extend(w.into_iter().map(|x| x.0));
    v.into_iter().any(|e| judge(e, sys).map_or(true, |(bad, good)| !bad && !good))
}

fn queries(p: &Plan, out: &mut RunOut) {
    let b = sched::real(|| ConcreteEcdarBackend::new(1, 2));
    let mut lines = vec![];
    for (qi, (t, cons, red)) in p.queries.iter().enumerate() {
        let sys = Sys::new(t, &p.comps);
        let text = format!("{}: {}", if *cons { "consistency" } else { "determinism" }, t);
        let shown = format!("{} (clock reduction disabled {:?})", text, red);
        let req = pb::QueryRequest {
            user_id: 1,
            query_id: qi as i32,
            query: text.clone(),
            components_info: Some(pb::ComponentsInfo {
                components: p.comps.iter().map(|c| pb::Component { rep: Some(pb::component::Rep::Json(c.text())) }).collect(),
                components_hash: 7,
            }),
            settings: red.map(|d| pb::query_request::Settings { disable_clock_reduction: d }),
        };
        let rep = sched::real(|| call(&b, Req::Query(req)));
        let q = match &rep {
            Rep::Query(q) => q,
            _ => return out.viol("C17", "escaped", "escaped", format!("{}: {}", shown, crate::server::rep_json(&rep))),
        };
        let kind = canon::kind(q);
        out.trace = mix2(out.trace, hash_str(&kind));
        lines.push(format!("{} : {}", shown, kind));
        out.count(&format!("answers: {}", kind), 1);
        let dets: Vec<Det> = {
            let mut v = vec![];
            leaves(&sys.ex, &mut v);
            v.iter().map(|i| determinism(&sys.comps[*i])).collect()
        };
        let full = dets.iter().all(|d| d.full);
        let met: Vec<&(String, String)> = dets.iter().flat_map(|d| d.met.iter()).collect();
        if !full {
            out.count("queries too large to decide", 1);
            continue;
        }
        let mut before = vec![];
        built(&sys.ex, &mut before);
        let mut after = vec![];
        parts(&sys.ex, &mut after);
        // (inconsistent for certain, consistent for certain) of each part asked about
        let ask = |v: &[&Ex]| -> Option<Vec<(String, bool, bool)>> { v.iter().map(|e| judge(e, &sys).map(|(a, b)| (text_of(e, &sys), a, b))).collect() };
        let b4: Vec<&Ex> = before.iter().map(|x| x.0).collect();
        let det_before = before.iter().any(|x| x.1);
        let mut every = vec![];
        all_parts(&sys.ex, &mut every);
        let (Some(jb), Some(ja), Some(jall)) = (ask(&b4), ask(&after), ask(&every)) else {
            out.count("queries too large to decide", 1);
            continue;
        };
        let bad = |v: &[(String, bool, bool)]| v.iter().find(|x| x.1).map(|x| x.0.clone());
        let certain = |v: &[(String, bool, bool)]| v.iter().all(|x| x.2);
        out.nontrivial = true;
        let cut = *red == Some(false) && cut_by_reduction(&sys);
        let sig = |s: &'static str| if cut { "reduced-part" } else { s };
        use pb::query_response::Result as R;
        let built_ok = |out: &mut RunOut| -> bool {
            // it got past building the system
            if let Some(x) = bad(&jb) {
                out.viol("C17", "consistent", sig("consistent"), format!("{}: {}, although {} can be driven into a dead end whatever it does", shown, kind, x));
                return false;
            }
            true
        };
        match q.as_ref().ok().and_then(|q| q.result.as_ref()) {
            Some(R::Success(_)) => {
                if !built_ok(out) {
                    return;
                }
                if let Some((l, a)) = met.first() {
                    return out.viol("C17", "deterministic", sig("deterministic"), format!("{}: succeeds, although a run meets two transitions for {} in {}", shown, a, l));
                }
                if *cons {
                    if let Some(x) = bad(&ja) {
                        return out.viol("C17", "consistent", sig("consistent"), format!("{}: succeeds, although {} can be driven into a dead end whatever it does", shown, x));
                    }
                }
                out.count("answers 'yes' borne out", 1);
            }
            Some(R::Determinism(f)) if !*cons => {
                if !built_ok(out) {
                    return;
                }
                let l = f.failure_state.as_ref().and_then(|s| s.state.as_ref()).and_then(|s| s.location_tree.as_ref()).map(canon::loc_text).unwrap_or_default();
                let a = f.failure_state.as_ref().map(|s| s.action.clone()).unwrap_or_default();
                let plain: String = l.split('#').next().unwrap_or("").to_string() + "." + l.rsplit('.').next().unwrap_or("");
                if !met.iter().any(|(x, y)| *x == plain && *y == a) {
                    return out.viol("C17", "nondeterministic", sig("nondeterministic"), format!("{}: said to be nondeterministic in {} by {}, but runs meet choices in {:?} only", shown, l, a, met));
                }
                out.count("answers 'no' borne out", 1);
            }
            Some(R::Consistency(f)) if *cons => {
                if !built_ok(out) {
                    return;
                }
                use pb::query_response::consistency_failure::Failure as F;
                match &f.failure {
                    Some(F::Determinism(_)) => {
                        if met.is_empty() {
                            return out.viol("C17", "nondeterministic", sig("nondeterministic"), format!("{}: said to be nondeterministic, but no run meets two transitions for one action at one moment", shown));
                        }
                    }
                    _ => {
                        if certain(&jall) {
                            return out.viol("C17", "inconsistent", sig("inconsistent"), format!("{}: said to be inconsistent, but it can always go on: {}", shown, canon::query_json(q)));
                        }
                        out.count("answers 'no' borne out", 1);
                    }
                }
            }
            Some(R::Model(_)) => {
                let fits = interfaces(&sys, &sys.ex);
                if fits && certain(&jall) && !(det_before && !met.is_empty()) {
                    return out.viol("C17", "inconsistent", sig("inconsistent"), format!("{}: {}, but its interfaces fit and its parts can always go on: {}", shown, kind, canon::query_json(q)));
                }
            }
            _ => return out.viol("C17", "refused", "refused", format!("{}: {}", shown, canon::query_json(q))),
        }
    }
    std::mem::forget(b);
    out.sample = json!({"queries": lines});
}

fn interfaces(sys: &Sys, e: &Ex) -> bool {
    match e {
        Ex::Leaf(_) => true,
        Ex::And(a, b) => {
            let ((ai, ao), (bi, bo)) = (sys.alphabet(a), sys.alphabet(b));
            ai.is_disjoint(&bo) && ao.is_disjoint(&bi) && interfaces(sys, a) && interfaces(sys, b)
        }
        Ex::Par(a, b) => sys.alphabet(a).1.is_disjoint(&sys.alphabet(b).1) && interfaces(sys, a) && interfaces(sys, b),
        Ex::Quo(a, b) => sys.alphabet(b).1.is_disjoint(&sys.alphabet(a).0) && interfaces(sys, a) && interfaces(sys, b),
    }
}

impl Scenario for C17 {
    fn plan(&self, seed: u64, _: u64) -> Value {
        let mut r = Rng::new(seed);
        let cfg = GenCfg {
            max_locs: 1 + r.below(4),
            max_clocks: 1 + r.below(2),
            max_const: 1 + r.below(4) as i32,
            disj: r.chance(1, 4),
            nondet: *r.pick(&[0, 0, 4, 20]),
            inv: *r.pick(&[20, 50, 80]),
            ..Default::default()
        };
        let mut comps = model::gen_model(&mut r, "_e", &cfg);
        if r.chance(1, 2) {
            let k = comps.len() - 1;
            comps[k] = model::gen_comp(&mut r, "D", &[], &["n".to_string()], "_e", &cfg);
            model::complete_interface(&mut r, &mut comps[k], "_e");
        }
        for c in comps.iter_mut() {
            if r.chance(1, 6) {
                crate::c10::twins(&mut r, c, "_e");
            }
        }
        crate::c08::other_words(&mut r, &mut comps);
        let n = 2 + r.below(5);
        let queries = (0..n)
            .map(|_| {
                let t = if r.chance(1, 2) { r.pick(&["A", "A2", "B", "T", "D", "A && A2", "A || D"]).to_string() } else { gen_text(&mut r) };
                (t, r.chance(2, 3), *r.pick(&[None, Some(true), Some(false)]))
            })
            .collect();
        serde_json::to_value(Plan { seed: r.next(), hash_seed: r.next(), comps, queries }).unwrap()
    }

    fn run(&self, plan: &Value, _: Option<Sched>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut out = RunOut::default();
        out.trace = p.seed;
        let mut out = c08::solo(p.seed, p.hash_seed, 1_500_000_000, out, move |o| queries(&p, o));
        let t = out.trace;
        out.take_sched();
        out.sched = vec![];
        out.trace = mix2(t, sched::trace_hash());
        out.distinct = vec![mix2(t, hash_str(&plan["comps"].to_string()))];
        out
    }

    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut v = vec![];
        if p.queries.len() > 1 {
            for i in 0..p.queries.len() {
                v.push(Plan { queries: vec![p.queries[i].clone()], ..p.clone() });
            }
        }
        for q in shrink_comps(&p.comps) {
            v.push(Plan { comps: q, ..p.clone() });
        }
        v.into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
    }

    fn describe(&self, plan: &Value) -> Value {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        json!({"components": p.comps.iter().map(comp_text).collect::<Vec<_>>(),
            "queries": p.queries.iter().map(|(t, c, d)| format!("{}: {} (clock reduction disabled {:?})", if *c { "consistency" } else { "determinism" }, t, d)).collect::<Vec<_>>()})
    }
}
