//! Refinement answers against simulated runs of both sides.
use crate::c08::{self, comp_text, shrink_comps};
use crate::canon;
use crate::model::{self, Comp, GenCfg};
use crate::refsem::{self, apply, delay, Acts, Lt, Pred, Sys, Tr};
use crate::rng::{mix2, Rng};
use crate::runner::{RunOut, Scenario, Sched};
use crate::sched;
use crate::w1::hash_str;
use crate::zone::{Dbm, Fed};
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simglue::{call, Rep, Req};
use std::collections::{HashMap, VecDeque};

/// Both sides of a refinement over one vector of clocks.
pub fn pair(s: &str, t: &str, all: &[Comp]) -> (Sys, Sys) {
    pair_of(Sys::new(s, all), Sys::new(t, all))
}

fn pair_of(mut s: Sys, mut t: Sys) -> (Sys, Sys) {
    let q = s.qclock.is_some() || t.qclock.is_some();
    let (n, m) = (s.clocks - s.qclock.is_some() as usize, t.clocks - t.qclock.is_some() as usize);
    let total = n + m + q as usize;
    for b in t.base.iter_mut() {
        *b += n;
    }
    for x in [&mut s, &mut t] {
        x.clocks = total;
        if x.qclock.is_some() {
            x.qclock = Some(total - 1);
        }
    }
    t.first = s.comps.len();
    (s, t)
}

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    /// The left lets time pass where the right does not.
    Delay,
    /// An output of the left that the right lacks, or an input of the right that the left lacks.
    Action(String),
}

#[derive(Clone, Debug)]
pub struct Step {
    act: String,
    s: Option<Tr>,
    t: Option<Tr>,
}

#[derive(Clone, Debug)]
pub struct Miss {
    pub path: Vec<Step>,
    pub at: (Lt, Lt),
    pub what: What,
}

pub enum Found {
    Miss(Miss),
    None,
    TooLarge,
}

pub struct Ref {
    pub s: Sys,
    pub t: Sys,
    si: Acts,
    so: Acts,
    ti: Acts,
    to: Acts,
    max: Vec<i64>,
}

enum Entry {
    Cut,
    In(Vec<Dbm>),
}

impl Ref {
    pub fn new(l: &str, r: &str, all: &[Comp]) -> Ref {
        Self::of(Sys::new(l, all), Sys::new(r, all))
    }
    pub fn of(s: Sys, t: Sys) -> Ref {
        let (s, t) = pair_of(s, t);
        let (si, so) = s.alphabet(&s.ex);
        let (ti, to) = t.alphabet(&t.ex);
        let mut max = vec![-1; s.clocks];
        s.max_consts(&mut max);
        t.max_consts(&mut max);
        Ref { s, t, si, so, ti, to, max }
    }
    /// The interfaces fit: the right knows every input of the left, the left every output of the right.
    pub fn fits(&self) -> bool {
        self.si.is_disjoint(&self.to) && self.ti.is_disjoint(&self.so) && self.si.is_subset(&self.ti) && self.to.is_subset(&self.so)
    }
    fn start(&self) -> (Lt, Lt) {
        (self.s.initial(), self.t.initial())
    }
    pub fn starts(&self) -> bool {
        let z = vec![0; self.s.clocks];
        let (l, r) = self.start();
        self.s.inv_of(&l).eval(&z) && self.t.inv_of(&r).eval(&z)
    }
    /// Time passes in this pair of locations.
    fn enter(&self, l: &Lt, r: &Lt, z: Vec<Dbm>) -> Entry {
        let (inv_s, inv_t) = (self.s.inv_of(l), self.t.inv_of(r));
        let mut up = z;
        up.iter_mut().for_each(|z| z.up());
        let up = inv_s.restrict(&Fed(up));
        if !Pred::Not(Box::new(inv_t.clone())).restrict(&up).is_empty() {
            return Entry::Cut;
        }
        Entry::In(inv_t.restrict(&up).0)
    }
    /// Transitions by this action as (left, right); None: that side does not know it and stays.
    fn moves(&self, l: &Lt, r: &Lt, a: &str) -> (Vec<Option<Tr>>, Vec<Option<Tr>>) {
        let side = |sys: &Sys, i: &Acts, o: &Acts, at: &Lt| -> Vec<Option<Tr>> {
            if i.contains(a) || o.contains(a) {
                sys.next(at, a).into_iter().map(Some).collect()
            } else {
                vec![None]
            }
        };
        (side(&self.s, &self.si, &self.so, l), side(&self.t, &self.ti, &self.to, r))
    }
    fn can(sys: &Sys, t: &Option<Tr>) -> Pred {
        t.as_ref().map_or(Pred::True, |t| sys.allowed(&sys.ex, t))
    }
    fn actions(&self) -> Vec<(bool, String)> {
        self.so.iter().map(|a| (true, a.clone())).chain(self.ti.iter().map(|a| (false, a.clone()))).collect()
    }
    /// Where one side must be followed by the other and is not.
    fn unmatched(&self, out: bool, ts: &[Option<Tr>], tt: &[Option<Tr>], z: &Fed) -> Fed {
        let a = Pred::Or(ts.iter().map(|x| Self::can(&self.s, x)).collect());
        let b = Pred::Or(tt.iter().map(|x| Self::can(&self.t, x)).collect());
        let (have, lack) = if out { (a, b) } else { (b, a) };
        Pred::Not(Box::new(lack)).restrict(&have.restrict(z))
    }
    fn after(&self, z: &Fed, x: &Option<Tr>, y: &Option<Tr>) -> Vec<Dbm> {
        let mut f = Self::can(&self.t, y).restrict(&Self::can(&self.s, x).restrict(z));
        for t in [x, y].into_iter().flatten() {
            for (c, k) in &t.upd {
                f.0.iter_mut().for_each(|z| z.reset(c + 1, *k));
            }
        }
        f.0
    }
    fn target(l: &Lt, x: &Option<Tr>) -> Lt {
        x.as_ref().map_or(l.clone(), |t| t.target.clone())
    }

    /// Simulated runs of sets of valuations of both sides, in an order the seed decides, until nothing
    /// new can be reached.
    pub fn explore(&self, r: &mut Rng, cap: usize) -> Found {
        refsem::truncated(true);
        let mut passed: HashMap<(Lt, Lt), Vec<Dbm>> = HashMap::new();
        let mut nodes: Vec<(Option<usize>, Option<Step>)> = vec![];
        let mut q: VecDeque<(Lt, Lt, Dbm, usize)> = VecDeque::new();
        let (l, t) = self.start();
        let path = |nodes: &Vec<(Option<usize>, Option<Step>)>, mut k: Option<usize>| {
            let mut v = vec![];
            while let Some(i) = k {
                v.extend(nodes[i].1.clone());
                k = nodes[i].0;
            }
            v.reverse();
            v
        };
        nodes.push((None, None));
        match self.enter(&l, &t, vec![Dbm::zero(self.s.clocks)]) {
            Entry::Cut => return Found::Miss(Miss { path: vec![], at: (l, t), what: What::Delay }),
            Entry::In(v) => q.extend(v.into_iter().map(|z| (l.clone(), t.clone(), z, 0))),
        }
        let acts = self.actions();
        let mut n = 0;
        while let Some((l, t, mut z, node)) = if r.chance(3, 4) { q.pop_front() } else { q.pop_back() } {
            z.extrapolate(&self.max);
            let old = passed.entry((l.clone(), t.clone())).or_default();
            if old.iter().any(|o| o.includes(&z)) {
                continue;
            }
            old.retain(|o| !z.includes(o));
            old.push(z.clone());
            n += 1;
            if n > cap || refsem::truncated(false) {
                return Found::TooLarge;
            }
            let f = Fed(vec![z]);
            for (out, a) in &acts {
                let (ts, tt) = self.moves(&l, &t, a);
                if !self.unmatched(*out, &ts, &tt, &f).is_empty() {
                    return Found::Miss(Miss { path: path(&nodes, Some(node)), at: (l, t), what: What::Action(a.clone()) });
                }
                for x in &ts {
                    for y in &tt {
                        let g = self.after(&f, x, y);
                        if g.is_empty() {
                            continue;
                        }
                        let (nl, nt) = (Self::target(&l, x), Self::target(&t, y));
                        let step = Step { act: a.clone(), s: x.clone(), t: y.clone() };
                        nodes.push((Some(node), Some(step)));
                        let k = nodes.len() - 1;
                        match self.enter(&nl, &nt, g) {
                            Entry::Cut => return Found::Miss(Miss { path: path(&nodes, Some(k)), at: (nl, nt), what: What::Delay }),
                            Entry::In(v) => q.extend(v.into_iter().map(|z| (nl.clone(), nt.clone(), z, k))),
                        }
                    }
                }
            }
        }
        if refsem::truncated(false) {
            return Found::TooLarge;
        }
        Found::None
    }

    /// Runs along the path without any widening, and looks at its end.
    pub fn confirm(&self, m: &Miss) -> bool {
        refsem::truncated(true);
        let (mut l, mut t) = self.start();
        let mut z = vec![Dbm::zero(self.s.clocks)];
        for (k, st) in m.path.iter().enumerate() {
            let Entry::In(v) = self.enter(&l, &t, z) else { return false };
            z = self.after(&Fed(v), &st.s, &st.t);
            l = Self::target(&l, &st.s);
            t = Self::target(&t, &st.t);
            let _ = k;
            if z.is_empty() || z.len() > 500 {
                return false;
            }
        }
        if (l.clone(), t.clone()) != m.at {
            return false;
        }
        let ok = match (&m.what, self.enter(&l, &t, z)) {
            (What::Delay, Entry::Cut) => true,
            (What::Action(a), Entry::In(v)) => {
                let (ts, tt) = self.moves(&l, &t, a);
                !self.unmatched(self.so.contains(a), &ts, &tt, &Fed(v)).is_empty()
            }
            _ => false,
        };
        ok && !refsem::truncated(false)
    }

    /// One run of both sides with concrete delays; what the right cannot follow, if anything.
    pub fn corun(&self, r: &mut Rng, steps: usize) -> Option<String> {
        let (mut l, mut t) = self.start();
        let mut v = vec![0; self.s.clocks];
        let mut log = vec![];
        for _ in 0..steps {
            let d = self.s.pick_delay(r, &l, &v);
            let w = delay(&v, d);
            if !self.s.inv_of(&l).eval(&w) {
                continue;
            }
            if !self.t.inv_of(&t).eval(&w) {
                return Some(format!("after {:?} the left may let time pass to {} but the right may not", log, self.val(&w)));
            }
            v = w;
            let mut next = vec![];
            for (out, a) in self.actions() {
                let (ts, tt) = self.moves(&l, &t, &a);
                let xs: Vec<_> = ts.into_iter().filter(|x| Self::can(&self.s, x).eval(&v)).collect();
                let ys: Vec<_> = tt.into_iter().filter(|y| Self::can(&self.t, y).eval(&v)).collect();
                let (have, lack) = if out { (&xs, &ys) } else { (&ys, &xs) };
                if !have.is_empty() && lack.is_empty() {
                    return Some(format!("after {:?} at {} action {} is not matched", log, self.val(&v), a));
                }
                for x in &xs {
                    for y in &ys {
                        next.push((a.clone(), x.clone(), y.clone()));
                    }
                }
            }
            if next.is_empty() {
                continue;
            }
            let (a, x, y) = r.pick(&next).clone();
            for k in [&x, &y].into_iter().flatten() {
                v = apply(&k.upd, &v);
            }
            l = Self::target(&l, &x);
            t = Self::target(&t, &y);
            log.push(a);
        }
        None
    }
    fn val(&self, v: &[i64]) -> String {
        format!("{} | {}", self.s.val_text(v), self.t.val_text(v))
    }

    /// Is what the tool says it stumbled over really so? The state is a pair of locations with a zone.
    fn check_state(&self, st: &pb::State, act: &str, cut: bool) -> Result<(), String> {
        use pb::location_tree::NodeType::*;
        let tree = st.location_tree.as_ref().ok_or("no location")?;
        let Some(BinaryLocationOp(b)) = tree.node_type.as_ref() else { return Err(format!("location {} is no pair", canon::loc_text(tree))) };
        if b.operator != 3 {
            return Err(format!("operator {} instead of a refinement", b.operator));
        }
        let l = self.s.loc_of(b.left.as_ref().ok_or("no left location")?)?;
        let t = self.t.loc_of(b.right.as_ref().ok_or("no right location")?)?;
        let mut f = vec![];
        for c in &st.zone.as_ref().ok_or("no zone")?.conjunctions {
            let mut d = Dbm::all(self.s.clocks);
            for k in &c.constraints {
                let at = |x: &Option<pb::Clock>| self.s.clock_of(x).or_else(|_| self.t.clock_of(x));
                d.and(at(&k.x)?, at(&k.y)?, crate::zone::bound(k.c as i64 * crate::zone::SC, k.strict));
            }
            if !d.is_empty() {
                f.push(d);
            }
        }
        let f = Fed(f);
        if f.is_empty() {
            return Err("no state at all".into());
        }
        if cut && act.is_empty() {
            // no action leads to the initial states
            return match self.enter(&l, &t, vec![Dbm::zero(self.s.clocks)]) {
                _ if self.start() != (l.clone(), t.clone()) => Err("no action, but not the initial states".into()),
                Entry::Cut => Ok(()),
                _ => Err("in the initial states the right lets time pass as long as the left".into()),
            };
        }
        let out = self.so.contains(act);
        if !out && !self.ti.contains(act) {
            return Err(format!("action {} is neither an output of the left nor an input of the right", act));
        }
        let (ts, tt) = self.moves(&l, &t, act);
        let un = self.unmatched(out, &ts, &tt, &f);
        let name = format!("({} <= {})", self.s.loc_text(&l), self.t.loc_text(&t));
        if !cut {
            return if un.is_empty() { Err(format!("in {} action {} is matched everywhere", name, act)) } else { Ok(()) };
        }
        for x in &ts {
            for y in &tt {
                let g = self.after(&f, x, y);
                if !g.is_empty() {
                    if let Entry::Cut = self.enter(&Self::target(&l, x), &Self::target(&t, y), g) {
                        return Ok(());
                    }
                }
            }
        }
        Err(format!("after action {} in {} the right lets time pass as long as the left", act, name))
    }

    pub fn miss_text(&self, m: &Miss) -> String {
        let p: Vec<&String> = m.path.iter().map(|s| &s.act).collect();
        let at = format!("({} <= {})", self.s.loc_text(&m.at.0), self.t.loc_text(&m.at.1));
        match &m.what {
            What::Delay => format!("the run {:?} of both sides ends in {} where the left may let more time pass than the right", p, at),
            What::Action(a) if self.so.contains(a) => format!("the run {:?} of both sides ends in {} where the left may do {} and the right may not", p, at, a),
            What::Action(a) => format!("the run {:?} of both sides ends in {} where the right accepts {} and the left does not", p, at, a),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    seed: u64,
    hash_seed: u64,
    comps: Vec<Comp>,
    /// (left, right, disable_clock_reduction)
    queries: Vec<(String, String, Option<bool>)>,
}

pub struct C16;

pub const FORMS: &[(&str, &str)] = &[
    ("A", "A2"),
    ("A2", "A"),
    ("A", "A2"),
    ("A2", "A"),
    ("A", "A"),
    ("A || B", "T"),
    ("A2 || B", "T"),
    ("A", "T // B"),
    ("A2", "T // B"),
    ("A && A2", "A"),
    ("A && A2", "A2"),
    ("A", "A && A2"),
    ("A && A2", "A && A2"),
    ("A || B", "A2 || B"),
    ("A || B", "A || B"),
    ("(A && A2) || B", "T"),
    ("A || B", "T && T"),
    ("T // B", "T // B"),
    ("A && A2", "T // B"),
    ("A || D", "A2"),
    ("A", "A2 || F"),
    ("A || D", "A2 || F"),
    ("A || B || D", "T"),
    ("T", "A || B"),
    ("A", "T"),
    ("B", "A"),
    ("D", "D2"),
    ("D2", "D"),
    ("D2", "D"),
    ("A || D", "A2 || D2"),
];

fn queries(p: &Plan, out: &mut RunOut) {
    let mut r = Rng::new(mix2(p.seed, 0x1616));
    let b = sched::real(|| ConcreteEcdarBackend::new(1, 2));
    let mut lines = vec![];
    for (qi, (l, t, red)) in p.queries.iter().enumerate() {
        let rf = Ref::new(l, t, &p.comps);
        if !rf.starts() {
            out.count("queries left out (no initial state)", 1);
            continue;
        }
        let text = format!("refinement: {} <= {}", l, t);
        let shown = format!("{} (clock reduction disabled {:?})", text, red);
        let req = pb::QueryRequest {
            user_id: 1,
            query_id: qi as i32,
            query: text.clone(),
            components_info: Some(pb::ComponentsInfo {
                components: p.comps.iter().map(|c| pb::Component { rep: Some(pb::component::Rep::Json(c.text())) }).collect(),
                components_hash: 7,
            }),
            settings: red.map(|d| pb::query_request::Settings { disable_clock_reduction: d }),
        };
        let rep = sched::real(|| call(&b, Req::Query(req)));
        let q = match &rep {
            Rep::Query(q) => q,
            _ => return out.viol("C16", "escaped", "escaped", format!("{}: {}", shown, crate::server::rep_json(&rep))),
        };
        let kind = canon::kind(q);
        out.trace = mix2(out.trace, hash_str(&kind));
        lines.push(format!("{} : {}", shown, kind));
        out.count(&format!("answers: {}", kind), 1);
        use pb::query_response::refinement_failure::Failure as F;
        use pb::query_response::Result as R;
        match q.as_ref().ok().and_then(|q| q.result.as_ref()) {
            Some(R::Success(_)) => {
                if !rf.fits() {
                    return out.viol("C16", "holds", "interface", format!("{}: holds, although the interfaces do not fit", shown));
                }
                out.nontrivial = true;
                match rf.explore(&mut r, 1500) {
                    Found::Miss(m) if rf.confirm(&m) => {
                        return out.viol("C16", "holds", "holds", format!("{}: holds, although {}", shown, rf.miss_text(&m)));
                    }
                    Found::Miss(_) => out.count("mismatches not confirmed", 1),
                    Found::None => out.count("answers 'holds' explored in full", 1),
                    Found::TooLarge => out.count("answers 'holds' explored in part", 1),
                }
                for _ in 0..6 {
                    out.count("runs of both sides", 1);
                    if let Some(m) = rf.corun(&mut r, 25) {
                        return out.viol("C16", "holds", "holds", format!("{}: holds, although {}", shown, m));
                    }
                }
            }
            Some(R::Refinement(f)) => match f.failure.as_ref() {
                Some(F::RefinementState(st)) => {
                    out.nontrivial = true;
                    if *red != Some(false) {
                        let sa = st.state.clone().unwrap_or_default();
                        let res = match &sa.state {
                            Some(s) => rf.check_state(s, &sa.action, st.unmatched == 1),
                            None => Err("no state".into()),
                        };
                        if let Err(m) = res {
                            return out.viol("C16", "reported", "reported", format!("{}: fails in {} by {:?}: {}", shown, canon::state_json(&sa.state), sa.action, m));
                        }
                        out.count("reported states checked", 1);
                    }
                    match rf.explore(&mut r, 3000) {
                        Found::None => {
                            return out.viol("C16", "fails", "fails", format!("{}: {} in {} by {:?}, although no run of both sides, of all there are, shows a difference", shown, kind, canon::state_json(&st.state.clone().unwrap_or_default().state), st.state.clone().unwrap_or_default().action));
                        }
                        Found::Miss(_) => out.count("answers 'fails' with a run that shows it", 1),
                        Found::TooLarge => out.count("answers 'fails' explored in part", 1),
                    }
                }
                Some(F::ActionMismatch(_)) => {
                    if rf.fits() {
                        return out.viol("C16", "fails", "interface", format!("{}: the interfaces are said not to fit", shown));
                    }
                }
                Some(F::InconsistentChild(_)) => {}
                _ => return out.viol("C16", "fails", "refused", format!("{}: {}", shown, canon::query_json(q))),
            },
            Some(R::Model(_)) => {}
            _ => return out.viol("C16", "refused", "refused", format!("{}: {}", shown, canon::query_json(q))),
        }
    }
    std::mem::forget(b);
    out.sample = json!({"queries": lines});
}

impl Scenario for C16 {
    fn plan(&self, seed: u64, _: u64) -> Value {
        let mut r = Rng::new(seed);
        let cfg = GenCfg {
            max_locs: 1 + r.below(4),
            max_clocks: 1 + r.below(2),
            max_const: 1 + r.below(5) as i32,
            disj: r.chance(1, 4),
            nondet: *r.pick(&[0, 0, 0, 4]),
            inv: *r.pick(&[5, 20, 50]),
            ..Default::default()
        };
        let mut comps = model::gen_model(&mut r, "_e", &cfg);
        let k = comps.len() - 1;
        comps[k] = model::gen_comp(&mut r, "D", &[], &["n".to_string()], "_e", &cfg);
        model::complete_interface(&mut r, &mut comps[k], "_e");
        let mut f = model::gen_comp(&mut r, "F", &["m".to_string()], &[], "_e", &cfg);
        model::complete_interface(&mut r, &mut f, "_e");
        comps.push(f);
        let mut d2 = if r.chance(2, 3) { widened(&mut r, &comps[k]) } else { model::gen_comp(&mut r, "D2", &[], &["n".to_string()], "_e", &cfg) };
        d2.name = "D2".into();
        model::complete_interface(&mut r, &mut d2, "_e");
        comps.push(d2);
        if r.chance(1, 2) {
            // the second version allows more than the first
            comps[1] = widened(&mut r, &comps[0]);
            comps[1].name = "A2".into();
        }
        crate::c08::other_words(&mut r, &mut comps);
        for c in comps.iter_mut() {
            if r.chance(1, 6) {
                crate::c10::twins(&mut r, c, "_e");
            }
        }
        let n = 2 + r.below(4);
        let queries = (0..n)
            .map(|_| {
                let (l, t) = *r.pick(FORMS);
                (l.to_string(), t.to_string(), *r.pick(&[None, None, Some(true), Some(false)]))
            })
            .collect();
        serde_json::to_value(Plan { seed: r.next(), hash_seed: r.next(), comps, queries }).unwrap()
    }

    fn run(&self, plan: &Value, _: Option<Sched>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut out = RunOut::default();
        out.trace = p.seed;
        let mut out = c08::solo(p.seed, p.hash_seed, 1_500_000_000, out, move |o| queries(&p, o));
        let t = out.trace;
        out.take_sched();
        out.sched = vec![];
        out.trace = mix2(t, sched::trace_hash());
        out.distinct = vec![mix2(t, hash_str(&plan["comps"].to_string()))];
        out
    }

    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut v = vec![];
        if p.queries.len() > 1 {
            for i in 0..p.queries.len() {
                v.push(Plan { queries: vec![p.queries[i].clone()], ..p.clone() });
            }
        }
        for q in shrink_comps(&p.comps) {
            v.push(Plan { comps: q, ..p.clone() });
        }
        v.into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
    }

    fn describe(&self, plan: &Value) -> Value {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        json!({"components": p.comps.iter().map(comp_text).collect::<Vec<_>>(),
            "queries": p.queries.iter().map(|(l, t, d)| format!("refinement: {} <= {} (clock reduction disabled {:?})", l, t, d)).collect::<Vec<_>>()})
    }
}

/// A version of it that allows a little more: later deadlines, wider guards on outputs.
pub fn widened(r: &mut Rng, c: &Comp) -> Comp {
    let mut c = c.clone();
    for l in c.locs.iter_mut() {
        for a in l.inv.iter_mut() {
            match r.below(4) {
                0 => a.k += 1,
                1 => a.op = "<=".into(),
                _ => {}
            }
        }
    }
    for e in c.edges.iter_mut().filter(|e| !e.input) {
        for a in e.guard.iter_mut().flatten() {
            if r.chance(1, 3) {
                match a.op.as_str() {
                    "<" | "<=" => a.k += 1,
                    ">" | ">=" => a.k = (a.k - 1).max(0),
                    _ => {}
                }
            }
        }
    }
    c
}
