//! Reachability answers against simulated runs of the system.
use crate::c08::{self, comp_text, gen_text, meant, same, shrink_comps, source};
use crate::canon;
use crate::model::{self, Comp, GenCfg};
use crate::refsem::{apply, delay, Ex, Lt, Sys, Tr};
use crate::rng::{mix2, Rng};
use crate::runner::{RunOut, Scenario, Sched};
use crate::sched;
use crate::w1::hash_str;
use crate::zone::{bound, Dbm, Fed, SC};
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simglue::{call, Rep, Req};
use std::collections::VecDeque;

/// clock - other (op) k
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct GAtom {
    pub clock: usize,
    pub other: Option<usize>,
    /// "<", "<=", ">", ">=", "==" as 0..4
    pub op: u8,
    pub k: i64,
    pub neg: bool,
}

/// A described state: locations of some components and a conjunction of disjunctions over clocks.
#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct Desc {
    pub locs: Vec<Option<usize>>,
    pub clauses: Vec<Vec<GAtom>>,
}

impl GAtom {
    fn ops(&self) -> Vec<u8> {
        if !self.neg {
            return vec![self.op];
        }
        match self.op {
            0 => vec![3],
            1 => vec![2],
            2 => vec![1],
            3 => vec![0],
            _ => vec![0, 2],
        }
    }
    fn holds(&self, v: &[i64]) -> bool {
        let x = v[self.clock] - self.other.map_or(0, |o| v[o]);
        let k = self.k * SC;
        self.ops().iter().any(|o| match o {
            0 => x < k,
            1 => x <= k,
            2 => x > k,
            3 => x >= k,
            _ => x == k,
        })
    }
    fn and(&self, f: &Fed) -> Fed {
        let (i, j) = (self.clock + 1, self.other.map_or(0, |o| o + 1));
        let k = self.k * SC;
        let mut out = vec![];
        for op in self.ops() {
            for z in &f.0 {
                let mut z: Dbm = z.clone();
                match op {
                    0 => z.and(i, j, bound(k, true)),
                    1 => z.and(i, j, bound(k, false)),
                    2 => z.and(j, i, bound(-k, true)),
                    3 => z.and(j, i, bound(-k, false)),
                    _ => {
                        z.and(i, j, bound(k, false));
                        z.and(j, i, bound(-k, false));
                    }
                }
                if !z.is_empty() {
                    out.push(z);
                }
            }
        }
        Fed(out)
    }
}

/// How the query names each leaf: plain names, or numbered where a name occurs twice.
pub fn leaf_names(sys: &Sys) -> Vec<String> {
    sys.comps
        .iter()
        .enumerate()
        .map(|(i, c)| if sys.comps.iter().filter(|d| d.name == c.name).count() > 1 { format!("{}[{}]", c.name, i + 1) } else { c.name.clone() })
        .collect()
}

/// The composition with leaves named as in `leaf_names`.
pub fn named_text(text: &str, names: &[String]) -> String {
    let (mut out, mut id, mut k) = (String::new(), String::new(), 0);
    for ch in text.chars().chain(std::iter::once(' ')) {
        if ch.is_alphanumeric() || ch == '_' {
            id.push(ch);
        } else {
            if !id.is_empty() {
                out += &names[k];
                k += 1;
                id.clear();
            }
            out.push(ch);
        }
    }
    out.trim().to_string()
}

impl Desc {
    pub fn zone(&self, f: &Fed) -> Fed {
        let mut f = f.clone();
        for c in &self.clauses {
            f = Fed(c.iter().flat_map(|a| a.and(&f).0).collect());
        }
        f
    }
    pub fn holds(&self, sys: &Sys, l: &Lt, v: &[i64]) -> bool {
        self.at(sys, l) && self.clauses.iter().all(|c| c.iter().any(|a| a.holds(v)))
    }
    /// Do the locations fit? The special locations of a quotient belong to no component.
    pub fn at(&self, _: &Sys, l: &Lt) -> bool {
        fn go(d: &Desc, l: &Lt, k: &mut usize) -> bool {
            match l {
                Lt::Leaf(x) => {
                    *k += 1;
                    d.locs[*k - 1].map_or(true, |y| *x == y)
                }
                Lt::Pair(a, b) => go(d, a, k) & go(d, b, k),
                _ => false,
            }
        }
        go(self, l, &mut 0)
    }
    pub fn text(&self, sys: &Sys) -> String {
        self.text_of(sys, &leaf_names(sys), &mut None).0
    }
    /// The text, written in other words if there is a generator; does it have a clock in a difference next to other terms?
    fn text_of(&self, sys: &Sys, names: &[String], words: &mut Option<(Rng, bool)>) -> (String, bool) {
        let mut odd = false;
        let clock = |c: usize| {
            let i = (0..sys.comps.len()).rev().find(|&i| sys.base[i] <= c).unwrap();
            format!("{}.{}", names[i], sys.comps[i].clocks[c - sys.base[i]])
        };
        let mut v = vec![];
        for (i, l) in self.locs.iter().enumerate() {
            if let Some(l) = l {
                v.push(format!("{}.{}", names[i], sys.comps[i].locs[*l].id));
            }
        }
        for c in &self.clauses {
            let t: Vec<String> = c
                .iter()
                .map(|a| {
                    let o = ["<", "<=", ">", ">=", "=="][a.op as usize];
                    if let Some((r, any)) = words {
                        let t = loop {
                            let (l, o, m) = model::sides(r, clock(a.clock), a.other.map(&clock), o, a.k as i32);
                            let ((l, x), (m, y)) = (model::flat_sum(r, l), model::flat_sum(r, m));
                            if x || y {
                                if !*any {
                                    continue;
                                }
                                odd = true;
                            }
                            let s = if r.chance(1, 2) { " " } else { "" };
                            break if l.ends_with('-') { unreachable!() } else { format!("{}{s}{}{s}{}", l, o, m) };
                        };
                        return if r.chance(1, 6) { format!("({})", t) } else { t };
                    }
                    let s = match a.other {
                        None => format!("{} {} {}", clock(a.clock), o, a.k),
                        Some(b) => format!("{} - {} {} {}", clock(a.clock), clock(b), o, a.k),
                    };
                    if a.neg {
                        format!("!({})", s)
                    } else {
                        s
                    }
                })
                .collect();
            let or = words.as_mut().map_or(" || ", |(r, _)| r.pick(&[" || ", " or ", "||"]));
            v.push(if t.len() == 1 { t[0].clone() } else { format!("({})", t.join(or)) });
        }
        let Some((r, _)) = words else { return (if v.is_empty() { "true".into() } else { v.join(" && ") }, odd) };
        if r.chance(1, 6) || v.is_empty() {
            v.push("true".into());
        }
        if r.chance(1, 6) {
            // said twice
            v.push(v[r.below(v.len())].clone());
        }
        r.shuffle(&mut v);
        let mut t = v.pop().unwrap();
        while let Some(x) = v.pop() {
            let and = *r.pick(&[" && ", " and ", "&&", "\n&&\t"]);
            t = match r.below(4) {
                0 | 1 => format!("{}{}{}", x, and, t),
                2 => format!("({}){}{}", x, and, t),
                _ => format!("{}{}({})", x, and, t),
            };
        }
        (t, odd)
    }
}

fn flat(l: &Lt, out: &mut Vec<usize>) -> bool {
    match l {
        Lt::Leaf(x) => {
            out.push(*x);
            true
        }
        Lt::Pair(a, b) => flat(a, out) && flat(b, out),
        _ => false,
    }
}

/// An atom that holds at v, often tightly.
fn true_atom(r: &mut Rng, sys: &Sys, v: &[i64], diag: bool) -> Option<GAtom> {
    let n = sys.clocks - sys.qclock.is_some() as usize;
    if n == 0 {
        return None;
    }
    let (mut clock, mut other) = (r.below(n), None);
    if diag && n > 1 && r.chance(1, 4) {
        let o = r.below(n);
        if o != clock {
            if v[clock] < v[o] {
                other = Some(clock);
                clock = o;
            } else {
                other = Some(o);
            }
        }
    }
    let x = v[clock] - other.map_or(0, |o| v[o]);
    let (k, whole) = (x.div_euclid(SC), x.rem_euclid(SC) == 0);
    let (op, k) = match (whole, r.below(6)) {
        (true, 0 | 1) => (4, k),
        (true, 2) => (1, k),
        (true, 3) => (3, k),
        (true, 4) => (0, k + 1),
        (true, _) => {
            if k > 0 {
                (2, k - 1)
            } else {
                (3, k)
            }
        }
        (false, 0 | 1) => (2, k),
        (false, 2) => (3, k),
        (false, 3 | 4) => (0, k + 1),
        (false, _) => (1, k + 1),
    };
    let mut a = GAtom { clock, other, op, k, neg: false };
    if false && op != 4 {
        a = GAtom { op: 3 - op, neg: true, ..a };
        // the complement of < is >=, of <= is >
        a.op = [3, 2, 1, 0][op as usize];
    }
    Some(a)
}

pub fn describe_state(r: &mut Rng, sys: &Sys, l: &Lt, v: &[i64], full: bool, diag: bool) -> Option<Desc> {
    let mut at = vec![];
    if !flat(l, &mut at) {
        return None;
    }
    let keep = r.below(4);
    let locs = at.iter().map(|x| if full || keep == 0 || r.chance(keep, 4) { Some(*x) } else { None }).collect();
    let mut clauses = vec![];
    for _ in 0..r.below(4) {
        if let Some(a) = true_atom(r, sys, v, diag) {
            let mut c = vec![a];
            if r.chance(1, 5) {
                // another way to satisfy it
                let n = sys.clocks - sys.qclock.is_some() as usize;
                c.push(GAtom { clock: r.below(n), other: None, op: r.below(4) as u8, k: r.below(5) as i64, neg: false });
                r.shuffle(&mut c);
            }
            clauses.push(c);
        }
    }
    Some(Desc { locs, clauses })
}

/// A concrete run of random delays and transitions.
pub fn walk(r: &mut Rng, sys: &Sys, from: (Lt, Vec<i64>), steps: usize) -> Vec<(Lt, Vec<i64>)> {
    let acts: Vec<String> = sys.actions().into_iter().collect();
    let (mut l, mut v) = from;
    let mut out = vec![(l.clone(), v.clone())];
    for _ in 0..steps {
        let mut moved = false;
        for _ in 0..4 {
            let w = delay(&v, sys.pick_delay(r, &l, &v));
            let mut c: Vec<Tr> = vec![];
            for a in &acts {
                c.extend(sys.next(&l, a).into_iter().filter(|t| sys.enabled(t, &w)));
            }
            // prefer transitions that go somewhere
            if c.iter().any(|t| t.target != l) && r.chance(4, 5) {
                c.retain(|t| t.target != l);
            }
            if sys.inv_of(&l).eval(&w) && !c.is_empty() {
                let t = r.pick(&c);
                out.push((l.clone(), w.clone()));
                l = t.target.clone();
                v = apply(&t.upd, &w);
                out.push((l.clone(), v.clone()));
                moved = true;
                break;
            }
        }
        if !moved {
            break;
        }
    }
    let d = sys.pick_delay(r, &l, &v);
    let w = delay(&v, d);
    if sys.inv_of(&l).eval(&w) {
        out.push((l, w));
    }
    out
}

/// The composition with only the parentheses it needs and perhaps some more.
pub fn spell_ex(r: &mut Rng, ex: &Ex, names: &[String]) -> String {
    fn go(r: &mut Rng, ex: &Ex, names: &[String], least: u8) -> String {
        let (a, b, ops, prec): (_, _, &[&str], _) = match ex {
            Ex::Leaf(i) => return if r.chance(1, 8) { format!("({})", names[*i]) } else { names[*i].clone() },
            Ex::And(a, b) => (a, b, &[" && ", "&&", "\n&& "], 3),
            Ex::Par(a, b) => (a, b, &[" || ", "||", " ||\t"], 2),
            Ex::Quo(a, b) => (a, b, &[" // ", "//", " \\\\ "], 1),
        };
        let t = format!("{}{}{}", go(r, a, names, prec), r.pick(ops), go(r, b, names, prec + 1));
        if prec < least || r.chance(1, 8) {
            format!("({})", t)
        } else {
            t
        }
    }
    go(r, ex, names, 0)
}

/// No query: something left over or a parenthesis gone.
fn broken(r: &mut Rng, t: &str) -> String {
    let at: Vec<usize> = t.char_indices().filter(|(_, c)| "()".contains(*c)).map(|x| x.0).collect();
    if !at.is_empty() && r.chance(1, 2) {
        let i = *r.pick(&at);
        return format!("{}{}", &t[..i], &t[i + 1..]);
    }
    match r.below(6) {
        0 => format!("{} )", t),
        1 => format!("{} ||", t),
        2 => format!("{} &&", t),
        3 => format!("({}", t),
        4 => format!("{} |", t),
        _ => format!("{} // )", t),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    seed: u64,
    hash_seed: u64,
    comps: Vec<Comp>,
    text: String,
    /// (start, goal, was the goal met by a simulated run from the start?)
    queries: Vec<(Option<Desc>, Desc, bool)>,
    /// How queries are written (0: plainly).
    #[serde(default)]
    spell: u64,
}

/// `words`: with queries written in other words (C19).
pub struct C09 {
    pub words: bool,
}

impl Plan {
    fn prop(&self) -> &'static str {
        if self.spell != 0 {
            "C19"
        } else {
            "C09"
        }
    }
    fn words(&self, what: u64) -> Option<(Rng, bool)> {
        (self.spell != 0).then(|| (Rng::new(mix2(self.spell, what)), self.spell % 16 == 0))
    }
    /// Leaves by name, some with a number or a word where that is not needed.
    fn names(&self, sys: &Sys) -> Vec<String> {
        let v = leaf_names(sys);
        let Some((mut r, _)) = self.words(1) else { return v };
        v.into_iter().map(|n| if !n.contains('[') && r.chance(1, 5) { format!("{}[{}]", n, r.pick(&["1", "left", "2nd one", "x.y", "A && B"])) } else { n }).collect()
    }
    /// The text of a query, and whether it has a clock in a difference next to other terms.
    fn query(&self, sys: &Sys, qi: usize) -> (String, bool) {
        let (from, to, _) = &self.queries[qi];
        let names = self.names(sys);
        let mut w = self.words(2 + qi as u64);
        let sys_text = match &mut w {
            Some((r, _)) => spell_ex(r, &sys.ex, &names),
            None => named_text(&self.text, &names),
        };
        let (from, a) = from.as_ref().map_or(("init".into(), false), |d| d.text_of(sys, &names, &mut w));
        let (to, b) = to.text_of(sys, &names, &mut w);
        let s = w.map_or(" ", |(mut r, _)| r.pick(&[" ", " ", "", "\n"]));
        (format!("reachability:{s}{}{s}@{s}{} ->{s}{}", sys_text, from, to), a || b)
    }
}

/// Models in which places are further apart; D may be without inputs, so that it cannot idle.
pub fn big_comps(r: &mut Rng) -> Vec<Comp> {
    let cfg = GenCfg {
        max_locs: 2 + r.below(5),
        max_clocks: 1 + r.below(2),
        max_const: 1 + r.below(6) as i32,
        disj: r.chance(1, 4),
        nondet: *r.pick(&[0, 0, 4, 20]),
        inv: *r.pick(&[5, 20, 50]),
        ..Default::default()
    };
    let mut v = model::gen_model(r, "_e", &cfg);
    if r.chance(1, 2) {
        let outs: Vec<String> = vec!["n".into()];
        let k = v.len() - 1;
        v[k] = model::gen_comp(r, "D", &[], &outs, "_e", &cfg);
        model::complete_interface(r, &mut v[k], "_e");
    }
    v
}

fn whole(sys: &Sys) -> Fed {
    Fed(vec![Dbm::all(sys.clocks)])
}

fn start_state(sys: &Sys, d: &Option<Desc>) -> (Lt, Fed) {
    match d {
        None => (sys.initial(), sys.initial_fed()),
        Some(d) => {
            fn build(e: &crate::refsem::Ex, d: &Desc) -> Lt {
                use crate::refsem::Ex::*;
                match e {
                    Leaf(i) => Lt::Leaf(d.locs[*i].unwrap()),
                    And(a, b) | Par(a, b) | Quo(a, b) => Lt::Pair(Box::new(build(a, d)), Box::new(build(b, d))),
                }
            }
            let l = build(&sys.ex, d);
            let f = sys.inv_of(&l).restrict(&d.zone(&whole(sys)));
            // time may pass in the start state
            let mut f = f;
            f.0.iter_mut().for_each(|z| z.up());
            let f = sys.inv_of(&l).restrict(&f);
            (l, f)
        }
    }
}

/// Simulated runs of sets of valuations, looking for the goal. Returns the actions of a run that meets it.
pub fn hunt(r: &mut Rng, sys: &Sys, start: &(Lt, Fed), goal: &Desc, tries: usize) -> Option<Vec<String>> {
    let acts: Vec<String> = sys.actions().into_iter().collect();
    let hit = |l: &Lt, f: &Fed| goal.at(sys, l) && !goal.zone(f).is_empty();
    let mut q: VecDeque<(Lt, Fed, Vec<String>)> = VecDeque::new();
    q.push_back((start.0.clone(), start.1.clone(), vec![]));
    let mut n = 0;
    while let Some((l, f, path)) = if r.chance(2, 3) { q.pop_front() } else { q.pop_back() } {
        if hit(&l, &f) {
            return Some(path);
        }
        n += 1;
        if n > tries {
            return None;
        }
        for a in &acts {
            for t in sys.next(&l, a) {
                let g = sys.post(&f, &t);
                if g.is_empty() || g.0.len() > 12 {
                    continue;
                }
                // a run that only idles teaches nothing
                if t.target == l && g.minus(&f).map_or(false, |d| d.is_empty()) {
                    continue;
                }
                if q.len() < 2000 {
                    let mut p = path.clone();
                    p.push(a.clone());
                    q.push_back((t.target.clone(), g, p));
                }
            }
        }
    }
    None
}

fn check_path(sys: &Sys, start: &(Lt, Fed), goal: &Desc, ds: &[pb::Decision], r: &mut Rng) -> Result<(), String> {
    let (mut l, mut f) = start.clone();
    for (k, d) in ds.iter().enumerate() {
        let name = |m: String| format!("step {} ({} by {:?}): {}", k + 1, d.action, canon::edges_text(d), m);
        let (sl, sf) = sys.state_of(&d.source).map_err(&name)?;
        let (dl, df) = sys.state_of(&d.destination).map_err(&name)?;
        if sl != l {
            return Err(name(format!("it starts in {} although the run is in {}", sys.loc_text(&sl), sys.loc_text(&l))));
        }
        if sf.is_empty() {
            return Err(name("it starts in no state at all".into()));
        }
        if let Some(v) = sf.minus(&f).and_then(|x| x.sample(r)) {
            return Err(name(format!("it starts at {} where the run cannot be", sys.val_text(&v))));
        }
        let ts = meant(sys, &sl, d, &dl).map_err(&name)?;
        let can = Fed(ts.iter().flat_map(|t| source(sys, &sf, t).0).collect());
        if let Some(v) = sf.minus(&can).and_then(|x| x.sample(r)) {
            return Err(name(format!("it cannot be taken at {}", sys.val_text(&v))));
        }
        let want = Fed(ts.iter().flat_map(|t| sys.post(&sf, t).0).collect());
        if let Some(m) = same(sys, &df, &want, r) {
            return Err(name(format!("the state it leads to {}", m)));
        }
        l = dl;
        f = df;
    }
    if !goal.at(sys, &l) {
        return Err(format!("it ends in {}", sys.loc_text(&l)));
    }
    if goal.zone(&f).is_empty() {
        return Err(format!("it ends in {} at clock values that miss the goal", sys.loc_text(&l)));
    }
    Ok(())
}

/// The composition in two ways of writing: everything said about it is the same. What is not a
/// composition is not taken for one.
fn compositions(p: &Plan, sys: &Sys, b: &ConcreteEcdarBackend, r: &mut Rng, out: &mut RunOut) -> Result<(), (&'static str, String)> {
    let names = p.names(sys);
    let info = || {
        Some(pb::ComponentsInfo {
            components: p.comps.iter().map(|c| pb::Component { rep: Some(pb::component::Rep::Json(c.text())) }).collect(),
            components_hash: 7,
        })
    };
    let ask = |text: &str| {
        let q = Req::Query(pb::QueryRequest { user_id: 1, query_id: 0, query: text.into(), components_info: info(), settings: None });
        crate::server::rep_kind(&sched::real(|| call(b, q)))
    };
    let start = |text: &str| {
        let info = pb::SimulationInfo { component_composition: text.into(), components_info: info(), user_id: 1 };
        crate::server::rep_kind(&sched::real(|| call(b, Req::Start(pb::SimulationStartRequest { simulation_info: Some(info) }))))
    };
    let refused = |v: &Value| v.as_str().map_or(false, |s| s.starts_with("error"));
    let plain = named_text(&p.text, &names);
    let other = spell_ex(r, &sys.ex, &names);
    let (x, y) = (start(&plain), start(&other));
    if x != y {
        return Err(("composition", format!("a session on {:?} starts with {}, on {:?} with {}", other, y, plain, x)));
    }
    out.count("compositions written in two ways", 1);
    let wrong = broken(r, &other);
    let x = start(&wrong);
    if !refused(&x) {
        return Err(("malformed", format!("a session on {:?} starts with {}", wrong, x)));
    }
    out.count("malformed texts", 1);
    let form: (&str, &str) = *r.pick(&[("consistency:", ""), ("determinism:", ""), ("refinement:", " <= "), ("get-component:", " save-as N"), ("get-component:", "")]);
    let text = |t: &str| if form.1 == " <= " { format!("{} {} <= {}", form.0, t, t) } else { format!("{} {}{}", form.0, t, form.1) };
    let (x, y) = (ask(&text(&plain)), ask(&text(&other)));
    if x != y {
        return Err(("composition", format!("{:?} gives {}, {:?} gives {}", text(&other), y, text(&plain), x)));
    }
    let wrong = text(&wrong);
    let x = ask(&wrong);
    if !refused(&x) {
        return Err(("malformed", format!("{:?} gives {}", wrong, x)));
    }
    Ok(())
}

fn queries(p: &Plan, out: &mut RunOut) {
    let mut r = Rng::new(mix2(p.seed, 0x909));
    let sys = Sys::new(&p.text, &p.comps);
    let prop = p.prop();
    let b = sched::real(|| ConcreteEcdarBackend::new(1, 2));
    let mut lines = vec![];
    if let Some((mut w, _)) = p.words(0) {
        if let Err((class, m)) = compositions(p, &sys, &b, &mut w, out) {
            return out.viol(prop, class, class, m);
        }
    }
    for (qi, (from, to, met)) in p.queries.iter().enumerate() {
        let (text, odd) = p.query(&sys, qi);
        let req = pb::QueryRequest {
            user_id: 1,
            query_id: qi as i32,
            query: text.clone(),
            components_info: Some(pb::ComponentsInfo {
                components: p.comps.iter().map(|c| pb::Component { rep: Some(pb::component::Rep::Json(c.text())) }).collect(),
                components_hash: 7,
            }),
            settings: None,
        };
        let rep = sched::real(|| call(&b, Req::Query(req)));
        let q = match &rep {
            Rep::Query(q) => q,
            _ => return out.viol(prop, "escaped", "escaped", format!("{}: {}", text, crate::server::rep_json(&rep))),
        };
        let kind = canon::kind(q);
        out.trace = mix2(out.trace, hash_str(&kind));
        lines.push(format!("{} : {}", text, kind));
        out.count(&format!("answers: {}", kind), 1);
        let start = start_state(&sys, from);
        // goals that compare two clocks have a known finding of their own
        let diff = to.clauses.iter().flatten().any(|a| a.other.is_some());
        let sig = |s: &str| if odd {
            "nested-minus".to_string()
        } else if diff { format!("{}:difference-goal", s) } else { s.to_string() };
        use pb::query_response::Result as R;
        match q.as_ref().ok().and_then(|q| q.result.as_ref()) {
            Some(R::ReachabilityPath(path)) => {
                let ds = path.path.as_ref().map(|p| p.decisions.clone()).unwrap_or_default();
                out.count("path steps checked", ds.len() as u64);
                if !ds.is_empty() {
                    out.nontrivial = true;
                }
                if let Err(m) = check_path(&sys, &start, to, &ds, &mut r) {
                    let shown: Vec<String> = ds.iter().map(|d| format!("{} {:?}", d.action, canon::edges_text(d))).collect();
                    return out.viol(prop, "path", sig("path"), format!("{}: the path {:?} is not a run to the goal: {}", text, shown, m));
                }
            }
            Some(R::Reachability(_)) => {
                if *met {
                    return out.viol(prop, "missed", sig("missed"), format!("{}: unreachable, although a simulated run meets it", text));
                }
                out.count("unreachable goals hunted", 1);
                out.nontrivial = true;
                if let Some(path) = hunt(&mut r, &sys, &start, to, 60) {
                    return out.viol(prop, "missed", sig("missed"), format!("{}: unreachable, although the simulated run {:?} meets it", text, path));
                }
            }
            Some(R::Model(_)) if sys.ex.has_and() || sys.ex.has_quo() => {}
            _ => {
                return out.viol(prop, "refused", sig("refused"), format!("{}: {}", text, canon::query_json(q)));
            }
        }
    }
    std::mem::forget(b);
    out.sample = json!({"queries": lines});
}

impl Scenario for C09 {
    fn plan(&self, seed: u64, _: u64) -> Value {
        let mut r = Rng::new(seed);
        let mut text = gen_text(&mut r);
        let mut comps = big_comps(&mut r);
        let mut spell = 0;
        if self.words {
            spell = 1 + r.next() % 1_000_000;
            if r.chance(5, 6) {
                spell |= 1;
            }
            model::odd_names(&mut r, &mut comps, &mut text);
        } else {
            crate::c08::other_words(&mut r, &mut comps);
        }
        let sys = Sys::new(&text, &comps);
        let diag = std::env::var("SIM_DIAG").is_ok() || r.chance(1, 12);
        let mut queries = vec![];
        for _ in 0..3 + r.below(5) {
            let zero = vec![0; sys.clocks];
            let init = (sys.initial(), zero);
            if !sys.inv_of(&init.0).eval(&init.1) {
                break;
            }
            let n = 1 + r.below(12);
            let w = walk(&mut r, &sys, init, n);
            let (mut from, mut a) = (None, 0);
            if r.chance(2, 5) {
                a = r.below(w.len());
                from = describe_state(&mut r, &sys, &w[a].0, &w[a].1, true, diag);
                if from.is_none() {
                    a = 0;
                }
            }
            let b = if r.chance(2, 3) { w.len() - 1 } else { a + r.below(w.len() - a) };
            let Some(mut to) = describe_state(&mut r, &sys, &w[b].0, &w[b].1, false, diag) else { continue };
            let mut met = true;
            if r.chance(1, 2) {
                // nearby: perhaps out of reach
                met = false;
                let n = sys.clocks - sys.qclock.is_some() as usize;
                match r.below(3) {
                    0 if n > 0 => to.clauses.push(vec![GAtom { clock: r.below(n), other: None, op: r.below(5) as u8, k: r.below(6) as i64, neg: false }]),
                    1 if n > 1 && diag => {
                        let (x, y) = (r.below(n), r.below(n));
                        if x != y {
                            to.clauses.push(vec![GAtom { clock: x, other: Some(y), op: r.below(5) as u8, k: r.below(5) as i64, neg: false }]);
                        }
                    }
                    1 | 0 => {
                        let i = r.below(to.locs.len());
                        to.locs[i] = Some(r.below(sys.comps[i].locs.len()));
                    }
                    _ => {
                        for i in 0..to.locs.len() {
                            if r.chance(2, 3) {
                                to.locs[i] = Some(r.below(sys.comps[i].locs.len()));
                            }
                        }
                    }
                }
            }
            queries.push((from, to, met));
        }
        let p = Plan { seed: r.next(), hash_seed: r.next(), comps, text, queries, spell };
        serde_json::to_value(p).unwrap()
    }

    fn run(&self, plan: &Value, _: Option<Sched>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut out = RunOut::default();
        out.trace = hash_str(&p.text);
        let mut out = c08::solo(p.seed, p.hash_seed, 1_500_000_000, out, move |o| queries(&p, o));
        let t = out.trace;
        out.take_sched();
        out.sched = vec![];
        out.trace = mix2(t, sched::trace_hash());
        out.distinct = vec![mix2(t, hash_str(&plan["comps"].to_string()))];
        out
    }

    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut v = vec![];
        if p.queries.len() > 1 {
            for i in 0..p.queries.len() {
                v.push(Plan { queries: vec![p.queries[i].clone()], ..p.clone() });
            }
        }
        for i in 0..p.queries.len() {
            // weaker goals stay met
            for k in 0..p.queries[i].1.clauses.len() {
                let mut q = p.clone();
                q.queries[i].1.clauses.remove(k);
                v.push(q);
            }
            for k in 0..p.queries[i].1.locs.len() {
                if p.queries[i].1.locs[k].is_some() {
                    let mut q = p.clone();
                    q.queries[i].1.locs[k] = None;
                    v.push(q);
                }
            }
            // weaker starts reach at least as much
            for k in 0..p.queries[i].0.as_ref().map_or(0, |d| d.clauses.len()) {
                let mut q = p.clone();
                q.queries[i].0.as_mut().unwrap().clauses.remove(k);
                v.push(q);
            }
        }
        // a smaller model is another model: its goals are no longer known to be met
        for q in shrink_comps(&p.comps) {
            let queries = p.queries.iter().map(|(a, b, _)| (a.clone(), b.clone(), false)).collect();
            v.push(Plan { comps: q, queries, ..p.clone() });
        }
        v.into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
    }

    fn describe(&self, plan: &Value) -> Value {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let sys = Sys::new(&p.text, &p.comps);
        json!({"composition": p.text, "components": p.comps.iter().map(comp_text).collect::<Vec<_>>(),
            "queries": (0..p.queries.len()).map(|i| format!("{} (met by a simulated run: {})", p.query(&sys, i).0, p.queries[i].2)).collect::<Vec<_>>()})
    }
}
