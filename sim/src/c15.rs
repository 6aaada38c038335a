//! Attribution of the transitions of a run to the components that take part in them.
use crate::c08::{self, comp_text, gen_comps, gen_text, shrink_comps};
use crate::model::Comp;
use crate::refsem::{Ex, Lt, Sys};
use crate::rng::{mix2, Rng};
use crate::runner::{RunOut, Scenario, Sched};
use crate::sched;
use crate::w1::hash_str;
use crate::zone::{Dbm, Fed};
use reveaal::DataReader::component_loader::{ComponentContainer, ComponentsMap};
use reveaal::System::input_enabler;
use reveaal::System::specifics::SpecialLocation;
use reveaal::TransitionSystems::transition_system::component_loader_to_transition_system;
use reveaal::TransitionSystems::{LocationID, TransitionID};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simglue::panic_text;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    seed: u64,
    hash_seed: u64,
    comps: Vec<Comp>,
    text: String,
    steps: usize,
    /// An abstract system instead of a modelled one.
    shape: Option<Shape>,
    /// Where a step of another system gets into the path, if it does, and that system.
    foreign: Option<(usize, Shape)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Shape {
    Leaf,
    And(Box<Shape>, Box<Shape>),
    Par(Box<Shape>, Box<Shape>),
    Quo(Box<Shape>, Box<Shape>),
}

impl Shape {
    fn gen(r: &mut Rng, leaves: usize) -> Shape {
        if leaves <= 1 {
            return Shape::Leaf;
        }
        let k = match r.below(4) {
            0 => 1,
            1 => leaves - 1,
            _ => 1 + r.below(leaves - 1),
        };
        let (a, b) = (Box::new(Shape::gen(r, k)), Box::new(Shape::gen(r, leaves - k)));
        match r.below(3) {
            0 => Shape::And(a, b),
            1 => Shape::Par(a, b),
            _ => Shape::Quo(a, b),
        }
    }
    fn leaves(&self) -> usize {
        match self {
            Shape::Leaf => 1,
            Shape::And(a, b) | Shape::Par(a, b) | Shape::Quo(a, b) => a.leaves() + b.leaves(),
        }
    }
    /// A step of this system. `cols[i]` gets what component `at + i` contributes.
    fn step(&self, r: &mut Rng, at: usize, cols: &mut Vec<Vec<String>>, part: usize, nth: &mut usize) -> TransitionID {
        match self {
            Shape::Leaf => {
                if !r.chance(part, 4) {
                    return TransitionID::None;
                }
                // the same edge is often taken again, and components may use equal names
                let e = if r.chance(1, 2) { format!("e{}", r.below(4)) } else { format!("c{}_e{}", at, nth) };
                *nth += 1;
                cols[at].push(e.clone());
                TransitionID::Simple(e)
            }
            Shape::And(a, b) | Shape::Par(a, b) => {
                // one side may sit the step out
                let (pa, pb) = match r.below(5) {
                    0 => (0, part),
                    1 => (part, 0),
                    _ => (part, part),
                };
                let x = Box::new(a.step(r, at, cols, pa, nth));
                let y = Box::new(b.step(r, at + a.leaves(), cols, pb, nth));
                if matches!(self, Shape::And(..)) {
                    TransitionID::Conjunction(x, y)
                } else {
                    TransitionID::Composition(x, y)
                }
            }
            Shape::Quo(a, b) => {
                let (na, nb) = (1 + r.below(3), 1 + r.below(3));
                let x = (0..na).map(|_| a.step(r, at, cols, part, nth)).collect();
                let y = (0..nb).map(|_| b.step(r, at + a.leaves(), cols, part, nth)).collect();
                TransitionID::Quotient(x, y)
            }
        }
    }
    fn of(e: &Ex) -> Shape {
        match e {
            Ex::Leaf(_) => Shape::Leaf,
            Ex::And(a, b) => Shape::And(Box::new(Shape::of(a)), Box::new(Shape::of(b))),
            Ex::Par(a, b) => Shape::Par(Box::new(Shape::of(a)), Box::new(Shape::of(b))),
            Ex::Quo(a, b) => Shape::Quo(Box::new(Shape::of(a)), Box::new(Shape::of(b))),
        }
    }
    fn text(&self) -> String {
        match self {
            Shape::Leaf => "c".into(),
            Shape::And(a, b) => format!("({} && {})", a.text(), b.text()),
            Shape::Par(a, b) => format!("({} || {})", a.text(), b.text()),
            Shape::Quo(a, b) => format!("({} // {})", a.text(), b.text()),
        }
    }
    fn smaller(&self) -> Vec<Shape> {
        match self {
            Shape::Leaf => vec![],
            Shape::And(a, b) | Shape::Par(a, b) | Shape::Quo(a, b) => {
                let mk = |x: Shape, y: Shape| match self {
                    Shape::And(..) => Shape::And(Box::new(x), Box::new(y)),
                    Shape::Par(..) => Shape::Par(Box::new(x), Box::new(y)),
                    _ => Shape::Quo(Box::new(x), Box::new(y)),
                };
                let mut v = vec![(**a).clone(), (**b).clone()];
                v.extend(a.smaller().into_iter().map(|x| mk(x, (**b).clone())));
                v.extend(b.smaller().into_iter().map(|y| mk((**a).clone(), y)));
                v
            }
        }
    }
}

pub struct C15;

type Step = Vec<Vec<String>>;

fn name(id: &TransitionID) -> Option<String> {
    match id {
        TransitionID::Simple(s) => Some(s.clone()),
        _ => None,
    }
}

/// Splits a path and compares with what each component contributed, step by step.
fn check_split(path: &Vec<TransitionID>, want: &[Step], ordered: bool) -> Result<(), String> {
    let got = catch_unwind(AssertUnwindSafe(|| TransitionID::split_into_component_lists(path))).map_err(|e| format!("splitting the path panicked: {}", panic_text(e)))?;
    let got = got.map_err(|e| format!("the path was refused: {}", e))?;
    let n = want.first().map_or(0, |s| s.len());
    if got.len() != n {
        return Err(format!("it was split for {} components, the system has {}", got.len(), n));
    }
    for (i, col) in got.iter().enumerate() {
        if col.len() != want.len() {
            return Err(format!("component {} has {} steps of {}", i, col.len(), want.len()));
        }
        for (k, c) in col.iter().enumerate() {
            let mut g = vec![];
            for id in c {
                g.push(name(id).ok_or_else(|| format!("component {} is given {:?} in step {}", i, id, k))?);
            }
            let mut w = want[k][i].clone();
            if !ordered {
                g.sort();
                w.sort();
            }
            if g != w {
                return Err(format!("in step {} component {} takes {:?} but is given {:?}", k, i, w, g));
            }
        }
    }
    Ok(())
}

/// The leaves of one identity: one group per component, in order, with exactly its edges.
fn leaves(id: &TransitionID) -> Result<Vec<Vec<TransitionID>>, String> {
    catch_unwind(AssertUnwindSafe(|| id.get_leaves())).map_err(|e| format!("the leaves of {:?}: panic: {}", id, panic_text(e)))
}

fn check_leaves(id: &TransitionID, want: &Step, ordered: bool) -> Result<(), String> {
    let l = leaves(id)?;
    if l.len() != want.len() {
        return Err(format!("{:?} has {} leaves, the system has {} components", id, l.len(), want.len()));
    }
    for (i, c) in l.iter().enumerate() {
        if c.iter().any(|x| !matches!(x, TransitionID::Simple(_) | TransitionID::None)) {
            return Err(format!("leaf {} of {:?} is no leaf: {:?}", i, id, c));
        }
        let mut g: Vec<String> = c.iter().filter_map(name).collect();
        let mut w = want[i].clone();
        if !ordered {
            g.sort();
            w.sort();
        }
        if g != w {
            return Err(format!("component {} takes {:?}, the leaf of {:?} says {:?}", i, w, id, g));
        }
    }
    Ok(())
}

/// All checks of a finished run: the whole path, what remains of it after each step, and with a foreign
/// step in it.
fn check_path(p: &Plan, r: &mut Rng, path: &[TransitionID], want: &[Step], ordered: bool, out: &mut RunOut) -> Result<(), String> {
    check_split(&vec![], &[], true)?;
    for k in 0..path.len() {
        check_split(&path[k..].to_vec(), &want[k..], ordered).map_err(|m| format!("from step {} on: {}", k, m))?;
        check_split(&path[..=k].to_vec(), &want[..=k], ordered).map_err(|m| format!("up to step {}: {}", k, m))?;
    }
    out.count("paths split", 2 * path.len() as u64);
    if let Some((at, shape)) = &p.foreign {
        let n = want.first().map_or(0, |s| s.len());
        if n > 0 && shape.leaves() != n {
            let mut cols = vec![vec![]; shape.leaves()];
            let id = shape.step(r, 0, &mut cols, 3, &mut 0);
            let mut q = path.to_vec();
            let k = at % (q.len() + 1);
            q.insert(k, id.clone());
            out.count("fault: step of another system in the path", 1);
            match catch_unwind(AssertUnwindSafe(|| TransitionID::split_into_component_lists(&q))) {
                Err(e) => return Err(format!("with the foreign step {:?} at {}: panic: {}", id, k, panic_text(e))),
                Ok(Ok(v)) => return Err(format!("a path of a system with {} components that has the foreign step {:?} at {} was split into {:?}", n, id, k, v)),
                Ok(Err(_)) => {}
            }
        }
    }
    Ok(())
}

fn lt_of(sys: &Sys, e: &Ex, l: &LocationID) -> Option<Lt> {
    match (e, l) {
        (Ex::Leaf(i), LocationID::Simple(id)) => sys.comps[*i].locs.iter().position(|k| &k.id == id).map(Lt::Leaf),
        (Ex::And(a, b), LocationID::Conjunction(x, y)) | (Ex::Par(a, b), LocationID::Composition(x, y)) | (Ex::Quo(a, b), LocationID::Quotient(x, y)) => {
            Some(Lt::Pair(Box::new(lt_of(sys, a, x)?), Box::new(lt_of(sys, b, y)?)))
        }
        (_, LocationID::Special(SpecialLocation::Universal)) => Some(Lt::Univ),
        (_, LocationID::Special(SpecialLocation::Error)) => Some(Lt::Err),
        _ => None,
    }
}

fn column(n: usize, edges: &[(usize, String)]) -> Step {
    let mut c = vec![vec![]; n];
    for (i, e) in edges {
        c[*i].push(e.clone());
    }
    c.iter_mut().for_each(|x| x.sort());
    c
}

fn modelled(p: &Plan, out: &mut RunOut) {
    let mut r = Rng::new(mix2(p.seed, 0xf15));
    let sys = Sys::new(&p.text, &p.comps);
    let n = sys.comps.len();
    let ts = catch_unwind(AssertUnwindSafe(|| {
        let mut map = ComponentsMap::new();
        for c in &p.comps {
            let mut c = reveaal::DataReader::json_reader::json_to_component(&c.text()).expect("component");
            let inputs: Vec<_> = c.get_input_actions();
            input_enabler::make_input_enabled(&mut c, &inputs);
            map.insert(c.name.clone(), c);
        }
        component_loader_to_transition_system(&mut ComponentContainer::new(Arc::new(map)), &p.text)
    }));
    let ts = match ts {
        Ok(t) => t,
        Err(_) => {
            out.count("compositions the tool refuses", 1);
            return;
        }
    };
    let mut state = match ts.get_initial_state() {
        Some(s) => s,
        None => return,
    };
    let mut acts: Vec<String> = ts.get_actions().into_iter().collect();
    acts.sort();
    let all = Fed(vec![Dbm::all(sys.clocks)]);
    let (mut path, mut want): (Vec<TransitionID>, Vec<Step>) = (vec![], vec![]);
    let mut lines = vec![];
    while path.len() < p.steps {
        let lt = match lt_of(&sys, &sys.ex, &state.decorated_locations.id) {
            Some(l) => l,
            None => return out.viol("C15", "location", "location", format!("{}: the run is in {} which is no location of the system", p.text, state.decorated_locations.id)),
        };
        r.shuffle(&mut acts);
        let mut next = None;
        for a in &acts {
            let ref_trs = sys.next(&lt, a);
            let ts = match catch_unwind(AssertUnwindSafe(|| ts.next_transitions(&state.decorated_locations, a))) {
                Ok(t) => t,
                Err(e) => return out.viol("C15", "panic", "panic", format!("{}: transitions of {} on {}: {}", p.text, sys.loc_text(&lt), a, panic_text(e))),
            };
            let mut known: Vec<(Step, Lt, bool, bool)> =
                ref_trs.iter().map(|t| (column(n, &t.edges), t.target.clone(), false, !t.pred.restrict(&all).is_empty())).collect();
            let mut found = vec![];
            for t in &ts {
                let l = match leaves(&t.id) {
                    Ok(l) => l,
                    Err(m) => return out.viol("C15", "leaves", "leaves", format!("{} in {} on {}: {}", p.text, sys.loc_text(&lt), a, m)),
                };
                let mut c: Step = l.iter().map(|x| x.iter().filter_map(name).collect()).collect();
                c.iter_mut().for_each(|x| x.sort());
                let to = lt_of(&sys, &sys.ex, &t.target_locations.id);
                match known.iter_mut().find(|k| !k.2 && k.0 == c && Some(&k.1) == to.as_ref()) {
                    Some(k) => k.2 = true,
                    None => {
                        let exp: Vec<String> = known.iter().filter(|k| Some(&k.1) == to.as_ref()).map(|k| format!("{:?}", k.0)).collect();
                        return out.viol(
                            "C15",
                            "attribution",
                            "attribution",
                            format!("{} in {} on {}: the identity {:?} of a transition to {} has the leaves {:?}; the components take {}", p.text, sys.loc_text(&lt), a, t.id, t.target_locations.id, c, if exp.is_empty() { "nothing".into() } else { exp.join(" or ") }),
                        );
                    }
                }
                out.count("transitions attributed", 1);
                found.push((t.clone(), c));
            }
            if let Some(k) = known.iter().find(|k| !k.2 && k.3) {
                return out.viol("C15", "attribution", "missing", format!("{} in {} on {}: no transition has the edges {:?} to {}", p.text, sys.loc_text(&lt), a, k.0, sys.loc_text(&k.1)));
            }
            if next.is_none() && !found.is_empty() {
                let (t, c) = found[r.below(found.len())].clone();
                let mut s = state.clone();
                if t.use_transition(&mut s) {
                    next = Some((a.clone(), t, c, s));
                }
            }
        }
        match next {
            Some((a, t, c, mut s)) => {
                lines.push(format!("{} {:?}", a, c));
                path.push(t.id.clone());
                want.push(c);
                s.extrapolate_max_bounds(ts.as_ref());
                state = s;
            }
            None => break,
        }
    }
    out.trace = mix2(out.trace, hash_str(&lines.join(";")));
    out.nontrivial = path.len() > 1 && n > 1;
    out.sample = json!({"composition": p.text, "path": lines});
    if let Err(m) = check_path(p, &mut r, &path, &want, false, out) {
        out.viol("C15", "split", "split", format!("{}, path {:?}: {}", p.text, path, m));
    }
}

fn abstracted(p: &Plan, shape: &Shape, out: &mut RunOut) {
    let mut r = Rng::new(mix2(p.seed, 0xf16));
    let (mut path, mut want) = (vec![], vec![]);
    let mut nth = 0;
    for _ in 0..p.steps {
        let mut cols = vec![vec![]; shape.leaves()];
        let part = 1 + r.below(4);
        let id = shape.step(&mut r, 0, &mut cols, part, &mut nth);
        if let Err(m) = check_leaves(&id, &cols, true) {
            return out.viol("C15", "leaves", "leaves", format!("a step of {}: {}", shape.text(), m));
        }
        path.push(id);
        want.push(cols);
    }
    out.count("abstract steps", path.len() as u64);
    out.trace = mix2(out.trace, hash_str(&format!("{:?}", path)));
    out.nontrivial = path.len() > 1 && shape.leaves() > 1;
    out.sample = json!({"system": shape.text(), "steps": path.len()});
    if let Err(m) = check_path(p, &mut r, &path, &want, true, out) {
        out.viol("C15", "split", "split", format!("{}, path {:?}: {}", shape.text(), path, m));
    }
}

impl Scenario for C15 {
    fn plan(&self, seed: u64, _: u64) -> Value {
        let mut r = Rng::new(seed);
        let text = gen_text(&mut r);
        let comps = gen_comps(&mut r);
        let shape = if r.chance(2, 5) {
            let k = 1 + r.below(9);
            Some(Shape::gen(&mut r, k))
        } else {
            None
        };
        let n = shape.as_ref().map_or_else(|| Sys::new(&text, &comps).comps.len(), |s| s.leaves());
        let foreign = if r.chance(2, 3) {
            let k = match r.below(4) {
                0 => n + 1,
                1 => n.saturating_sub(1).max(1),
                2 => 1,
                _ => 1 + r.below(10),
            };
            let base = Shape::gen(&mut r, k);
            Some((r.below(16), base))
        } else {
            None
        };
        let p = Plan { seed: r.next(), hash_seed: r.next(), comps, text, steps: 1 + r.below(9), shape, foreign };
        serde_json::to_value(p).unwrap()
    }

    fn run(&self, plan: &Value, _: Option<Sched>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut out = RunOut::default();
        out.trace = hash_str(&p.shape.as_ref().map_or(p.text.clone(), |s| s.text()));
        let mut out = c08::solo(p.seed, p.hash_seed, 1_500_000_000, out, move |o| {
            sched::real(|| match &p.shape {
                Some(s) => abstracted(&p, s, o),
                None => modelled(&p, o),
            })
        });
        let t = out.trace;
        out.take_sched();
        out.sched = vec![];
        out.trace = mix2(t, sched::trace_hash());
        out.distinct = vec![t];
        out
    }

    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut v = vec![];
        if p.foreign.is_some() {
            v.push(Plan { foreign: None, ..p.clone() });
        }
        for s in 0..p.steps {
            v.push(Plan { steps: s, ..p.clone() });
        }
        if let Some((at, f)) = &p.foreign {
            for g in f.smaller() {
                v.push(Plan { foreign: Some((*at, g)), ..p.clone() });
            }
        }
        match &p.shape {
            Some(s) => v.extend(s.smaller().into_iter().map(|g| Plan { shape: Some(g), ..p.clone() })),
            None => v.extend(shrink_comps(&p.comps).into_iter().map(|q| Plan { comps: q, ..p.clone() })),
        }
        v.into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
    }

    fn describe(&self, plan: &Value) -> Value {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let foreign = p.foreign.as_ref().map(|(k, f)| format!("a step of {} at {}", f.text(), k));
        match &p.shape {
            Some(s) => json!({"system": s.text(), "steps": p.steps, "foreign": foreign}),
            None => json!({"composition": p.text, "components": p.comps.iter().map(comp_text).collect::<Vec<_>>(), "steps": p.steps, "foreign": foreign}),
        }
    }
}
