//! Interactive simulation against the reference semantics, decision by decision.
use crate::canon;
use crate::model::{self, Comp, GenCfg};
use crate::refsem::{Lt, Sys, Tr};
use crate::rng::{mix2, Rng};
use crate::runner::{RunOut, Scenario, Sched};
use crate::sched::{self, Policy, SimCfg, Woke};
use crate::w1::hash_str;
use crate::zone::{Fed, SC};
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simglue::{call, Rep, Req};
use std::sync::{Arc, Mutex};

/// Runs a closure alone on a simulated thread.
pub fn solo<F: FnOnce(&mut RunOut) + Send + 'static>(seed: u64, hash_seed: u64, budget: u64, out: RunOut, f: F) -> RunOut {
    sched::start(SimCfg { seed, hash_seed, policy: Policy::Run, max_steps: u64::MAX, stall_permille: 0, spurious_permille: 0, fault_ns: 0, irqs: vec![] });
    sched::budget(budget);
    let cell = Arc::new(Mutex::new(out));
    let cell2 = cell.clone();
    let t = sched::spawn("session", 1, 64 << 20, move || {
        let mut o = std::mem::take(&mut *cell2.lock().unwrap());
        f(&mut o);
        *cell2.lock().unwrap() = o;
    });
    let w = sched::join(t);
    let mut o = std::mem::take(&mut *cell.lock().unwrap());
    if w != Woke::Normal {
        o.inconclusive = Some(format!("the session did not finish: {:?}", w));
    }
    o
}

/// Exact comparison of two sets of valuations; the text tells a valuation where they differ.
pub fn same(sys: &Sys, got: &Fed, want: &Fed, r: &mut Rng) -> Option<String> {
    for (a, b, how) in [(want, got, "leaves out"), (got, want, "wrongly has")] {
        if let Some(d) = a.minus(b) {
            if let Some(v) = d.sample(r) {
                return Some(format!("{} {}", how, sys.val_text(&v)));
            }
        }
    }
    None
}

/// The transitions this decision can mean.
pub fn meant(sys: &Sys, lt: &Lt, d: &pb::Decision, to: &Lt) -> Result<Vec<Tr>, String> {
    let mut e = sys.edges_of(d)?;
    e.sort();
    let v: Vec<Tr> = sys
        .next(lt, &d.action)
        .into_iter()
        .filter(|t| {
            let mut f = t.edges.clone();
            f.sort();
            f == e && &t.target == to
        })
        .collect();
    if v.is_empty() {
        return Err(format!("no transition of {} on {} takes exactly {:?} to {}", sys.loc_text(lt), d.action, canon::edges_text(d), sys.loc_text(to)));
    }
    Ok(v)
}

/// Where a transition can be taken from within a set of valuations.
pub fn source(sys: &Sys, from: &Fed, t: &Tr) -> Fed {
    let p = crate::refsem::Pred::And(vec![t.pred.clone(), crate::refsem::Pred::After(t.upd.clone(), Box::new(sys.inv_of(&t.target)))]);
    p.restrict(from)
}

/// A decision offered in a state: it starts exactly where its transition can be taken and leads exactly
/// where the transition leads.
pub fn check_decision(sys: &Sys, at: &(Lt, Fed), d: &pb::Decision, r: &mut Rng) -> Result<(Lt, Fed, Tr), String> {
    let (sl, sf) = sys.state_of(&d.source)?;
    let (dl, df) = sys.state_of(&d.destination)?;
    if sl != at.0 {
        return Err(format!("it starts in {} instead of {}", sys.loc_text(&sl), sys.loc_text(&at.0)));
    }
    let ts = meant(sys, &sl, d, &dl)?;
    let want = Fed(ts.iter().flat_map(|t| source(sys, &at.1, t).0).collect());
    if let Some(m) = same(sys, &sf, &want, r) {
        return Err(format!("the valuations it can be taken from: it {}", m));
    }
    let want = Fed(ts.iter().flat_map(|t| sys.post(&sf, t).0).collect());
    if let Some(m) = same(sys, &df, &want, r) {
        return Err(format!("the valuations it leads to: it {}", m));
    }
    Ok((dl, df, ts[0].clone()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    seed: u64,
    hash_seed: u64,
    comps: Vec<Comp>,
    text: String,
    hash: u32,
    #[serde(default)]
    words: bool,
    /// One entry per step: which decision, how the client narrows it, and the fault on the way.
    steps: Vec<(u64, u64, u32)>,
}

/// `words`: with conditions written in other words and comparing clocks with each other (C18).
pub struct C08 {
    pub words: bool,
}

impl Plan {
    fn prop(&self) -> &'static str {
        if self.words {
            "C18"
        } else {
            "C08"
        }
    }
}

/// The same models in other words, and with comparisons of clocks.
pub fn words(r: &mut Rng, comps: &mut [Comp], diagonal: bool) {
    for c in comps {
        c.spell = 1 + r.next() % 1_000_000;
            if r.chance(5, 6) {
                c.spell |= 1;
            }
        let n = c.clocks.len();
        if diagonal && n > 1 {
            let atoms = c.locs.iter_mut().flat_map(|l| l.inv.iter_mut()).map(|a| (6, a)).chain(c.edges.iter_mut().flat_map(|e| e.guard.iter_mut().flatten()).map(|a| (3, a)));
            for (p, a) in atoms {
                if r.chance(1, p) {
                    a.minus = Some((a.clock + 1 + r.below(n - 1)) % n);
                    if r.chance(1, 3) {
                        a.k = -a.k;
                    }
                }
            }
        }
    }
}

pub fn gen_text(r: &mut Rng) -> String {
    r.pick(&[
        "A", "B", "T", "D", "A || B", "B || A", "A && A2", "A2 && A", "A || B || D", "D || (A || B)", "(D || A) || B", "T // B", "T // A", "(A && A2) || B", "D || (A && A2)", "A || (B || D)", "(T // B) || D",
        "D || (T // A)", "A && A", "(A || B) && T", "T // (A && A2)", "D // D", "(T && T) // B", "(A2 || D) || B",
        "(T // B) // D", "T // (A || B)", "(A || B) // D", "(T // B) && T", "(D || (T // B)) || A2", "T // (D // D)", "(A && A2) // A", "D && (D && D)",
    ])
    .to_string()
}

pub fn gen_comps(r: &mut Rng) -> Vec<Comp> {
    let cfg = GenCfg {
        max_locs: 1 + r.below(4),
        max_clocks: r.below(3),
        max_const: 1 + r.below(5) as i32,
        disj: r.chance(1, 3),
        nondet: *r.pick(&[0, 0, 4, 20]),
        inv: *r.pick(&[10, 35, 60]),
        ..Default::default()
    };
    model::gen_model(r, "_e", &cfg)
}

/// Models for the questions about runs; some are written in other words.
pub fn other_words(r: &mut Rng, comps: &mut [Comp]) {
    if r.chance(1, 4) {
        words(r, comps, false);
        for c in comps {
            c.spell |= 1;
        }
    }
}

fn session(p: &Plan, out: &mut RunOut) {
    let mut r = Rng::new(mix2(p.seed, 0x808));
    let sys = Sys::new(&p.text, &p.comps);
    let info = || pb::SimulationInfo {
        component_composition: p.text.clone(),
        components_info: Some(pb::ComponentsInfo {
            components: p.comps.iter().map(|c| pb::Component { rep: Some(pb::component::Rep::Json(c.text())) }).collect(),
            components_hash: p.hash,
        }),
        user_id: 1,
    };
    let mut b = sched::real(|| ConcreteEcdarBackend::new(1, 2));
    let mut lines: Vec<String> = vec![];
    let mut req = Req::Start(pb::SimulationStartRequest { simulation_info: Some(info()) });
    let mut at: (Lt, Fed) = (sys.initial(), sys.initial_fed());
    // how many transitions the server may choose between when it resolves the request
    let mut open = 1;
    let mut sent: Option<Option<pb::State>> = None;
    let mut valuation: Option<Vec<i64>> = at.1.sample(&mut r);
    for k in 0..=p.steps.len() {
        let fault = if k == 0 { 0 } else { p.steps[k - 1].2 };
        if fault & 1 != 0 {
            out.count("fault: server replaced between steps", 1);
            std::mem::forget(std::mem::replace(&mut b, sched::real(|| ConcreteEcdarBackend::new(1, 2))));
        }
        let mut rep = sched::real(|| call(&b, req.clone()));
        if fault & 2 != 0 {
            out.count("fault: step repeated", 1);
            let again = sched::real(|| call(&b, req.clone()));
            let (x, y) = (crate::server::rep_kind(&rep), crate::server::rep_kind(&again));
            if x != y {
                out.viol(p.prop(), "repeat", "repeat", format!("{}: step {} repeated gives {} instead of {}", p.text, k, y, x));
                return;
            }
            rep = again;
        }
        let bad = |out: &mut RunOut, lines: &[String], class: &str, m: String| {
            let class = if p.comps.iter().any(|c| c.nested_minus()) { "nested-minus" } else { class };
            out.viol(p.prop(), class, class, format!("simulating {}: {} [so far: {}]", p.text, m, lines.join("; ")));
        };
        let s = match rep {
            Rep::Step(Ok(s)) => s,
            Rep::Step(Err(e)) => {
                // refused: allowed without an initial state, for systems that fail the tool's checks, and for ambiguous decisions
                let start_ok = sys.ex.has_and() || sys.ex.has_quo() || at.1.is_empty();
                if (k == 0 && !start_ok) || (k > 0 && open == 1) {
                    bad(out, &lines, "refused", format!("step {} is refused: {:?} {}", k, e.code(), e.message()));
                }
                out.count(if k == 0 { "sessions refused" } else { "ambiguous steps refused" }, 1);
                break;
            }
            x => {
                bad(out, &lines, "escaped", format!("step {}: {}", k, crate::server::rep_json(&x)));
                return;
            }
        };
        if k > 0 && open != 1 {
            bad(out, &lines, "ambiguous", format!("step {} is answered although {} transitions fit", k, open));
            return;
        }
        // the state
        if let Some(want) = &sent {
            if &s.full_state != want {
                bad(out, &lines, "state", format!("step {}: the state is not the destination of the chosen decision", k));
                return;
            }
        } else {
            match sys.state_of(&s.full_state) {
                Err(m) => return bad(out, &lines, "state", format!("the initial state: {}", m)),
                Ok((l, f)) => {
                    if l != at.0 {
                        return bad(out, &lines, "state", format!("the initial location is {} instead of {}", sys.loc_text(&l), sys.loc_text(&at.0)));
                    }
                    if let Some(m) = same(&sys, &f, &at.1, &mut r) {
                        return bad(out, &lines, "state", format!("the initial state {}", m));
                    }
                }
            }
        }
        out.count("states checked", 1);
        // the decisions
        let mut covered: Vec<(String, Vec<(usize, String)>, Lt)> = vec![];
        for d in &s.new_decision_points {
            out.count("decisions checked", 1);
            match check_decision(&sys, &at, d, &mut r) {
                Err(m) => return bad(out, &lines, "decision", format!("in {} decision {} {:?}: {}", sys.loc_text(&at.0), d.action, canon::edges_text(d), m)),
                Ok((l, _, t)) => {
                    let mut e = t.edges.clone();
                    e.sort();
                    covered.push((d.action.clone(), e, l));
                }
            }
        }
        for a in sys.actions() {
            for t in sys.next(&at.0, &a) {
                let mut e = t.edges.clone();
                e.sort();
                let f = source(&sys, &at.1, &t);
                if let Some(v) = f.sample(&mut r) {
                    if !covered.contains(&(a.clone(), e.clone(), t.target.clone())) {
                        return bad(out, &lines, "missing", format!("in {} at {} action {} by {:?} to {} is possible but not offered", sys.loc_text(&at.0), sys.val_text(&v), a, e, sys.loc_text(&t.target)));
                    }
                }
            }
        }
        // one concrete run through the session: from where it is, let time pass and see what is possible
        if let Some(v) = &valuation {
            for _ in 0..3 {
                let w = crate::refsem::delay(v, sys.pick_delay(&mut r, &at.0, v));
                if !at.1.has(&w) {
                    continue;
                }
                for a in sys.actions() {
                    for t in sys.next(&at.0, &a) {
                        if !sys.enabled(&t, &w) {
                            continue;
                        }
                        let hit = s.new_decision_points.iter().any(|d| {
                            d.action == a && sys.state_of(&d.source).map_or(false, |(_, f)| f.has(&w)) && sys.state_of(&d.destination).map_or(false, |(l, f)| l == t.target && f.has(&crate::refsem::apply(&t.upd, &w)))
                        });
                        out.count("concrete steps checked", 1);
                        if !hit {
                            return bad(out, &lines, "run", format!("in {} at {} action {} to {} is possible but no decision covers it", sys.loc_text(&at.0), sys.val_text(&w), a, sys.loc_text(&t.target)));
                        }
                    }
                }
            }
        }
        if k == p.steps.len() || s.new_decision_points.is_empty() {
            break;
        }
        // choose
        let (pick, narrow, _) = p.steps[k];
        let mut ds: Vec<&pb::Decision> = s.new_decision_points.iter().collect();
        ds.sort_by_key(|d| canon::decision_json(d).to_string());
        let mut d = ds[(pick % ds.len() as u64) as usize].clone();
        let (_, mut sf) = sys.state_of(&d.source).unwrap();
        let (dl, df) = sys.state_of(&d.destination).unwrap();
        // the client may restrict the clock values at which it takes the decision
        if narrow % 3 != 0 && sys.clocks > 0 {
            if let Some(v) = sf.sample(&mut r) {
                let z = d.source.as_mut().unwrap().zone.as_mut().unwrap();
                let mut clocks: Vec<(pb::Clock, usize)> = vec![];
                for (i, c) in sys.comps.iter().enumerate() {
                    for (x, n) in c.clocks.iter().enumerate() {
                        let cc = pb::clock::ComponentClock { component_instance: Some(pb::ComponentInstance { component_name: c.name.clone(), component_index: i as u32 }), clock_name: n.clone() };
                        clocks.push((pb::Clock { clock: Some(pb::clock::Clock::ComponentClock(cc)) }, sys.base[i] + x));
                    }
                }
                if !clocks.is_empty() {
                    let (c, i) = clocks[(narrow / 3) as usize % clocks.len()].clone();
                    let zero = pb::Clock { clock: Some(pb::clock::Clock::ZeroClock(Default::default())) };
                    let (lo, hi) = (v[i].div_euclid(SC), v[i].div_euclid(SC) + (v[i].rem_euclid(SC) != 0) as i64);
                    for conj in &mut z.conjunctions {
                        if narrow & 64 == 0 {
                            conj.constraints.push(pb::Constraint { x: Some(c.clone()), y: Some(zero.clone()), strict: lo != hi && narrow & 128 != 0, c: hi as i32 });
                        }
                        if narrow & 64 != 0 || narrow & 256 != 0 {
                            conj.constraints.push(pb::Constraint { x: Some(zero.clone()), y: Some(c.clone()), strict: lo != hi && narrow & 128 != 0, c: -lo as i32 });
                        }
                    }
                    out.count("decisions narrowed by the client", 1);
                    sf = sys.state_of(&d.source).unwrap().1;
                }
            }
        }
        let ts: Vec<Tr> = sys.next(&at.0, &d.action).into_iter().filter(|t| !sys.post(&sf, t).is_empty()).collect();
        open = ts.len();
        let mine = meant(&sys, &at.0, &d, &dl).unwrap();
        lines.push(format!("{} by {:?} to {}", d.action, canon::edges_text(&d), sys.loc_text(&dl)));
        out.trace = mix2(out.trace, hash_str(lines.last().unwrap()));
        valuation = sf.sample(&mut r).map(|v| crate::refsem::apply(&mine[0].upd, &v));
        at = if open == 1 { (ts[0].target.clone(), sys.post(&sf, &ts[0])) } else { (dl, df) };
        sent = Some(d.destination.clone());
        req = Req::Step(pb::SimulationStepRequest { simulation_info: Some(info()), chosen_decision: Some(d) });
        out.count("steps taken", 1);
    }
    if lines.len() >= 2 {
        out.nontrivial = true;
    }
    std::mem::forget(b);
    out.sample = json!({"composition": p.text, "run": lines});
}

impl Scenario for C08 {
    fn plan(&self, seed: u64, _: u64) -> Value {
        let mut r = Rng::new(seed);
        let text = gen_text(&mut r);
        let n = 1 + r.below(9);
        let mut comps = gen_comps(&mut r);
        if self.words {
            words(&mut r, &mut comps, true);
        }
        let p = Plan {
            seed: r.next(),
            hash_seed: r.next(),
            words: self.words,
            comps,
            text,
            hash: if r.chance(1, 2) { 0 } else { 9 },
            steps: (0..n).map(|_| (r.next() % 10000, r.next() % 100000, [0, 0, 1, 2, 3][r.below(5)])).collect(),
        };
        serde_json::to_value(p).unwrap()
    }

    fn run(&self, plan: &Value, _: Option<Sched>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut out = RunOut::default();
        out.trace = hash_str(&p.text);
        let mut out = solo(p.seed, p.hash_seed, 400_000_000, out, move |o| session(&p, o));
        let t = out.trace;
        out.take_sched();
        out.sched = vec![];
        out.trace = mix2(t, sched::trace_hash());
        out.distinct = vec![mix2(t, hash_str(&plan["comps"].to_string()))];
        out
    }

    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut v = vec![];
        if !p.steps.is_empty() {
            let mut q = p.clone();
            q.steps.pop();
            v.push(q);
        }
        for i in 0..p.steps.len() {
            if p.steps[i].2 != 0 || p.steps[i].1 % 3 != 0 {
                let mut q = p.clone();
                q.steps[i].2 = 0;
                q.steps[i].1 = 0;
                v.push(q);
            }
        }
        for i in 0..p.comps.len() {
            if p.comps[i].spell != 0 {
                let mut q = p.clone();
                q.comps[i].spell = 0;
                v.push(q);
            }
        }
        for q in shrink_comps(&p.comps) {
            v.push(Plan { comps: q, ..p.clone() });
        }
        v.into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
    }

    fn describe(&self, plan: &Value) -> Value {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        json!({"composition": p.text, "components": p.comps.iter().map(comp_text).collect::<Vec<_>>(), "steps (decision, narrowing, fault)": p.steps})
    }
}

pub fn comp_text(c: &Comp) -> Vec<String> {
    let j = c.json();
    let text = |v: &Value| v.as_str().unwrap().to_string();
    let mut v = vec![format!("{} clocks {:?}", c.name, c.clocks)];
    if c.spell != 0 {
        v.push(format!("  declarations {:?}", text(&j["declarations"])));
    }
    for (n, l) in c.locs.iter().enumerate() {
        v.push(format!("  {} {} {}", l.id, l.kind, text(&j["locations"][n]["invariant"])));
    }
    for (n, e) in c.edges.iter().enumerate() {
        v.push(format!(
            "  {}: {} -> {} {}{} [{}] {}",
            e.id,
            c.locs[e.src].id,
            c.locs[e.dst].id,
            e.sync,
            if e.input { "?" } else { "!" },
            text(&j["edges"][n]["guard"]),
            text(&j["edges"][n]["update"])
        ));
    }
    v
}

/// Smaller variants of a model: without an edge, a guard, an invariant or a reset.
pub fn shrink_comps(comps: &[Comp]) -> Vec<Vec<Comp>> {
    let mut v = vec![];
    for i in 0..comps.len() {
        let c = &comps[i];
        let mut push = |n: Comp| {
            if n.edge_ins() == c.edge_ins() && n.edge_outs() == c.edge_outs() {
                let mut q = comps.to_vec();
                q[i] = n;
                v.push(q);
            }
        };
        for k in 0..c.edges.len() {
            let mut n = c.clone();
            n.edges.remove(k);
            push(n);
            if !c.edges[k].guard.is_empty() {
                let mut n = c.clone();
                n.edges[k].guard.clear();
                push(n);
            }
            if !c.edges[k].resets.is_empty() {
                let mut n = c.clone();
                n.edges[k].resets.clear();
                push(n);
            }
        }
        for k in 0..c.locs.len() {
            if !c.locs[k].inv.is_empty() {
                let mut n = c.clone();
                n.locs[k].inv.clear();
                push(n);
            }
        }
    }
    v
}
