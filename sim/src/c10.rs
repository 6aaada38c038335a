//! The same question under other hash seeds, orders, histories, settings and programs.
use crate::c08::{self, comp_text, gen_text, shrink_comps};
use crate::c09;
use crate::c12;
use crate::c16;
use crate::c17::{cut_by_reduction, unsettled};
use crate::canon;
use crate::model::{self, Comp, GenCfg};
use crate::refsem::Sys;
use crate::rng::{mix2, Rng};
use crate::runner::{isolate, RunOut, Scenario, Sched};
use crate::sched;
use crate::server::rep_kind;
use crate::w1::hash_str;
use crate::w2;
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simglue::{call, Rep, Req};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Item {
    text: String,
    exprs: Vec<String>,
    /// disable_clock_reduction
    red: Option<bool>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sess {
    hash_seed: u64,
    /// How the components are ordered in the requests.
    perm: u64,
    /// The questions asked, in this order.
    order: Vec<usize>,
    /// What else is asked in between (0: nothing).
    noise: u64,
    cached: bool,
    /// The command line program instead, with or without clock reduction.
    cli: Option<bool>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    seed: u64,
    hash_seed: u64,
    comps: Vec<Comp>,
    items: Vec<Item>,
    sessions: Vec<Sess>,
}

/// Settings and histories, or everything but the settings.
pub struct C10 {
    pub settings: bool,
}

/// Many clients at once, with settings of their own, and one cached model.
const CLIENTS: crate::w1::W1 = crate::w1::W1 { focus: "C11" };

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Ans {
    kind: String,
    clocks: Option<usize>,
}

impl Ans {
    fn of(rep: &Rep) -> Ans {
        match rep {
            Rep::Query(q) => Ans { kind: canon::kind(q), clocks: clocks(rep) },
            x => Ans { kind: rep_kind(x).to_string(), clocks: None },
        }
    }
    fn verdict(&self) -> &'static str {
        let k = self.kind.split(':').next().unwrap();
        match k {
            "success" | "reachable" | "component" => "holds",
            "unreachable" | "refinement fails" | "inconsistent" | "nondeterministic" => "fails",
            _ => "refused",
        }
    }
}

/// How many clocks a component in a reply declares.
pub fn clocks(rep: &Rep) -> Option<usize> {
    use pb::query_response::Result::Component;
    let Rep::Query(Ok(q)) = rep else { return None };
    let Some(Component(c)) = &q.result else { return None };
    let Some(pb::component::Rep::Json(j)) = &c.rep else { return None };
    let v: Value = serde_json::from_str(j).ok()?;
    let d = v["declarations"].as_str()?;
    Some(d.split("clock ").skip(1).map(|p| p.split(';').next().unwrap_or("").split(',').filter(|x| !x.trim().is_empty()).count()).sum())
}

fn info(comps: &[Comp], perm: u64, hash: u32) -> pb::ComponentsInfo {
    let mut v: Vec<&Comp> = comps.iter().collect();
    if perm != 0 {
        Rng::new(perm).shuffle(&mut v);
    }
    pb::ComponentsInfo { components: v.iter().map(|c| pb::Component { rep: Some(pb::component::Rep::Json(c.text())) }).collect(), components_hash: hash }
}

fn query(i: &Item, inf: pb::ComponentsInfo) -> Req {
    if let Some(t) = i.text.strip_prefix("simulate: ") {
        return Req::Start(pb::SimulationStartRequest { simulation_info: Some(pb::SimulationInfo { component_composition: t.into(), components_info: Some(inf), user_id: 1 }) });
    }
    Req::Query(pb::QueryRequest {
        user_id: 1,
        query_id: 5,
        query: i.text.clone(),
        components_info: Some(inf),
        settings: i.red.map(|d| pb::query_request::Settings { disable_clock_reduction: d }),
    })
}

const BUDGET: u64 = 25_000_000;

/// A server process that is asked all this.
fn session(seed: u64, hash_seed: u64, f: impl FnOnce(&mut Vec<Ans>, &mut u64) + Send + 'static) -> Option<(Vec<Ans>, u64, u64)> {
    let v = isolate(8, || {
        let o = c08::solo(seed, hash_seed, BUDGET, RunOut::default(), move |o| {
            let (mut v, mut n) = (vec![], 0);
            f(&mut v, &mut n);
            o.sample = serde_json::to_value((v, n)).unwrap();
        });
        if o.inconclusive.is_some() {
            return Value::Null;
        }
        json!([o.sample, sched::trace_hash()])
    })?;
    let ((v, n), t): ((Vec<Ans>, u64), u64) = serde_json::from_value(v).ok()?;
    Some((v, n, t))
}

fn noise(r: &mut Rng, comps: &[Comp], items: &[Item]) -> Req {
    // the same names, other content
    let other: Vec<Comp> = comps.iter().map(|c| model::mutate(r, c, &c.name, None, &GenCfg::default())).collect();
    let h = *r.pick(&[0, 0, 8, 9]);
    let sim = |t: &str, user: i32, i| Req::Start(pb::SimulationStartRequest { simulation_info: Some(pb::SimulationInfo { component_composition: t.into(), components_info: Some(i), user_id: user }) });
    let q = |r: &mut Rng, t: &str, user: i32, i| {
        Req::Query(pb::QueryRequest { user_id: user, query_id: 6, query: t.into(), components_info: Some(i), settings: r.pick(&[None, Some(true), Some(false)]).map(|d| pb::query_request::Settings { disable_clock_reduction: d }) })
    };
    if !items.is_empty() && r.chance(1, 2) {
        // the very question, about other content
        let i = r.pick(items).clone();
        return query(&i, info(&other, 0, h));
    }
    match r.below(8) {
        0 => sim("A", 1, info(comps, 0, 7)),
        1 => sim("A || B", 1, info(&other, 0, h)),
        2 => q(r, "consistency: A", 1, info(&other, 0, h)),
        3 => q(r, "refinement: A <= A2", 2, info(&other, 0, 7)),
        4 => q(r, "consistency: A; consistency: Nowhere", 1, info(comps, 0, 7)),
        5 => q(r, "this is not a query", 1, info(comps, 0, 7)),
        6 => q(r, "get-component: A || D save-as A", 1, info(comps, 0, 7)),
        _ => Req::Token,
    }
}

impl C10 {
    fn name(&self) -> &'static str {
        if self.settings {
            "C11"
        } else {
            "C10"
        }
    }
    fn go(&self, p: &Plan, out: &mut RunOut) {
        let prop = self.name();
        let mut lines = vec![];
        // each alone
        let mut base: Vec<Option<Ans>> = vec![];
        if p.sessions.is_empty() {
            // alone on a server each, all servers in one process
            let (items, comps) = (p.items.clone(), p.comps.clone());
            let a = session(mix2(p.seed, 0xa11), p.hash_seed, move |v, _| {
                for i in &items {
                    let b = sched::real(|| ConcreteEcdarBackend::new(1, 2));
                    let rep = sched::real(|| call(&b, query(i, info(&comps, 0, 7))));
                    v.push(Ans::of(&rep));
                    std::mem::forget(b);
                }
            });
            if let Some((v, _, t)) = a {
                out.trace = mix2(out.trace, t);
                base = v.into_iter().map(Some).collect();
                out.count("runs of many questions", 1);
            }
        }
        for (k, i) in p.items.iter().enumerate() {
            if let Some(Some(a)) = base.get(k) {
                lines.push(format!("{} (clock reduction disabled {:?}): {}", i.text, i.red, a.kind.chars().take(80).collect::<String>()));
                continue;
            }
            let (i2, comps) = (i.clone(), p.comps.clone());
            let a = session(mix2(p.seed, k as u64), p.hash_seed, move |v, _| {
                let b = sched::real(|| ConcreteEcdarBackend::new(1, 2));
                let rep = sched::real(|| call(&b, query(&i2, info(&comps, 0, 7))));
                v.push(Ans::of(&rep));
                std::mem::forget(b);
            });
            if let Some((_, _, t)) = &a {
                out.trace = mix2(out.trace, *t);
            }
            let a = a.and_then(|x| x.0.into_iter().next());
            match &a {
                Some(a) => {
                    out.count(&format!("answers alone: {}", a.verdict()), 1);
                    lines.push(format!("{} (clock reduction disabled {:?}): {}", i.text, i.red, a.kind.chars().take(80).collect::<String>()));
                }
                None => out.count("questions left out (too slow alone)", 1),
            }
            base.push(a);
        }
        let cut = |i: &Item| i.exprs.iter().any(|e| cut_by_reduction(&Sys::new(e, &p.comps)));
        // An answer about consistency, and one of the parts has no certain answer
        let gap = |i: &Item, kinds: &[&str]| {
            kinds.iter().any(|k| (k.contains("inconsistent") && !k.contains("determinism")) || k.starts_with("model failure"))
                && i.exprs.iter().any(|e| unsettled(&Sys::new(e, &p.comps)))
        };
        if self.settings {
            // the same question with other settings
            for (k, i) in p.items.iter().enumerate() {
                for (m, j) in p.items.iter().enumerate().skip(k + 1) {
                    let (Some(a), Some(b)) = (&base[k], &base[m]) else { continue };
                    if i.text != j.text {
                        continue;
                    }
                    out.count("pairs of settings compared", 1);
                    out.nontrivial = true;
                    if a.clocks != b.clocks {
                        out.count("saved components with fewer clocks by clock reduction", 1);
                    }
                    if a.verdict() != b.verdict() {
                        let sig = match () {
                            _ if cut(i) => "reduced-part",
                            _ if gap(i, &[&a.kind, &b.kind]) => "unsettled-part",
                            _ => "settings",
                        };
                        let d = |x: Option<bool>| match x {
                            Some(true) => "with clock reduction disabled",
                            Some(false) => "with clock reduction enabled",
                            None => "without settings",
                        };
                        return out.viol(prop, sig, sig, format!("{}: {} {}, {} {}", i.text, a.kind, d(i.red), b.kind, d(j.red)));
                    }
                }
            }
        }
        for (s, se) in p.sessions.iter().enumerate() {
            let order: Vec<usize> = se.order.iter().cloned().filter(|k| base[*k].is_some()).collect();
            if order.is_empty() {
                continue;
            }
            if let Some(reduce) = se.cli {
                let order: Vec<usize> = order.into_iter().filter(|k| !p.items[*k].text.starts_with("simulate") && (self.settings || p.items[*k].red.map_or(false, |d| !d) == reduce)).collect();
                let mut comps = p.comps.clone();
                if se.perm != 0 {
                    Rng::new(se.perm).shuffle(&mut comps);
                }
                let listed: Vec<String> = comps.iter().map(|c| c.name.clone()).collect();
                let disk = w2::project(&comps, &listed, &[], false);
                let qs: Vec<String> = order.iter().map(|k| p.items[*k].text.clone()).collect();
                if qs.is_empty() {
                    continue;
                }
                let (ran, a) = c12::ask(&disk, &[], &qs, reduce, se.hash_seed);
                out.trace = mix2(out.trace, mix2(ran.trace, hash_str(&ran.text)));
                out.sim_ns += ran.ns;
                out.count("processes of the command line program", 1);
                for (n, k) in order.iter().enumerate() {
                    let got = match a[n].as_str() {
                        "Property is satisfied" | "Component succesfully created" => "holds",
                        "Property is NOT satisfied" => "fails",
                        x if x.starts_with("Panic") => "refused",
                        _ => {
                            out.count("questions without an answer in time", 1);
                            continue;
                        }
                    };
                    let want = base[*k].as_ref().unwrap();
                    out.count("answers compared (command line)", 1);
                    out.nontrivial = true;
                    if got != want.verdict() {
                        let (i, other) = (&p.items[*k], reduce != (p.items[*k].red == Some(false)));
                        let sig = match () {
                            _ if (reduce || i.red == Some(false)) && cut(i) => "reduced-part",
                            _ if other && gap(i, &["inconsistent"]) => "unsettled-part",
                            _ => "command-line",
                        };
                        return out.viol(prop, sig, sig, format!("{}: {:?} from the command line program (clock reduction {}) after {:?}, {} from a server", p.items[*k].text, a[n], if reduce { "enabled" } else { "disabled" }, &qs[..n], want.kind));
                    }
                }
                continue;
            }
            let (se2, comps, items, ord) = (se.clone(), p.comps.clone(), p.items.clone(), order.clone());
            let got = session(mix2(p.seed, 0x5e55 + s as u64), se.hash_seed, move |v, n| {
                let b = sched::real(|| ConcreteEcdarBackend::new(1, 2));
                let mut r = Rng::new(se2.noise);
                for k in &ord {
                    while se2.noise != 0 && r.chance(2, 5) {
                        let req = noise(&mut r, &comps, &items);
                        let rep = sched::real(|| call(&b, req));
                        std::mem::forget(rep);
                        *n += 1;
                    }
                    let rep = sched::real(|| call(&b, query(&items[*k], info(&comps, se2.perm, if se2.cached { 7 } else { 0 }))));
                    v.push(Ans::of(&rep));
                }
                std::mem::forget(b);
            });
            let Some((got, n, t)) = got else {
                out.count("sessions without an end in time", 1);
                continue;
            };
            out.trace = mix2(out.trace, t);
            out.count("requests in between", n);
            if se.noise != 0 {
                out.count("sessions with other requests in between", 1);
            }
            if se.perm != 0 {
                out.count("sessions with components in another order", 1);
            }
            out.count("sessions with other hash seeds", 1);
            for (n, k) in order.iter().enumerate() {
                let (a, w, i) = (&got[n], base[*k].as_ref().unwrap(), &p.items[*k]);
                out.count("answers compared", 1);
                out.trace = mix2(out.trace, hash_str(a.verdict()));
                if n > 0 || !self.settings {
                    out.nontrivial = true;
                }
                let before: Vec<String> = order[..n].iter().map(|k| format!("{} ({:?})", p.items[*k].text, p.items[*k].red)).collect();
                let what = || {
                    format!(
                        "{} (clock reduction disabled {:?}) on a server{} with hash seed {:x}{}, after {:?}",
                        i.text, i.red, if se.cached { "" } else { " that does not keep the model" }, se.hash_seed, if se.perm != 0 { " and components in another order" } else { "" }, before
                    )
                };
                if a.verdict() != w.verdict() {
                    let sig = if self.settings { "leak" } else { "verdict" };
                    return out.viol(prop, sig, sig, format!("{}: {}, but alone {}", what(), a.kind, w.kind));
                }
                if self.settings && a.kind == w.kind && a.clocks != w.clocks {
                    return out.viol(prop, "leak", "leak", format!("{}: {} with {:?} clocks, but alone with {:?}", what(), a.kind, a.clocks, w.clocks));
                }
            }
        }
        out.sample = json!({"questions": lines, "sessions": p.sessions.len()});
    }
}

/// More clocks than needed: twins that always show the same, and clocks nobody looks at.
pub fn twins(r: &mut Rng, c: &mut Comp, tag: &str) {
    if c.clocks.len() >= 3 {
        return;
    }
    let n = c.clocks.len();
    c.clocks.push(format!("{}{}", ["u", "v", "w"][n], tag));
    if n == 0 || r.chance(1, 3) {
        // nobody looks at it, though it may be reset
        for e in c.edges.iter_mut() {
            if r.chance(1, 4) {
                e.resets.push((n, r.range(0, 2) as i32));
            }
        }
        return;
    }
    let x = r.below(n);
    // now and then they differ: by a reset, by the value of one, by the order of several
    let slip = r.below(6);
    for e in c.edges.iter_mut() {
        let mut v: Vec<(usize, i32)> = e.resets.iter().filter(|y| y.0 == x).map(|y| (n, y.1)).collect();
        if r.chance(1, 3) {
            match slip {
                0 => v.clear(),
                1 => v.iter_mut().for_each(|y| y.1 = (y.1 + 1) % 3),
                2 if !v.is_empty() => v.push((n, r.range(0, 2) as i32)),
                3 if !v.is_empty() => {
                    let k = r.range(0, 2) as i32;
                    v.insert(0, (n, k));
                }
                _ => {}
            }
        }
        e.resets.extend(v);
        for a in e.guard.iter_mut().flatten() {
            if a.clock == x && r.chance(1, 2) {
                a.clock = n;
            }
        }
    }
    for l in c.locs.iter_mut() {
        for a in l.inv.iter_mut() {
            if a.clock == x && r.chance(1, 2) {
                a.clock = n;
            }
        }
    }
}

fn gen_models(r: &mut Rng) -> Vec<Comp> {
    let mut comps = if r.chance(1, 3) {
        c09::big_comps(r)
    } else {
        let cfg = GenCfg {
            max_locs: 1 + r.below(4),
            max_clocks: 1 + r.below(2),
            max_const: 1 + r.below(5) as i32,
            disj: r.chance(1, 4),
            nondet: *r.pick(&[0, 0, 4, 20]),
            inv: *r.pick(&[10, 35, 60]),
            ..Default::default()
        };
        model::gen_model(r, "_e", &cfg)
    };
    if r.chance(1, 2) {
        comps[1] = c16::widened(r, &comps[0]);
    } else if r.chance(2, 3) {
        // the same with a clock more, which may or may not make a difference
        comps[1] = comps[0].clone();
        twins(r, &mut comps[1], "_e");
    }
    comps[1].name = "A2".into();
    for c in comps.iter_mut() {
        if r.chance(1, 3) {
            twins(r, c, "_e");
        }
    }
    comps
}

fn gen_item(r: &mut Rng, comps: &[Comp]) -> (String, Vec<String>) {
    let known = |s: &str| !s.contains('F') && !s.contains("D2");
    match r.below(10) {
        0..=3 => loop {
            let (l, t) = if r.chance(1, 4) { *r.pick(&[("A", "A2"), ("A2", "A"), ("A2 || B", "A || B"), ("A || B", "A2 || B")]) } else { *r.pick(c16::FORMS) };
            if known(l) && known(t) {
                return (format!("refinement: {} <= {}", l, t), vec![l.into(), t.into()]);
            }
        },
        4 | 5 => {
            let e = gen_text(r);
            (format!("consistency: {}", e), vec![e])
        }
        6 => {
            let e = gen_text(r);
            (format!("determinism: {}", e), vec![e])
        }
        _ => {
            let e = gen_text(r);
            let sys = Sys::new(&e, comps);
            let init = (sys.initial(), vec![0; sys.clocks]);
            let n = 1 + r.below(10);
            let w = if sys.inv_of(&init.0).eval(&init.1) { c09::walk(r, &sys, init, n) } else { vec![init] };
            let (l, v) = w.last().unwrap();
            match c09::describe_state(r, &sys, l, v, false, false) {
                Some(mut d) => {
                    if r.chance(1, 2) {
                        for i in 0..d.locs.len() {
                            if r.chance(1, 2) {
                                d.locs[i] = Some(r.below(sys.comps[i].locs.len()));
                            }
                        }
                    }
                    (format!("reachability: {} @ init -> {}", c09::named_text(&e, &c09::leaf_names(&sys)), d.text(&sys)), vec![e])
                }
                None => (format!("consistency: {}", e), vec![e]),
            }
        }
    }
}

/// B cannot go on once it has got o, which A never sends: only that part of B reads its clock.
fn unused_part(comps: &mut Vec<Comp>) {
    use crate::model::{Atom, Edge, Loc};
    let loc = |id: &str, first: bool, inv: Vec<Atom>| Loc { id: format!("{}_e", id), inv, kind: if first { "INITIAL" } else { "NORMAL" }.into() };
    let edge = |id: &str, src, dst, input, sync: &str| Edge { id: format!("{}_e", id), src, dst, input, sync: sync.into(), guard: vec![], resets: vec![] };
    comps[0].clocks.clear();
    comps[0].locs = vec![loc("L0", true, vec![]), loc("L1", false, vec![])];
    comps[0].edges = vec![edge("E0", 0, 0, true, "i"), edge("E1", 1, 1, false, "o")];
    comps[2].clocks = vec!["x_e".into()];
    comps[2].locs = vec![loc("L0", true, vec![]), loc("L1", false, vec![Atom::new(0, "<=", 1)])];
    comps[2].edges = vec![edge("E0", 0, 1, true, "o"), edge("E1", 0, 0, false, "q")];
}

impl Scenario for C10 {
    fn plan(&self, seed: u64, idx: u64) -> Value {
        let mut r = Rng::new(seed);
        if self.settings && r.chance(1, 8) {
            return json!({"w1": CLIENTS.plan(r.next(), idx)});
        }
        let mut comps = gen_models(&mut r);
        // only the settings, many questions
        let many = self.settings && r.chance(2, 3);
        // clocks that hardly differ, and what tells them apart
        let close = many && r.chance(1, 2);
        if close {
            let cfg = GenCfg { max_locs: 1 + r.below(3), max_clocks: 1, max_const: 3, disj: r.chance(1, 4), nondet: 25, inv: 20, ..Default::default() };
            comps = model::gen_model(&mut r, "_e", &cfg);
            for c in comps.iter_mut() {
                twins(&mut r, c, "_e");
                if r.chance(1, 3) {
                    twins(&mut r, c, "_e");
                }
            }
        }
        let unused = self.settings && r.chance(1, 100);
        if unused {
            unused_part(&mut comps);
        }
        let n = if many { 12 } else if self.settings { 1 + r.below(3) } else { 2 + r.below(4) };
        let all = *r.pick(&[None, Some(true), Some(false)]);
        let mut items = vec![];
        for _ in 0..n {
            let (mut text, mut exprs) = gen_item(&mut r, &comps);
            while many && text.starts_with("reachability") {
                // clocks are never reduced for these
                (text, exprs) = gen_item(&mut r, &comps);
            }
            if close && items.len() < 10 {
                let e = comps[items.len() / 2].name.clone();
                (text, exprs) = (format!("determinism: {}", e), vec![e]);
            }
            if unused && items.is_empty() {
                (text, exprs) = ("consistency: A || B".into(), vec!["A || B".into()]);
            }
            let reds: Vec<Option<bool>> = if many { vec![Some(true), Some(false)] } else if self.settings { vec![None, Some(true), Some(false)] } else { vec![if r.chance(1, 2) { all } else { Some(false) }] };
            items.extend(reds.into_iter().map(|red| Item { text: text.clone(), exprs: exprs.clone(), red }));
        }
        if self.settings {
            if r.chance(1, 2) {
                let e = r.pick(&["A", "A || B", "D"]).to_string();
                items.push(Item { text: format!("simulate: {}", e), exprs: vec![e], red: None });
            }
            if r.chance(2, 3) {
                let e = r.pick(&["A", "A || B", "A && A2", "D", "B", "B || D"]).to_string();
                let q = format!("get-component: {} save-as N", e);
                items.extend([Some(true), Some(false)].map(|red| Item { text: q.clone(), exprs: vec![e.clone()], red }));
            }
        }
        let sessions = (0..if many { 0 } else { 2 + r.below(3) })
            .map(|_| {
                let mut order: Vec<usize> = (0..items.len()).collect();
                r.shuffle(&mut order);
                if r.chance(1, 2) {
                    let more: Vec<usize> = order.iter().cloned().filter(|_| r.chance(1, 3)).collect();
                    order.extend(more);
                }
                Sess {
                    hash_seed: r.next(),
                    perm: if r.chance(2, 3) { r.next() | 1 } else { 0 },
                    noise: if r.chance(1, 2) { r.next() | 1 } else { 0 },
                    cached: r.chance(4, 5),
                    cli: if r.chance(1, 4) { Some(r.chance(1, 2)) } else { None },
                    order,
                }
            })
            .collect();
        serde_json::to_value(Plan { seed: r.next(), hash_seed: r.next(), comps, items, sessions }).unwrap()
    }

    fn run(&self, plan: &Value, sched: Option<Sched>) -> RunOut {
        if let Some(w) = plan.get("w1") {
            return CLIENTS.run(w, sched);
        }
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut out = RunOut::default();
        out.trace = p.seed;
        crate::program::BUDGET.store(BUDGET, std::sync::atomic::Ordering::Relaxed);
        self.go(&p, &mut out);
        out.distinct = vec![out.trace];
        out
    }

    fn shrink(&self, plan: &Value) -> Vec<Value> {
        if let Some(w) = plan.get("w1") {
            return CLIENTS.shrink(w).into_iter().map(|w| json!({"w1": w})).collect();
        }
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut v = vec![];
        if !p.sessions.is_empty() {
            v.push(Plan { sessions: vec![], ..p.clone() });
        }
        if p.sessions.len() > 1 {
            for s in &p.sessions {
                v.push(Plan { sessions: vec![s.clone()], ..p.clone() });
            }
        }
        // fewer questions
        let texts: BTreeSet<&String> = p.items.iter().map(|i| &i.text).collect();
        for t in texts {
            let keep: Vec<usize> = (0..p.items.len()).filter(|k| &p.items[*k].text != t).collect();
            if keep.is_empty() {
                continue;
            }
            let at: BTreeMap<usize, usize> = keep.iter().enumerate().map(|(n, k)| (*k, n)).collect();
            let mut q = p.clone();
            q.items = keep.iter().map(|k| p.items[*k].clone()).collect();
            for s in q.sessions.iter_mut() {
                s.order = s.order.iter().filter_map(|k| at.get(k).cloned()).collect();
            }
            v.push(q);
        }
        for (n, s) in p.sessions.iter().enumerate() {
            for k in 0..s.order.len() {
                let mut q = p.clone();
                q.sessions[n].order.remove(k);
                v.push(q);
            }
            if s.noise != 0 {
                let mut q = p.clone();
                q.sessions[n].noise = 0;
                v.push(q);
            }
            if s.perm != 0 {
                let mut q = p.clone();
                q.sessions[n].perm = 0;
                v.push(q);
            }
        }
        for q in shrink_comps(&p.comps) {
            v.push(Plan { comps: q, ..p.clone() });
        }
        v.into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
    }

    fn describe(&self, plan: &Value) -> Value {
        if let Some(w) = plan.get("w1") {
            return CLIENTS.describe(w);
        }
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        json!({"components": p.comps.iter().map(comp_text).collect::<Vec<_>>(),
            "questions": p.items.iter().map(|i| format!("{} (clock reduction disabled {:?})", i.text, i.red)).collect::<Vec<_>>(),
            "sessions": p.sessions.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>()})
    }
}
