//! Workload 1: many clients, one server process (or several replicas).
use crate::model::{self, GenCfg};
use crate::rng::{mix2, Rng};
use crate::runner::{RunOut, Scenario, Sched};
use crate::sched::{self, Woke};
use crate::server::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub struct W1 {
    pub focus: &'static str,
}

pub const ALONE_STEPS: u64 = 3_000_000;

pub fn gen_query(r: &mut Rng, m: &Model) -> String {
    let loc = |r: &mut Rng, c: &str| -> String {
        let comp = m.comps.iter().find(|k| k.name == c).unwrap();
        format!("{}.{}", c, r.pick(&comp.locs).id)
    };
    match r.below(14) {
        0 => "refinement: A <= A2".into(),
        1 => "refinement: A2 <= A".into(),
        2 => "refinement: A || B <= T".into(),
        3 => "refinement: A <= T // B".into(),
        4 => "refinement: A && A2 <= A2".into(),
        5 => "consistency: A && A2".into(),
        6 => format!("consistency: {}", r.pick(&["A", "A2", "B", "T", "D", "A || B", "T // B"])),
        7 => format!("determinism: {}", r.pick(&["A", "A2", "B", "T", "A || B", "A && A2"])),
        8 | 9 => {
            let c = *r.pick(&["A", "A2", "B", "T", "D"]);
            format!("reachability: {} @ init -> {}", c, loc(r, c))
        }
        10 | 11 => format!("reachability: A || B @ init -> {} && {}", loc(r, "A"), loc(r, "B")),
        12 => format!("get-component: {} save-as New", r.pick(&["A", "A || B", "A && A2", "B || D"])),
        _ => format!("reachability: A || D || B @ init -> {} && {}", loc(r, "A"), loc(r, "D")),
    }
}

pub fn gen_sim_text(r: &mut Rng) -> String {
    r.pick(&["A", "B", "T", "A || B", "A && A2", "A || B || D", "D || A", "T // B", "(A && A2) || B"]).to_string()
}

impl W1 {
    fn gen(&self, seed: u64, idx: u64) -> Plan {
        let mut r = Rng::new(seed);
        let f = self.focus;
        // a storm: tiny requests of one or two users over several versions, all at once
        let storm = match f {
            "C02" => r.chance(2, 5),
            "C01" | "C04" | "C07" => r.chance(1, 5),
            _ => false,
        };
        let nusers = if f == "C11" { 1 } else if storm { 1 + r.below(2) } else { 1 + r.below(3) };
        let mut models = vec![];
        // all models of all users speak of the same locations, edges and clocks: replies tell them apart
        // by what they say only
        let alike = f != "C06" && r.chance(2, 5);
        let mut base: Option<Vec<model::Comp>> = None;
        for u in 1..=nusers {
            let nv = if f == "C11" { 1 + r.below(2) } else if storm { 2 + r.below(2) } else { 1 + r.below(3) };
            if !alike {
                base = None;
            }
            let cfg = GenCfg { max_locs: if storm { 1 } else { 3 }, max_clocks: 1 + r.below(2), ..Default::default() };
            for v in 1..=nv {
                let tag = if alike { "_u0v0e".into() } else { format!("_u{}v{}e", u, v) };
                let comps = match &base {
                    Some(b) if r.chance(1, 2) || alike && r.chance(4, 5) => {
                        let old = if alike { tag.clone() } else { format!("_u{}v1e", u) };
                        b.iter()
                            .map(|c| {
                                let mut m = model::mutate(&mut r, c, &c.name, Some((&old, &tag)), &cfg);
                                model::complete_interface(&mut r, &mut m, &tag);
                                m
                            })
                            .collect()
                    }
                    _ => model::gen_model(&mut r, &tag, &cfg),
                };
                let mut comps: Vec<model::Comp> = comps;
                if f == "C11" {
                    comps.iter_mut().for_each(|c| crate::c10::twins(&mut r, c, &tag));
                }
                if base.is_none() {
                    base = Some(comps.clone());
                }
                // The same hash value may be used by different users, never by one user for two models.
                models.push(Model { user: u as i32, tag, hash: v as u32, comps });
            }
        }
        let nclients = match f {
            "C06" => 2 + r.below(4),
            _ if storm => 3 + r.below(4),
            _ => 2 + r.below(3),
        };
        let mut clients = vec![];
        // a burst: every client sends at once over a network without delays
        let burst = storm || r.chance(2, 5) || (f == "C06" && r.chance(1, 2));
        let nops = match f {
            "C06" => 4,
            "C07" => 2,
            _ if storm => 6,
            _ => 3,
        };
        for _ in 0..nclients {
            let mut ops = vec![];
            let home = r.below(models.len());
            for _ in 0..1 + r.below(nops) {
                // mostly the client's own user, any of its versions
                let mi = if r.chance(1, 3) {
                    home
                } else {
                    let same: Vec<usize> = (0..models.len()).filter(|&k| models[k].user == models[home].user).collect();
                    *r.pick(&same)
                };
                let cached = r.chance(4, 5);
                let w = match f {
                    "C06" => [70, 25, 5, 0],
                    "C07" => [3, 22, 75, 0],
                    "C04" => [5, 40, 15, 40],
                    "C02" => [0, 70, 28, 2],
                    "C11" => [0, 85, 15, 0],
                    _ => [5, 65, 25, 5],
                };
                let x = r.below(100);
                let op = if storm && r.chance(9, 10) {
                    if r.chance(1, 2) {
                        Op::Sim { model: mi, text: "D".into(), cached: true, picks: vec![] }
                    } else {
                        Op::Query { model: mi, text: "get-component: D save-as New".into(), cached: true, settings: None }
                    }
                } else if x < w[0] {
                    Op::Token
                } else if x < w[0] + w[1] {
                    Op::Query { model: mi, text: if f == "C11" && r.chance(1, 3) { format!("get-component: {} save-as New", r.pick(&["A", "B || D", "D", "B", "A || B"])) } else { gen_query(&mut r, &models[mi]) }, cached, settings: *r.pick(&[None, Some(true), Some(false)]) }
                } else if x < w[0] + w[1] + w[2] {
                    let n = r.below(5);
                    Op::Sim { model: mi, text: gen_sim_text(&mut r), cached, picks: (0..n).map(|_| r.next() % 1000).collect() }
                } else {
                    let sim = r.chance(1, 3);
                    let (text, how) = match r.below(14) {
                        0 => ("consistency: A".to_string(), 0),
                        1 => ("consistency: A".to_string(), 1),
                        2 => ("refinement: A <= A2".to_string(), 2),
                        3 => ("refinement: A <= A2".to_string(), 3),
                        4 => ("consistency: Nowhere".to_string(), 9),
                        5 => ("consistency: A; consistency: B".to_string(), 9),
                        6 => ("reachability: A @ init -> A.Nowhere".to_string(), 9),
                        7 => ("this is not a query".to_string(), 9),
                        8 => ("".to_string(), 9),
                        _ => (r.pick(&["refinement: A <= A2", "consistency: A", "consistency: B", "determinism: A"]).to_string(), 4 + r.below(5) as u32),
                    };
                    let text = if sim { text.split_once(": ").map_or(text.clone(), |x| x.1.split(" <=").next().unwrap().to_string()) } else { text };
                    Op::Bad { model: mi, text, how, cached, sim }
                };
                let gap = if burst || r.chance(1, 2) { 0 } else { (r.next() % 40) * MS };
                ops.push((gap, op));
            }
            clients.push(ops);
        }
        let len = *r.pick(&[3_000u64, 30_000, 300_000]);
        let crashes = if r.chance(1, 3) || (f == "C07" && r.chance(1, 2)) { 1 + r.below(2) } else { 0 };
        let net = if burst || r.chance(1, 4) {
            Net { loss: 0, dup: 0, max_delay: if burst { 1 } else { MS }, timeout: 5000 * MS, partitions: vec![], heal: 0 }
        } else {
            Net {
                loss: *r.pick(&[0u32, 50, 250]),
                dup: *r.pick(&[0u32, 100, 300]),
                max_delay: *r.pick(&[MS, 20 * MS, 200 * MS]),
                timeout: *r.pick(&[20u64, 100, 1000]) * MS,
                partitions: (0..r.below(3)).map(|_| (r.below(nclients), (r.next() % 500) * MS, (r.next() % 3000) * MS)).collect(),
                heal: 3000 * MS,
            }
        };
        let _ = idx;
        Plan {
            seed: r.next(),
            hash_seed: r.next(),
            pool: 1 + r.below(3),
            disp: if burst { 2 + r.below(4) } else if r.chance(1, 4) { 1 } else { 2 + r.below(3) },
            replicas: if f == "C07" { 1 + r.below(3) } else { 1 },
            cap: 1 + r.below(3),
            pol: Pol::gen(&mut r, len, crashes),
            net,
            models,
            clients,
        }
    }
}

fn tags(s: &str) -> BTreeSet<String> {
    let b = s.as_bytes();
    let mut out = BTreeSet::new();
    let mut i = 0;
    while i + 4 < b.len() {
        if b[i] == b'_' && b[i + 1] == b'u' && b[i + 2].is_ascii_digit() {
            let mut j = i + 2;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j + 1 < b.len() && b[j] == b'v' {
                j += 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                if j < b.len() && b[j] == b'e' {
                    out.insert(s[i..=j].to_string());
                    i = j;
                    continue;
                }
            }
        }
        i += 1;
    }
    out
}

impl Scenario for W1 {
    fn plan(&self, seed: u64, idx: u64) -> Value {
        serde_json::to_value(self.gen(seed, idx)).unwrap()
    }

    fn run(&self, plan: &Value, sched: Option<Sched>) -> RunOut {
        let mut plan: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut out = RunOut::default();
        // What every operation is answered on its own, each by a fresh server in a process of its own.
        let mut memo: BTreeMap<String, Option<Alone>> = BTreeMap::new();
        let mut expect: Vec<Vec<Option<Alone>>> = vec![];
        let mut total = 0u64;
        let mut dropped = 0;
        let base = Plan { clients: vec![], ..plan.clone() };
        for ops in plan.clients.iter_mut() {
            let mut keep = vec![];
            let mut exp = vec![];
            for (d, op) in std::mem::take(ops) {
                if op == Op::Token {
                    exp.push(None);
                    keep.push((d, op));
                    continue;
                }
                let key = serde_json::to_string(&op).unwrap();
                if !memo.contains_key(&key) {
                    memo.insert(key.clone(), alone(&base, &op, mix2(plan.seed, memo.len() as u64), 40, ALONE_STEPS));
                }
                match memo[&key].clone() {
                    Some(a) => {
                        total += a.steps;
                        exp.push(Some(a));
                        keep.push((d, op));
                    }
                    None => dropped += 1,
                }
            }
            *ops = keep;
            expect.push(exp);
        }
        out.count("requests answered alone", memo.len() as u64);
        if dropped > 0 {
            out.count("operations left out (too slow alone)", dropped);
        }
        sched::start(plan.pol.cfg(plan.seed, plan.hash_seed, &sched));
        sched::budget(total.saturating_mul(80) + 20_000_000);
        let h = live(&plan, &mut out);
        judge(&plan, &expect, &h, &mut out);
        out.take_sched();
        let mut t = sched::trace_hash();
        for rec in &h.recs {
            t = mix2(t, hash_str(&rep_json(&rec.rep).to_string()) ^ ((rec.client * 64 + rec.op) as u64));
        }
        out.trace = t;
        out.distinct = vec![sched::trace_hash()];
        let clients: BTreeSet<usize> = h.recs.iter().map(|r| r.client).collect();
        out.nontrivial = clients.len() >= 2 && (sched::stats().preempts > 0 || sched::stats().stalls > 0 || h.crashes > 0);
        out.count("requests sent", h.sent);
        out.count("replies checked", h.recs.len() as u64);
        out.sample = json!({
            "replies": h.recs.iter().take(8).map(|r| format!("client {} op {} stage {} attempt {} server {}.{}: {}", r.client, r.op, r.stage, r.attempt, r.replica, r.epoch, rep_kind(&r.rep))).collect::<Vec<_>>(),
            "ended": format!("{:?}", h.ended),
        });
        out
    }

    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut v = vec![];
        for c in 0..p.clients.len() {
            if !p.clients[c].is_empty() {
                let mut q = p.clone();
                q.clients[c].clear();
                v.push(q);
            }
        }
        for c in 0..p.clients.len() {
            for o in 0..p.clients[c].len() {
                let mut q = p.clone();
                q.clients[c].remove(o);
                v.push(q);
            }
        }
        if p.net.loss > 0 || p.net.dup > 0 || !p.net.partitions.is_empty() {
            let mut q = p.clone();
            q.net.loss = 0;
            q.net.dup = 0;
            q.net.partitions.clear();
            v.push(q);
        }
        if p.net.max_delay > 1 {
            let mut q = p.clone();
            q.net.max_delay = 1;
            v.push(q);
        }
        if !p.pol.irqs.is_empty() {
            let mut q = p.clone();
            q.pol.irqs.clear();
            v.push(q);
        }
        if p.pol.stall + p.pol.spurious > 0 {
            let mut q = p.clone();
            q.pol.stall = 0;
            q.pol.spurious = 0;
            v.push(q);
        }
        if p.pool > 1 {
            v.push(Plan { pool: 1, ..p.clone() });
        }
        if p.disp > 1 {
            v.push(Plan { disp: p.disp - 1, ..p.clone() });
        }
        if p.replicas > 1 {
            v.push(Plan { replicas: p.replicas - 1, ..p.clone() });
        }
        for c in 0..p.clients.len() {
            for o in 0..p.clients[c].len() {
                if let Op::Sim { picks, .. } = &p.clients[c][o].1 {
                    if !picks.is_empty() {
                        let mut q = p.clone();
                        if let Op::Sim { picks, .. } = &mut q.clients[c][o].1 {
                            picks.pop();
                        }
                        v.push(q);
                    }
                }
                if p.clients[c][o].0 > 0 {
                    let mut q = p.clone();
                    q.clients[c][o].0 = 0;
                    v.push(q);
                }
            }
        }
        v.into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
    }

    fn describe(&self, plan: &Value) -> Value {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut v = vec![format!(
            "{} replica(s), {} handler(s), pool of {}, cache of {}, schedule {} {}, loss {}/1000, duplication {}/1000, {} partition(s), crashes at {:?}",
            p.replicas, p.disp, p.pool, p.cap, p.pol.kind, p.pol.a, p.net.loss, p.net.dup, p.net.partitions.len(), p.pol.irqs
        )];
        for (c, ops) in p.clients.iter().enumerate() {
            for (i, (gap, op)) in ops.iter().enumerate() {
                v.push(format!("client {} op {} after {} ms: {}", c, i, gap / MS, op_text(&p, op)));
            }
        }
        json!(v)
    }
}

pub fn op_text(p: &Plan, op: &Op) -> String {
    let m = |i: &usize| format!("user {} model {} hash {}", p.models[*i].user, p.models[*i].tag, p.models[*i].hash);
    match op {
        Op::Token => "get a user token".into(),
        Op::Query { model, text, cached, settings } => format!("query \"{}\" on {} (cached {}, clock reduction disabled {:?})", text, m(model), cached, settings),
        Op::Sim { model, text, cached, picks } => format!("simulate \"{}\" on {} (cached {}), decisions {:?}", text, m(model), cached, picks),
        Op::Bad { model, text, how, cached, sim } => format!("bad request {} \"{}\" on {} (cached {}, simulation {})", how, text, m(model), cached, sim),
    }
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(7u64, |a, b| mix2(a, b as u64))
}

fn judge(plan: &Plan, expect: &[Vec<Option<Alone>>], h: &Hist, out: &mut RunOut) {
    let failing = plan.clients.iter().zip(expect).any(|(ops, ex)| {
        ops.iter().zip(ex).any(|((_, op), e)| matches!(op, Op::Bad { .. }) || e.as_ref().map_or(false, |a| a.kinds.iter().any(|k| k.to_string().contains("error Internal"))))
    });
    let mut tokens: BTreeMap<(usize, u32, i32), usize> = BTreeMap::new();
    for rec in &h.recs {
        let op = &plan.clients[rec.client][rec.op].1;
        let what = format!("client {} op {} stage {} attempt {} ({})", rec.client, rec.op, rec.stage, rec.attempt, op_text(plan, op));
        if let Op::Token = op {
            match &rec.rep {
                Rep::Token(Ok(t)) => {
                    if *t <= 0 {
                        out.viol("C06", "token", "token", format!("{}: token {} is not positive", what, t));
                    }
                    if let Some(e) = tokens.insert((rec.replica, rec.epoch, *t), rec.exec) {
                        if e != rec.exec {
                            out.viol("C06", "token", "token", format!("{}: token {} was handed out twice by one server process", what, t));
                        }
                    }
                }
                r => out.viol("C06", "token", "token", format!("{}: no token but {}", what, rep_json(r))),
            }
            continue;
        }
        if let Rep::Escaped(m) = &rec.rep {
            out.viol("C04", "escaped", "escaped", format!("{}: a panic left the handler: {}", what, m));
            continue;
        }
        let (model, cached, sim) = match op {
            Op::Query { model, cached, .. } => (*model, *cached, false),
            Op::Sim { model, cached, .. } => (*model, *cached, true),
            Op::Bad { model, .. } => (*model, false, false),
            Op::Token => unreachable!(),
        };
        if let Rep::Query(Ok(q)) = &rec.rep {
            let id = (rec.client * 1000 + rec.op) as i32;
            if q.query_id != id {
                out.viol("C05", "query-id", "query-id", format!("{}: reply carries query id {} instead of {}", what, q.query_id, id));
            }
        }
        let full = rep_json(&rec.rep).to_string();
        let foreign: Vec<String> = tags(&full).into_iter().filter(|t| t != &plan.models[model].tag).collect();
        if !foreign.is_empty() {
            let m = format!("{}: the reply speaks about {:?}, not only {}", what, foreign, plan.models[model].tag);
            out.viol("C01", "foreign", "foreign", m.clone());
            out.viol("C02", "foreign", "foreign", m.clone());
            if sim {
                out.viol("C07", "foreign", "foreign", m);
            }
        }
        let Some(a) = &expect[rec.client][rec.op] else { continue };
        let want = a.kinds.get(rec.stage);
        let got = rep_kind(&rec.rep);
        if want != Some(&got) {
            let m = format!("{}: answered {} but alone {}", what, short(&got), want.map(short).unwrap_or("nothing".into()));
            out.viol("C01", "differs", "differs", m.clone());
            if cached {
                out.viol("C02", "differs", "differs", m.clone());
            }
            if sim {
                out.viol("C07", "differs", "differs", m.clone());
            }
            out.viol("C11", "leak", "leak", m.clone());
            if failing {
                out.viol("C04", "differs", "differs", m);
            }
        } else if a.clocks.get(rec.stage).map_or(false, |w| crate::c10::clocks(&rec.rep) != *w) {
            out.viol("C11", "leak", "leak", format!("{}: a component with {:?} clocks but alone with {:?}", what, crate::c10::clocks(&rec.rep), a.clocks[rec.stage]));
        }
    }
    for (c, o, m) in &h.escaped {
        let what = op_text(plan, &plan.clients[*c][*o].1);
        out.viol("C04", "escaped", "escaped", format!("client {} op {} ({}): a panic left the handler: {}", c, o, what, m));
    }
    if h.crashes > 0 && sched::stuck_on_static() {
        out.inconclusive = Some("a thread waits for a process-global lock held by a crashed thread".into());
        return;
    }
    for (c, o, st) in &h.unanswered {
        let m = format!("client {} op {} stage {} ({}) was never answered although every fault had stopped [{}]", c, o, st, op_text(plan, &plan.clients[*c][*o].1), sched::describe_threads());
        out.viol("C05", "unanswered", "unanswered", m.clone());
        if failing {
            out.viol("C04", "unanswered", "unanswered", m);
        }
    }
    match h.ended {
        Woke::Idle => out.viol("C05", "deadlock", "deadlock", format!("nothing can run any more: {}", sched::describe_threads())),
        Woke::Budget => out.viol("C05", "livelock", "livelock", format!("more than 80 times the work of the requests alone: {}", sched::describe_threads())),
        _ => {}
    }
}

fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 300 {
        format!("{}...", s.chars().take(300).collect::<String>())
    } else {
        s
    }
}
