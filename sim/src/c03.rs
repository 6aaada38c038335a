//! The model cache under concurrent callers, against a sequential model of a bounded LRU map.
use crate::rng::{mix2, Rng};
use crate::runner::{RunOut, Scenario, Sched};
use crate::sched::{self, Woke};
use crate::server::Pol;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simglue::{cache_get, cache_put, marked_model, ModelCache};
use std::collections::HashSet;

pub struct C03;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Get(i32, u32),
    /// user, hash, mark of the model
    Put(i32, u32, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    seed: u64,
    hash_seed: u64,
    cap: usize,
    pol: Pol,
    before: Vec<Op>,
    threads: Vec<Vec<Op>>,
    /// A thread that dies on the way (killed at the n-th preemption point), if any.
    after: Vec<Op>,
}

#[derive(Clone, Debug)]
struct Rec {
    thread: usize,
    op: Op,
    call: u64,
    ret: u64,
    /// Get: Some(mark) or None; Put: the mark of the returned model
    res: Result<Option<u32>, String>,
}

static mut RECS: Vec<Rec> = vec![];
static mut SEQ: u64 = 0;

#[allow(static_mut_refs)]
fn recs() -> &'static mut Vec<Rec> {
    unsafe { &mut RECS }
}

fn seq() -> u64 {
    unsafe {
        SEQ += 1;
        SEQ
    }
}

fn perform(c: &mut ModelCache, thread: usize, op: &Op) {
    let m = if let Op::Put(_, _, id) = op { Some(marked_model(*id)) } else { None };
    let i = recs().len();
    recs().push(Rec { thread, op: op.clone(), call: seq(), ret: u64::MAX, res: Ok(None) });
    let res = sched::real(|| match op {
        Op::Get(u, h) => cache_get(c, *u, *h),
        Op::Put(u, h, _) => cache_put(c, *u, *h, m.unwrap()).map(Some),
    });
    recs()[i].res = res;
    recs()[i].ret = seq();
}

/// The sequential model: most recently used first.
type Lru = Vec<(i32, u32, u32)>;

/// Applies an operation; gives back every state it may lead to (a lookup that finds the user under
/// another hash may or may not count as a use).
fn apply(s: &Lru, cap: usize, op: &Op, res: &Option<u32>) -> Vec<Lru> {
    match op {
        Op::Put(u, h, id) => {
            if *res != Some(*id) {
                return vec![];
            }
            if *h == 0 {
                return vec![s.clone()];
            }
            let mut t = s.clone();
            t.retain(|e| e.0 != *u);
            t.truncate(cap - 1);
            t.insert(0, (*u, *h, *id));
            vec![t]
        }
        Op::Get(u, h) => {
            let at = s.iter().position(|e| e.0 == *u);
            let hit = at.filter(|&i| s[i].1 == *h && *h != 0);
            if hit.map(|i| s[i].2) != *res {
                return vec![];
            }
            let mut out = vec![];
            if hit.is_none() {
                out.push(s.clone());
            }
            if let (Some(i), true) = (at, *h != 0) {
                let mut t = s.clone();
                let e = t.remove(i);
                t.insert(0, e);
                if !out.contains(&t) {
                    out.push(t);
                }
            }
            out
        }
    }
}

fn linearizable(h: &[Rec], cap: usize) -> bool {
    assert!(h.len() <= 60);
    let mut seen: HashSet<(u64, Lru)> = HashSet::new();
    let all = (1u64 << h.len()) - 1;
    let mut stack: Vec<(u64, Lru)> = vec![(0, vec![])];
    while let Some((done, st)) = stack.pop() {
        if done == all {
            return true;
        }
        if !seen.insert((done, st.clone())) {
            continue;
        }
        // the earliest return among those not yet placed
        let lim = (0..h.len()).filter(|i| done >> i & 1 == 0).map(|i| h[i].ret).min().unwrap();
        for i in 0..h.len() {
            if done >> i & 1 == 0 && h[i].call < lim {
                if let Ok(r) = &h[i].res {
                    for t in apply(&st, cap, &h[i].op, r) {
                        stack.push((done | 1 << i, t));
                    }
                }
            }
        }
    }
    false
}

fn text(r: &Rec) -> String {
    format!("[{}..{}] thread {}: {:?} -> {:?}", r.call, if r.ret == u64::MAX { 0 } else { r.ret }, r.thread, r.op, r.res)
}

impl C03 {
    fn gen(&self, seed: u64) -> Plan {
        let mut r = Rng::new(seed);
        let users = 1 + r.below(4);
        let hashes = 1 + r.below(3);
        let cap = 1 + r.below(4);
        let mut id = 0;
        let mut op = |r: &mut Rng, puts: usize| -> Op {
            let u = *r.pick(&[1i32, 2, 3, 4, 5][..users]);
            let h = if r.chance(1, 12) { 0 } else { 1 + r.below(hashes) as u32 };
            if r.chance(puts, 10) {
                id += 1;
                Op::Put(u, h, id)
            } else {
                Op::Get(u, h)
            }
        };
        let before = (0..r.below(6)).map(|_| op(&mut r, 7)).collect();
        let nt = 2 + r.below(3);
        let puts = 2 + r.below(6);
        let threads: Vec<Vec<Op>> = (0..nt).map(|_| (0..1 + r.below(4)).map(|_| op(&mut r, puts)).collect()).collect();
        // afterwards: what is in there?
        let mut after: Vec<Op> = vec![];
        for u in 1..=users as i32 {
            for h in 0..=hashes as u32 {
                if h > 0 || r.chance(1, 4) {
                    after.push(Op::Get(u, h));
                }
            }
        }
        if r.chance(1, 2) {
            // push something out, look again
            id += 1;
            after.push(Op::Put(1 + r.below(users + 1) as i32, 1, id));
            for u in 1..=users as i32 {
                after.push(Op::Get(u, 1 + r.below(hashes) as u32));
            }
        }
        Plan { seed: r.next(), hash_seed: r.next(), cap, pol: Pol::gen(&mut r, 400, 0), before, threads, after }
    }
}

impl Scenario for C03 {
    fn plan(&self, seed: u64, _: u64) -> Value {
        serde_json::to_value(self.gen(seed)).unwrap()
    }

    fn run(&self, plan: &Value, sched: Option<Sched>) -> RunOut {
        let plan: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut out = RunOut::default();
        let mut pol = plan.pol.clone();
        // The whole run takes a few thousand steps.
        if pol.kind == "geo" {
            pol.a = pol.a.min(60);
        }
        sched::start(pol.cfg(plan.seed, plan.hash_seed, &sched));
        sched::budget(20_000_000);
        let mut cache = ModelCache::new(plan.cap);
        for op in &plan.before {
            perform(&mut cache, 0, op);
        }
        sched::begin_schedule();
        let mut tids = vec![];
        for (i, ops) in plan.threads.iter().enumerate() {
            let mut c = cache.clone();
            let ops = ops.clone();
            tids.push(sched::spawn("caller", 1, 1 << 20, move || {
                for op in &ops {
                    perform(&mut c, i + 1, op);
                }
            }));
        }
        let mut ended = Woke::Normal;
        for t in tids {
            match sched::join(t) {
                Woke::Normal => {}
                w => {
                    ended = w;
                    break;
                }
            }
        }
        sched::end_schedule();
        if ended == Woke::Normal {
            for op in &plan.after {
                perform(&mut cache, 0, op);
            }
        }
        let h = recs().clone();
        let lines: Vec<String> = h.iter().map(text).collect();
        match ended {
            Woke::Normal => {
                if let Some(r) = h.iter().find(|r| r.res.is_err()) {
                    out.viol("C03", "panic", "panic", format!("an operation panicked: {}", text(r)));
                } else if !linearizable(&h, plan.cap) {
                    out.viol("C03", "history", "history", format!("no sequential order of an LRU map with capacity {} explains: {}", plan.cap, lines.join("; ")));
                }
            }
            w => out.viol("C03", "stuck", "stuck", format!("callers never finished ({:?}): {}", w, sched::describe_threads())),
        }
        out.take_sched();
        let mut t = sched::trace_hash();
        for l in &lines {
            t = mix2(t, crate::w1::hash_str(l));
        }
        out.trace = t;
        let overlap = h.iter().enumerate().any(|(i, a)| h.iter().skip(i + 1).any(|b| a.thread != b.thread && a.call < b.ret && b.call < a.ret));
        out.nontrivial = overlap;
        out.distinct = vec![t];
        out.count("cache operations checked", h.len() as u64);
        out.count("histories with overlapping operations", overlap as u64);
        out.sample = json!(lines);
        out
    }

    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut v = vec![];
        for i in 0..p.threads.len() {
            let mut q = p.clone();
            q.threads.remove(i);
            v.push(q);
            for k in 0..p.threads[i].len() {
                let mut q = p.clone();
                q.threads[i].remove(k);
                v.push(q);
            }
        }
        for i in 0..p.before.len() {
            let mut q = p.clone();
            q.before.remove(i);
            v.push(q);
        }
        for i in 0..p.after.len() {
            let mut q = p.clone();
            q.after.remove(i);
            v.push(q);
        }
        if p.pol.stall + p.pol.spurious > 0 {
            let mut q = p.clone();
            q.pol.stall = 0;
            q.pol.spurious = 0;
            v.push(q);
        }
        v.into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
    }

    fn describe(&self, plan: &Value) -> Value {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut v = vec![format!("capacity {}, first {:?}", p.cap, p.before)];
        for (i, t) in p.threads.iter().enumerate() {
            v.push(format!("thread {}: {:?}", i + 1, t));
        }
        v.push(format!("then {:?}", p.after));
        json!(v)
    }
}
