//! The timed semantics of compositions, one concrete run at a time: the reference the tool's answers
//! are compared with. It works on the generated models, never on anything the tool parsed.
use crate::model::{Atom, Comp};
use crate::rng::Rng;
use crate::zone::{bound, Dbm, Fed, SC};
use reveaal::ProtobufServer::services as pb;
use std::collections::BTreeSet;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Ex {
    Leaf(usize),
    And(Box<Ex>, Box<Ex>),
    Par(Box<Ex>, Box<Ex>),
    Quo(Box<Ex>, Box<Ex>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Lt {
    Leaf(usize),
    Pair(Box<Lt>, Box<Lt>),
    Univ,
    Err,
}

#[derive(Clone, Debug)]
pub struct At {
    pub clock: usize,
    /// Compares the difference to this clock.
    pub minus: Option<usize>,
    pub op: u8,
    pub k: i64,
}

#[derive(Clone, Debug)]
pub enum Pred {
    True,
    At(At),
    And(Vec<Pred>),
    Or(Vec<Pred>),
    Not(Box<Pred>),
    After(Vec<(usize, i64)>, Box<Pred>),
}

thread_local! {
    static TRUNCATED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Did a condition grow too large to be taken apart? Asking may also forget it.
pub fn truncated(forget: bool) -> bool {
    TRUNCATED.with(|t| if forget { t.replace(false) } else { t.get() })
}

pub type Upd = Vec<(usize, i64)>;

#[derive(Clone, Debug)]
pub struct Tr {
    /// Edges taken, as (leaf, edge id).
    pub edges: Vec<(usize, String)>,
    pub pred: Pred,
    pub target: Lt,
    pub upd: Upd,
}

impl Pred {
    pub fn eval(&self, v: &[i64]) -> bool {
        match self {
            Pred::True => true,
            Pred::At(a) => {
                let x = v[a.clock] - a.minus.map_or(0, |m| v[m]);
                match a.op {
                    0 => x < a.k,
                    1 => x <= a.k,
                    2 => x > a.k,
                    3 => x >= a.k,
                    _ => x == a.k,
                }
            }
            Pred::And(p) => p.iter().all(|p| p.eval(v)),
            Pred::Or(p) => p.iter().any(|p| p.eval(v)),
            Pred::Not(p) => !p.eval(v),
            Pred::After(u, p) => p.eval(&apply(u, v)),
        }
    }
    /// Disjunctive normal form: (clock, op, k) with op "<", "<=", ">", ">=", "==" as 0..4.
    fn dnf(&self, neg: bool) -> Vec<Vec<At>> {
        match self {
            Pred::True => {
                if neg {
                    vec![]
                } else {
                    vec![vec![]]
                }
            }
            Pred::At(a) => {
                let mk = |op: u8| vec![At { op, ..a.clone() }];
                match (neg, a.op) {
                    (false, _) => vec![vec![a.clone()]],
                    (true, 0) => vec![mk(3)],
                    (true, 1) => vec![mk(2)],
                    (true, 2) => vec![mk(1)],
                    (true, 3) => vec![mk(0)],
                    _ => vec![mk(0), mk(2)],
                }
            }
            Pred::Not(p) => p.dnf(!neg),
            Pred::And(ps) if !neg => Self::all(ps, neg),
            Pred::Or(ps) if neg => Self::all(ps, neg),
            Pred::And(ps) | Pred::Or(ps) => ps.iter().flat_map(|p| p.dnf(neg)).collect(),
            Pred::After(u, p) => p
                .dnf(neg)
                .into_iter()
                .filter_map(|c| {
                    let mut out = vec![];
                    for a in c {
                        let val = |c: usize| u.iter().rev().find(|(x, _)| *x == c).map(|x| x.1);
                        match (val(a.clock), a.minus, a.minus.and_then(val)) {
                            (None, _, None) => out.push(a),
                            // the other clock gets a value
                            (None, _, Some(m)) => out.push(At { minus: None, k: a.k + m, ..a }),
                            (Some(x), Some(m), None) => out.push(At { clock: m, minus: None, op: [2, 3, 0, 1, 4][a.op as usize], k: x - a.k }),
                            (Some(x), _, m) => {
                                if !Pred::At(At { clock: 0, minus: None, ..a }).eval(&[x - m.unwrap_or(0)]) {
                                    return None;
                                }
                            }
                        }
                    }
                    Some(out)
                })
                .collect(),
        }
    }
    fn all(ps: &[Pred], neg: bool) -> Vec<Vec<At>> {
        let mut acc: Vec<Vec<At>> = vec![vec![]];
        for p in ps {
            let d = p.dnf(neg);
            let mut next = vec![];
            for a in &acc {
                for b in &d {
                    let mut c = a.clone();
                    c.extend(b.iter().cloned());
                    next.push(c);
                    if next.len() > 4000 {
                        TRUNCATED.with(|t| t.set(true));
                        return next;
                    }
                }
            }
            acc = next;
        }
        acc
    }
    pub fn restrict(&self, f: &Fed) -> Fed {
        let mut out = vec![];
        for c in self.dnf(false) {
            for z in &f.0 {
                let mut z = z.clone();
                for a in &c {
                    and_atom(&mut z, a);
                }
                if !z.is_empty() {
                    out.push(z);
                }
            }
        }
        Fed(out)
    }
}

fn and_atom(z: &mut Dbm, a: &At) {
    let (x, y) = (a.clock + 1, a.minus.map_or(0, |m| m + 1));
    match a.op {
        0 => z.and(x, y, bound(a.k, true)),
        1 => z.and(x, y, bound(a.k, false)),
        2 => z.and(y, x, bound(-a.k, true)),
        3 => z.and(y, x, bound(-a.k, false)),
        _ => {
            z.and(x, y, bound(a.k, false));
            z.and(y, x, bound(-a.k, false));
        }
    }
}

pub fn apply(u: &Upd, v: &[i64]) -> Vec<i64> {
    let mut w = v.to_vec();
    for (c, k) in u {
        w[*c] = *k;
    }
    w
}

pub fn delay(v: &[i64], d: i64) -> Vec<i64> {
    v.iter().map(|x| x + d).collect()
}

fn opn(s: &str) -> u8 {
    match s {
        "<" => 0,
        "<=" => 1,
        ">" => 2,
        ">=" => 3,
        _ => 4,
    }
}

#[derive(Clone, Debug)]
pub struct Sys {
    pub comps: Vec<Comp>,
    /// For a system read from a file: its conditions, as written there.
    pub raw: Option<Arc<Raw>>,
    pub ex: Ex,
    pub base: Vec<usize>,
    pub clocks: usize,
    pub qclock: Option<usize>,
    /// The number of the first leaf in the tool's messages.
    pub first: usize,
}

pub type Acts = BTreeSet<String>;

/// The name of the input a quotient adds to these.
fn new_input(taken: &Acts) -> String {
    (0..).map(|i| format!("quotient_new_input{}", i)).find(|n| !taken.contains(n)).unwrap()
}

impl Ex {
    fn leaves(&self, out: &mut Vec<usize>) {
        match self {
            Ex::Leaf(i) => out.push(*i),
            Ex::And(l, r) | Ex::Par(l, r) | Ex::Quo(l, r) => {
                l.leaves(out);
                r.leaves(out);
            }
        }
    }
    pub fn has_quo(&self) -> bool {
        match self {
            Ex::Leaf(_) => false,
            Ex::Quo(..) => true,
            Ex::And(l, r) | Ex::Par(l, r) => l.has_quo() || r.has_quo(),
        }
    }
    pub fn has_and(&self) -> bool {
        match self {
            Ex::Leaf(_) => false,
            Ex::And(..) => true,
            Ex::Quo(l, r) | Ex::Par(l, r) => l.has_and() || r.has_and(),
        }
    }
}

/// Reads the text of a composition; the leaves are numbered from left to right and `comps` gets one
/// component per leaf. Operators associate to the left; mixed ones need parentheses.
pub fn parse(text: &str, all: &[Comp]) -> (Ex, Vec<Comp>) {
    struct P<'a> {
        s: Vec<char>,
        i: usize,
        all: &'a [Comp],
        out: Vec<Comp>,
    }
    impl<'a> P<'a> {
        fn ws(&mut self) {
            while self.i < self.s.len() && self.s[self.i] == ' ' {
                self.i += 1;
            }
        }
        fn atom(&mut self) -> Ex {
            self.ws();
            if self.s[self.i] == '(' {
                self.i += 1;
                let e = self.expr();
                self.ws();
                assert_eq!(self.s[self.i], ')');
                self.i += 1;
                return e;
            }
            let st = self.i;
            while self.i < self.s.len() && (self.s[self.i].is_alphanumeric() || self.s[self.i] == '_') {
                self.i += 1;
            }
            let n: String = self.s[st..self.i].iter().collect();
            self.out.push(self.all.iter().find(|c| c.name == n).unwrap_or_else(|| panic!("component {}", n)).clone());
            Ex::Leaf(self.out.len() - 1)
        }
        fn expr(&mut self) -> Ex {
            let mut e = self.atom();
            loop {
                self.ws();
                if self.i + 1 >= self.s.len() || self.s[self.i] == ')' {
                    return e;
                }
                let op: String = self.s[self.i..self.i + 2].iter().collect();
                self.i += 2;
                let r = self.atom();
                e = match op.as_str() {
                    "&&" => Ex::And(Box::new(e), Box::new(r)),
                    "||" => Ex::Par(Box::new(e), Box::new(r)),
                    "//" => Ex::Quo(Box::new(e), Box::new(r)),
                    o => panic!("operator {}", o),
                };
            }
        }
    }
    let mut p = P { s: text.chars().collect(), i: 0, all, out: vec![] };
    let e = p.expr();
    (e, p.out)
}

/// Invariants by location and guards by edge.
#[derive(Clone, Debug)]
pub struct Raw {
    pub inv: Vec<Pred>,
    pub guard: Vec<Pred>,
}

impl Pred {
    fn shifted(&self, n: usize) -> Pred {
        let many = |p: &Vec<Pred>| p.iter().map(|p| p.shifted(n)).collect();
        match self {
            Pred::True => Pred::True,
            Pred::At(a) => Pred::At(At { clock: a.clock + n, minus: a.minus.map(|m| m + n), ..a.clone() }),
            Pred::And(p) => Pred::And(many(p)),
            Pred::Or(p) => Pred::Or(many(p)),
            Pred::Not(p) => Pred::Not(Box::new(p.shifted(n))),
            Pred::After(u, p) => Pred::After(u.iter().map(|(c, k)| (c + n, *k)).collect(), Box::new(p.shifted(n))),
        }
    }
    pub fn atoms<'a>(&'a self, out: &mut Vec<&'a At>) {
        match self {
            Pred::True => {}
            Pred::At(a) => out.push(a),
            Pred::And(p) | Pred::Or(p) => p.iter().for_each(|p| p.atoms(out)),
            Pred::Not(p) | Pred::After(_, p) => p.atoms(out),
        }
    }
}

impl Sys {
    /// One component by itself, its conditions given separately. Nothing is added to its edges.
    pub fn of_raw(c: Comp, raw: Raw) -> Sys {
        let clocks = c.clocks.len();
        Sys { comps: vec![c], raw: Some(Arc::new(raw)), ex: Ex::Leaf(0), base: vec![0], clocks, qclock: None, first: 0 }
    }
    pub fn new(text: &str, all: &[Comp]) -> Sys {
        let (ex, comps) = parse(text, all);
        let mut base = vec![];
        let mut n = 0;
        for c in &comps {
            base.push(n);
            n += c.clocks.len();
        }
        let qclock = if ex.has_quo() {
            n += 1;
            Some(n - 1)
        } else {
            None
        };
        Sys { comps, raw: None, ex, base, clocks: n, qclock, first: 0 }
    }

    fn atom(&self, leaf: usize, a: &Atom) -> Pred {
        Pred::At(At { clock: self.base[leaf] + a.clock, minus: a.minus.map(|m| self.base[leaf] + m), op: opn(&a.op), k: a.k as i64 * SC })
    }
    fn conj(&self, leaf: usize, c: &[Atom]) -> Pred {
        Pred::And(c.iter().map(|a| self.atom(leaf, a)).collect())
    }

    pub fn initial(&self) -> Lt {
        self.initial_of(&self.ex)
    }
    pub fn initial_of(&self, e: &Ex) -> Lt {
        fn go(s: &Sys, e: &Ex) -> Lt {
            match e {
                Ex::Leaf(i) => Lt::Leaf(s.comps[*i].initial()),
                Ex::And(l, r) | Ex::Par(l, r) | Ex::Quo(l, r) => Lt::Pair(Box::new(go(s, l)), Box::new(go(s, r))),
            }
        }
        go(self, e)
    }

    pub fn inv(&self, e: &Ex, l: &Lt) -> Pred {
        match (e, l) {
            (_, Lt::Univ) => Pred::True,
            (_, Lt::Err) => Pred::At(At { clock: self.qclock.unwrap(), minus: None, op: 4, k: 0 }),
            (Ex::Leaf(i), Lt::Leaf(k)) if self.raw.is_some() => self.raw.as_ref().unwrap().inv[*k].shifted(self.base[*i]),
            (Ex::Leaf(i), Lt::Leaf(k)) => self.conj(*i, &self.comps[*i].locs[*k].inv),
            (Ex::And(a, b), Lt::Pair(x, y)) | (Ex::Par(a, b), Lt::Pair(x, y)) => Pred::And(vec![self.inv(a, x), self.inv(b, y)]),
            (Ex::Quo(..), Lt::Pair(..)) => Pred::True,
            _ => panic!("location {:?} of {:?}", l, e),
        }
    }

    pub fn alphabet(&self, e: &Ex) -> (Acts, Acts) {
        match e {
            Ex::Leaf(i) => (self.comps[*i].edge_ins().into_iter().collect(), self.comps[*i].edge_outs().into_iter().collect()),
            Ex::And(l, r) => {
                let ((li, lo), (ri, ro)) = (self.alphabet(l), self.alphabet(r));
                (li.intersection(&ri).cloned().collect(), lo.intersection(&ro).cloned().collect())
            }
            Ex::Par(l, r) => {
                let ((li, lo), (ri, ro)) = (self.alphabet(l), self.alphabet(r));
                let o: Acts = lo.union(&ro).cloned().collect();
                (li.union(&ri).filter(|a| !o.contains(*a)).cloned().collect(), o)
            }
            Ex::Quo(t, s) => {
                let ((ti, to), (si, so)) = (self.alphabet(t), self.alphabet(s));
                let mut i: Acts = ti.union(&so).cloned().collect();
                i.insert(new_input(&i));
                let o: Acts = to.difference(&so).chain(si.difference(&ti)).cloned().collect();
                (i, o)
            }
        }
    }
    pub fn actions(&self) -> Acts {
        let (i, o) = self.alphabet(&self.ex);
        i.union(&o).cloned().collect()
    }

    /// What a transition needs besides its guard: the invariant of the target holds after the updates.
    pub fn allowed(&self, e: &Ex, t: &Tr) -> Pred {
        Pred::And(vec![t.pred.clone(), Pred::After(t.upd.clone(), Box::new(self.inv(e, &t.target)))])
    }

    pub fn trans(&self, e: &Ex, l: &Lt, a: &str) -> Vec<Tr> {
        match (e, l) {
            (Ex::Leaf(i), Lt::Leaf(k)) => {
                let c = &self.comps[*i];
                let mut v = vec![];
                for (n, ed) in c.edges.iter().enumerate().filter(|(_, ed)| ed.src == *k && ed.sync == a) {
                    let pred = if let Some(raw) = &self.raw {
                        raw.guard[n].shifted(self.base[*i])
                    } else if ed.guard.is_empty() { Pred::True } else { Pred::Or(ed.guard.iter().map(|g| self.conj(*i, g)).collect()) };
                    let upd = ed.resets.iter().map(|(x, val)| (self.base[*i] + x, *val as i64 * SC)).collect();
                    v.push(Tr { edges: vec![(*i, ed.id.clone())], pred, target: Lt::Leaf(ed.dst), upd });
                }
                if self.raw.is_none() && c.edge_ins().iter().any(|b| b == a) {
                    // inputs without an edge are ignored
                    let inv = self.inv(e, l);
                    let some = Pred::Or(
                        c.edges
                            .iter()
                            .zip(0..)
                            .filter(|(ed, _)| ed.src == *k && ed.sync == a && ed.input)
                            .map(|(ed, _)| {
                                let t = v.iter().find(|t| t.edges[0].1 == ed.id).unwrap();
                                self.allowed(e, t)
                            })
                            .collect(),
                    );
                    let pred = Pred::And(vec![inv, Pred::Not(Box::new(some))]);
                    // where every moment is covered, no edge is added
                    if pred.restrict(&Fed(vec![Dbm::all(self.clocks)])).is_empty() {
                        return v;
                    }
                    v.push(Tr { edges: vec![(*i, format!("input_{}_{}", c.locs[*k].id, a))], pred, target: l.clone(), upd: vec![] });
                }
                v
            }
            (Ex::And(x, y), Lt::Pair(p, q)) | (Ex::Par(x, y), Lt::Pair(p, q)) => {
                let both = |al: (Acts, Acts)| -> Acts { al.0.union(&al.1).cloned().collect() };
                let (ax, ay) = (both(self.alphabet(x)), both(self.alphabet(y)));
                let stay = |l: &Lt| vec![Tr { edges: vec![], pred: Pred::True, target: l.clone(), upd: vec![] }];
                let (ls, rs) = match (ax.contains(a), ay.contains(a)) {
                    (true, true) => (self.trans(x, p, a), self.trans(y, q, a)),
                    (true, false) => (self.trans(x, p, a), stay(q)),
                    (false, true) => (stay(p), self.trans(y, q, a)),
                    _ => return vec![],
                };
                let mut v = vec![];
                for t in &ls {
                    for s in &rs {
                        v.push(Tr {
                            edges: t.edges.iter().chain(s.edges.iter()).cloned().collect(),
                            pred: Pred::And(vec![t.pred.clone(), s.pred.clone()]),
                            target: Lt::Pair(Box::new(t.target.clone()), Box::new(s.target.clone())),
                            upd: t.upd.iter().chain(s.upd.iter()).cloned().collect(),
                        });
                    }
                }
                v
            }
            (Ex::Quo(..), Lt::Univ) => vec![Tr { edges: vec![], pred: Pred::True, target: Lt::Univ, upd: vec![] }],
            (Ex::Quo(..), Lt::Err) => {
                let (i, _) = self.alphabet(e);
                if i.contains(a) {
                    vec![Tr { edges: vec![], pred: Pred::At(At { clock: self.qclock.unwrap(), minus: None, op: 4, k: 0 }), target: Lt::Err, upd: vec![] }]
                } else {
                    vec![]
                }
            }
            (Ex::Quo(te, se), Lt::Pair(lt, ls)) => self.quotient(te, se, lt, ls, a),
            _ => panic!("location {:?} of {:?}", l, e),
        }
    }

    fn quotient(&self, te: &Ex, se: &Ex, lt: &Lt, ls: &Lt, a: &str) -> Vec<Tr> {
        let ((ti, to), (si, so)) = (self.alphabet(te), self.alphabet(se));
        let in_t = ti.contains(a) || to.contains(a);
        let in_s = si.contains(a) || so.contains(a);
        let t = if in_t { self.trans(te, lt, a) } else { vec![] };
        let s = if in_s { self.trans(se, ls, a) } else { vec![] };
        let (inv_t, inv_s) = (self.inv(te, lt), self.inv(se, ls));
        let ft = |x: &Tr| Pred::And(vec![self.allowed(te, x), inv_t.clone()]);
        let fs = |x: &Tr| Pred::And(vec![self.allowed(se, x), inv_s.clone()]);
        let not = |p: Pred| Pred::Not(Box::new(p));
        let pair = |x: &Lt, y: &Lt| Lt::Pair(Box::new(x.clone()), Box::new(y.clone()));
        let ids = |v: &[Tr]| -> Vec<(usize, String)> { v.iter().flat_map(|x| x.edges.clone()).collect() };
        let q = self.qclock.unwrap();
        let mut v = vec![];
        if in_t && in_s {
            for x in &t {
                for y in &s {
                    v.push(Tr {
                        edges: x.edges.iter().chain(y.edges.iter()).cloned().collect(),
                        pred: Pred::And(vec![ft(x), fs(y)]),
                        target: pair(&x.target, &y.target),
                        upd: x.upd.iter().chain(y.upd.iter()).cloned().collect(),
                    });
                }
            }
        }
        if in_s && !in_t {
            for y in &s {
                v.push(Tr { edges: y.edges.clone(), pred: fs(y), target: pair(lt, &y.target), upd: y.upd.clone() });
            }
        }
        if so.contains(a) {
            let g = Pred::Or(s.iter().map(|y| fs(y)).collect());
            v.push(Tr { edges: ids(&s), pred: Pred::Or(vec![not(inv_s.clone()), not(g)]), target: Lt::Univ, upd: vec![] });
        } else {
            v.push(Tr { edges: vec![], pred: not(inv_s.clone()), target: Lt::Univ, upd: vec![] });
        }
        if so.contains(a) && to.contains(a) {
            let g = Pred::Or(t.iter().map(|x| ft(x)).collect());
            for y in &s {
                v.push(Tr {
                    edges: ids(&t).into_iter().chain(y.edges.iter().cloned()).collect(),
                    pred: Pred::And(vec![fs(y), not(g.clone())]),
                    target: Lt::Err,
                    upd: vec![(q, 0)],
                });
            }
        }
        if a == new_input(&ti.union(&so).cloned().collect()) {
            v.push(Tr { edges: vec![], pred: Pred::And(vec![not(inv_t.clone()), inv_s.clone()]), target: Lt::Err, upd: vec![(q, 0)] });
        }
        if in_t && !in_s {
            for x in &t {
                v.push(Tr { edges: x.edges.clone(), pred: Pred::And(vec![ft(x), inv_s.clone()]), target: pair(&x.target, ls), upd: x.upd.clone() });
            }
        }
        v
    }

    pub fn next(&self, l: &Lt, a: &str) -> Vec<Tr> {
        self.trans(&self.ex, l, a)
    }
    pub fn inv_of(&self, l: &Lt) -> Pred {
        self.inv(&self.ex, l)
    }
    /// Can this transition be taken from this valuation (which satisfies the invariant)?
    pub fn enabled(&self, t: &Tr, v: &[i64]) -> bool {
        t.pred.eval(v) && self.inv_of(&t.target).eval(&apply(&t.upd, v))
    }

    // ------------------------------------------------------------------ symbolic

    /// The largest constant each clock is compared with; clocks never compared keep what they have.
    pub fn max_consts(&self, max: &mut [i64]) {
        for (i, c) in self.comps.iter().enumerate() {
            let atoms = c.locs.iter().flat_map(|l| l.inv.iter()).chain(c.edges.iter().flat_map(|e| e.guard.iter().flatten()));
            for a in atoms {
                for x in [Some(a.clock), a.minus].into_iter().flatten() {
                    let m = &mut max[self.base[i] + x];
                    *m = (*m).max(if a.minus.is_some() { 1 << 40 } else { a.k as i64 * SC });
                }
            }
        }
        if let Some(raw) = &self.raw {
            let mut ats = vec![];
            raw.inv.iter().chain(&raw.guard).for_each(|p| p.atoms(&mut ats));
            for a in ats {
                let big = if a.minus.is_some() { 1 << 40 } else { a.k };
                for c in [Some(a.clock), a.minus].into_iter().flatten() {
                    max[self.base[0] + c] = max[self.base[0] + c].max(big);
                }
            }
        }
        if let Some(q) = self.qclock {
            max[q] = max[q].max(0);
        }
    }

    pub fn initial_fed(&self) -> Fed {
        let mut z = Dbm::zero(self.clocks);
        z.up();
        self.inv_of(&self.initial()).restrict(&Fed(vec![z]))
    }
    pub fn post(&self, f: &Fed, t: &Tr) -> Fed {
        let f = t.pred.restrict(f);
        let inv = self.inv_of(&t.target);
        let z = f
            .0
            .into_iter()
            .map(|mut z| {
                for (c, k) in &t.upd {
                    z.reset(c + 1, *k);
                }
                z
            })
            .collect();
        let mut f = inv.restrict(&Fed(z));
        f.0.iter_mut().for_each(|z| z.up());
        inv.restrict(&f)
    }

    // ------------------------------------------------------------------ reading the tool's messages

    pub fn loc_of(&self, t: &pb::LocationTree) -> Result<Lt, String> {
        self.loc_at(&self.ex, t)
    }
    fn loc_at(&self, e: &Ex, t: &pb::LocationTree) -> Result<Lt, String> {
        use pb::location_tree::NodeType::*;
        match (e, t.node_type.as_ref().ok_or("location without a node")?) {
            (Ex::Leaf(i), LeafLocation(l)) => {
                let c = l.component_instance.clone().unwrap_or_default();
                if c.component_name != self.comps[*i].name || c.component_index as usize != *i + self.first {
                    return Err(format!("leaf {} is {}#{} instead of {}#{}", i, c.component_name, c.component_index, self.comps[*i].name, *i + self.first));
                }
                self.comps[*i].locs.iter().position(|k| k.id == l.id).map(Lt::Leaf).ok_or(format!("no location {} in {}", l.id, c.component_name))
            }
            (Ex::Quo(..), SpecialLocation(k)) => Ok(if *k == 0 { Lt::Univ } else { Lt::Err }),
            (Ex::And(l, r), BinaryLocationOp(b)) | (Ex::Par(l, r), BinaryLocationOp(b)) | (Ex::Quo(l, r), BinaryLocationOp(b)) => {
                let want = match e {
                    Ex::And(..) => 0,
                    Ex::Par(..) => 1,
                    _ => 2,
                };
                if b.operator != want {
                    return Err(format!("operator {} instead of {}", b.operator, want));
                }
                Ok(Lt::Pair(
                    Box::new(self.loc_at(l, b.left.as_ref().ok_or("no left location")?)?),
                    Box::new(self.loc_at(r, b.right.as_ref().ok_or("no right location")?)?),
                ))
            }
            _ => Err(format!("location {} does not fit the composition", crate::canon::loc_text(t))),
        }
    }
    pub fn clock_of(&self, c: &Option<pb::Clock>) -> Result<usize, String> {
        use pb::clock::Clock::*;
        match c.as_ref().and_then(|c| c.clock.as_ref()).ok_or("a constraint without a clock")? {
            ZeroClock(_) => Ok(0),
            SystemClock(_) => self.qclock.map(|q| q + 1).ok_or("a system clock without a quotient".into()),
            ComponentClock(c) => {
                let i = c.component_instance.clone().unwrap_or_default();
                let k = (i.component_index as usize).wrapping_sub(self.first);
                let comp = self.comps.get(k).filter(|x| x.name == i.component_name).ok_or(format!("no component {}#{}", i.component_name, k))?;
                let x = comp.clocks.iter().position(|n| n == &c.clock_name).ok_or(format!("no clock {} in {}", c.clock_name, i.component_name))?;
                Ok(self.base[k] + x + 1)
            }
        }
    }
    pub fn fed_of(&self, z: &pb::Disjunction) -> Result<Fed, String> {
        let mut out = vec![];
        for c in &z.conjunctions {
            let mut d = Dbm::all(self.clocks);
            for k in &c.constraints {
                d.and(self.clock_of(&k.x)?, self.clock_of(&k.y)?, bound(k.c as i64 * SC, k.strict));
            }
            if !d.is_empty() {
                out.push(d);
            }
        }
        Ok(Fed(out))
    }
    pub fn state_of(&self, s: &Option<pb::State>) -> Result<(Lt, Fed), String> {
        let s = s.as_ref().ok_or("no state")?;
        Ok((self.loc_of(s.location_tree.as_ref().ok_or("no location")?)?, self.fed_of(s.zone.as_ref().ok_or("no zone")?)?))
    }
    pub fn edges_of(&self, d: &pb::Decision) -> Result<Vec<(usize, String)>, String> {
        d.edges
            .iter()
            .map(|e| {
                let c = e.component_instance.clone().unwrap_or_default();
                let i = c.component_index as usize;
                match self.comps.get(i) {
                    Some(k) if k.name == c.component_name => Ok((i, e.id.clone())),
                    _ => Err(format!("edge {} of {}#{} which is not in the composition", e.id, c.component_name, i)),
                }
            })
            .collect()
    }
    pub fn loc_text(&self, l: &Lt) -> String {
        fn go(s: &Sys, e: &Ex, l: &Lt) -> String {
            match (e, l) {
                (_, Lt::Univ) => "[Universal]".into(),
                (_, Lt::Err) => "[Error]".into(),
                (Ex::Leaf(i), Lt::Leaf(k)) => format!("{}.{}", s.comps[*i].name, s.comps[*i].locs[*k].id),
                (Ex::And(a, b), Lt::Pair(x, y)) => format!("({} && {})", go(s, a, x), go(s, b, y)),
                (Ex::Par(a, b), Lt::Pair(x, y)) => format!("({} || {})", go(s, a, x), go(s, b, y)),
                (Ex::Quo(a, b), Lt::Pair(x, y)) => format!("({} // {})", go(s, a, x), go(s, b, y)),
                _ => "?".into(),
            }
        }
        go(self, &self.ex, l)
    }
    pub fn val_text(&self, v: &[i64]) -> String {
        let mut out = vec![];
        for (i, c) in self.comps.iter().enumerate() {
            for (k, n) in c.clocks.iter().enumerate() {
                out.push(format!("{}.{}={}", c.name, n, v[self.base[i] + k] as f64 / SC as f64));
            }
        }
        if let Some(q) = self.qclock {
            out.push(format!("quotient clock={}", v[q] as f64 / SC as f64));
        }
        out.join(" ")
    }

    // ------------------------------------------------------------------ concrete runs

    /// The longest delay the invariant allows from v (None: any), and whether it may be reached.
    pub fn max_delay(&self, l: &Lt, v: &[i64]) -> Option<(i64, bool)> {
        let mut best: Option<(i64, bool)> = None;
        let mut ats = vec![];
        fn collect(p: &Pred, out: &mut Vec<At>) {
            match p {
                Pred::At(a) => out.push(a.clone()),
                Pred::And(ps) => ps.iter().for_each(|p| collect(p, out)),
                _ => {}
            }
        }
        collect(&self.inv_of(l), &mut ats);
        for a in ats.into_iter().filter(|a| a.minus.is_none()) {
            let b = match a.op {
                0 => (a.k - v[a.clock], false),
                1 | 4 => (a.k - v[a.clock], true),
                _ => continue,
            };
            if best.map_or(true, |x| b.0 < x.0 || (b.0 == x.0 && !b.1)) {
                best = Some(b);
            }
        }
        best
    }
    /// A delay: none, up to a boundary, to the last moment, or anywhere in between.
    pub fn pick_delay(&self, r: &mut Rng, l: &Lt, v: &[i64]) -> i64 {
        let m = self.max_delay(l, v);
        let hi = match m {
            None => 6 * SC,
            Some((h, true)) => h.min(6 * SC),
            Some((h, false)) => (h - 1).min(6 * SC),
        };
        if hi <= 0 {
            return 0;
        }
        let d = match r.below(6) {
            0 => 0,
            1 if m.is_some() => hi,
            2 | 3 if self.clocks > 0 => {
                // until some clock shows a whole number
                let x = v[r.below(self.clocks)];
                let k = (x.div_euclid(SC) + r.below(4) as i64) * SC;
                if k >= x {
                    k - x
                } else {
                    SC / 2
                }
            }
            4 => (r.below(12) as i64) * SC / 2,
            _ => (r.next() % (hi as u64 + 1)) as i64 / 64 * 64,
        };
        d.clamp(0, hi)
    }
}
