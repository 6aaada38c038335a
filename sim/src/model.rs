//! Random component models: the inputs of every workload.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Atom {
    pub clock: usize,
    /// Compares the difference to this clock.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub minus: Option<usize>,
    /// One of "<", "<=", ">", ">=", "==".
    pub op: String,
    pub k: i32,
}

impl Atom {
    pub fn new(clock: usize, op: &str, k: i32) -> Atom {
        Atom { clock, minus: None, op: op.into(), k }
    }
}

/// A guard in disjunctive normal form; empty = true.
pub type Guard = Vec<Vec<Atom>>;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Loc {
    pub id: String,
    pub inv: Vec<Atom>,
    pub kind: String,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Edge {
    pub id: String,
    pub src: usize,
    pub dst: usize,
    pub input: bool,
    pub sync: String,
    pub guard: Guard,
    pub resets: Vec<(usize, i32)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Comp {
    pub name: String,
    pub clocks: Vec<String>,
    pub locs: Vec<Loc>,
    pub edges: Vec<Edge>,
    /// Declared interface, including actions without edges (used by project declarations).
    pub ins: Vec<String>,
    pub outs: Vec<String>,
    /// How conditions, updates and declarations are written in the model that is sent (0: plainly).
    #[serde(default, skip_serializing_if = "plain")]
    pub spell: u64,
}

fn plain(x: &u64) -> bool {
    *x == 0
}

impl Comp {
    pub fn atom_text(&self, a: &Atom) -> String {
        match a.minus {
            None => format!("{} {} {}", self.clocks[a.clock], a.op, a.k),
            Some(m) => format!("{} - {} {} {}", self.clocks[a.clock], self.clocks[m], a.op, a.k),
        }
    }
    pub fn conj_text(&self, c: &[Atom]) -> String {
        c.iter().map(|a| self.atom_text(a)).collect::<Vec<_>>().join(" && ")
    }
    pub fn guard_text(&self, g: &Guard) -> String {
        match g.len() {
            0 => String::new(),
            1 => self.conj_text(&g[0]),
            _ => g.iter().map(|c| format!("({})", self.conj_text(c))).collect::<Vec<_>>().join(" || "),
        }
    }
    pub fn json(&self) -> Value {
        let w = Words { c: self, odd: Default::default() };
        self.json_of(&w)
    }
    /// Are there conditions in which a clock is part of a difference that is part of a sum?
    pub fn nested_minus(&self) -> bool {
        let w = Words { c: self, odd: Default::default() };
        self.json_of(&w);
        w.odd.get()
    }
    fn json_of(&self, w: &Words) -> Value {
        json!({
            "name": self.name,
            "declarations": w.declarations(),
            "locations": self.locs.iter().map(|l| json!({
                "id": l.id, "nickname": "", "invariant": w.conj(1, &l.id, &l.inv), "type": l.kind, "urgency": "NORMAL",
                "x": 0.0, "y": 0.0, "color": "0", "nicknameX": 0.0, "nicknameY": 0.0, "invariantX": 0.0, "invariantY": 0.0
            })).collect::<Vec<_>>(),
            "edges": self.edges.iter().map(|e| json!({
                "id": e.id, "group": "", "sourceLocation": self.locs[e.src].id, "targetLocation": self.locs[e.dst].id,
                "status": if e.input { "INPUT" } else { "OUTPUT" }, "select": "",
                "guard": w.guard(&e.id, &e.guard),
                "update": w.updates(&e.id, &e.resets),
                "sync": e.sync, "isLocked": false, "nails": []
            })).collect::<Vec<_>>(),
            "description": "", "x": 0.0, "y": 0.0, "width": 450.0, "height": 600.0, "color": "0", "includeInPeriodicCheck": false
        })
    }
    pub fn text(&self) -> String {
        self.json().to_string()
    }
    /// Actions on input edges, as the server derives the interface.
    pub fn edge_ins(&self) -> Vec<String> {
        let mut v: Vec<String> = self.edges.iter().filter(|e| e.input).map(|e| e.sync.clone()).collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn edge_outs(&self) -> Vec<String> {
        let mut v: Vec<String> = self.edges.iter().filter(|e| !e.input).map(|e| e.sync.clone()).collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn initial(&self) -> usize {
        self.locs.iter().position(|l| l.kind == "INITIAL").unwrap()
    }
}

/// Writes the conditions of a component, plainly or in other words that mean the same.
struct Words<'a> {
    c: &'a Comp,
    odd: std::cell::Cell<bool>,
}

impl Words<'_> {
    fn rng(&self, what: u64, id: &str) -> Option<Rng> {
        (self.c.spell != 0).then(|| Rng::new(id.bytes().fold(crate::rng::mix2(self.c.spell, what), |h, b| crate::rng::mix2(h, b as u64))))
    }
    fn declarations(&self) -> String {
        let c = &self.c.clocks;
        let Some(mut r) = self.rng(4, "") else { return if c.is_empty() { String::new() } else { format!("clock {};", c.join(", ")) } };
        if c.is_empty() {
            return r.pick(&["", "", "// clock n;", "\n", " "]).to_string();
        }
        let each = |sep: &str| c.iter().map(|x| format!("clock {};", x)).collect::<Vec<_>>().join(sep);
        match r.below(9) {
            0 => each("\n"),
            1 => each(""),
            2 => format!("clock {};", c.join(",")),
            3 => format!("// clock n;\n\nclock {};\n", c.join(", ")),
            4 => each(" "),
            5 => format!("  {}\r\n", each("\r\n  ")),
            6 => format!("clock {}; // clock n;\n\t// and clock m", c.join(" , ")),
            7 => format!("clock\t{} ;\n ", c.join(",  ")),
            _ => format!("clock {}", c.join(", ")),
        }
    }
    fn conj(&self, what: u64, id: &str, atoms: &[Atom]) -> String {
        let Some(mut r) = self.rng(what, id) else { return self.c.conj_text(atoms) };
        if atoms.is_empty() {
            return ["", "", "true", ";"][r.below(4)].into();
        }
        let t = self.conj_of(&mut r, atoms);
        if r.chance(1, 8) {
            t + ";"
        } else {
            t
        }
    }
    fn conj_of(&self, r: &mut Rng, atoms: &[Atom]) -> String {
        let mut v: Vec<String> = atoms.iter().map(|a| self.atom(r, a)).collect();
        if r.chance(1, 8) {
            v.push("true".into());
        }
        r.shuffle(&mut v);
        let mut t = v.pop().unwrap();
        while let Some(x) = v.pop() {
            t = match r.below(4) {
                0 => format!("{} && {}", x, t),
                1 => format!("({}) && {}", x, t),
                2 => format!("{} && ({})", x, t),
                _ => format!("{}&&{}", t, x),
            };
        }
        t
    }
    fn guard(&self, id: &str, g: &Guard) -> String {
        let Some(mut r) = self.rng(2, id) else { return self.c.guard_text(g) };
        if g.len() < 2 {
            return self.conj(2, id, g.first().map_or(&[], |c| &c[..]));
        }
        let mut v: Vec<String> = g.iter().map(|c| format!("({})", self.conj_of(&mut r, c))).collect();
        if r.chance(1, 8) {
            v.push("false".into());
        }
        r.shuffle(&mut v);
        v.join(" || ")
    }
    fn updates(&self, id: &str, u: &[(usize, i32)]) -> String {
        let Some(mut r) = self.rng(3, id) else { return u.iter().map(|(c, v)| format!("{} = {}", self.c.clocks[*c], v)).collect::<Vec<_>>().join(", ") };
        let v: Vec<String> = u.iter().map(|(c, v)| format!("{}{}{}", self.c.clocks[*c], r.pick(&[" = ", "=", " := "]), self.sum(&mut r, number(*v)))).collect();
        let t = v.join(if r.chance(1, 2) { "," } else { ", " });
        if !u.is_empty() && r.chance(1, 4) {
            t + ","
        } else {
            t
        }
    }
    fn sum(&self, r: &mut Rng, mut ts: Vec<(bool, Term)>) -> String {
        loop {
            let s = sum(r, &mut ts);
            if s.nested_minus(true, false) {
                if self.c.spell % 16 != 0 {
                    continue;
                }
                self.odd.set(true);
            }
            return s.text(r);
        }
    }
    fn atom(&self, r: &mut Rng, a: &Atom) -> String {
        let (left, op, right) = sides(r, self.c.clocks[a.clock].clone(), a.minus.map(|m| self.c.clocks[m].clone()), &a.op, a.k);
        let s = if r.chance(1, 2) { " " } else { "" };
        format!("{}{s}{}{s}{}", self.sum(r, left), op, self.sum(r, right))
    }
}

/// `clock - minus (op) k` with some terms moved, added to both sides or the sides swapped.
pub fn sides<'a>(r: &mut Rng, clock: String, minus: Option<String>, op: &'a str, k: i32) -> (Vec<(bool, Term)>, &'a str, Vec<(bool, Term)>) {
    let mut left: Vec<(bool, Term)> = vec![(true, Term::Clock(clock))];
    if let Some(m) = minus {
        left.push((false, Term::Clock(m)));
    }
    let mut k = k;
    if r.chance(1, 3) {
        let c = r.range(1, 3) as i32;
        left.push((r.chance(1, 2), Term::Int(c)));
        k += if left.last().unwrap().0 { c } else { -c };
    }
    let mut right = vec![];
    right.push((k >= 0, Term::Int(k.abs())));
    if r.chance(1, 3) {
        let mut l = vec![];
        for (from, to) in [(&mut left, 0), (&mut right, 1)] {
            for (s, t) in from.drain(..) {
                let moves = r.chance(1, 3);
                l.push((if moves { 1 - to } else { to }, (s != moves, t)));
            }
        }
        for (side, x) in l {
            if side == 0 {
                left.push(x);
            } else {
                right.push(x);
            }
        }
    }
    let mut op = op;
    if r.chance(1, 3) {
        std::mem::swap(&mut left, &mut right);
        op = match op {
            "<" => ">",
            "<=" => ">=",
            ">" => "<",
            ">=" => "<=",
            o => o,
        };
    }
    (left, op, right)
}

/// The sum without parentheses, as states in queries have it, and whether a clock is part of a
/// difference next to other terms.
pub fn flat_sum(r: &mut Rng, mut ts: Vec<(bool, Term)>) -> (String, bool) {
    r.shuffle(&mut ts);
    ts.sort_by_key(|(s, _)| !s && r.chance(3, 4));
    if !ts.first().map_or(false, |t| t.0) {
        ts.insert(0, (true, Term::Int(0)));
    }
    let one = |t: &Term| match t {
        Term::Clock(c) => Sum::Clock(c.clone()),
        Term::Int(k) => Sum::Int(k.to_string()),
    };
    let mut e = one(&ts[0].1);
    let name = |e: &Sum| match e {
        Sum::Clock(c) | Sum::Int(c) => c.clone(),
        _ => unreachable!(),
    };
    let mut text = name(&e);
    for (s, t) in &ts[1..] {
        let m = one(t);
        // a name is not followed by a minus directly
        text = format!("{} {}{}{}", text, if *s { "+" } else { "-" }, [" ", ""][r.below(2)], name(&m));
        e = Sum::Op(Box::new(e), *s, Box::new(m));
    }
    let odd = e.nested_minus(true, false);
    (text, odd)
}

pub enum Term {
    Clock(String),
    Int(i32),
}

fn number(k: i32) -> Vec<(bool, Term)> {
    vec![(k >= 0, Term::Int(k.abs()))]
}

enum Sum {
    Clock(String),
    Int(String),
    Op(Box<Sum>, bool, Box<Sum>),
}

impl Sum {
    fn clocks(&self) -> bool {
        match self {
            Sum::Clock(_) => true,
            Sum::Int(_) => false,
            Sum::Op(l, _, r) => l.clocks() || r.clocks(),
        }
    }
    /// Is a clock part of a difference that is itself part of a sum (`x - 3 + 2`, `5 - (x + 1)`)?
    fn nested_minus(&self, top: bool, negated: bool) -> bool {
        match self {
            Sum::Clock(_) => negated,
            Sum::Int(_) => false,
            Sum::Op(l, plus, r) => {
                if !plus && l.clocks() {
                    return !top || !matches!(**l, Sum::Clock(_)) || (r.clocks() && !matches!(**r, Sum::Clock(_)));
                }
                let below = |s: &Sum, neg: bool| match s {
                    // s - x
                    Sum::Clock(_) => negated,
                    s => s.nested_minus(false, neg),
                };
                below(l, negated) || below(r, negated || !plus)
            }
        }
    }
    fn text(&self, r: &mut Rng) -> String {
        match self {
            Sum::Clock(c) if r.chance(1, 8) => format!("({})", c),
            Sum::Clock(c) | Sum::Int(c) => c.clone(),
            Sum::Op(a, plus, b) => {
                let l = a.text(r);
                let l = if matches!(**a, Sum::Op(..)) && r.chance(1, 6) { format!("({})", l) } else { l };
                let m = b.text(r);
                let m = if matches!(**b, Sum::Op(..)) { format!("({})", m) } else { m };
                format!("{}{}{}", l, if *plus { "+" } else { "-" }, m)
            }
        }
    }
}

/// A sum of terms, in some order and grouping.
fn sum(r: &mut Rng, ts: &mut Vec<(bool, Term)>) -> Sum {
    fn int(r: &mut Rng, k: i32) -> String {
        match r.below(14) {
            0 => format!("{}*1", k),
            1 => format!("2*{}/2", k),
            2 => format!("{}/3", 3 * k + r.range(0, 2) as i32),
            3 => format!("{}%{}", 2 * k + 3, k + 3),
            4 => format!("({}+{})", k / 2, k - k / 2),
            5 => format!("({})", k),
            6 => format!("({}-{})", k + 2, 2),
            7 => format!("({}-{}-{})", k + 3, 2, 1),
            _ => k.to_string(),
        }
    }
    fn go(r: &mut Rng, ts: &[(bool, Term)], flip: bool) -> Sum {
        let one = |r: &mut Rng, t: &Term| match t {
            Term::Clock(c) => Sum::Clock(c.clone()),
            Term::Int(k) => Sum::Int(int(r, *k)),
        };
        match ts {
            [] => Sum::Int("0".into()),
            [(s, t)] if *s != flip => one(r, t),
            [(_, t)] => Sum::Op(Box::new(Sum::Int("0".into())), false, Box::new(one(r, t))),
            _ => {
                let n = 1 + r.below(ts.len() - 1);
                let minus = r.chance(1, 3) || (ts[n..].iter().all(|(s, _)| *s == flip));
                let l = go(r, &ts[..n], flip);
                let m = go(r, &ts[n..], flip != minus);
                Sum::Op(Box::new(l), !minus, Box::new(m))
            }
        }
    }
    r.shuffle(ts);
    if r.chance(3, 4) {
        // as people write it
        ts.sort_by_key(|(s, _)| !s);
    }
    go(r, ts, false)
}

#[derive(Clone, Debug)]
pub struct GenCfg {
    pub max_locs: usize,
    pub max_clocks: usize,
    pub max_const: i32,
    /// Per cent of (location, action) pairs whose edges may overlap.
    pub nondet: usize,
    /// Allow `or` guards.
    pub disj: bool,
    pub special: bool,
    pub strict: bool,
    /// Per cent of locations with an invariant.
    pub inv: usize,
}

impl Default for GenCfg {
    fn default() -> Self {
        GenCfg { max_locs: 4, max_clocks: 2, max_const: 4, nondet: 4, disj: false, special: false, strict: true, inv: 35 }
    }
}

fn op(r: &mut Rng, upper: bool, strict: bool) -> String {
    match (upper, strict && r.chance(1, 3)) {
        (true, false) => "<=",
        (true, true) => "<",
        (false, false) => ">=",
        (false, true) => ">",
    }
    .to_string()
}

/// A component with the given interface. `tag` is appended to location, edge and clock names.
pub fn gen_comp(r: &mut Rng, name: &str, ins: &[String], outs: &[String], tag: &str, cfg: &GenCfg) -> Comp {
    let nl = 1 + r.below(cfg.max_locs);
    let nc = r.below(cfg.max_clocks + 1);
    let clocks: Vec<String> = (0..nc).map(|i| format!("{}{}", ["x", "y", "z"][i], tag)).collect();
    let mut locs: Vec<Loc> = (0..nl)
        .map(|i| Loc { id: format!("L{}{}", i, tag), inv: vec![], kind: if i == 0 { "INITIAL" } else { "NORMAL" }.into() })
        .collect();
    let mut edges = vec![];
    let add = |edges: &mut Vec<Edge>, src: usize, dst: usize, input: bool, sync: &str, guard: Guard, resets: Vec<(usize, i32)>| {
        let id = format!("E{}{}", edges.len(), tag);
        edges.push(Edge { id, src, dst, input, sync: sync.into(), guard, resets });
    };
    for l in 0..nl {
        if nc > 0 && !outs.is_empty() && r.chance(cfg.inv, 100) {
            let c = r.below(nc);
            let k = r.range(1, cfg.max_const as i64) as i32;
            locs[l].inv = vec![Atom::new(c, &op(r, true, cfg.strict), k)];
            if r.chance(85, 100) {
                // a way out, so that the location can be consistent
                let o = r.pick(outs).clone();
                let dst = r.below(nl);
                let mut resets: Vec<(usize, i32)> = vec![];
                for c in 0..nc {
                    if r.chance(1, 2) {
                        resets.push((c, 0));
                    }
                }
                let guard = if r.chance(1, 2) { vec![] } else { vec![vec![Atom::new(c, &op(r, false, cfg.strict), r.range(0, k as i64) as i32)]] };
                add(&mut edges, l, dst, false, &o, guard, resets);
            }
        }
        for (input, acts) in [(true, ins), (false, outs)] {
            for a in acts {
                let have = edges.iter().any(|e| e.src == l && &e.sync == a);
                if have && !r.chance(cfg.nondet, 100) {
                    continue;
                }
                if !r.chance(if input { 55 } else { 45 }, 100) {
                    continue;
                }
                let reset = |r: &mut Rng| -> Vec<(usize, i32)> {
                    let mut v = vec![];
                    for c in 0..nc {
                        if r.chance(2, 5) {
                            if r.chance(1, 40) {
                                // overwritten right away
                                v.push((c, r.range(0, 2) as i32));
                            }
                            v.push((c, if r.chance(1, 8) { r.range(1, 2) as i32 } else { 0 }));
                        }
                    }
                    v
                };
                if nc > 0 && r.chance(30, 100) {
                    // complementary guards
                    let c = r.below(nc);
                    let k = r.range(0, cfg.max_const as i64) as i32;
                    let (lo, hi) = if r.chance(1, 2) || !cfg.strict { ("<", ">=") } else { ("<=", ">") };
                    let (d1, d2) = (r.below(nl), r.below(nl));
                    let (r1, r2) = (reset(r), reset(r));
                    add(&mut edges, l, d1, input, a, vec![vec![Atom::new(c, lo, k)]], r1);
                    if r.chance(3, 4) {
                        add(&mut edges, l, d2, input, a, vec![vec![Atom::new(c, hi, k)]], r2);
                    }
                } else {
                    let guard: Guard = if nc == 0 || r.chance(1, 3) {
                        vec![]
                    } else {
                        let nconj = if cfg.disj && r.chance(1, 3) { 2 } else { 1 };
                        (0..nconj)
                            .map(|_| {
                                let n = 1 + r.below(2);
                                (0..n)
                                    .map(|_| {
                                        let clock = r.below(nc);
                                        let k = r.range(0, cfg.max_const as i64) as i32;
                                        let upper = r.chance(1, 2);
                                        let o = if r.chance(1, 8) { "==".to_string() } else { op(r, upper, cfg.strict) };
                                        Atom::new(clock, &o, k)
                                    })
                                    .collect()
                            })
                            .collect()
                    };
                    let rs = reset(r);
                    let d = r.below(nl);
                    add(&mut edges, l, d, input, a, guard, rs);
                }
            }
        }
    }
    if cfg.special && nl > 1 && r.chance(1, 3) {
        let l = 1 + r.below(nl - 1);
        locs[l].kind = if r.chance(1, 2) { "UNIVERSAL" } else { "INCONSISTENT" }.into();
        locs[l].inv.clear();
        edges.retain(|e| e.src != l);
    }
    Comp { name: name.into(), clocks, locs, edges, ins: ins.to_vec(), outs: outs.to_vec(), spell: 0 }
}

/// Makes sure every declared action occurs on some edge, so that the server derives the declared
/// interface (it reads the interface off the edges).
pub fn complete_interface(r: &mut Rng, c: &mut Comp, tag: &str) {
    for (input, acts) in [(true, c.ins.clone()), (false, c.outs.clone())] {
        for a in acts {
            if !c.edges.iter().any(|e| e.input == input && e.sync == a) {
                let ok: Vec<usize> = (0..c.locs.len()).filter(|&l| matches!(c.locs[l].kind.as_str(), "INITIAL" | "NORMAL")).collect();
                let l = *r.pick(&ok);
                let d = r.below(c.locs.len());
                let id = format!("E{}{}", c.edges.len(), tag);
                c.edges.push(Edge { id, src: l, dst: d, input, sync: a, guard: vec![], resets: vec![] });
            }
        }
    }
    for (i, e) in c.edges.iter_mut().enumerate() {
        e.id = format!("E{}{}", i, tag);
    }
}

/// A small change to a component (another version of the same model).
pub fn mutate(r: &mut Rng, c: &Comp, name: &str, retag: Option<(&str, &str)>, cfg: &GenCfg) -> Comp {
    let mut c = c.clone();
    c.name = name.into();
    if let Some((old, new)) = retag {
        let f = |s: &mut String| {
            if let Some(b) = s.strip_suffix(old) {
                *s = format!("{}{}", b, new);
            }
        };
        c.clocks.iter_mut().for_each(f);
        c.locs.iter_mut().for_each(|l| f(&mut l.id));
        c.edges.iter_mut().for_each(|e| f(&mut e.id));
    }
    for _ in 0..1 + r.below(2) {
        match r.below(6) {
            0 if !c.edges.is_empty() => {
                let k = r.below(c.edges.len());
                c.edges[k].dst = r.below(c.locs.len());
            }
            1 if c.edges.len() > 1 => {
                // drop an output edge, if its action remains on another one
                let k = r.below(c.edges.len());
                let e = c.edges[k].clone();
                if c.edges.iter().filter(|f| f.input == e.input && f.sync == e.sync).count() > 1 {
                    c.edges.remove(k);
                }
            }
            2 => {
                let k = r.below(c.locs.len());
                if let Some(a) = c.locs[k].inv.first_mut() {
                    a.k = (a.k + if r.chance(1, 2) { 1 } else { -1 }).clamp(0, cfg.max_const);
                }
            }
            3 if !c.edges.is_empty() => {
                let k = r.below(c.edges.len());
                if let Some(a) = c.edges[k].guard.first_mut().and_then(|g| g.first_mut()) {
                    a.k = (a.k + if r.chance(1, 2) { 1 } else { -1 }).clamp(0, cfg.max_const);
                }
            }
            4 if !c.clocks.is_empty() && !c.edges.is_empty() => {
                let k = r.below(c.edges.len());
                let x = r.below(c.clocks.len());
                if let Some(p) = c.edges[k].resets.iter().position(|(c, _)| *c == x) {
                    c.edges[k].resets.remove(p);
                } else {
                    c.edges[k].resets.push((x, 0));
                }
            }
            _ => {
                let k = r.below(c.locs.len());
                c.locs[k].inv.clear();
            }
        }
    }
    c
}

fn names(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// A model: components A, A2 (same interface), B (runs beside A), T (specification of A || B),
/// and D (an independent component).
pub fn gen_model(r: &mut Rng, tag: &str, cfg: &GenCfg) -> Vec<Comp> {
    let (ai, ao) = match r.below(3) {
        0 => (names(&["i"]), names(&["o"])),
        1 => (names(&["i", "j"]), names(&["o"])),
        _ => (names(&["i"]), names(&["o", "p"])),
    };
    let (bi, bo) = match r.below(3) {
        0 => (names(&["o"]), names(&["q"])),
        1 => (names(&["o", "k"]), names(&["q"])),
        _ => (names(&["k"]), names(&["q"])),
    };
    let mut ti: Vec<String> = ai.iter().chain(bi.iter()).filter(|a| !ao.contains(a) && !bo.contains(a)).cloned().collect();
    ti.dedup();
    let to: Vec<String> = ao.iter().chain(bo.iter()).cloned().collect();
    let mut a = gen_comp(r, "A", &ai, &ao, tag, cfg);
    complete_interface(r, &mut a, tag);
    let mut a2 = if r.chance(3, 5) { mutate(r, &a, "A2", None, cfg) } else { gen_comp(r, "A2", &ai, &ao, tag, cfg) };
    complete_interface(r, &mut a2, tag);
    let mut b = gen_comp(r, "B", &bi, &bo, tag, cfg);
    complete_interface(r, &mut b, tag);
    let mut t = if r.chance(1, 2) { loose(r, "T", &ti, &to, tag, cfg) } else { gen_comp(r, "T", &ti, &to, tag, cfg) };
    complete_interface(r, &mut t, tag);
    let mut d = gen_comp(r, "D", &names(&["m"]), &names(&["n"]), tag, cfg);
    complete_interface(r, &mut d, tag);
    vec![a, a2, b, t, d]
}

/// A permissive specification: every output allowed (almost) everywhere.
pub fn loose(r: &mut Rng, name: &str, ins: &[String], outs: &[String], tag: &str, cfg: &GenCfg) -> Comp {
    let mut c = gen_comp(r, name, ins, outs, tag, &GenCfg { max_locs: 2, inv: 10, ..cfg.clone() });
    for l in 0..c.locs.len() {
        for a in outs {
            if r.chance(9, 10) {
                c.edges.retain(|e| !(e.src == l && &e.sync == a));
                let d = r.below(c.locs.len());
                let id = format!("E{}{}", c.edges.len(), tag);
                c.edges.push(Edge { id, src: l, dst: d, input: false, sync: a.clone(), guard: vec![], resets: vec![] });
            }
        }
        if r.chance(4, 5) {
            c.locs[l].inv.clear();
        }
    }
    c
}

/// Gives components, places and clocks names that begin like words of the query language.
pub fn odd_names(r: &mut Rng, comps: &mut [Comp], text: &mut String) {
    let odd = |r: &mut Rng, n: &str| match r.below(10) {
        0 | 1 => format!("not{}", n),
        2 => format!("true{}", n),
        3 => format!("init{}", n),
        4 => format!("or{}", n),
        5 => format!("and_{}", n),
        6 => format!("{}_", n),
        _ => n.to_string(),
    };
    for c in comps.iter_mut() {
        let new = odd(r, &c.name);
        let mut t = String::new();
        for w in text.split_inclusive(|x: char| !x.is_alphanumeric() && x != '_') {
            let name = w.trim_end_matches(|x: char| !x.is_alphanumeric() && x != '_');
            t += &if name == c.name { format!("{}{}", new, &w[name.len()..]) } else { w.to_string() };
        }
        *text = t;
        c.name = new;
        let f = odd(r, "");
        if r.chance(1, 2) {
            c.clocks.iter_mut().for_each(|n| *n = format!("{}{}", f, n).trim_start_matches('_').to_string());
        }
        if r.chance(1, 2) {
            c.locs.iter_mut().for_each(|l| l.id = format!("{}{}", f, l.id).trim_start_matches('_').to_string());
        }
    }
}
