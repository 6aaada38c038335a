//! Reading project files independently of the tool: what a component file says.
use crate::model::{Comp, Edge, Loc};
use crate::refsem::{At, Pred, Raw, Sys};
use crate::rng::Rng;
use crate::zone::SC;
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    /// No reader may accept this.
    Invalid(String),
    /// Perhaps meaningful, but not to this reader.
    Unknown(String),
}
type Res<T> = Result<T, Bad>;

fn invalid<T>(s: impl Into<String>) -> Res<T> {
    Err(Bad::Invalid(s.into()))
}
fn unknown<T>(s: impl Into<String>) -> Res<T> {
    Err(Bad::Unknown(s.into()))
}

/// A sum of clocks and a constant.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Lin {
    pub of: BTreeMap<String, i64>,
    pub k: i64,
}

impl Lin {
    fn add(mut self, o: &Lin, f: i64) -> Lin {
        for (c, n) in &o.of {
            *self.of.entry(c.clone()).or_insert(0) += n * f;
        }
        self.of.retain(|_, n| *n != 0);
        self.k += o.k * f;
        self
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cond {
    Bool(bool),
    /// The sum compared with 0.
    Cmp(Lin, u8),
    And(Vec<Cond>),
    Or(Vec<Cond>),
}

impl Cond {
    pub fn eval(&self, v: &BTreeMap<String, i64>) -> bool {
        match self {
            Cond::Bool(b) => *b,
            Cond::Cmp(l, op) => {
                let x: i64 = l.k * SC + l.of.iter().map(|(c, n)| n * v.get(c).copied().unwrap_or(0)).sum::<i64>();
                match op {
                    0 => x < 0,
                    1 => x <= 0,
                    2 => x > 0,
                    3 => x >= 0,
                    _ => x == 0,
                }
            }
            Cond::And(c) => c.iter().all(|c| c.eval(v)),
            Cond::Or(c) => c.iter().any(|c| c.eval(v)),
        }
    }
    pub fn names(&self, out: &mut BTreeMap<String, i64>) {
        match self {
            Cond::Bool(_) => {}
            Cond::Cmp(l, _) => l.of.keys().for_each(|k| {
                out.insert(k.clone(), 0);
            }),
            Cond::And(c) | Cond::Or(c) => c.iter().for_each(|c| c.names(out)),
        }
    }
    /// Do they mean the same, as far as samples tell?
    pub fn same(&self, o: &Cond, r: &mut Rng) -> bool {
        if self == o {
            return true;
        }
        let mut v = BTreeMap::new();
        self.names(&mut v);
        o.names(&mut v);
        (0..200).all(|_| {
            for x in v.values_mut() {
                *x = r.below(17) as i64 * SC / 2;
            }
            self.eval(&v) == o.eval(&v)
        })
    }
    fn pred(&self, clocks: &[String]) -> Res<Pred> {
        let of = |c: &String| clocks.iter().position(|x| x == c).ok_or(Bad::Invalid(format!("no clock {}", c)));
        Ok(match self {
            Cond::Bool(true) => Pred::True,
            Cond::Bool(false) => Pred::Or(vec![]),
            Cond::And(c) => Pred::And(c.iter().map(|c| c.pred(clocks)).collect::<Res<_>>()?),
            Cond::Or(c) => Pred::Or(c.iter().map(|c| c.pred(clocks)).collect::<Res<_>>()?),
            Cond::Cmp(l, op) => {
                let mut t: Vec<(&String, i64)> = l.of.iter().map(|(c, n)| (c, *n)).collect();
                t.sort_by_key(|x| -x.1);
                match t[..] {
                    [] => {
                        if self.eval(&BTreeMap::new()) {
                            Pred::True
                        } else {
                            Pred::Or(vec![])
                        }
                    }
                    [(c, 1)] => Pred::At(At { clock: of(c)?, minus: None, op: *op, k: -l.k * SC }),
                    [(c, -1)] => Pred::At(At { clock: of(c)?, minus: None, op: [2, 3, 0, 1, 4][*op as usize], k: l.k * SC }),
                    [(a, 1), (b, -1)] => Pred::At(At { clock: of(a)?, minus: Some(of(b)?), op: *op, k: -l.k * SC }),
                    _ => return unknown(format!("condition {:?}", l)),
                }
            }
        })
    }
}

// ------------------------------------------------------------------ texts of conditions

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Num(i64),
    Name(String),
    Op(&'static str),
}

fn tokens(s: &str) -> Res<Vec<Tok>> {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    'next: while i < b.len() {
        let c = b[i];
        if c == ' ' || c == '\n' || c == '\t' || (c == '\r' && b.get(i + 1) == Some(&'\n')) {
            i += 1;
            continue;
        }
        if c.is_ascii_digit() {
            let from = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let t: String = b[from..i].iter().collect();
            if t.len() > 1 && t.starts_with('0') {
                return invalid(format!("number {}", t));
            }
            match t.parse::<i32>() {
                Ok(n) => v.push(Tok::Num(n as i64)),
                Err(_) => return invalid(format!("number {}", t)),
            }
            continue;
        }
        if c.is_ascii_alphabetic() {
            let from = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            v.push(Tok::Name(b[from..i].iter().collect()));
            continue;
        }
        for op in ["&&", "||", ">=", "<=", "==", ":=", "<", ">", "(", ")", "+", "-", "*", "/", "%", "=", ",", ";"] {
            if b[i..].starts_with(&op.chars().collect::<Vec<_>>()) {
                v.push(Tok::Op(op));
                i += op.len();
                continue 'next;
            }
        }
        return invalid(format!("character {:?}", c));
    }
    Ok(v)
}

struct P {
    t: Vec<Tok>,
    i: usize,
}

impl P {
    fn op(&mut self, o: &[&'static str]) -> Option<&'static str> {
        match self.t.get(self.i) {
            Some(Tok::Op(x)) if o.contains(x) => {
                self.i += 1;
                Some(x)
            }
            _ => None,
        }
    }
    /// "or" binds tighter than "and".
    fn boolean(&mut self) -> Res<Cond> {
        let mut ands = vec![];
        let mut ors = vec![self.term()?];
        loop {
            match self.op(&["&&", "||"]) {
                Some("&&") => {
                    ands.push(Self::or(std::mem::take(&mut ors)));
                    ors.push(self.term()?);
                }
                Some(_) => ors.push(self.term()?),
                None => break,
            }
        }
        ands.push(Self::or(ors));
        Ok(if ands.len() == 1 { ands.pop().unwrap() } else { Cond::And(ands) })
    }
    fn or(mut v: Vec<Cond>) -> Cond {
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Cond::Or(v)
        }
    }
    fn term(&mut self) -> Res<Cond> {
        let at = self.i;
        let first = self.comparison();
        match first {
            Ok(c) => return Ok(c),
            Err(Bad::Unknown(e)) => return unknown(e),
            _ => self.i = at,
        }
        if let Some(Tok::Name(n)) = self.t.get(self.i) {
            if n == "true" || n == "false" {
                self.i += 1;
                return Ok(Cond::Bool(n == "true"));
            }
        }
        if self.op(&["("]).is_some() {
            let c = self.boolean()?;
            if self.op(&[")"]).is_none() {
                return invalid("a parenthesis is missing");
            }
            return Ok(c);
        }
        invalid(format!("no condition at {:?}", self.t.get(self.i)))
    }
    fn comparison(&mut self) -> Res<Cond> {
        let l = self.sum()?;
        let op = match self.op(&["<", "<=", ">", ">=", "=="]) {
            Some("<") => 0,
            Some("<=") => 1,
            Some(">") => 2,
            Some(">=") => 3,
            Some(_) => 4,
            None => return invalid("no comparison"),
        };
        let r = self.sum()?;
        Ok(Cond::Cmp(l.add(&r, -1), op))
    }
    fn sum(&mut self) -> Res<Lin> {
        let mut l = self.product()?;
        while let Some(o) = self.op(&["+", "-"]) {
            let r = self.product()?;
            l = l.add(&r, if o == "+" { 1 } else { -1 });
        }
        Ok(l)
    }
    fn product(&mut self) -> Res<Lin> {
        let mut l = self.factor()?;
        while let Some(o) = self.op(&["*", "/", "%"]) {
            let r = self.factor()?;
            if !l.of.is_empty() || !r.of.is_empty() || (o != "*" && r.k == 0) {
                return unknown("arithmetic on clocks");
            }
            l.k = match o {
                "*" => l.k * r.k,
                "/" => l.k / r.k,
                _ => l.k % r.k,
            };
        }
        Ok(l)
    }
    fn factor(&mut self) -> Res<Lin> {
        match self.t.get(self.i).cloned() {
            Some(Tok::Num(k)) => {
                self.i += 1;
                Ok(Lin { k, ..Default::default() })
            }
            Some(Tok::Name(n)) => {
                self.i += 1;
                Ok(Lin { of: [(n, 1)].into(), k: 0 })
            }
            Some(Tok::Op("(")) => {
                self.i += 1;
                let l = self.sum()?;
                if self.op(&[")"]).is_none() {
                    return invalid("a parenthesis is missing");
                }
                Ok(l)
            }
            t => invalid(format!("no term at {:?}", t)),
        }
    }
}

pub fn cond(s: &str) -> Res<Cond> {
    if s.is_empty() {
        return Ok(Cond::Bool(true));
    }
    let mut p = P { t: tokens(s)?, i: 0 };
    if p.t.is_empty() || p.t == [Tok::Op(";")] {
        return Ok(Cond::Bool(true));
    }
    let c = p.boolean()?;
    p.op(&[";"]);
    if p.i < p.t.len() {
        return invalid(format!("{:?} after the condition", p.t[p.i]));
    }
    Ok(c)
}

pub fn updates(s: &str) -> Res<Vec<(String, i64)>> {
    let mut p = P { t: tokens(s)?, i: 0 };
    let mut v = vec![];
    while p.i < p.t.len() {
        let Some(Tok::Name(n)) = p.t.get(p.i).cloned() else { return invalid("no variable to update") };
        p.i += 1;
        if p.op(&["=", ":="]).is_none() {
            return invalid("no assignment");
        }
        let l = p.sum()?;
        if !l.of.is_empty() {
            return unknown("an update with clocks");
        }
        v.push((n, l.k));
        if p.op(&[","]).is_none() {
            break;
        }
    }
    if p.i < p.t.len() {
        return invalid(format!("{:?} after the updates", p.t[p.i]));
    }
    Ok(v)
}

// ------------------------------------------------------------------ component files

#[derive(Clone, Debug, PartialEq)]
pub struct FLoc {
    pub id: String,
    pub inv: Cond,
    pub kind: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct FEdge {
    pub id: String,
    pub src: String,
    pub dst: String,
    pub input: bool,
    pub sync: String,
    pub guard: Cond,
    pub upd: Vec<(String, i64)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct FComp {
    pub name: String,
    pub clocks: Vec<String>,
    pub locs: Vec<FLoc>,
    pub edges: Vec<FEdge>,
}

fn text<'a>(v: &'a Value, k: &str) -> Res<&'a str> {
    match v.get(k) {
        Some(Value::String(s)) => Ok(s),
        Some(x) => invalid(format!("{} is {}", k, x)),
        None => invalid(format!("no {}", k)),
    }
}

fn clocks(s: &str) -> Res<Vec<String>> {
    let mut v: Vec<String> = vec![];
    for line in s.split('\n') {
        if line.is_empty() || line.starts_with("//") {
            continue;
        }
        for d in line.split(';') {
            if d.is_empty() {
                continue;
            }
            let Some(rest) = d.strip_prefix("clock ") else { return unknown(format!("declaration {:?}", d)) };
            for n in rest.split(',') {
                let n = n.trim_matches(' ');
                let plain = !n.is_empty() && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && n.starts_with(|c: char| c.is_ascii_alphabetic());
                if !plain || v.iter().any(|x| x == n) {
                    return unknown(format!("declaration {:?}", d));
                }
                v.push(n.into());
            }
        }
    }
    Ok(v)
}

pub fn value(bytes: &[u8]) -> Res<Value> {
    serde_json::from_slice(bytes).map_err(|e| Bad::Invalid(format!("not JSON: {}", e)))
}

pub fn component(v: &Value) -> Res<FComp> {
    if !v.is_object() {
        return unknown("no object");
    }
    let list = |k: &str| match v.get(k) {
        Some(Value::Array(a)) => Ok(a),
        _ => Err(Bad::Invalid(format!("no list of {}", k))),
    };
    let locs: Vec<FLoc> = list("locations")?
        .iter()
        .map(|l| {
            let kind = text(l, "type")?;
            if !["NORMAL", "INITIAL", "UNIVERSAL", "INCONSISTENT"].contains(&kind) {
                return invalid(format!("a location of type {}", kind));
            }
            text(l, "urgency")?;
            Ok(FLoc { id: text(l, "id")?.into(), inv: cond(text(l, "invariant")?)?, kind: kind.into() })
        })
        .collect::<Res<_>>()?;
    let edges = list("edges")?
        .iter()
        .map(|e| {
            let input = match text(e, "status")? {
                "INPUT" => true,
                "OUTPUT" => false,
                s => return invalid(format!("an edge of status {}", s)),
            };
            let s = text(e, "sync")?;
            let sync = if s.contains('!') { s.replace('!', "") } else { s.replace('?', "") };
            Ok(FEdge {
                id: text(e, "id")?.into(),
                src: text(e, "sourceLocation")?.into(),
                dst: text(e, "targetLocation")?.into(),
                input,
                sync,
                guard: cond(text(e, "guard")?)?,
                upd: updates(text(e, "update")?)?,
            })
        })
        .collect::<Res<_>>()?;
    Ok(FComp { name: text(v, "name")?.into(), clocks: clocks(text(v, "declarations")?)?, locs, edges })
}

impl FComp {
    /// As a system of its own.
    pub fn sys(&self) -> Res<Sys> {
        let at = |id: &String| {
            let v: Vec<usize> = (0..self.locs.len()).filter(|&i| &self.locs[i].id == id).collect();
            match v[..] {
                [i] => Ok(i),
                [] => Err(Bad::Invalid(format!("no location {}", id))),
                _ => Err(Bad::Invalid(format!("several locations {}", id))),
            }
        };
        for l in &self.locs {
            at(&l.id)?;
        }
        if self.locs.iter().filter(|l| l.kind == "INITIAL").count() != 1 {
            return invalid("not one initial location");
        }
        let c = Comp {
            name: self.name.clone(),
            clocks: self.clocks.clone(),
            locs: self.locs.iter().map(|l| Loc { id: l.id.clone(), inv: vec![], kind: l.kind.clone() }).collect(),
            edges: self
                .edges
                .iter()
                .map(|e| {
                    let resets = e
                        .upd
                        .iter()
                        .map(|(n, k)| self.clocks.iter().position(|x| x == n).map(|c| (c, *k as i32)).ok_or(Bad::Invalid(format!("no clock {}", n))))
                        .collect::<Res<_>>()?;
                    Ok(Edge { id: e.id.clone(), src: at(&e.src)?, dst: at(&e.dst)?, input: e.input, sync: e.sync.clone(), guard: vec![], resets })
                })
                .collect::<Res<_>>()?,
            ins: vec![],
            outs: vec![],
            spell: 0,
        };
        let raw = Raw {
            inv: self.locs.iter().map(|l| l.inv.pred(&self.clocks)).collect::<Res<_>>()?,
            guard: self.edges.iter().map(|e| e.guard.pred(&self.clocks)).collect::<Res<_>>()?,
        };
        Ok(Sys::of_raw(c, raw))
    }
}
