//! Projects on a disk that fails: saving (C13) and loading (C14).
use crate::c08::{comp_text, shrink_comps};
use crate::disk::{Disk, Fault, PlannedFault};
use crate::model::{self, Comp, GenCfg};
use crate::program::{run, End, Job, Ran};
use crate::rng::{mix2, Rng};
use crate::runner::{RunOut, Scenario, Sched};
use crate::saved::{self, Bad, FComp};
use crate::w1::hash_str;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const PROJ: &str = "/simdisk/proj";

pub fn comp_path(name: &str) -> String {
    format!("{}/Components/{}.json", PROJ, name)
}

/// White space, and comments, of which there may be none unless words have to be kept apart.
fn gap(r: &mut Rng, apart: bool) -> &'static str {
    const G: &[&str] = &[" ", "\n", "\t", "\r\n", "  ", "\n\n", " // IO Z {z?};\n", "// system\r\n"];
    if r.chance(1, 2) {
        return if apart { " " } else { "" };
    }
    if r.chance(1, 2) {
        " "
    } else {
        *r.pick(G)
    }
}

/// What is said about the components `listed` of a project, one statement a line or laid out in any way.
fn system_text(comps: &[Comp], listed: &[String], lay: Option<u64>) -> String {
    let io = |c: &Comp| -> Vec<String> { c.edge_ins().iter().map(|a| format!("{}?", a)).chain(c.edge_outs().iter().map(|a| format!("{}!", a))).collect() };
    let said = comps.iter().filter(|c| listed.contains(&c.name));
    let Some(seed) = lay else {
        let mut d = format!("system {};\n", listed.join(", "));
        for c in said {
            d.push_str(&format!("IO {} {{ {} }}\n", c.name, io(c).join(", ")));
        }
        return d;
    };
    let r = &mut Rng::new(seed);
    let list = |r: &mut Rng, v: &[String]| {
        let mut t = String::new();
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                t += gap(r, false);
                t += ",";
                t += gap(r, false);
            }
            t += x;
        }
        t
    };
    let mut t = format!("{}system{}", gap(r, false), gap(r, true));
    t += &list(r, listed);
    t += gap(r, false);
    t += ";";
    t += gap(r, false);
    for c in said {
        t += "IO";
        t += gap(r, true);
        t += &c.name;
        t += gap(r, false);
        t += "{";
        t += gap(r, false);
        t += &list(r, &io(c));
        t += gap(r, false);
        t += "}";
        t += gap(r, false);
    }
    t
}

/// The declarations of a project: what is listed gets its inputs completed when it is loaded.
fn declarations(comps: &[Comp], listed: &[String], lay: Option<u64>) -> String {
    json!({"name": "System Declarations", "declarations": system_text(comps, listed, lay)}).to_string()
}

pub fn project(comps: &[Comp], listed: &[String], queries: &[String], pretty: bool) -> Disk {
    let mut d = Disk::new();
    d.put(&format!("{}/SystemDeclarations.json", PROJ), declarations(comps, listed, None).as_bytes());
    let q: Vec<Value> = queries.iter().map(|q| json!({"query": q, "comment": "", "isPeriodic": false})).collect();
    d.put(&format!("{}/Queries.json", PROJ), Value::from(q).to_string().as_bytes());
    for c in comps {
        let t = if pretty { serde_json::to_string_pretty(&c.json()).unwrap() } else { c.text() };
        d.put(&comp_path(&c.name), t.as_bytes());
    }
    d
}

pub fn gen(r: &mut Rng) -> Vec<Comp> {
    let cfg = GenCfg {
        max_locs: 1 + r.below(3),
        max_clocks: 1 + r.below(2),
        max_const: 1 + r.below(9) as i32,
        disj: r.chance(1, 3),
        nondet: *r.pick(&[0, 0, 20]),
        inv: *r.pick(&[5, 20, 50]),
        ..Default::default()
    };
    model::gen_model(r, "_e", &cfg)
}

fn gen_fault(r: &mut Rng) -> Fault {
    match r.below(13) {
        0 | 1 => Fault::KillBefore,
        2 | 3 | 4 => Fault::KillAfter(*r.pick(&[0, 1, 7, 100, 1000, usize::MAX])),
        5 | 6 => Fault::Eio,
        7 | 8 => Fault::DiskFull,
        9 => Fault::Short(1 + r.below(60)),
        10 => Fault::Eintr,
        11 => Fault::Emfile,
        _ => Fault::Slow(1 + r.below(5000) as u64),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Crash {
    None,
    Process,
    Power(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Session {
    /// (expression, name)
    saves: Vec<(String, String)>,
    prune: bool,
    reduce: bool,
    /// Where among the calls to the system (modulo how many there are), and what.
    faults: Vec<(u64, Fault)>,
    crash: Crash,
    seed: u64,
}

impl Session {
    fn job(&self) -> Job {
        let q: Vec<String> = self.saves.iter().map(|(e, n)| format!("{}: {} save-as {}", if self.prune { "prune" } else { "get-component" }, e, n)).collect();
        Job::Cli { query: q.join("; "), path: PROJ.into(), reduce: self.reduce }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Harm {
    /// Faults while reading.
    Faults(Vec<(u64, Fault)>),
    /// A file that is not what it was.
    Damage { file: usize, kind: usize, at: u64, len: u64 },
    Missing(usize),
    /// Nothing at all: the same, written differently.
    Layout(u64),
    /// A program that saves at the same time.
    Beside { expr: String, name: String, seed: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    harm: Harm,
    /// A query to run; the loader alone otherwise.
    query: Option<String>,
    xml: bool,
    seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    seed: u64,
    hash_seed: u64,
    comps: Vec<Comp>,
    listed: Vec<String>,
    pretty: bool,
    sessions: Vec<Session>,
    cases: Vec<Case>,
}

pub struct W2 {
    pub focus: &'static str,
}

const SAVES: &[&str] = &["A", "A2", "B", "T", "D", "A && A2", "A || B", "A2 || B", "B || D", "A || B || D", "(A && A2) || B", "T // B"];

/// The same content, whatever picture it is drawn with.
fn same_content(a: &[u8], b: &[u8]) -> bool {
    if a == b {
        return true;
    }
    let f = |x: &[u8]| saved::value(x).and_then(|v| saved::component(&v));
    matches!((f(a), f(b)), (Ok(x), Ok(y)) if x == y)
}

fn whole(bytes: &[u8], name: &str) -> bool {
    matches!(saved::value(bytes), Ok(v) if v.get("name").and_then(|n| n.as_str()) == Some(name) && v.get("locations").is_some() && v.get("edges").is_some())
}

fn is_comp(path: &str) -> Option<&str> {
    path.strip_prefix(&format!("{}/Components/", PROJ))?.strip_suffix(".json")
}

fn harmed(what: &str, out: &mut RunOut, d: &Ran) {
    for (k, n) in &d.fired {
        out.count(&format!("fault: {}", k), *n);
    }
    let _ = what;
}

fn end_text(e: &End) -> String {
    let mut t = format!("{:?}", e);
    t.truncate(300);
    t
}

fn sessions(p: &Plan, out: &mut RunOut) {
    let mut disk = project(&p.comps, &p.listed, &[], p.pretty);
    let mut lines = vec![];
    for (k, s) in p.sessions.iter().enumerate() {
        let job = s.job();
        let shown = match &job {
            Job::Cli { query, .. } => query.clone(),
            _ => String::new(),
        };
        let old = disk.all();
        // as it goes without any fault
        let dry = run(&job, None, &disk, &[], s.seed, p.hash_seed);
        match dry.end {
            End::Lost | End::Stuck(_) => {
                out.count("sessions left out (no end in sight)", 1);
                continue;
            }
            _ => {}
        }
        let new = dry.disk.all();
        let targets: BTreeSet<String> = s.saves.iter().map(|(_, n)| comp_path(n)).collect();
        out.sim_ns += dry.ns;
        out.count("sessions without faults", 1);
        if let Some(m) = compare(&old, &new, &new, &targets) {
            return out.viol("C13", "untouched", "untouched", format!("{} (no fault): {}", shown, m));
        }
        for t in &targets {
            let same = old.get(t) == new.get(t);
            match new.get(t) {
                Some(b) if !same && !whole(b, is_comp(t).unwrap()) => {
                    return out.viol("C13", "damaged", "dry", format!("{} (no fault) ended with {}: {} is not a whole component", shown, end_text(&dry.end), t));
                }
                None if dry.end.ok() => return out.viol("C13", "lost", "dry", format!("{} (no fault) succeeded, but there is no {}", shown, t)),
                _ => {}
            }
        }
        // what an earlier crash left behind changes nothing
        let mut clean = Disk::new();
        for (path, b) in old.iter().filter(|(f, _)| !f.contains("/Components/") || is_comp(f).is_some()) {
            clean.put(path, b);
        }
        let swept = run(&job, None, &clean, &[], s.seed, p.hash_seed);
        if swept.end.ok() != dry.end.ok() && swept.end != End::Lost {
            return out.viol("C13", "leftovers", "leftovers", format!("{}: ends with {} beside {:?} and with {} without them", shown, end_text(&dry.end), old.keys().filter(|f| f.contains("/Components/") && is_comp(f).is_none()).collect::<Vec<_>>(), end_text(&swept.end)));
        }
        // and with faults
        let faults: Vec<PlannedFault> = s.faults.iter().map(|(at, f)| PlannedFault { at: place(*at, &dry), fault: *f }).collect();
        let real = run(&job, None, &disk, &faults, s.seed, p.hash_seed);
        if real.end == End::Lost {
            out.inconclusive = Some("a session gave no answer".into());
            return;
        }
        harmed("session", out, &real);
        out.sim_ns += real.ns;
        out.steps += real.ops;
        out.count("system calls on the disk", real.ops + dry.ops);
        let mut after = real.disk.clone();
        let crash = match (&s.crash, &real.end) {
            (Crash::None, End::Killed) => "the process was killed",
            (Crash::None, _) => "no crash",
            (Crash::Process, _) => "the process was killed",
            (Crash::Power(_), _) => "the power failed",
        };
        match s.crash {
            Crash::Power(x) => after.power_loss(x),
            _ => after.process_crash(),
        }
        out.count(&format!("crash: {}", crash), 1);
        out.count(&format!("sessions with faults: {}", match real.end {
            End::Done(true) | End::Exit(0) => "success",
            End::Killed => "killed",
            End::Stuck(_) => "stuck",
            _ => "failed visibly",
        }), 1);
        out.trace = mix2(out.trace, mix2(real.trace, hash_str(&end_text(&real.end))));
        if !real.fired.is_empty() || !matches!(s.crash, Crash::None) {
            out.nontrivial = true;
        }
        let fate = format!("session {}: {} with {:?} of {} calls ended with {}, {}", k + 1, shown, faults, dry.ops, end_text(&real.end), crash);
        lines.push(fate.clone());
        if let End::Stuck(w) = &real.end {
            return out.viol("C13", "stuck", "stuck", format!("{}: {}", fate, w));
        }
        let now = after.all();
        if let Some(m) = compare(&old, &new, &now, &targets) {
            return out.viol("C13", "damaged", "damaged", format!("{}: {}", fate, m));
        }
        if real.end.ok() {
            for t in &targets {
                match now.get(t) {
                    Some(b) if dry.end.ok() && same_content(b, &new[t]) => {}
                    Some(b) if !dry.end.ok() && Some(b) != old.get(t) => {}
                    b => {
                        let what = if b.is_none() { "missing" } else { "the old version" };
                        return out.viol("C13", "not-durable", "not-durable", format!("{}, but {} is {}", fate, t, what));
                    }
                }
            }
        }
        disk = after;
        // a fresh start: nothing half done is pending any more
        disk.sync_all();
    }
    out.sample = json!({"sessions": lines});
}

/// Every file is the old or the new version, and only targets may be new.
fn compare(old: &BTreeMap<String, Vec<u8>>, new: &BTreeMap<String, Vec<u8>>, now: &BTreeMap<String, Vec<u8>>, targets: &BTreeSet<String>) -> Option<String> {
    for (f, b) in old {
        match now.get(f) {
            Some(x) if x == b => {}
            Some(x) if targets.contains(f) && new.get(f).map_or(false, |n| same_content(x, n)) => {}
            Some(x) if targets.contains(f) => {
                return Some(format!("{} holds {} bytes, neither the old version ({}) nor the new one ({})", f, x.len(), b.len(), new.get(f).map_or(0, |n| n.len())))
            }
            Some(_) if is_comp(f).is_some() || !f.contains("/Components/") => return Some(format!("{} is not saved to but has changed", f)),
            None if is_comp(f).is_some() || !f.contains("/Components/") => return Some(format!("{} is gone", f)),
            // something an earlier crash left behind
            _ => {}
        }
    }
    for (f, b) in now.iter().filter(|(f, _)| !old.contains_key(*f)) {
        if targets.contains(f) {
            if new.get(f).map_or(false, |n| same_content(b, n)) {
                continue;
            }
            return Some(format!("{} was not there and holds {} bytes now, which is not the new version ({})", f, b.len(), new.get(f).map_or(0, |n| n.len())));
        }
        if is_comp(f).is_some() {
            return Some(format!("there is a {} that nobody saved", f));
        }
    }
    None
}

/// Faults tend to fall where files are written.
fn place(at: u64, dry: &Ran) -> u64 {
    let writes: Vec<u64> = dry.log.iter().enumerate().filter(|(_, l)| !l.starts_with("read") && !l.starts_with("open /simdisk/proj/S") && !l.starts_with("open /simdisk/proj/Q")).map(|(i, _)| i as u64).collect();
    let w: Vec<u64> = dry.log.iter().enumerate().filter(|(_, l)| l.starts_with("write")).map(|(i, _)| i as u64).collect();
    if at % 4 == 1 && !w.is_empty() {
        return w[((at / 12) % w.len() as u64) as usize];
    }
    if at % 4 != 0 && !writes.is_empty() {
        // the last of them more often than not: what writes closes, syncs and renames is there
        let n = writes.len() as u64;
        let from = if at % 3 == 0 { 0 } else { n.saturating_sub(16) };
        return writes[(from + (at / 12) % (n - from)) as usize];
    }
    (at / 12) % (dry.ops + 1)
}

// ------------------------------------------------------------------ loading

fn load_job(p: &Plan, c: &Case) -> Job {
    match &c.query {
        Some(q) => Job::Cli { query: q.clone(), path: if c.xml { format!("{}/model.xml", PROJ) } else { PROJ.into() }, reduce: c.seed % 2 == 0 },
        _ => Job::Load { path: if c.xml { format!("{}/model.xml", PROJ) } else { PROJ.into() }, xml: c.xml, names: p.comps.iter().map(|c| c.name.clone()).collect() },
    }
}

fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

/// The same model as one XML file.
fn xml(comps: &[Comp], queries: &[String], lay: Option<u64>) -> String {
    let r = &mut Rng::new(lay.unwrap_or(0));
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<nta>\n<declaration>broadcast chan i, o;</declaration>\n");
    for c in comps {
        let clocks = match (c.clocks.is_empty(), lay) {
            (true, None) => String::new(),
            (true, _) => gap(r, false).into(),
            (_, None) => format!("clock {};", c.clocks.join(", ")),
            _ => match r.below(3) {
                0 => c.clocks.iter().map(|x| format!("{}clock {}{};{}", gap(r, false), x, *r.pick(&["", " ", "\t"]), gap(r, false))).collect(),
                1 => format!(" \r\n\tclock\t{} ;\r\n", c.clocks.join(" , ")),
                _ => format!("clock {};{}", c.clocks.join(","), gap(r, false)),
            },
        };
        s.push_str(&format!("<template><name>{}</name><declaration>{}</declaration>\n", c.name, clocks));
        for l in &c.locs {
            s.push_str(&format!("<location id=\"{}\">", l.id));
            if !l.inv.is_empty() {
                s.push_str(&format!("<label kind=\"invariant\">{}</label>", esc(&c.conj_text(&l.inv))));
            }
            s.push_str("</location>\n");
        }
        s.push_str(&format!("<init ref=\"{}\"/>\n", c.locs[c.initial()].id));
        for e in &c.edges {
            s.push_str(&format!("<transition{}><source ref=\"{}\"/><target ref=\"{}\"/>", if e.input { "" } else { " controllable=\"false\"" }, c.locs[e.src].id, c.locs[e.dst].id));
            if !e.guard.is_empty() {
                s.push_str(&format!("<label kind=\"guard\">{}</label>", esc(&c.guard_text(&e.guard))));
            }
            s.push_str(&format!("<label kind=\"synchronisation\">{}{}</label>", e.sync, if e.input { "?" } else { "!" }));
            if !e.resets.is_empty() {
                s.push_str(&format!("<label kind=\"assignment\">{}</label>", e.resets.iter().map(|(x, k)| format!("{}={}", c.clocks[*x], k)).collect::<Vec<_>>().join(", ")));
            }
            s.push_str("</transition>\n");
        }
        s.push_str("</template>\n");
    }
    let names: Vec<String> = comps.iter().map(|c| c.name.clone()).collect();
    s.push_str(&format!("<system>{}", system_text(comps, &names, lay)));
    s.push_str("</system>\n<queries>\n");
    for q in queries {
        s.push_str(&format!("<query><formula>{}</formula><comment></comment></query>\n", esc(q)));
    }
    s.push_str("</queries>\n</nta>\n");
    s
}

const LOADS: &[&str] = &["refinement: A <= A2", "refinement: A || B <= T", "consistency: A", "determinism: A2", "consistency: A && A2", "refinement: A2 <= A; consistency: B"];

fn damage(b: &[u8], kind: usize, at: u64, len: u64) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = v.len().max(1);
    let i = (at as usize) % n;
    let l = 1 + (len as usize) % 40;
    match kind {
        // a bit flips
        0 => v[i] ^= 1 << (len % 8),
        // the end is missing
        1 => v.truncate(i),
        // a block of zeroes
        2 => v.iter_mut().skip(i).take(l * 8).for_each(|x| *x = 0),
        // a piece is missing
        3 => {
            v.drain(i..(i + l).min(n));
        }
        // a piece is there twice
        4 => {
            let piece = v[i..(i + l).min(n)].to_vec();
            let at = i;
            for (k, x) in piece.into_iter().enumerate() {
                v.insert(at + k, x);
            }
        }
        // a digit, letter or operator is another one
        5 => {
            let k: Vec<usize> = (0..n).filter(|&k| v[k].is_ascii_digit() || b"<>=&|!?+-*".contains(&v[k])).collect();
            if !k.is_empty() {
                let k = k[(at as usize) % k.len()];
                v[k] = b"0123456789<>=&|!?+-x "[(len as usize) % 21];
            }
        }
        // nothing at all
        6 => v.clear(),
        // a letter of a name became something else, in any encoding
        8 => {
            let k: Vec<usize> = (0..n).filter(|&k| v[k].is_ascii_alphanumeric() || v[k] == b'_').collect();
            if !k.is_empty() {
                v[k[(at as usize) % k.len()]] = [0xff, 0xc3, 0xe9, 0x80, b'Z', b' ', b'"', 0x7f][(len as usize) % 8];
            }
        }
        // an item of the file is missing, or is there twice
        _ => {
            if let Ok(mut j) = saved::value(b) {
                for key in if at % 2 == 0 { ["edges", "locations"] } else { ["locations", "edges"] } {
                    if let Some(a) = j.get_mut(key).and_then(|a| a.as_array_mut()) {
                        if !a.is_empty() {
                            let i = (at / 2) as usize % a.len();
                            if let Some(o) = a[i].as_object_mut() {
                                let keys: Vec<String> = o.keys().cloned().collect();
                                let key = &keys[(len / 4) as usize % keys.len()];
                                match len % 4 {
                                    0 => {
                                        o.remove(key);
                                    }
                                    1 => {
                                        o.insert(key.clone(), Value::Null);
                                    }
                                    2 => {
                                        a.remove(i);
                                    }
                                    _ => {
                                        let x = o.get(key).and_then(|x| x.as_str()).map(|x| format!("{}{}", x, [" && ", "0", "&", " ||", ")", "("][(at / 7) as usize % 6]));
                                        if let Some(x) = x {
                                            o.insert(key.clone(), json!(x));
                                        }
                                    }
                                }
                                v = j.to_string().into_bytes();
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

/// What came out of a file, against what is in it. `extra`: inputs may have been completed.
fn meant(want: &FComp, got: &Value, extra: bool, r: &mut Rng) -> Option<String> {
    let got = match saved::component(got) {
        Ok(g) => g,
        Err(Bad::Unknown(_)) => return None,
        Err(Bad::Invalid(e)) => return Some(format!("what was loaded makes no sense: {}", e)),
    };
    if got.name != want.name {
        return Some(format!("name {} instead of {}", got.name, want.name));
    }
    let set = |v: &[String]| v.iter().cloned().collect::<BTreeSet<_>>();
    if set(&got.clocks) != set(&want.clocks) {
        return Some(format!("clocks {:?} instead of {:?}", got.clocks, want.clocks));
    }
    if got.locs.len() != want.locs.len() || got.edges.len() < want.edges.len() || (!extra && got.edges.len() > want.edges.len()) {
        return Some(format!("{} locations and {} edges instead of {} and {}", got.locs.len(), got.edges.len(), want.locs.len(), want.edges.len()));
    }
    for (g, w) in got.locs.iter().zip(&want.locs) {
        if g.id != w.id || g.kind != w.kind || !g.inv.same(&w.inv, r) {
            return Some(format!("location {:?} instead of {:?}", g, w));
        }
    }
    for (g, w) in got.edges.iter().zip(&want.edges) {
        if (&g.id, &g.src, &g.dst, g.input, &g.sync, &g.upd) != (&w.id, &w.src, &w.dst, w.input, &w.sync, &w.upd) || !g.guard.same(&w.guard, r) {
            return Some(format!("edge {:?} instead of {:?}", g, w));
        }
    }
    for g in &got.edges[want.edges.len()..] {
        if !g.input || g.src != g.dst || !g.upd.is_empty() {
            return Some(format!("an edge that is nowhere in the file: {:?}", g));
        }
    }
    None
}

fn cases(p: &Plan, out: &mut RunOut) {
    let mut r = Rng::new(mix2(p.seed, 0x1414));
    let qs: Vec<String> = LOADS.iter().take(1 + r.below(3)).map(|s| s.to_string()).collect();
    let mut disk = project(&p.comps, &p.listed, &qs, p.pretty);
    disk.put(&format!("{}/model.xml", PROJ), xml(&p.comps, &qs, None).as_bytes());
    let files = disk.list(PROJ);
    let mut lines = vec![];
    for c in &p.cases {
        let job = load_job(p, c);
        let shown = match &job {
            Job::Cli { query, .. } => query.clone(),
            Job::Load { path, .. } | Job::Query { path, .. } => format!("loading all of {}", path),
        };
        let dry = run(&job, None, &disk, &[], c.seed, p.hash_seed);
        if !dry.end.ok() {
            out.count("cases left out (not even without faults)", 1);
            if let Harm::Faults(_) = c.harm {
                if c.query.is_none() {
                    return out.viol("C14", "intact", "intact", format!("{}: {} although everything is intact", shown, end_text(&dry.end)));
                }
            }
            continue;
        }
        out.sim_ns += dry.ns;
        let mut d2 = disk.clone();
        let fate;
        match &c.harm {
            Harm::Faults(f) => {
                let faults: Vec<PlannedFault> = f.iter().map(|(at, f)| PlannedFault { at: at % (dry.ops + 1), fault: *f }).collect();
                let real = run(&job, None, &disk, &faults, c.seed, p.hash_seed);
                if real.end == End::Lost {
                    out.inconclusive = Some("a run gave no answer".into());
                    return;
                }
                harmed("load", out, &real);
                out.count("system calls on the disk", real.ops + dry.ops);
                out.trace = mix2(out.trace, mix2(real.trace, hash_str(&real.text)));
                fate = format!("{} with {:?} of {} calls ended with {}", shown, faults, dry.ops, end_text(&real.end));
                if !real.fired.is_empty() {
                    out.nontrivial = true;
                }
                if real.end.ok() && no_layout(&real.text) != no_layout(&dry.text) {
                    return out.viol("C14", "invented", "read-fault", format!("{}\nand gives\n{}\ninstead of\n{}", fate, cut(&real.text, &dry.text), cut(&dry.text, &real.text)));
                }
                if let End::Stuck(w) = &real.end {
                    return out.viol("C14", "stuck", "stuck", format!("{}: {}", fate, w));
                }
                out.count(if real.end.ok() { "reads with faults: all is there" } else { "reads with faults: failed visibly" }, 1);
            }
            Harm::Layout(seed) => {
                // also as the other kind of project, where that says the same
                let mut job = job.clone();
                let mut how = "laid out differently";
                let all = p.listed.len() == p.comps.len();
                if let (Job::Cli { path, .. }, true) = (&mut job, all && seed % 4 != 0) {
                    *path = if c.xml { PROJ.into() } else { format!("{}/model.xml", PROJ) };
                    how = "as the other kind of project";
                }
                d2.put(&format!("{}/SystemDeclarations.json", PROJ), declarations(&p.comps, &p.listed, Some(*seed)).as_bytes());
                d2.put(&format!("{}/model.xml", PROJ), xml(&p.comps, &qs, Some(*seed)).as_bytes());
                let real = run(&job, None, &d2, &[], c.seed, p.hash_seed);
                if matches!(real.end, End::Lost | End::Stuck(_)) {
                    out.count("cases left out (no end in sight)", 1);
                    continue;
                }
                fate = format!("{} {} ended with {}", shown, how, end_text(&real.end));
                out.trace = mix2(out.trace, mix2(real.trace, hash_str(&real.text)));
                out.nontrivial = true;
                // which of several reasons a failure is given is up to chance
                let tidy = |t: &str| {
                    let t = no_layout(t);
                    match &job {
                        Job::Cli { .. } => t.lines().map(|l| if l.contains("Got failure") { "Got failure" } else { l }).collect::<Vec<_>>().join("\n"),
                        _ => t,
                    }
                };
                let same = real.end.ok() && (tidy(&real.text) == tidy(&dry.text) || matches!(job, Job::Cli { .. }) && (1..6).any(|k| {
                    // and answers that chance decides are another property's concern
                    let again = run(&load_job(p, c), None, &disk, &[], c.seed, mix2(p.hash_seed, k));
                    again.end.ok() && tidy(&again.text) == tidy(&real.text)
                }));
                if !same {
                    let f = if matches!(&job, Job::Cli { path, .. } | Job::Load { path, .. } if path.ends_with("xml")) { "model.xml" } else { "SystemDeclarations.json" };
                    let text = String::from_utf8_lossy(&d2.get(&format!("{}/{}", PROJ, f)).unwrap()).into_owned();
                    return out.viol("C14", "invented", "layout", format!("{} and gives\n{}\ninstead of\n{}\n{}", fate, cut(&real.text, &dry.text), cut(&dry.text, &real.text), text));
                }
                out.count(&format!("models {}", how), 1);
            }
            Harm::Missing(k) => {
                let f = &files[k % files.len()];
                d2.remove(f);
                let real = run(&job, None, &d2, &[], c.seed, p.hash_seed);
                fate = format!("{} without {} ended with {}", shown, f, end_text(&real.end));
                out.count("fault: missing file", 1);
                out.trace = mix2(out.trace, real.trace);
                out.nontrivial = true;
                let read = dry.log.iter().any(|l| l == &format!("open {}", f));
                if real.end.ok() && is_comp(f).is_some() && read {
                    return out.viol("C14", "invented", "missing", format!("{}, although that file is needed", fate));
                }
                if real.end.ok() && !read && no_layout(&real.text) != no_layout(&dry.text) {
                    return out.viol("C14", "invented", "missing", format!("{} and gives {} instead of {}", fate, cut(&real.text, &dry.text), cut(&dry.text, &real.text)));
                }
            }
            Harm::Damage { file, kind, at, len } => {
                let f = &files[file % files.len()];
                let b = disk.get(f).unwrap();
                let bad = damage(&b, *kind, *at, *len);
                if bad == b || !dry.log.iter().any(|l| l == &format!("open {}", f)) {
                    continue;
                }
                d2.put(f, &bad);
                let real = run(&job, None, &d2, &[], c.seed, p.hash_seed);
                if matches!(real.end, End::Lost | End::Stuck(_)) {
                    out.count("cases left out (no end in sight)", 1);
                    continue;
                }
                fate = format!("{} with {} damaged (kind {}, at {}) ended with {}", shown, f, kind, at, end_text(&real.end));
                out.count(&format!("fault: {}", ["flipped bit", "truncated file", "zeroed block", "missing piece", "repeated piece", "changed character", "empty file", "changed item", "changed letter"][*kind.min(&8)]), 1);
                out.trace = mix2(out.trace, mix2(real.trace, hash_str(&real.text)));
                out.nontrivial = true;
                let meaning = saved::value(&bad).and_then(|v| if is_comp(f).is_some() { saved::component(&v).map(Some) } else { Ok(None) });
                let text = || String::from_utf8_lossy(&bad).into_owned();
                match meaning {
                    // bytes that are no text, in a place nobody reads
                    Err(Bad::Invalid(_)) if real.end.ok() && real.text == dry.text && std::str::from_utf8(&bad).is_err() => out.count("damaged files left out", 1),
                    Err(Bad::Invalid(e)) if real.end.ok() && !c.xml => {
                        return out.viol("C14", "accepted", "damaged", format!("{}, although it makes no sense: {}\n{}", fate, e, text()));
                    }
                    Err(Bad::Invalid(_)) => out.count("damaged files refused", 1),
                    Err(Bad::Unknown(_)) => out.count("damaged files left out", 1),
                    Ok(Some(want)) if real.end.ok() && c.query.is_none() => {
                        let at = p.comps.iter().position(|c| comp_path(&c.name) == *f).unwrap();
                        let got: Option<Value> = real.text.lines().filter_map(|l| l.strip_prefix("json ")).nth(at).and_then(|l| serde_json::from_str(l).ok());
                        let Some(got) = got else { return out.viol("C14", "invented", "damaged", format!("{}: nothing was loaded for it", fate)) };
                        if let Some(m) = meant(&want, &got, p.listed.contains(&p.comps[at].name), &mut r) {
                            return out.viol("C14", "invented", "damaged", format!("{}, and gives {}\n{}", fate, m, text()));
                        }
                        out.count("damaged files that mean something else, loaded as such", 1);
                    }
                    Ok(_) => {}
                }
            }
            Harm::Beside { expr, name, seed } => {
                let save = Job::Query { query: format!("get-component: {} save-as {}", expr, name), path: PROJ.into() };
                let real = run(&job, Some(&save), &disk, &[], mix2(c.seed, *seed), p.hash_seed);
                if real.end == End::Lost || matches!(real.end, End::Stuck(_)) {
                    out.count("cases left out (no end in sight)", 1);
                    continue;
                }
                fate = format!("{} beside get-component: {} save-as {} ended with {}", shown, expr, name, end_text(&real.end));
                out.count("loads beside a save", 1);
                // what the loader says afterwards
                let mut left = real.disk.clone();
                left.process_crash();
                let after = run(&job, None, &left, &[], c.seed, p.hash_seed);
                out.trace = mix2(out.trace, mix2(real.trace, hash_str(&real.text)));
                out.nontrivial = true;
                let tidy = |t: &str| no_layout(t);
                if real.end.ok() && tidy(&real.text) != tidy(&dry.text) && (!after.end.ok() || tidy(&real.text) != tidy(&after.text)) {
                    return out.viol("C14", "invented", "beside", format!("{} and gives\n{}\nwhich is neither the old model\n{}\nnor the new one\n{}", fate, real.text, dry.text, after.text));
                }
                if !real.end.ok() && after.end.ok() {
                    out.count("loads beside a save that failed visibly", 1);
                }
            }
        }
        lines.push(fate);
    }
    out.sample = json!({"cases": lines});
}

/// Ids of edges of saved components and the like depend on chance; the picture does too.
fn no_layout(t: &str) -> String {
    t.lines().filter(|l| !l.starts_with("json ")).collect::<Vec<_>>().join("\n")
}

/// The lines of `a` that `b` lacks.
fn cut(a: &str, b: &str) -> String {
    let h: BTreeSet<&str> = b.lines().collect();
    let v: Vec<&str> = a.lines().filter(|l| !h.contains(l)).take(4).collect();
    let mut t = v.join("\n");
    t.truncate(1500);
    t
}

impl Scenario for W2 {
    fn plan(&self, seed: u64, _: u64) -> Value {
        let mut r = Rng::new(seed);
        let comps = gen(&mut r);
        let some = r.chance(2, 3);
        let listed = comps.iter().map(|c| c.name.clone()).filter(|_| !some || r.chance(4, 5)).collect();
        let mut p = Plan { seed: r.next(), hash_seed: r.next(), comps, listed, pretty: r.chance(1, 2), sessions: vec![], cases: vec![] };
        if self.focus == "C13" {
            for _ in 0..1 + r.below(4) {
                let mut saves: Vec<(String, String)> = vec![];
                for _ in 0..1 + r.below(3) {
                    let n = if r.chance(1, 3) { r.pick(&["A", "A2", "B", "T", "D"]).to_string() } else { format!("S{}", r.below(3)) };
                    if !saves.iter().any(|s| s.1 == n) {
                        saves.push((r.pick(SAVES).to_string(), n));
                    }
                }
                let faults = (0..*r.pick(&[0, 1, 1, 1, 1, 2, 3])).map(|_| (r.next() >> 8, gen_fault(&mut r))).collect();
                let crash = match r.below(4) {
                    0 => Crash::None,
                    1 => Crash::Process,
                    _ => Crash::Power(r.next()),
                };
                p.sessions.push(Session { saves, prune: r.chance(1, 5), reduce: r.chance(1, 4), faults, crash, seed: r.next() });
            }
        } else {
            for _ in 0..6 + r.below(8) {
                let harm = match r.below(12) {
                    0..=4 => {
                        let n = 1 + r.below(2);
                        let mut f = vec![];
                        for _ in 0..n {
                            let k = match r.below(6) {
                                0 | 1 => Fault::Eio,
                                2 => Fault::Short(1 + r.below(80)),
                                3 => Fault::Eintr,
                                4 => Fault::Emfile,
                                _ => *r.pick(&[Fault::Slow(100), Fault::KillBefore]),
                            };
                            f.push((r.next() >> 8, k));
                        }
                        // every read comes back short
                        if r.chance(1, 6) {
                            let k = 1 + r.below(200);
                            f = (0..60).map(|i| (i, Fault::Short(k))).collect();
                        }
                        Harm::Faults(f)
                    }
                    5..=8 => Harm::Damage { file: r.below(64), kind: match r.below(13) { k @ 0..=7 => k, 8 | 9 => 7, _ => 8 }, at: r.next() >> 8, len: r.next() >> 8 },
                    9 if r.chance(1, 2) => Harm::Layout(r.next() >> 8),
                    9 => Harm::Missing(r.below(64)),
                    _ => Harm::Beside { expr: r.pick(SAVES).to_string(), name: r.pick(&["A", "A2", "B", "T"]).to_string(), seed: r.next() },
                };
                let xml = matches!(harm, Harm::Faults(_) | Harm::Layout(_)) && r.chance(1, 4);
                let query = if r.chance(1, 3) { Some(r.pick(LOADS).to_string()) } else { None };
                p.cases.push(Case { harm, query, xml, seed: r.next() });
            }
        }
        serde_json::to_value(p).unwrap()
    }

    fn run(&self, plan: &Value, _: Option<Sched>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut out = RunOut::default();
        out.trace = p.seed;
        sessions(&p, &mut out);
        cases(&p, &mut out);
        out.distinct = vec![mix2(out.trace, hash_str(&plan["comps"].to_string()))];
        out
    }

    fn shrink(&self, plan: &Value) -> Vec<Value> {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut v = vec![];
        for i in 0..p.sessions.len() {
            if p.sessions.len() > 1 {
                let mut q = p.clone();
                q.sessions.remove(i);
                v.push(q);
            }
            for k in 0..p.sessions[i].faults.len() {
                let mut q = p.clone();
                q.sessions[i].faults.remove(k);
                v.push(q);
            }
            for k in 0..p.sessions[i].saves.len() {
                if p.sessions[i].saves.len() > 1 {
                    let mut q = p.clone();
                    q.sessions[i].saves.remove(k);
                    v.push(q);
                }
            }
            if !matches!(p.sessions[i].crash, Crash::None) {
                let mut q = p.clone();
                q.sessions[i].crash = Crash::None;
                v.push(q);
            }
        }
        for i in 0..p.cases.len() {
            if p.cases.len() > 1 {
                v.push(Plan { cases: vec![p.cases[i].clone()], ..p.clone() });
            }
            if let Harm::Faults(f) = &p.cases[i].harm {
                for k in 0..f.len() {
                    if f.len() > 1 {
                        let mut f = f.clone();
                        f.remove(k);
                        let mut q = p.clone();
                        q.cases[i].harm = Harm::Faults(f);
                        v.push(q);
                    }
                }
            }
        }
        for q in shrink_comps(&p.comps) {
            v.push(Plan { comps: q, ..p.clone() });
        }
        v.into_iter().map(|p| serde_json::to_value(p).unwrap()).collect()
    }

    fn describe(&self, plan: &Value) -> Value {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        json!({"components": p.comps.iter().map(comp_text).collect::<Vec<_>>(), "declared": p.listed,
            "sessions": p.sessions.iter().map(|s| json!({"saves": s.saves, "faults": format!("{:?}", s.faults), "crash": format!("{:?}", s.crash)})).collect::<Vec<_>>(),
            "cases": p.cases.iter().map(|c| format!("{:?}", c)).collect::<Vec<_>>()})
    }
}
