//! The server under simulated clients, network, crashes and schedules.
use crate::canon;
pub use simglue::{call, drive, panic_text, QResult, Rep, Req, SResult};
use crate::model::Comp;
use crate::rng::{mix2, Rng};
use crate::runner::{isolate, RunOut, Sched};
use crate::sched::{self, Policy, SimCfg, Woke};
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::cmp::Reverse;
use std::sync::Arc;

pub const MS: u64 = 1_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Model {
    pub user: i32,
    pub tag: String,
    pub hash: u32,
    pub comps: Vec<Comp>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Token,
    Query { model: usize, text: String, cached: bool, settings: Option<bool> },
    Sim { model: usize, text: String, cached: bool, picks: Vec<u64> },
    /// A request whose components are missing, or whose components do not parse.
    /// A request that cannot be served: a query, or the start of a simulation.
    Bad {
        model: usize,
        text: String,
        how: u32,
        /// Sent with a hash of its own, so that the server may cache what it makes of the model.
        #[serde(default)]
        cached: bool,
        #[serde(default)]
        sim: bool,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Net {
    pub loss: u32,
    pub dup: u32,
    pub max_delay: u64,
    pub timeout: u64,
    /// (client, from, to): nothing gets through.
    pub partitions: Vec<(usize, u64, u64)>,
    pub heal: u64,
}

pub const HEAL: u64 = 3000 * MS;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pol {
    pub kind: String,
    pub a: u64,
    pub b: u64,
    pub stall: u32,
    pub spurious: u32,
    pub irqs: Vec<u64>,
}

impl Pol {
    pub fn cfg(&self, seed: u64, hash_seed: u64, sched: &Option<Sched>) -> SimCfg {
        let policy = match sched {
            Some(s) => Policy::Replay(crate::runner::dec(s)),
            None => match self.kind.as_str() {
                "geo" => Policy::Geo(self.a),
                "pct" => Policy::Pct(self.a as u32, self.b),
                "near" => Policy::Near,
                _ => Policy::Run,
            },
        };
        SimCfg {
            seed,
            hash_seed,
            policy,
            max_steps: u64::MAX,
            stall_permille: self.stall,
            spurious_permille: self.spurious,
            fault_ns: 3000 * MS,
            irqs: self.irqs.clone(),
        }
    }
    pub fn gen(r: &mut Rng, len: u64, crashes: usize) -> Pol {
        let (kind, a, b) = match r.below(10) {
            0 => ("run", 0, 0),
            1..=3 => ("geo", *r.pick(&[2u64, 5, 15, 60, 300, 2000, 20000]), 0),
            4 | 5 => ("pct", 1 + r.below(6) as u64, len),
            _ => ("near", 0, 0),
        };
        let mut irqs: Vec<u64> = (0..crashes).map(|_| r.next() % len.max(1)).collect();
        irqs.sort();
        Pol {
            kind: kind.into(),
            a,
            b,
            stall: if r.chance(1, 3) { *r.pick(&[1u32, 5, 40]) } else { 0 },
            spurious: if r.chance(1, 3) { *r.pick(&[10u32, 100, 300]) } else { 0 },
            irqs,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub seed: u64,
    pub hash_seed: u64,
    pub pool: usize,
    pub disp: usize,
    pub replicas: usize,
    pub cap: usize,
    pub pol: Pol,
    pub net: Net,
    pub models: Vec<Model>,
    pub clients: Vec<Vec<(u64, Op)>>,
}

pub fn rep_json(r: &Rep) -> Value {
    match r {
        Rep::Token(t) => json!({"token": t.as_ref().ok()}),
        Rep::Query(q) => canon::query_json(q),
        Rep::Step(s) => canon::step_json(s),
        Rep::Escaped(m) => json!({"escaped": m}),
    }
}

/// The part of a reply that must be the same whatever the schedule, the hash seeds and the other requests.
pub fn rep_kind(r: &Rep) -> Value {
    match r {
        Rep::Token(_) => json!("token"),
        Rep::Query(q) => json!(canon::kind(q)),
        Rep::Step(Err(e)) => json!(format!("error {:?}", e.code())),
        Rep::Step(s) => canon::step_json(s),
        Rep::Escaped(_) => json!("escaped"),
    }
}

pub fn components(m: &Model, cached: bool) -> pb::ComponentsInfo {
    pb::ComponentsInfo {
        components: m.comps.iter().map(|c| pb::Component { rep: Some(pb::component::Rep::Json(c.text())) }).collect(),
        components_hash: if cached { m.hash } else { 0 },
    }
}

/// The request of an operation; for simulation steps, `last` is the previous reply.
pub fn request(plan: &Plan, op: &Op, qid: i32, stage: usize, last: Option<&pb::SimulationStepResponse>) -> Option<Req> {
    Some(match op {
        Op::Token => Req::Token,
        Op::Query { model, text, cached, settings } => {
            let m = &plan.models[*model];
            Req::Query(pb::QueryRequest {
                user_id: m.user,
                query_id: qid,
                query: text.clone(),
                components_info: Some(components(m, *cached)),
                settings: settings.map(|d| pb::query_request::Settings { disable_clock_reduction: d }),
            })
        }
        Op::Bad { model, text, how, cached, sim } => {
            let m = &plan.models[*model];
            let mut info = components(m, false);
            let mut some = true;
            match how {
                0 => some = false,
                1 => info.components.clear(),
                2 => info.components[0].rep = Some(pb::component::Rep::Json("{ not json".into())),
                3 => info.components[0].rep = None,
                4..=8 => {
                    // a model that can be read, but not prepared or used
                    let mut c = m.comps[0].json();
                    let ed = c["edges"].as_array().unwrap().iter().position(|e| e["status"] == "INPUT").unwrap_or(0);
                    match how {
                        4 => c["edges"][ed]["guard"] = json!("nosuchclock > 1"),
                        5 => c["locations"][0]["invariant"] = json!("nosuchclock < 1"),
                        6 => c["edges"][ed]["targetLocation"] = json!("Nowhere"),
                        7 => c["edges"][ed]["update"] = json!("nosuchclock = 0"),
                        _ => c["locations"].as_array_mut().unwrap().iter_mut().for_each(|l| l["type"] = json!("NORMAL")),
                    }
                    info.components[0].rep = Some(pb::component::Rep::Json(c.to_string()));
                }
                _ => {}
            }
            if *cached && *how >= 2 {
                info.components_hash = m.hash + 100 * (1 + how.min(&9));
            }
            if *sim {
                let info = pb::SimulationInfo { component_composition: text.clone(), components_info: if some { Some(info) } else { None }, user_id: m.user };
                return (stage == 0).then(|| Req::Start(pb::SimulationStartRequest { simulation_info: Some(info) }));
            }
            Req::Query(pb::QueryRequest {
                user_id: m.user,
                query_id: qid,
                query: text.clone(),
                components_info: if some { Some(info) } else { None },
                settings: None,
            })
        }
        Op::Sim { model, text, cached, picks } => {
            let m = &plan.models[*model];
            let info = pb::SimulationInfo { component_composition: text.clone(), components_info: Some(components(m, *cached)), user_id: m.user };
            if stage == 0 {
                Req::Start(pb::SimulationStartRequest { simulation_info: Some(info) })
            } else {
                let pick = *picks.get(stage - 1)?;
                let mut d: Vec<&pb::Decision> = last?.new_decision_points.iter().collect();
                if d.is_empty() {
                    return None;
                }
                d.sort_by_key(|d| canon::decision_json(d).to_string());
                let d = d[(pick % d.len() as u64) as usize].clone();
                Req::Step(pb::SimulationStepRequest { simulation_info: Some(info), chosen_decision: Some(d) })
            }
        }
    })
}

/// What an operation is answered when it is the only thing a fresh server ever does.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Alone {
    pub kinds: Vec<Value>,
    pub full: Vec<Value>,
    /// How many clocks a component in the reply declares.
    #[serde(default)]
    pub clocks: Vec<Option<usize>>,
    pub steps: u64,
}

pub fn alone(plan: &Plan, op: &Op, seed: u64, secs: u64, max_steps: u64) -> Option<Alone> {
    let v = isolate(secs, || {
        sched::start(SimCfg { seed, hash_seed: mix2(seed, 5), policy: Policy::Run, max_steps: u64::MAX, stall_permille: 0, spurious_permille: 0, fault_ns: 0, irqs: vec![] });
        sched::budget(max_steps);
        let p = plan.clone();
        let o = op.clone();
        let out: Arc<std::sync::Mutex<Alone>> = Arc::new(std::sync::Mutex::new(Alone::default()));
        let out2 = out.clone();
        let t = sched::spawn("alone", 1, 16 << 20, move || {
            let b = sched::real(|| ConcreteEcdarBackend::new(1, 4));
            let mut last = None;
            let mut a = Alone::default();
            let mut stage = 0;
            while let Some(req) = request(&p, &o, 1, stage, last.as_ref()) {
                let rep = sched::real(|| call(&b, req));
                a.kinds.push(rep_kind(&rep));
                a.full.push(rep_json(&rep));
                a.clocks.push(crate::c10::clocks(&rep));
                stage += 1;
                match (rep, &o) {
                    (Rep::Step(Ok(s)), Op::Sim { .. }) => last = Some(s),
                    _ => break,
                }
            }
            a.steps = sched::steps();
            *out2.lock().unwrap() = a;
            std::mem::forget(b);
        });
        if sched::join(t) != Woke::Normal {
            return Value::Null;
        }
        let a = out.lock().unwrap().clone();
        serde_json::to_value(a).unwrap()
    })?;
    serde_json::from_value(v).ok()
}

// ------------------------------------------------------------------------------------------

struct Job {
    client: usize,
    op: usize,
    stage: usize,
    attempt: usize,
    req: Req,
}

struct Done {
    epoch: u32,
    client: usize,
    op: usize,
    stage: usize,
    attempt: usize,
    rep: Rep,
}

#[derive(Default)]
struct Shared {
    queue: Vec<VecDeque<Job>>,
    idle: Vec<Vec<usize>>,
    done: Vec<Done>,
}

static mut SHARED: *mut Shared = std::ptr::null_mut();
fn sh() -> &'static mut Shared {
    unsafe { &mut *SHARED }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    /// The client sends the request of this operation, stage and attempt, unless it has moved on.
    Begin(usize, (usize, usize, usize)),
    Arrive { client: usize, op: usize, stage: usize, attempt: usize },
    Reply(usize),
    Timeout { client: usize, op: usize, stage: usize, attempt: usize },
    Restart(usize),
}

struct Client {
    op: usize,
    stage: usize,
    attempt: usize,
    heal_attempts: usize,
    last: Option<pb::SimulationStepResponse>,
    done: bool,
}

/// One delivered reply.
#[derive(Clone, Debug)]
pub struct Rec {
    pub client: usize,
    pub op: usize,
    pub stage: usize,
    pub attempt: usize,
    pub epoch: u32,
    pub replica: usize,
    /// Which execution of the request produced it.
    pub exec: usize,
    pub rep: Rep,
}

pub struct Hist {
    pub recs: Vec<Rec>,
    pub unanswered: Vec<(usize, usize, usize)>,
    pub ended: Woke,
    pub escaped: Vec<(usize, usize, String)>,
    pub sent: u64,
    pub crashes: u64,
}

fn start_server(plan: &Plan, epoch: u32, replica: usize) {
    let group = 1 + epoch * 16 + replica as u32;
    let (pool, cap, disp) = (plan.pool, plan.cap, plan.disp);
    sh().idle[replica].clear();
    sched::spawn("server", group, 4 << 20, move || {
        let b = Arc::new(sched::real(|| ConcreteEcdarBackend::new(pool, cap)));
        for _ in 0..disp {
            let b = b.clone();
            sched::spawn("handler", group, 16 << 20, move || loop {
                match sh().queue[replica].pop_front() {
                    Some(j) => {
                        let rep = sched::real(|| call(&b, j.req));
                        sh().done.push(Done { epoch, client: j.client, op: j.op, stage: j.stage, attempt: j.attempt, rep });
                        sched::notify(0);
                    }
                    None => {
                        sh().idle[replica].push(sched::me());
                        sched::wait(u64::MAX);
                    }
                }
            });
        }
        std::mem::forget(b);
    });
}

/// Runs the plan's clients against the real server. The caller is the controller.
pub fn live(plan: &Plan, out: &mut RunOut) -> Hist {
    let mut r = Rng::new(mix2(plan.seed, 0x2E7));
    unsafe { SHARED = Box::into_raw(Box::new(Shared::default())) };
    for _ in 0..plan.replicas {
        sh().queue.push(VecDeque::new());
        sh().idle.push(vec![]);
    }
    let mut epochs = vec![0u32; plan.replicas];
    let mut up = vec![true; plan.replicas];
    for i in 0..plan.replicas {
        start_server(plan, 0, i);
    }
    let t0 = sched::now();
    let mut heap: BinaryHeap<Reverse<(u64, u64, Ev)>> = BinaryHeap::new();
    let mut seq = 0u64;
    let mut cl: Vec<Client> = plan
        .clients
        .iter()
        .map(|ops| Client { op: 0, stage: 0, attempt: 0, heal_attempts: 0, last: None, done: ops.is_empty() })
        .collect();
    let mut h = Hist { recs: vec![], unanswered: vec![], ended: Woke::Normal, escaped: vec![], sent: 0, crashes: 0 };
    let mut inflight: BTreeMap<(usize, usize, usize, usize), (Req, usize)> = BTreeMap::new();
    let mut replies: Vec<(Done, usize)> = vec![];
    macro_rules! push {
        ($t:expr, $e:expr) => {{
            seq += 1;
            heap.push(Reverse(($t, seq, $e)));
        }};
    }
    for (i, ops) in plan.clients.iter().enumerate() {
        if let Some((d, _)) = ops.first() {
            push!(t0 + d, Ev::Begin(i, (0, 0, 0)));
        }
    }
    warm_up();
    sched::begin_schedule();
    'run: loop {
        // finished handlers
        let done = std::mem::take(&mut sh().done);
        for d in done {
            let replica = inflight.get(&(d.client, d.op, d.stage, d.attempt)).map(|x| x.1).unwrap_or(0);
            if let Rep::Escaped(m) = &d.rep {
                h.escaped.push((d.client, d.op, m.clone()));
            }
            let (n, lost) = net(plan, &mut r, d.client, sched::now() - t0, out);
            if lost {
                continue;
            }
            replies.push((d, replica));
            let k = replies.len() - 1;
            for _ in 0..n {
                let delay = r.next() % plan.net.max_delay.max(1);
                push!(sched::now() + delay, Ev::Reply(k));
            }
        }
        // due events
        while heap.peek().map_or(false, |Reverse((t, _, _))| *t <= sched::now()) {
            let Reverse((_, _, ev)) = heap.pop().unwrap();
            let mut advance: Option<usize> = None;
            match ev {
                Ev::Begin(c, (op, stage, attempt)) => {
                    if cl[c].done || (op, stage, attempt) != (cl[c].op, cl[c].stage, cl[c].attempt) {
                        continue;
                    }
                    let op = &plan.clients[c][cl[c].op].1;
                    let qid = (c * 1000 + cl[c].op) as i32;
                    match request(plan, op, qid, cl[c].stage, cl[c].last.as_ref()) {
                        None => advance = Some(c),
                        Some(req) => {
                            let key = (c, cl[c].op, cl[c].stage, cl[c].attempt);
                            let replica = r.below(plan.replicas);
                            inflight.insert(key, (req, replica));
                            h.sent += 1;
                            let (n, lost) = net(plan, &mut r, c, sched::now() - t0, out);
                            for _ in 0..if lost { 0 } else { n } {
                                let delay = r.next() % plan.net.max_delay.max(1);
                                push!(sched::now() + delay, Ev::Arrive { client: c, op: key.1, stage: key.2, attempt: key.3 });
                            }
                            let to = plan.net.timeout << key.3.min(10);
                            push!(sched::now() + to, Ev::Timeout { client: c, op: key.1, stage: key.2, attempt: key.3 });
                        }
                    }
                }
                Ev::Arrive { client, op, stage, attempt } => {
                    let (req, replica) = inflight[&(client, op, stage, attempt)].clone();
                    if up[replica] {
                        sh().queue[replica].push_back(Job { client, op, stage, attempt, req });
                        if let Some(t) = sh().idle[replica].pop() {
                            sched::notify(t);
                        }
                    } else {
                        out.count("fault: request to a crashed server", 1);
                    }
                }
                Ev::Reply(k) => {
                    let (d, replica) = &replies[k];
                    h.recs.push(Rec { client: d.client, op: d.op, stage: d.stage, attempt: d.attempt, epoch: d.epoch, replica: *replica, exec: k, rep: d.rep.clone() });
                    let c = &mut cl[d.client];
                    if !c.done && c.op == d.op && c.stage == d.stage {
                        let sim = matches!(plan.clients[d.client][d.op].1, Op::Sim { .. });
                        match &d.rep {
                            Rep::Step(Ok(s)) if sim => {
                                c.last = Some(s.clone());
                                c.stage += 1;
                                c.attempt = 0;
                                c.heal_attempts = 0;
                                let at = (c.op, c.stage, 0);
                                push!(sched::now() + 1000, Ev::Begin(d.client, at));
                            }
                            _ => advance = Some(d.client),
                        }
                    }
                }
                Ev::Timeout { client, op, stage, attempt } => {
                    let c = &mut cl[client];
                    if !c.done && c.op == op && c.stage == stage && c.attempt == attempt {
                        out.count("client timeouts and retries", 1);
                        c.attempt += 1;
                        if sched::now() - t0 > HEAL.max(plan.net.heal) {
                            c.heal_attempts += 1;
                        }
                        if c.heal_attempts > 12 {
                            h.unanswered.push((client, op, stage));
                            advance = Some(client);
                        } else {
                            push!(sched::now(), Ev::Begin(client, (op, stage, attempt + 1)));
                        }
                    }
                }
                Ev::Restart(i) => {
                    epochs[i] += 1;
                    up[i] = true;
                    out.count("server restarts", 1);
                    start_server(plan, epochs[i], i);
                }
            }
            if let Some(c) = advance {
                cl[c].op += 1;
                cl[c].stage = 0;
                cl[c].attempt = 0;
                cl[c].heal_attempts = 0;
                cl[c].last = None;
                if cl[c].op >= plan.clients[c].len() {
                    cl[c].done = true;
                } else {
                    let d = plan.clients[c][cl[c].op].0;
                    push!(sched::now() + d, Ev::Begin(c, (cl[c].op, 0, 0)));
                }
            }
        }
        if cl.iter().all(|c| c.done) {
            break 'run;
        }
        let deadline = heap.peek().map(|Reverse((t, _, _))| *t).unwrap_or(u64::MAX);
        match sched::wait(deadline) {
            Woke::Normal | Woke::Timeout => {}
            Woke::Irq => {
                // one replica crashes where it stands
                let i = r.below(plan.replicas);
                if up[i] {
                    h.crashes += 1;
                    out.count("fault: server crash", 1);
                    sched::kill_group(1 + epochs[i] * 16 + i as u32);
                    sh().queue[i].clear();
                    sh().idle[i].clear();
                    up[i] = false;
                    let d = (1 + r.next() % 50) * MS;
                    push!(sched::now() + d, Ev::Restart(i));
                }
            }
            w => {
                h.ended = w;
                break 'run;
            }
        }
    }
    sched::end_schedule();
    h
}

/// Decides what the network does with a message: (copies, lost).
fn net(plan: &Plan, r: &mut Rng, client: usize, at: u64, out: &mut RunOut) -> (usize, bool) {
    let lossy = at < plan.net.heal;
    let x = r.below(1000) as u32;
    let y = r.below(1000) as u32;
    if lossy && plan.net.partitions.iter().any(|&(c, a, b)| c == client && a <= at && at < b) {
        out.count("fault: message lost in a partition", 1);
        return (0, true);
    }
    if lossy && x < plan.net.loss {
        out.count("fault: message lost", 1);
        return (0, true);
    }
    if y < plan.net.dup {
        out.count("fault: message duplicated", 1);
        return (2, false);
    }
    (1, false)
}

/// Initialises the process-global lazies of the code under test before crashes can strike: a
/// crash here kills threads, not the process, and must not leave an initialiser half way.
fn warm_up() {
    let t = sched::spawn("warm-up", 9, 16 << 20, || {
        let b = sched::real(|| ConcreteEcdarBackend::new(1, 1));
        let mk = |n: &str, sync: &str| {
            format!(
                r#"{{"name":"{n}","declarations":"clock x;","locations":[{{"id":"L0","nickname":"","invariant":"x <= 3","type":"INITIAL","urgency":"NORMAL","x":0.0,"y":0.0,"color":"0","nicknameX":0.0,"nicknameY":0.0,"invariantX":0.0,"invariantY":0.0}}],"edges":[{{"id":"E0","group":"","sourceLocation":"L0","targetLocation":"L0","status":"OUTPUT","select":"","guard":"x >= 1 && x <= 2","update":"x = 0","sync":"{sync}","isLocked":false,"nails":[]}}],"description":"","x":0.0,"y":0.0,"width":1.0,"height":1.0,"color":"0","includeInPeriodicCheck":false}}"#
            )
        };
        let info = || pb::ComponentsInfo {
            components: vec![
                pb::Component { rep: Some(pb::component::Rep::Json(mk("W", "w"))) },
                pb::Component { rep: Some(pb::component::Rep::Json(mk("V", "v"))) },
            ],
            components_hash: 0,
        };
        for q in ["refinement: W <= W", "consistency: W || V", "reachability: W || V @ init -> W.L0 && V.x > 1", "get-component: W || V save-as X", "determinism: Nope"] {
            let r = pb::QueryRequest { user_id: 1, query_id: 1, query: q.into(), components_info: Some(info()), settings: None };
            sched::real(|| call(&b, Req::Query(r)));
        }
        let si = pb::SimulationInfo { component_composition: "W || V".into(), components_info: Some(info()), user_id: 1 };
        sched::real(|| call(&b, Req::Start(pb::SimulationStartRequest { simulation_info: Some(si) })));
        sched::real(|| drop(b));
    });
    sched::join(t);
}
