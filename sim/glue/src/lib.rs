//! The calls into the code under test. The compiler instantiates the bodies of its async
//! functions and generics here, so this crate is instrumented like `reveaal` itself.
use reveaal::ProtobufServer::services as pb;
use reveaal::ProtobufServer::services::ecdar_backend_server::EcdarBackend;
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use std::future::Future;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use tonic::{Request, Status};

pub type QResult = Result<pb::QueryResponse, Status>;
pub type SResult = Result<pb::SimulationStepResponse, Status>;

fn noop_waker() -> Waker {
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn noop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, noop, noop, noop);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

/// Polls a future to completion; a pending one lets the other threads run.
pub fn drive<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        std::thread::yield_now();
    }
}

#[derive(Clone, Debug)]
pub enum Req {
    Token,
    Query(pb::QueryRequest),
    Start(pb::SimulationStartRequest),
    Step(pb::SimulationStepRequest),
}

#[derive(Clone, Debug)]
pub enum Rep {
    Token(Result<i32, Status>),
    Query(QResult),
    Step(SResult),
    /// The handler itself panicked: nothing was sent back.
    Escaped(String),
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

pub fn call(b: &ConcreteEcdarBackend, req: Req) -> Rep {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match req {
        Req::Token => Rep::Token(drive(b.get_user_token(Request::new(()))).map(|r| r.into_inner().user_id)),
        Req::Query(q) => Rep::Query(drive(b.send_query(Request::new(q))).map(|r| r.into_inner())),
        Req::Start(q) => Rep::Step(drive(b.start_simulation(Request::new(q))).map(|r| r.into_inner())),
        Req::Step(q) => Rep::Step(drive(b.take_simulation_step(Request::new(q))).map(|r| r.into_inner())),
    }));
    r.unwrap_or_else(|e| Rep::Escaped(panic_text(e)))
}

// ------------------------------------------------------------------ the model cache by itself

pub use reveaal::DataReader::component_loader::ModelCache;
use reveaal::DataReader::component_loader::{ComponentContainer, ComponentsMap};
use std::sync::Arc;

/// A model that can be told from every other one.
pub fn marked_model(id: u32) -> Arc<ComponentsMap> {
    let name = format!("Model{}", id);
    let json = format!(
        r#"{{"name":"{name}","declarations":"","locations":[{{"id":"L0","nickname":"","invariant":"","type":"INITIAL","urgency":"NORMAL","x":0.0,"y":0.0,"color":"0","nicknameX":0.0,"nicknameY":0.0,"invariantX":0.0,"invariantY":0.0}}],"edges":[],"description":"","x":0.0,"y":0.0,"width":1.0,"height":1.0,"color":"0","includeInPeriodicCheck":false}}"#
    );
    let c = reveaal::DataReader::json_reader::json_to_component(&json).expect("component");
    let mut m = ComponentsMap::new();
    m.insert(name, c);
    Arc::new(m)
}

/// Which marked model this is; 0 for anything else.
fn mark(c: &ComponentContainer) -> u32 {
    if c.loaded_components.len() != 1 {
        return 0;
    }
    let (k, v) = c.loaded_components.iter().next().unwrap();
    if k != &v.name {
        return 0;
    }
    k.strip_prefix("Model").and_then(|s| s.parse().ok()).unwrap_or(0)
}

pub fn cache_get(c: &ModelCache, user: i32, hash: u32) -> Result<Option<u32>, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.get_model(user, hash).map(|m| mark(&m)))).map_err(panic_text)
}

pub fn cache_put(c: &mut ModelCache, user: i32, hash: u32, m: Arc<ComponentsMap>) -> Result<u32, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| mark(&c.insert_model(user, hash, m)))).map_err(panic_text)
}

// ------------------------------------------------------------------ the program itself

#[allow(warnings)]
mod cli_main {
    include!(concat!(env!("OUT_DIR"), "/cli_main.rs"));
}

/// One run of the command line program with the arguments the process has: None if it panicked.
pub fn cli() -> Result<bool, String> {
    use std::process::Termination;
    std::panic::catch_unwind(|| format!("{:?}", cli_main::sim_main().report()) == format!("{:?}", std::process::ExitCode::SUCCESS)).map_err(panic_text)
}

/// A query on a project, by a program that does not print.
pub fn query(path: &str, query: &str) -> Result<bool, String> {
    use reveaal::ProtobufServer::services::query_request::Settings;
    use reveaal::{extract_system_rep, parse_queries, JsonProjectLoader};
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut l = JsonProjectLoader::new_loader(path, Settings { disable_clock_reduction: true }).to_comp_loader();
        for q in parse_queries::parse_to_query(query) {
            let _ = extract_system_rep::create_executable_query(&q, &mut *l).unwrap().execute();
        }
        true
    }))
    .map_err(panic_text)
}

/// What a project gives when all of it is asked for, in one text; the components in the order of `names`.
pub fn load(path: &str, xml: bool, names: &[String]) -> Result<String, String> {
    use reveaal::ProtobufServer::services::query_request::Settings;
    use reveaal::{JsonProjectLoader, ProjectLoader, XmlProjectLoader};
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let s = Settings { disable_clock_reduction: true };
        let mut l: Box<dyn ProjectLoader> = if xml { XmlProjectLoader::new_loader(path, s) } else { JsonProjectLoader::new_loader(path, s) };
        let mut out = vec![];
        let d = l.get_declarations().get_declarations();
        let sorted = |m: &std::collections::HashMap<String, Vec<String>>| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<std::collections::BTreeMap<_, _>>();
        out.push(format!("system {:?} inputs {:?} outputs {:?}", d.get_components(), sorted(d.get_input_actions()), sorted(d.get_output_actions())));
        for q in l.get_queries() {
            out.push(format!("query {:?}", q));
        }
        for n in names {
            let c = l.get_component(n);
            let mut k: Vec<_> = c.declarations.clocks.iter().collect();
            k.sort_by_key(|x| (*x.1, x.0.clone()));
            let mut i: Vec<_> = c.declarations.ints.iter().collect();
            i.sort();
            out.push(format!("component {:?} clocks {:?} ints {:?} special {:?}", c.name, k, i, c.special_id));
            for x in &c.locations {
                out.push(format!("location {:?}", x));
            }
            for x in &c.edges {
                out.push(format!("edge {:?}", x));
            }
            out.push(format!("json {}", serde_json::to_string(c).unwrap()));
        }
        out.join("\n")
    }))
    .map_err(panic_text)
}
