//! What a check says about itself in its evidence.
pub struct Meta {
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

const REAL: &str = "all of crate reveaal from /repo's working tree: request handlers, thread pool hand-over (real rayon, real futures executor, real std mutexes and threads, scheduled one at a time at intercepted futex calls and at every control-flow edge and memory access of the crate), model cache, parsers, transition systems, searches, simulation, storage";
const STUB: &str = "tonic and prost (message types and the service trait only: no sockets, no encoding), edbm (a DBM and federation library written for this work, not available offline), lru 0.8 (a list with the same contract), dyn-clone, colored, simple-error, elementtree, xml-rs, serde-xml-rs, force_graph, env_logger, an itertools subset";
const BASE: &[&str] = &[
    "the stand-ins for libraries that are not available offline behave like the originals; with them all 591 tests of /repo pass",
    "interleavings are sequentially consistent: no weak-memory effects",
    "runs are sampled, not enumerated",
];
const W2: &[&str] = &[
    "the stand-ins for libraries that are not available offline behave like the originals; with them all 591 tests of /repo pass",
    "the simulated disk keeps what was synced; after a power failure it keeps any part of the unsynced data and any prefix of the unsynced changes of names",
    "runs are sampled, not enumerated",
];

pub fn meta(p: &str) -> Meta {
    let server = "one run = one seeded plan (users, model versions, clients, operations, network faults, crashes) and one seeded schedule; non-trivial: replies reached at least two clients and a forced preemption, a stall or a crash occurred; distinct: number of different schedule traces";
    let (rule, assumptions): (&str, &[&str]) = match p {
        "C01" | "C02" | "C04" | "C05" | "C06" | "C07" => (server, BASE),
        "C03" => ("one run = threads doing seeded lookups and inserts on clones of one cache under one seeded schedule, then a sequential read-out; non-trivial: operations of different threads overlapped; distinct: number of different schedule traces", BASE),
        "C08" => ("one run = one seeded model and composition, and one seeded session of interactive simulation on it (choices, narrowed decisions, replaced servers, repeated steps), compared step by step with the reference semantics; non-trivial: at least two steps were taken; distinct: number of different (model, composition, session) histories", BASE),
        "C09" => ("one run = one seeded model and composition and several reachability queries: goals met by simulated runs of the reference semantics and goals nearby; paths are replayed, unreachable goals hunted by simulated runs; non-trivial: a path with steps was replayed or an unreachable goal hunted; distinct: number of different (model, queries, answers)", BASE),
        "C10" => ("one run = one seeded model and several queries, each answered by an isolated simulated server process, then several sessions in further processes with other hash seeds, orders of components, orders of queries, requests of other kinds, users and models in between, with and without the model cache, or the command line program on a project with the same components; every verdict is compared; non-trivial: answers were compared; distinct: number of different runs (model, queries, schedules, answers)", BASE),
        "C11" => ("one run = either one seeded model with superfluous clocks and several queries, each asked without settings and with clock reduction on and off by isolated simulated server processes and then all mixed on one server with one cached model and by the command line program, or a plan of many concurrent clients with mixed settings as for C01; verdicts and the number of clocks of saved components are compared; non-trivial: answers were compared (for clients: replies reached two of them and a preemption, stall or crash occurred); distinct: number of different runs", BASE),
        "C12" => ("one run = one seeded model and several systems saved by one simulated process each (some over another component, some before a power failure), read back by an independent reader and by further simulated processes; the saved component is co-simulated with the reference semantics of the system and every later answer compared; non-trivial: a system was saved; distinct: number of different runs (model, systems, outcomes)", W2),
        "C13" => ("one run = one seeded project and a seeded series of sessions of the command line program that save components, each with seeded storage faults and a crash of the process or the machine at a seeded call to the system; what a restart finds is compared with the versions before and after; non-trivial: a fault or crash took effect; distinct: number of different runs (project, sessions, outcomes)", W2),
        "C14" => ("one run = one seeded project (JSON or XML) loaded by simulated processes whose reads are short, interrupted or fail, whose files are damaged, missing, laid out differently or being replaced by another process at the same time; what was loaded is compared with what the files say according to an independent reader; non-trivial: a fault took effect; distinct: number of different runs (project, harm, outcomes)", W2),
        "C15" => ("one run = one seeded model and composition and one seeded run through its transition system (or one seeded run of an abstract system of random shape), whose transition identities are taken apart per component, whole, in parts and with a step of another system in it; non-trivial: more than one step and more than one component; distinct: number of different runs (system, path)", BASE),
        "C16" => ("one run = one seeded model and several refinement queries between compositions of it; 'holds' is tried by simulated runs of both sides (sets of valuations and single valuations), 'fails' must be borne out by the reported state and by a simulated run that shows the difference; non-trivial: an answer was decided by such runs; distinct: number of different (model, queries, answers)", BASE),
        "C17" => ("one run = one seeded model and several determinism and consistency queries; answers are compared with what simulated runs of the reference semantics meet: two transitions for one action at one moment, a dead end that no choice of outputs avoids; non-trivial: an answer was decided; distinct: number of different (model, queries, answers)", BASE),
        "C18" => ("one run = one seeded model whose conditions, updates and declarations are written in seeded wordings (some compare clocks with each other), one composition and one seeded session of interactive simulation, compared step by step with the reference semantics of the meaning; faults: replaced servers, repeated steps; non-trivial: at least two steps were taken; distinct: number of different (model, composition, session) histories", BASE),
        "C19" => ("one run = one seeded model with seeded names and one composition in several wordings (sessions and queries answered alike), damaged texts (refused), and several reachability queries in seeded wordings: goals met by simulated runs of the reference semantics and goals nearby; paths are replayed, unreachable goals hunted; non-trivial: a path with steps was replayed or an unreachable goal hunted; distinct: number of different (model, queries, answers)", BASE),
        _ => ("", BASE),
    };
    let disk = matches!(p, "C12" | "C13" | "C14");
    Meta {
        rule,
        real: if disk { "all of crate reveaal from /repo's working tree with its command line program (src/main.rs is compiled in): argument parsing, project loaders, readers, parsers, queries, writers, each run as a simulated process" } else { REAL },
        stub: if disk { "the file system below the C library (an in-memory disk behind open, read, write, rename, sync, ...), edbm (a DBM and federation library written for this work, not available offline), lru 0.8, dyn-clone, colored, simple-error, elementtree, xml-rs, serde-xml-rs, force_graph, env_logger, an itertools subset" } else { STUB },
        assumptions,
    }
}
