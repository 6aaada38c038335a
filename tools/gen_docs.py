"""Writes properties.jsonl and MANIFEST.json (python3-vt tools/gen_docs.py)."""
import os
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
BE="src/ProtobufServer/ecdar_backend.rs"; RU="src/ProtobufServer/ecdar_requests/request_util.rs"; SQ="src/ProtobufServer/ecdar_requests/send_query.rs"; SR="src/ProtobufServer/ecdar_requests/simulation_requests.rs"; CL="src/DataReader/component_loader.rs"
p("C01","Concurrent requests are answered as if each were alone",
 "Whatever other queries, simulation requests and token requests a server is working on, and however their work interleaves, each request gets the reply it would get as the only request ever made to a fresh server: the same verdict or error kind, and for simulations the same states and decisions. A reply never mentions a component, location, clock or edge of a model that was not part of its own request.",
 ["schedules","inputs","histories"],"every set of concurrent requests of several users and models, every interleaving of handler and pool threads, and every delay, loss and duplication of messages",
 "The server tests send one request at a time to a server of their own; none runs two requests at once, and a race needs a particular interleaving of threads that a test neither chooses nor repeats.",
 [BE,RU,SQ,SR,CL],[("thread pool and per-request handlers",BE+":send_query"),("model lookup or parse",RU+":get_or_insert_model"),("shared model cache behind a mutex",CL+":ModelCache")],
 state=[{"name":"model cache","meaning":"last parsed model of each user","where":CL},{"name":"thread pool","meaning":"workers that answer queries","where":BE}],observe_at=["EcdarBackend::send_query","start_simulation","take_simulation_step"])
p("C02","Reusing a cached model never changes an answer",
 "For a client that names each version of its model by its own hash, every reply is the one computed from exactly the model sent with that request, whether the server had that model cached, had another version or another user's model cached, or had dropped it. Models of different users never mix even when their hashes are equal, and hash zero always means the model sent with the request.",
 ["histories","schedules","inputs"],"every history of requests by several users over several model versions and cache sizes, with every interleaving of lookups, inserts and evictions",
 "The two cache unit tests insert and look up two models sequentially; they do not reach a history where versions, users, evictions and concurrent inserts meet.",
 [CL,RU],[("lookup by user and hash",CL+":ModelCache::get_model"),("insert and evict",CL+":ModelCache::insert_model"),("use of the cached or freshly parsed model",RU+":get_or_insert_model")],observe_at=["EcdarBackend::send_query"])
p("C03","The shared model cache is a linearizable bounded LRU map",
 "Under any concurrent use the model cache behaves as some sequential order of its operations on a map that holds at most the configured number of users and, per user, only the model stored last, evicting the least recently used user. A lookup returns that user's model exactly when the hash it names is the one stored, and a model stored under hash zero is never found.",
 ["schedules","histories","configurations"],"every history of concurrent lookups and inserts on clones of one cache, for every capacity",
 "The unit tests use the cache from one thread with a capacity that is never reached by more than one user; linearizability is a statement about interleavings.",
 [CL],[("LRU map behind one mutex",CL+":ModelCache"),("atomic lookup with hash comparison",CL+":get_model"),("atomic insert with eviction",CL+":insert_model")],observe_at=["ModelCache::get_model","ModelCache::insert_model"])
p("C04","A failing request harms only itself",
 "A request that is malformed, names missing components, or makes the engine fail internally is answered with an error to its sender, and every other request, concurrent or later, gets the reply it would have had without it. No failure leaves the server unable to answer, and none escapes the request handler.",
 ["histories","inputs","schedules"],"every mix of good and failing requests (missing or unparsable components, unknown names, bad queries, engine panics), in every order and interleaving",
 "A few tests check that one bad request yields an error; none checks what concurrent and later requests on the same server get, or that locks and worker threads survive a panic at any point.",
 [BE,RU,SQ,SR],[("panic containment around each handler",BE+":catch_unwind"),("error replies",SQ),("no panic while the cache lock is held",CL)],observe_at=["every method of EcdarBackend"])
p("C05","Every request is answered once, with its own id, within bounded work",
 "Each execution of a request ends with exactly one reply that carries that request's query id, and whatever was lost, delayed or crashed before, a client that keeps retrying is answered within bounded time once faults stop. No combination of requests deadlocks or starves the server.",
 ["schedules","fault_sequences","crash_points"],"every interleaving, pool size and handler count, message loss, duplication, delay, partition, server crash and restart, stalled threads and spurious wake-ups",
 "Deadlock and lost replies depend on which threads wait for which others at an instant; the tests run one request on an idle server.",
 [BE,SQ],[("blocking hand-over to the thread pool",BE+":send_query"),("query id copied to the reply",SQ),("single cache lock, never held across work",CL)],observe_at=["EcdarBackend::send_query","start_simulation","take_simulation_step"])
p("C06","User tokens are unique within a server process",
 "Every user token a server process hands out is positive and different from every other token it hands out, no matter how many clients ask at the same time or how often a request is repeated.",
 ["schedules","histories"],"every interleaving of any number of token requests with each other and with other requests",
 "No test asks for tokens concurrently; a lost update between two requests shows only under one interleaving of a few instructions.",
 [BE],[("atomic counter",BE+":get_user_token")],state=[{"name":"token counter","meaning":"next token","where":BE}],observe_at=["EcdarBackend::get_user_token"])
p("C07","Simulation sessions live in the client's messages only",
 "A simulation step gets the same reply whichever server replica or restarted server answers it and whatever happened there before: it depends only on the components, the composition and the chosen decision in the request. Retried, duplicated, reordered and interleaved steps of several sessions never influence one another.",
 ["fault_sequences","crash_points","schedules","histories"],"every history of several sessions over replicas with crashes, restarts, retries, duplication and reordering, whatever is or is not cached where",
 "The tests take single steps on one fresh server; no test restarts a server inside a session, retries a step or interleaves two sessions.",
 [SR,RU,"src/ProtobufServer/proto_conversions.rs"],[("state rebuilt from the request",SR),("conversion between messages and engine states","src/ProtobufServer/proto_conversions.rs")],observe_at=["EcdarBackend::start_simulation","take_simulation_step"])
p("C08","Simulation steps follow the semantics of the composed automata",
 "In every session of interactive simulation, the states and decisions the server offers agree with the timed semantics of the composed components: each offered decision can really be taken at the clock values it allows and leads where it says, and every transition that can be taken is covered by some offered decision.",
 ["histories","inputs"],"every simulated run (sequence of delays and actions, early, late and on the boundary) of every generated composition, step by step against what the server offers",
 "The tests compare a few recorded sessions of sample models; agreement has to hold along every run of every composition, at every clock value.",
 ["src/Simulation","src/ProtobufServer/proto_conversions.rs","src/TransitionSystems/composition.rs","src/TransitionSystems/conjunction.rs","src/TransitionSystems/compiled_component.rs"],
 [("decision points from a state","src/Simulation/decision.rs"),("taking a transition","src/ModelObjects/transition.rs"),("composition of transitions","src/TransitionSystems/composition.rs")],observe_at=["EcdarBackend::start_simulation","take_simulation_step"])
p("C09","Reachability answers agree with every run of the model",
 "When the tool says a state is reachable, the path it shows is a run of the system that ends there, and the edges it attributes to each component are that component's own edges along the path. When it says unreachable, no run of the system ever meets the described state.",
 ["histories","inputs"],"every generated system, start and goal, against every simulated run and replay of the shown path",
 "The tests fix a verdict or path for a few models; a wrong verdict on other models, and a path that cannot be executed, stay invisible to them.",
 ["src/System/reachability.rs","src/ModelObjects/transition.rs","src/TransitionSystems/transition_id.rs","src/System/specifics.rs"],
 [("zone-based search","src/System/reachability.rs"),("path reconstruction","src/System/reachability.rs"),("attribution of edges","src/System/specifics.rs")],observe_at=["reachability queries"])
p("C10","Verdicts do not depend on chance",
 "The same query on the same model always gets the same verdict, whatever the process's hash seeds and iteration orders, the order in which components are sent, and the earlier requests to the server.",
 ["schedules","inputs","configurations"],"every randomisation of hash seeds and orders of components, for every generated model and query",
 "A test runs under one hash seed; the outcome under another is a different execution that a test neither chooses nor repeats.",
 ["src/System/local_consistency.rs","src/System/refine.rs","src/System/reachability.rs","src/System/extract_system_rep.rs",CL],[("order of actions in the searches","src/System"),("maps of components",CL)],observe_at=["EcdarBackend::send_query"])
p("C11","Clock reduction and settings never change a verdict or leak",
 "A query gives the same verdict with clock reduction enabled and disabled, and the setting of one request never affects another request, even one that shares the same cached model.",
 ["histories","schedules","inputs"],"every history of queries with mixed settings over shared cached models, and every generated model",
 "The tests reduce clocks on a few fixed models and never mix settings on one server.",
 ["src/System/extract_system_rep.rs","src/TransitionSystems/compiled_component.rs",SQ,CL],[("clock analysis and reduction","src/System/extract_system_rep.rs"),("settings stored per request",SQ)],observe_at=["EcdarBackend::send_query"])
p("C12","A saved component stands for the system it was computed from",
 "When a query saves the component of a system, the saved component, read back by this or any later process, has the same observable behaviour as the system: the same verdicts for refinement both ways, and the same declarations, locations and edges as the one that was saved.",
 ["histories","crash_points","inputs"],"every generated system saved, reloaded after a restart and compared",
 "The tests save a few sample systems and compare within one process.",
 ["src/System/save_component.rs","src/DataReader/json_writer.rs","src/DataReader/json_reader.rs","src/DataReader/serialization.rs"],[("combining locations and edges","src/System/save_component.rs"),("writing","src/DataReader/json_writer.rs"),("reading","src/DataReader/json_reader.rs")],observe_at=["get-component queries","files of the project"])
p("C13","Saving is atomic under crashes and storage failures",
 "After a crash at any instant, or a failed, short or full-disk write, a project directory holds for each component either the complete old or the complete new version, never a damaged or missing one, and every other component is untouched. A save that reported success survives a crash.",
 ["crash_points","fault_sequences"],"every crash point and every storage error during a save, over what the file system may have made durable",
 "No test crashes during a save or makes a write fail.",
 ["src/DataReader/json_writer.rs",CL],[("writing of components","src/DataReader/json_writer.rs"),("save through the loader",CL)],observe_at=["files of the project"])
p("C14","Loading never invents a model",
 "Loading a project either yields exactly the components, declarations and queries stored in it or fails visibly: no interrupted, short, damaged or failing read makes the tool work with a different or partial model, and neither does the layout of the text or the kind of project (JSON or XML) it is stored as.",
 ["fault_sequences","inputs"],"every read error, short read, truncation and damaged byte while a project is loaded, and every layout of declarations",
 "The tests load intact sample projects only.",
 ["src/DataReader/json_reader.rs","src/DataReader/xml_parser.rs","src/DataReader/component_loader.rs","src/DataReader/parse_queries.rs","src/ModelObjects/system_declarations.rs"],[("reading of components and declarations","src/DataReader/json_reader.rs"),("lazy loading",CL)],observe_at=["project loader"])

p("C15","Every edge of a run is attributed to the component that took it",
 "Taking the identities of the transitions of a run apart (get_leaves, split_into_component_lists) gives one list per component of the composition, from left to right, with one entry per step: exactly the edges that component contributed to that step, and an empty entry when it took no part. It works for every run of every composition, nested and quotients included, and for every part of a run; a path whose steps do not have the same number of components is refused with an error, never split wrongly, and nothing panics.",
 ["histories","inputs","fault_sequences"],"every run of every composition of any shape (conjunctions, compositions, quotients with several alternatives, sides that sit a step out), every part of a run, and runs that a step of another system got into",
 "The tests split a handful of hand-written identities; none takes the identities of real runs apart or compares them with what the components did.",
 ["src/TransitionSystems/transition_id.rs","src/ModelObjects/transition.rs","src/TransitionSystems/composition.rs","src/TransitionSystems/quotient.rs"],
 [("leaves per component","src/TransitionSystems/transition_id.rs:get_leaves"),("splitting a path","src/TransitionSystems/transition_id.rs:split_into_component_lists"),("identities of composed transitions","src/ModelObjects/transition.rs:combinations")],observe_at=["TransitionID::get_leaves","TransitionID::split_into_component_lists","next_transitions"])

p("C16","Refinement verdicts agree with runs of both sides",
 "When the tool says that a system refines another, no run of the two together reaches a point where the left can output, or let time pass, and the right cannot, or where the right accepts an input and the left does not. When it says that refinement fails in a state, that state and action really show such a difference, and some run of both sides reaches one; when it says the interfaces do not fit, they do not. Clock reduction does not matter.",
 ["histories","inputs","configurations"],"every generated pair of systems (components, conjunctions, compositions, quotients, different interfaces), against every simulated run of both sides, with clock reduction on and off",
 "The tests fix the verdicts of sample models; a verdict is a statement about all runs of two timed systems together, which only executing those runs can bear out or refute.",
 ["src/System/refine.rs","src/ModelObjects/statepair.rs","src/System/extract_system_rep.rs","src/TransitionSystems/quotient.rs","src/TransitionSystems/conjunction.rs","src/TransitionSystems/composition.rs"],
 [("pairs of states matched action by action","src/System/refine.rs:check_refinement"),("delays of the right against the left","src/System/refine.rs:build_state_pair"),("clock reduction over both sides","src/System/extract_system_rep.rs:clock_reduction")],observe_at=["refinement queries"])
p("C17","Determinism and consistency verdicts agree with the system's runs",
 "A system called deterministic never meets, in any run, two transitions of one component for one action at one moment; one called nondeterministic has such a choice where the tool says so. A system called consistent cannot be driven into a dead end by its environment as long as it picks its outputs well; one called inconsistent, or a conjunction refused as inconsistent, can. Clock reduction does not matter.",
 ["histories","inputs","configurations"],"every generated system against its simulated runs, all choices of the environment and of the system included, with clock reduction on and off",
 "The tests fix the verdicts of sample models; both verdicts quantify over all runs and all strategies of the environment.",
 ["src/System/local_consistency.rs","src/TransitionSystems/conjunction.rs","src/TransitionSystems/quotient.rs","src/TransitionSystems/compiled_component.rs","src/System/extract_system_rep.rs"],
 [("search for two transitions that overlap","src/System/local_consistency.rs:check_determinism"),("search for saving outputs","src/System/local_consistency.rs:is_least_consistent"),("conjunctions refused when they are built","src/TransitionSystems/conjunction.rs:new_ts")],observe_at=["consistency queries","determinism queries"])

p("C18","Conditions and updates mean what is written",
 "However a guard, an invariant, an update or the declaration of clocks is written (operands on either side, sums and differences of clocks and constants, parentheses, constant terms, conditions that are always true, lists of updates), an edge can be taken and a location stayed in at exactly the clock values for which the condition is true by arithmetic, clocks get exactly the assigned values, and no verdict depends on the wording.",
 ["inputs","histories"],"every generated model with its conditions, updates and declarations reworded without changing their meaning, in simulation sessions, reachability, refinement, consistency and determinism queries",
 "The tests look at a few hand-written terms one by one and at models written one way; a misread wording shows up only at particular clock values along a run, or in how far a search may generalise.",
 ["src/EdgeEval/constraint_applyer.rs","src/EdgeEval/updater.rs","src/ModelObjects/Expressions/arith_expression.rs","src/ModelObjects/Expressions/bool_expression.rs","src/DataReader/parse_edge.rs","src/DataReader/grammars/edge_grammar.pest","src/DataReader/serialization.rs"],
 [("terms to bounds of clocks","src/EdgeEval/constraint_applyer.rs:get_indices"),("simplifying terms","src/ModelObjects/Expressions/arith_expression.rs:simplify"),("constants that matter to the searches","src/ModelObjects/Expressions/bool_expression.rs:get_max_constant"),("reading of guards and updates","src/DataReader/parse_edge.rs")],observe_at=["EcdarBackend::start_simulation","take_simulation_step","EcdarBackend::send_query"])
p("C19","Queries and compositions mean what is written",
 "However a query or the composition of a simulation is written (with or without redundant parentheses, by the precedence of its operators, with any white space, either sign of the quotient, numbered instances, names that begin like words of the language, conditions of states reworded), it is answered as the system and states it describes; a text that is no query or composition is refused and never answered as if part of it had been meant.",
 ["inputs","histories"],"every generated composition, start and goal in many wordings, and damaged texts, against simulated runs of what they describe",
 "The tests parse a few texts and compare syntax; what a wording is taken for shows in the answers it gets on models where the difference matters.",
 ["src/DataReader/parse_queries.rs","src/DataReader/grammars/query_grammar.pest","src/System/extract_state.rs","src/System/extract_system_rep.rs","src/ModelObjects/Expressions/state_expression.rs"],
 [("grammar of queries","src/DataReader/grammars/query_grammar.pest"),("precedence of operators","src/DataReader/parse_queries.rs:PRATT"),("described states","src/System/extract_state.rs:get_state"),("composition of a session","src/TransitionSystems/transition_system.rs:component_loader_to_transition_system")],observe_at=["reachability queries","EcdarBackend::send_query","start_simulation"])

NOTE={
 "default":"Seeded search over simulated runs of the real code: evidence, not proof. Trusts the stand-ins for libraries missing offline, the simulator and the oracle."
}
CLAIMED=["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19"]
TECH={
 "C01":"deterministic simulation of concurrent clients and server threads; replies compared with isolated runs",
 "C02":"deterministic simulation of client histories over model versions and cache sizes; replies compared with isolated runs",
 "C03":"deterministic simulation of concurrent cache operations with seeded preemption; linearizability against an LRU model",
 "C04":"deterministic simulation with failing requests injected; other replies compared with isolated runs",
 "C05":"deterministic simulation with network faults, crashes, stalls; exactly-once and bounded liveness checked",
 "C06":"deterministic simulation with seeded preemption between instructions; uniqueness over the history",
 "C08":"deterministic simulation of interactive sessions along seeded runs; every reply compared step by step with a reference semantics",
 "C09":"deterministic simulation of concrete seeded runs and symbolic replays of the shown path; verdict and attribution compared with the reference semantics",
 "C10":"deterministic simulation of one question in many seeded server and command line processes: hash seeds, orders of components and earlier requests are the simulator's; verdicts compared",
 "C11":"deterministic simulation of seeded histories and concurrent clients with mixed settings on one server; every answer compared with isolated runs of each setting",
 "C12":"deterministic simulation of saving processes, with crashes, and of the processes that read the result; saved component co-simulated with the reference semantics of the system along seeded runs",
 "C15":"deterministic simulation of seeded runs through real and abstract transition systems, foreign steps injected; attribution compared with the reference semantics",
 "C16":"deterministic simulation of both sides in lockstep along seeded runs, of single valuations and of sets of them; verdict, reported state and action compared with the reference semantics",
 "C17":"deterministic simulation of the system against its environment over seeded models; verdict compared with a game solved over the simulated states of the reference semantics",
 "C18":"deterministic simulation of sessions along seeded runs over models in seeded wordings, replicas replaced and steps repeated; every reply compared with a reference semantics of what the wording means",
 "C19":"deterministic simulation of seeded runs of the described systems; answers to seeded wordings of queries compared with the runs and with other wordings, damaged texts injected",
 "C13":"deterministic simulation of saving processes on a simulated disk; seeded storage faults, crashes and power failures; old-or-new and durability checked over what a restart finds",
 "C14":"deterministic simulation of loading processes on a simulated disk; seeded read faults, damage, concurrent saving; what is loaded compared with an independent reader",
 "C07":"deterministic simulation of sessions over crashing replicas with retries, duplication and reordering",
}
NA={x["id"]:"not yet claimed: machinery under construction" for x in P if x["id"] not in CLAIMED}
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
M={"version":1,"setup_cmd":"./setup.sh",
 "hooks":{"guard":"none: the seams are intercepted libc calls and compiler-inserted callbacks, /repo has no hooks","enable":"RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh adds sanitizer-coverage callbacks when the checks compile crate reveaal","source_commits":[]},
 "checks":[{"property":c,"quick_cmd":"./check.sh %s quick"%c,"thorough_cmd":"./check.sh %s thorough"%c,"evidence_file":"evidence/%s.json"%c,"technique":TECH[c],"level":"exploration","level_note":NOTE.get(c,NOTE["default"])} for c in CLAIMED],
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"See DESIGN.md. A check whose tree does not compile says NOT CHECKED, records zero evaluations and exits 0: such a tree has no executions."}
json.dump(M,open(root+'/MANIFEST.json','w'),indent=1)
try:
    import jsonschema
    sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,sc)
    jsonschema.validate(M,json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: pass
