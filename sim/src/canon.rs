//! Replies in a form that can be compared and searched.
use reveaal::ProtobufServer::services as pb;
use simglue::{QResult, SResult};
use serde_json::{json, Value};
use tonic::Status;


pub fn loc_text(t: &pb::LocationTree) -> String {
    use pb::location_tree::NodeType::*;
    match &t.node_type {
        None => "?".into(),
        Some(LeafLocation(l)) => {
            let c = l.component_instance.clone().unwrap_or_default();
            format!("{}#{}.{}", c.component_name, c.component_index, l.id)
        }
        Some(SpecialLocation(k)) => format!("special{}", *k as i32),
        Some(BinaryLocationOp(b)) => format!(
            "({} {} {})",
            b.left.as_ref().map(|l| loc_text(l)).unwrap_or_default(),
            ["&&", "||", "//", "<="].get(b.operator as usize).unwrap_or(&"?"),
            b.right.as_ref().map(|l| loc_text(l)).unwrap_or_default()
        ),
    }
}

pub fn clock_text(c: &Option<pb::Clock>) -> String {
    use pb::clock::Clock::*;
    match c.as_ref().and_then(|c| c.clock.as_ref()) {
        None => "?".into(),
        Some(ZeroClock(_)) => "0".into(),
        Some(SystemClock(s)) => format!("sys{}", s.clock_index),
        Some(ComponentClock(c)) => {
            let i = c.component_instance.clone().unwrap_or_default();
            format!("{}#{}.{}", i.component_name, i.component_index, c.clock_name)
        }
    }
}

pub fn zone_text(z: &pb::Disjunction) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = z
        .conjunctions
        .iter()
        .map(|c| {
            let mut k: Vec<String> = c
                .constraints
                .iter()
                .map(|c| format!("{}-{}{}{}", clock_text(&c.x), clock_text(&c.y), if c.strict { "<" } else { "<=" }, c.c))
                .collect();
            k.sort();
            k
        })
        .collect();
    v.sort();
    v
}

pub fn state_json(s: &Option<pb::State>) -> Value {
    match s {
        None => Value::Null,
        Some(s) => json!({"loc": s.location_tree.as_ref().map(loc_text), "zone": s.zone.as_ref().map(zone_text)}),
    }
}

pub fn edges_text(d: &pb::Decision) -> Vec<String> {
    d.edges
        .iter()
        .map(|e| {
            let c = e.component_instance.clone().unwrap_or_default();
            format!("{}#{}:{}", c.component_name, c.component_index, e.id)
        })
        .collect()
}

pub fn decision_json(d: &pb::Decision) -> Value {
    json!({"source": state_json(&d.source), "action": d.action, "edges": edges_text(d), "destination": state_json(&d.destination)})
}

fn err_json(e: &Status) -> Value {
    json!({"error": format!("{:?}", e.code()), "message": e.message()})
}

/// The verdict: what kind of answer, without anything that may depend on exploration order.
pub fn kind(r: &QResult) -> String {
    use pb::query_response::Result::*;
    match r {
        Err(e) => format!("error {:?}", e.code()),
        Ok(q) => match &q.result {
            None => "nothing".into(),
            Some(Success(_)) => "success".into(),
            Some(ReachabilityPath(_)) => "reachable".into(),
            Some(Reachability(_)) => "unreachable".into(),
            Some(Refinement(f)) => {
                use pb::query_response::refinement_failure::Failure::*;
                format!(
                    "refinement fails: {}",
                    match &f.failure {
                        Some(RefinementState(_)) => "state",
                        Some(ActionMismatch(_)) => "actions",
                        Some(EmptySystem(_)) => "empty system",
                        Some(NoInitialState(_)) => "no initial state",
                        Some(InconsistentChild(_)) => "inconsistent child",
                        _ => "other",
                    }
                )
            }
            Some(Consistency(f)) => {
                use pb::query_response::consistency_failure::Failure::*;
                format!(
                    "inconsistent: {}",
                    match &f.failure {
                        Some(NoInitialState(_)) => "no initial state",
                        Some(Determinism(_)) => "determinism",
                        Some(FailureState(_)) => "state",
                        _ => "other",
                    }
                )
            }
            Some(Determinism(_)) => "nondeterministic".into(),
            Some(Model(f)) => {
                use pb::query_response::model_failure::Failure::*;
                format!(
                    "model failure: {}",
                    match &f.failure {
                        Some(ActionMismatch(_)) => "actions",
                        Some(InconsistentConjunction(_)) => "inconsistent conjunction",
                        _ => "other",
                    }
                )
            }
            Some(Component(_)) => "component".into(),
            Some(Error(e)) => format!("error text {}", e.error),
        },
    }
}

pub fn step_json(r: &SResult) -> Value {
    match r {
        Err(e) => err_json(e),
        Ok(s) => {
            let mut d: Vec<Value> = s.new_decision_points.iter().map(decision_json).collect();
            d.sort_by_key(|v| v.to_string());
            json!({"state": state_json(&s.full_state), "decisions": d})
        }
    }
}

/// A reply as the harness records it: everything in it as text, in a stable order.
pub fn query_json(r: &QResult) -> Value {
    use pb::query_response::Result::*;
    match r {
        Err(e) => err_json(e),
        Ok(q) => {
            let detail = match &q.result {
                Some(ReachabilityPath(p)) => json!(p.path.as_ref().map(|p| p.decisions.iter().map(decision_json).collect::<Vec<_>>())),
                Some(Component(c)) => match &c.rep {
                    Some(pb::component::Rep::Json(j)) => json!(j),
                    Some(pb::component::Rep::Xml(j)) => json!(j),
                    None => Value::Null,
                },
                Some(x) => Value::String(format!("{:?}", x)),
                None => Value::Null,
            };
            json!({"id": q.query_id, "kind": kind(r), "detail": detail})
        }
    }
}
