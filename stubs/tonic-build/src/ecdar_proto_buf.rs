// What prost/tonic generate for Ecdar-ProtoBuf, restricted to what Reveaal uses.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Component {
    pub rep: ::core::option::Option<component::Rep>,
}
pub mod component {
    #[derive(Clone, PartialEq, Debug)]
    pub enum Rep {
        Json(::std::string::String),
        Xml(::std::string::String),
    }
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct ComponentsInfo {
    pub components: ::std::vec::Vec<Component>,
    pub components_hash: u32,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct ComponentInstance {
    pub component_name: ::std::string::String,
    pub component_index: u32,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct LeafLocation {
    pub id: ::std::string::String,
    pub component_instance: ::core::option::Option<ComponentInstance>,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct BinaryLocationOperator {
    pub left: ::core::option::Option<::std::boxed::Box<LocationTree>>,
    pub right: ::core::option::Option<::std::boxed::Box<LocationTree>>,
    pub operator: i32,
}
impl BinaryLocationOperator {
    pub fn operator(&self) -> binary_location_operator::Operator {
        binary_location_operator::Operator::from_i32(self.operator).unwrap_or_default()
    }
    pub fn set_operator(&mut self, o: binary_location_operator::Operator) {
        self.operator = o as i32;
    }
}
pub mod binary_location_operator {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
    #[repr(i32)]
    pub enum Operator {
        #[default]
        Conjunction = 0,
        Composition = 1,
        Quotient = 2,
        Refinement = 3,
    }
    impl Operator {
        pub fn from_i32(v: i32) -> ::core::option::Option<Operator> {
            Some(match v {
                0 => Operator::Conjunction,
                1 => Operator::Composition,
                2 => Operator::Quotient,
                3 => Operator::Refinement,
                _ => return None,
            })
        }
    }
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct LocationTree {
    pub node_type: ::core::option::Option<location_tree::NodeType>,
}
pub mod location_tree {
    #[derive(Clone, PartialEq, Debug)]
    pub enum NodeType {
        BinaryLocationOp(::std::boxed::Box<super::BinaryLocationOperator>),
        LeafLocation(super::LeafLocation),
        SpecialLocation(i32),
    }
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Clock {
    pub clock: ::core::option::Option<clock::Clock>,
}
pub mod clock {
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct ZeroClock {}
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct ComponentClock {
        pub component_instance: ::core::option::Option<super::ComponentInstance>,
        pub clock_name: ::std::string::String,
    }
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct SystemClock {
        pub clock_index: u32,
    }
    #[derive(Clone, PartialEq, Debug)]
    pub enum Clock {
        ZeroClock(ZeroClock),
        ComponentClock(ComponentClock),
        SystemClock(SystemClock),
    }
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Constraint {
    pub x: ::core::option::Option<Clock>,
    pub y: ::core::option::Option<Clock>,
    pub strict: bool,
    pub c: i32,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Conjunction {
    pub constraints: ::std::vec::Vec<Constraint>,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Disjunction {
    pub conjunctions: ::std::vec::Vec<Conjunction>,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct State {
    pub location_tree: ::core::option::Option<LocationTree>,
    pub zone: ::core::option::Option<Disjunction>,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Edge {
    pub id: ::std::string::String,
    pub component_instance: ::core::option::Option<ComponentInstance>,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Decision {
    pub source: ::core::option::Option<State>,
    pub action: ::std::string::String,
    pub edges: ::std::vec::Vec<Edge>,
    pub destination: ::core::option::Option<State>,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Path {
    pub decisions: ::std::vec::Vec<Decision>,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct StateAction {
    pub state: ::core::option::Option<State>,
    pub action: ::std::string::String,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct ActionFailure {
    pub failure: i32,
    pub action_sets: ::std::vec::Vec<action_failure::ActionSet>,
}
pub mod action_failure {
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct ActionSet {
        pub actions: ::std::vec::Vec<::std::string::String>,
        pub system: ::std::string::String,
        pub is_input: bool,
    }
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct QueryRequest {
    pub user_id: i32,
    pub query_id: i32,
    pub query: ::std::string::String,
    pub components_info: ::core::option::Option<ComponentsInfo>,
    pub settings: ::core::option::Option<query_request::Settings>,
}
pub mod query_request {
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct Settings {
        pub disable_clock_reduction: bool,
    }
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct QueryResponse {
    pub query_id: i32,
    pub info: ::std::vec::Vec<query_response::Information>,
    pub result: ::core::option::Option<query_response::Result>,
}
pub mod query_response {
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct Information {
        pub severity: i32,
        pub subject: ::std::string::String,
        pub message: ::std::string::String,
    }
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct Success {}
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct Error {
        pub error: ::std::string::String,
    }
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct ReachabilityPath {
        pub path: ::core::option::Option<super::Path>,
    }
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct ReachabilityFailure {
        pub failure: i32,
    }
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct DeterminismFailure {
        pub system: ::std::string::String,
        pub failure_state: ::core::option::Option<super::StateAction>,
    }
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct ConsistencyFailure {
        pub system: ::std::string::String,
        pub failure: ::core::option::Option<consistency_failure::Failure>,
    }
    pub mod consistency_failure {
        #[derive(Clone, PartialEq, Debug)]
        pub enum Failure {
            NoInitialState(i32),
            Determinism(super::DeterminismFailure),
            FailureState(super::super::State),
        }
    }
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct ModelFailure {
        pub system: ::std::string::String,
        pub failure: ::core::option::Option<model_failure::Failure>,
    }
    pub mod model_failure {
        #[derive(Clone, PartialEq, Debug)]
        pub enum Failure {
            ActionMismatch(super::super::ActionFailure),
            InconsistentConjunction(super::ConsistencyFailure),
        }
    }
    #[derive(Clone, PartialEq, Debug, Default)]
    pub struct RefinementFailure {
        pub system: ::std::string::String,
        pub failure: ::core::option::Option<refinement_failure::Failure>,
    }
    pub mod refinement_failure {
        #[derive(Clone, PartialEq, Debug, Default)]
        pub struct RefinementStateFailure {
            pub unmatched: i32,
            pub state: ::core::option::Option<super::super::StateAction>,
        }
        #[derive(Clone, PartialEq, Debug)]
        pub enum Failure {
            EmptySystem(::std::string::String),
            NoInitialState(i32),
            InconsistentChild(super::ConsistencyFailure),
            ActionMismatch(super::super::ActionFailure),
            RefinementState(RefinementStateFailure),
        }
    }
    #[derive(Clone, PartialEq, Debug)]
    pub enum Result {
        Success(Success),
        Refinement(RefinementFailure),
        Consistency(ConsistencyFailure),
        Determinism(DeterminismFailure),
        Reachability(ReachabilityFailure),
        ReachabilityPath(ReachabilityPath),
        Model(ModelFailure),
        Component(super::Component),
        Error(Error),
    }
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct SimulationInfo {
    pub component_composition: ::std::string::String,
    pub components_info: ::core::option::Option<ComponentsInfo>,
    pub user_id: i32,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct SimulationStartRequest {
    pub simulation_info: ::core::option::Option<SimulationInfo>,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct SimulationStepRequest {
    pub simulation_info: ::core::option::Option<SimulationInfo>,
    pub chosen_decision: ::core::option::Option<Decision>,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct SimulationStepResponse {
    pub full_state: ::core::option::Option<State>,
    pub new_decision_points: ::std::vec::Vec<Decision>,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct UserTokenResponse {
    pub user_id: i32,
}
pub mod ecdar_backend_server {
    #[allow(async_fn_in_trait)]
    pub trait EcdarBackend: Send + Sync + 'static {
        async fn get_user_token(
            &self,
            request: ::tonic::Request<()>,
        ) -> ::core::result::Result<::tonic::Response<super::UserTokenResponse>, ::tonic::Status>;
        async fn send_query(
            &self,
            request: ::tonic::Request<super::QueryRequest>,
        ) -> ::core::result::Result<::tonic::Response<super::QueryResponse>, ::tonic::Status>;
        async fn start_simulation(
            &self,
            request: ::tonic::Request<super::SimulationStartRequest>,
        ) -> ::core::result::Result<::tonic::Response<super::SimulationStepResponse>, ::tonic::Status>;
        async fn take_simulation_step(
            &self,
            request: ::tonic::Request<super::SimulationStepRequest>,
        ) -> ::core::result::Result<::tonic::Response<super::SimulationStepResponse>, ::tonic::Status>;
    }
    pub struct EcdarBackendServer<T: EcdarBackend> {
        pub inner: ::std::sync::Arc<T>,
    }
    impl<T: EcdarBackend> EcdarBackendServer<T> {
        pub fn new(inner: T) -> Self {
            EcdarBackendServer { inner: ::std::sync::Arc::new(inner) }
        }
    }
}
