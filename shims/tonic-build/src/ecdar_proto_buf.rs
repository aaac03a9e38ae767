// Hand-written equivalent of the prost/tonic output for Ecdar-ProtoBuf (services.proto).
#[derive(Clone, PartialEq, Debug, Default)] pub struct UserTokenResponse { pub user_id: i32 }
#[derive(Clone, PartialEq, Debug, Default)] pub struct QueryRequest { pub user_id: i32, pub query_id: i32, pub query: String, pub components_info: Option<ComponentsInfo>, pub settings: Option<query_request::Settings> }
pub mod query_request {
    #[derive(Clone, PartialEq, Debug, Default)] pub struct Settings { pub disable_clock_reduction: bool }
}
#[derive(Clone, PartialEq, Debug, Default)] pub struct ComponentsInfo { pub components: Vec<Component>, pub components_hash: u32 }
#[derive(Clone, PartialEq, Debug, Default)] pub struct Component { pub rep: Option<component::Rep> }
pub mod component { #[derive(Clone, PartialEq, Debug)] pub enum Rep { Json(String), Xml(String) } }
#[derive(Clone, PartialEq, Debug, Default)] pub struct QueryResponse { pub query_id: i32, pub info: Vec<query_response::Information>, pub result: Option<query_response::Result> }
pub mod query_response {
    #[derive(Clone, PartialEq, Debug, Default)] pub struct Information { pub severity: i32, pub subject: String, pub message: String }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct Success {}
    #[derive(Clone, PartialEq, Debug, Default)] pub struct Error { pub error: String }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct RefinementFailure { pub system: String, pub failure: Option<refinement_failure::Failure> }
    pub mod refinement_failure {
        #[derive(Clone, PartialEq, Debug, Default)] pub struct RefinementStateFailure { pub unmatched: i32, pub state: Option<super::super::StateAction> }
        #[derive(Clone, PartialEq, Debug)] pub enum Failure { RefinementState(RefinementStateFailure), EmptySystem(String), NoInitialState(i32), InconsistentChild(super::ConsistencyFailure), ActionMismatch(super::super::ActionFailure) }
    }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct ConsistencyFailure { pub system: String, pub failure: Option<consistency_failure::Failure> }
    pub mod consistency_failure {
        #[derive(Clone, PartialEq, Debug)] pub enum Failure { NoInitialState(i32), Determinism(super::DeterminismFailure), FailureState(super::super::State) }
    }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct DeterminismFailure { pub system: String, pub failure_state: Option<super::StateAction> }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct ReachabilityFailure { pub failure: i32 }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct ReachabilityPath { pub path: Option<super::Path> }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct ModelFailure { pub system: String, pub failure: Option<model_failure::Failure> }
    pub mod model_failure {
        #[derive(Clone, PartialEq, Debug)] pub enum Failure { ActionMismatch(super::super::ActionFailure), InconsistentConjunction(super::ConsistencyFailure) }
    }
    #[derive(Clone, PartialEq, Debug)] pub enum Result { Success(Success), Refinement(RefinementFailure), Consistency(ConsistencyFailure), Determinism(DeterminismFailure), Reachability(ReachabilityFailure), ReachabilityPath(ReachabilityPath), Component(super::Component), Model(ModelFailure), Error(Error) }
}
#[derive(Clone, PartialEq, Debug, Default)] pub struct ActionFailure { pub failure: i32, pub action_sets: Vec<action_failure::ActionSet> }
pub mod action_failure { #[derive(Clone, PartialEq, Debug, Default)] pub struct ActionSet { pub actions: Vec<String>, pub system: String, pub is_input: bool } }
#[derive(Clone, PartialEq, Debug, Default)] pub struct StateAction { pub state: Option<State>, pub action: String }
#[derive(Clone, PartialEq, Debug, Default)] pub struct Path { pub decisions: Vec<Decision> }
#[derive(Clone, PartialEq, Debug, Default)] pub struct Decision { pub source: Option<State>, pub action: String, pub edges: Vec<Edge>, pub destination: Option<State> }
#[derive(Clone, PartialEq, Debug, Default)] pub struct Edge { pub id: String, pub component_instance: Option<ComponentInstance> }
#[derive(Clone, PartialEq, Debug, Default)] pub struct State { pub location_tree: Option<LocationTree>, pub zone: Option<Disjunction> }
#[derive(Clone, PartialEq, Debug, Default)] pub struct LocationTree { pub node_type: Option<location_tree::NodeType> }
pub mod location_tree {
    #[derive(Clone, PartialEq, Debug)] pub enum NodeType { BinaryLocationOp(Box<super::BinaryLocationOperator>), LeafLocation(super::LeafLocation), SpecialLocation(i32) }
}
#[derive(Clone, PartialEq, Debug, Default)] pub struct BinaryLocationOperator { pub left: Option<Box<LocationTree>>, pub right: Option<Box<LocationTree>>, pub operator: i32 }
impl BinaryLocationOperator {
    pub fn operator(&self) -> binary_location_operator::Operator { binary_location_operator::Operator::from_i32(self.operator).unwrap_or(binary_location_operator::Operator::Conjunction) }
    pub fn set_operator(&mut self, o: binary_location_operator::Operator) { self.operator = o as i32; }
}
pub mod binary_location_operator {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)] #[repr(i32)] pub enum Operator { Conjunction = 0, Composition = 1, Quotient = 2, Refinement = 3 }
    impl Operator { pub fn from_i32(v: i32) -> Option<Self> { match v { 0 => Some(Self::Conjunction), 1 => Some(Self::Composition), 2 => Some(Self::Quotient), 3 => Some(Self::Refinement), _ => None } } }
    impl From<Operator> for i32 { fn from(o: Operator) -> i32 { o as i32 } }
}
#[derive(Clone, PartialEq, Debug, Default)] pub struct LeafLocation { pub id: String, pub component_instance: Option<ComponentInstance> }
#[derive(Clone, PartialEq, Debug, Default)] pub struct ComponentInstance { pub component_name: String, pub component_index: u32 }
#[derive(Clone, PartialEq, Debug, Default)] pub struct Disjunction { pub conjunctions: Vec<Conjunction> }
#[derive(Clone, PartialEq, Debug, Default)] pub struct Conjunction { pub constraints: Vec<Constraint> }
#[derive(Clone, PartialEq, Debug, Default)] pub struct Constraint { pub x: Option<Clock>, pub y: Option<Clock>, pub strict: bool, pub c: i32 }
#[derive(Clone, PartialEq, Debug, Default)] pub struct Clock { pub clock: Option<clock::Clock> }
pub mod clock {
    #[derive(Clone, PartialEq, Debug, Default)] pub struct ComponentClock { pub component_instance: Option<super::ComponentInstance>, pub clock_name: String }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct SystemClock { pub clock_index: u32 }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct ZeroClock {}
    #[derive(Clone, PartialEq, Debug)] pub enum Clock { ComponentClock(ComponentClock), SystemClock(SystemClock), ZeroClock(ZeroClock) }
}
#[derive(Clone, PartialEq, Debug, Default)] pub struct SimulationInfo { pub component_composition: String, pub components_info: Option<ComponentsInfo>, pub user_id: i32 }
#[derive(Clone, PartialEq, Debug, Default)] pub struct SimulationStartRequest { pub simulation_info: Option<SimulationInfo> }
#[derive(Clone, PartialEq, Debug, Default)] pub struct SimulationStepRequest { pub simulation_info: Option<SimulationInfo>, pub chosen_decision: Option<Decision> }
#[derive(Clone, PartialEq, Debug, Default)] pub struct SimulationStepResponse { pub full_state: Option<State>, pub new_decision_points: Vec<Decision> }
pub mod ecdar_backend_server {
    #[allow(async_fn_in_trait)]
    pub trait EcdarBackend {
        async fn get_user_token(&self, request: tonic::Request<()>) -> std::result::Result<tonic::Response<super::UserTokenResponse>, tonic::Status>;
        async fn send_query(&self, request: tonic::Request<super::QueryRequest>) -> std::result::Result<tonic::Response<super::QueryResponse>, tonic::Status>;
        async fn start_simulation(&self, request: tonic::Request<super::SimulationStartRequest>) -> std::result::Result<tonic::Response<super::SimulationStepResponse>, tonic::Status>;
        async fn take_simulation_step(&self, request: tonic::Request<super::SimulationStepRequest>) -> std::result::Result<tonic::Response<super::SimulationStepResponse>, tonic::Status>;
    }
    #[derive(Debug, Clone)] pub struct EcdarBackendServer<T> { pub inner: std::sync::Arc<T> }
    impl<T> EcdarBackendServer<T> { pub fn new(t: T) -> Self { EcdarBackendServer { inner: std::sync::Arc::new(t) } } }
}
