//! Drives the real code through its request handlers.
use reveaal::DataReader::component_loader::ModelCache;
use reveaal::ProtobufServer::services::{
    self, component::Rep, query_request::Settings, query_response::Result as R, ComponentsInfo, QueryRequest,
};
use reveaal::ProtobufServer::ConcreteEcdarBackend;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

/// Panics are outcomes here, not noise.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
    }));
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Success,
    Refinement(services::query_response::RefinementFailure),
    Consistency(services::query_response::ConsistencyFailure),
    Determinism(services::query_response::DeterminismFailure),
    Path(Vec<services::Decision>),
    Unreachable,
    Component(String),
    Model(services::query_response::ModelFailure),
    Error(String),
    Status(String),
    Panic(String),
    NoAnswer,
}

impl Ans {
    /// Short outcome class, for comparison and for histograms.
    pub fn class(&self) -> String {
        use services::query_response::*;
        match self {
            Ans::Success => "success".into(),
            Ans::Refinement(r) => format!(
                "refinement/{}",
                match &r.failure {
                    Some(refinement_failure::Failure::RefinementState(s)) =>
                        if s.unmatched == 1 { "cuts-delay" } else { "cannot-match" },
                    Some(refinement_failure::Failure::EmptySystem(_)) => "empty-child",
                    Some(refinement_failure::Failure::NoInitialState(_)) => "empty-initial",
                    Some(refinement_failure::Failure::ActionMismatch(_)) => "actions",
                    Some(refinement_failure::Failure::InconsistentChild(c)) => match &c.failure {
                        Some(consistency_failure::Failure::Determinism(_)) => "child-nondeterministic",
                        _ => "child-inconsistent",
                    },
                    #[allow(unreachable_patterns)]
                    _ => "?",
                }
            ),
            Ans::Consistency(c) => format!(
                "consistency/{}",
                match &c.failure {
                    Some(consistency_failure::Failure::Determinism(_)) => "nondeterministic",
                    Some(consistency_failure::Failure::NoInitialState(_)) => "no-initial",
                    Some(consistency_failure::Failure::FailureState(_)) => "inconsistent",
                    #[allow(unreachable_patterns)]
                    _ => "?",
                }
            ),
            Ans::Determinism(_) => "determinism".into(),
            Ans::Path(_) => "reachable".into(),
            Ans::Unreachable => "unreachable".into(),
            Ans::Component(_) => "component".into(),
            Ans::Model(m) => match &m.failure {
                Some(model_failure::Failure::ActionMismatch(_)) => "model/actions".into(),
                _ => "model/inconsistent".into(),
            },
            Ans::Error(_) => "error".into(),
            Ans::Status(_) => "status".into(),
            Ans::Panic(_) => "panic".into(),
            Ans::NoAnswer => "no-answer".into(),
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Ans::Error(s) | Ans::Status(s) | Ans::Panic(s) => {
                let s: String = s.chars().take(300).collect();
                format!("{}: {}", self.class(), s)
            }
            _ => self.class(),
        }
    }
}

pub fn request(jsons: &[String], query: &str, reduce: bool) -> QueryRequest {
    QueryRequest {
        user_id: 1,
        query_id: 1,
        query: query.to_string(),
        components_info: Some(ComponentsInfo {
            components: jsons
                .iter()
                .map(|j| services::Component { rep: Some(Rep::Json(j.clone())) })
                .collect(),
            components_hash: 0,
        }),
        settings: Some(Settings { disable_clock_reduction: !reduce }),
        ..Default::default()
    }
}

pub fn ask(jsons: &[String], query: &str, reduce: bool) -> Ans {
    let req = request(jsons, query, reduce);
    send(req, ModelCache::new(4))
}

pub fn send(req: QueryRequest, cache: ModelCache) -> Ans {
    crate::report::about_to(|| {
        let models: Vec<&str> = req.components_info.iter().flat_map(|i| &i.components).filter_map(|c| match &c.rep {
            Some(Rep::Json(t)) | Some(Rep::Xml(t)) => Some(t.as_str()),
            _ => None,
        }).collect();
        format!("{} on {}", req.query, models.join(" "))
    });
    match guarded(|| ConcreteEcdarBackend::handle_send_query(req, cache)) {
        Err(p) => Ans::Panic(p),
        Ok(Err(s)) => Ans::Status(format!("{s:?}")),
        Ok(Ok(r)) => convert(r.result),
    }
}

pub fn convert(r: Option<R>) -> Ans {
    match r {
        None => Ans::NoAnswer,
        Some(R::Success(_)) => Ans::Success,
        Some(R::Refinement(f)) => Ans::Refinement(f),
        Some(R::Consistency(f)) => Ans::Consistency(f),
        Some(R::Determinism(f)) => Ans::Determinism(f),
        Some(R::ReachabilityPath(p)) => Ans::Path(p.path.map(|p| p.decisions).unwrap_or_default()),
        Some(R::Reachability(_)) => Ans::Unreachable,
        Some(R::Component(c)) => match c.rep {
            Some(Rep::Json(j)) => Ans::Component(j),
            _ => Ans::NoAnswer,
        },
        Some(R::Model(m)) => Ans::Model(m),
        Some(R::Error(e)) => Ans::Error(e.error),
        #[allow(unreachable_patterns)]
        _ => Ans::NoAnswer,
    }
}
