//! Scratch projects on disk and queries against them.
use crate::driver::*;
use crate::model::Comp;
use reveaal::extract_system_rep::{create_executable_query, ExecutableQueryError};
use reveaal::ModelObjects::Query;
use reveaal::ProtobufServer::services::query_request::Settings;
use reveaal::{parse_queries, ComponentLoader, JsonProjectLoader, ProjectLoader, XmlProjectLoader};
use serde_json::json;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

static NEXT: AtomicU64 = AtomicU64::new(0);

/// A scratch folder, removed when dropped.
pub struct Dir(pub PathBuf);

impl Dir {
    pub fn new() -> Dir {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("mc-files-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch folder");
        Dir(p)
    }
    pub fn write(&self, name: &str, text: &str) -> PathBuf {
        let p = self.0.join(name);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).expect("scratch folder");
        }
        std::fs::write(&p, text).expect("scratch file");
        p
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn system_decl(comps: &[&Comp]) -> String {
    let names: Vec<&str> = comps.iter().map(|c| c.name.as_str()).collect();
    let mut out = format!("system {};\n", names.join(", "));
    for c in comps {
        let acts: Vec<String> = c
            .inputs()
            .iter()
            .map(|a| format!("{a}?"))
            .chain(c.outputs().iter().map(|a| format!("{a}!")))
            .collect();
        out += &format!("IO {} {{ {} }}\n", c.name, acts.join(", "));
    }
    out
}

pub fn json_project(comps: &[&Comp], decl: &str, queries: &[String]) -> Dir {
    let d = Dir::new();
    for c in comps {
        d.write(&format!("Components/{}.json", c.name), &c.json());
    }
    d.write("SystemDeclarations.json", &json!({"name": "System Declarations", "declarations": decl}).to_string());
    let qs: Vec<_> = queries.iter().map(|q| json!({"query": q, "comment": "", "isPeriodic": false})).collect();
    d.write("Queries.json", &json!(qs).to_string());
    d
}

pub fn settings(reduce: bool) -> Settings {
    Settings { disable_clock_reduction: !reduce }
}

pub fn run_query(loader: &mut (dyn ComponentLoader + 'static), q: &Query) -> Ans {
    match guarded(|| match create_executable_query(q, loader) {
        Ok(e) => convert(Some(e.execute().into())),
        Err(ExecutableQueryError::SystemRecipeFailure(f)) => convert(Some(f.into())),
        Err(ExecutableQueryError::Custom(s)) => Ans::Status(s),
    }) {
        Err(p) => Ans::Panic(p),
        Ok(a) => a,
    }
}

pub fn parsed(q: &str) -> Query {
    let mut v = parse_queries::parse_to_query(q);
    assert_eq!(v.len(), 1);
    v.remove(0)
}

pub fn loader_of(path: &Path, reduce: bool) -> Result<Box<dyn ComponentLoader>, Ans> {
    guarded(|| {
        let l: Box<dyn ProjectLoader> = if reveaal::xml_parser::is_xml_project(path) {
            XmlProjectLoader::new_loader(path, settings(reduce))
        } else {
            JsonProjectLoader::new_loader(path, settings(reduce))
        };
        l.to_comp_loader()
    })
    .map_err(Ans::Panic)
}

pub fn ask_project(path: &Path, query: &str, reduce: bool) -> Ans {
    match loader_of(path, reduce) {
        Ok(mut l) => run_query(&mut *l, &parsed(query)),
        Err(a) => a,
    }
}

