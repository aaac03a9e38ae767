//! Asks the real query handlers about fixed models and compares the kind of answer.
mod driver;
mod report {
    pub fn about_to<T>(_: impl FnOnce() -> T) {}
}
fn comp(v: &serde_json::Value) -> String {
    // {"n":name,"c":"x,y","l":[["L0","x<=1","INITIAL"],...],"e":[["L0","L1","a!","guard","x=0"],...]}
    let s = |v: &serde_json::Value| v.as_str().unwrap_or("").to_string();
    let clocks = s(&v["c"]);
    let locs: Vec<_> = v["l"].as_array().unwrap().iter().enumerate().map(|(i, l)| serde_json::json!({"id": l[0], "nickname": "", "invariant": l[1],
        "type": l.get(2).map(s).unwrap_or(if i == 0 { "INITIAL".into() } else { "NORMAL".into() }),
        "urgency": "NORMAL", "x": 0.0, "y": 0.0, "color": 6, "nicknameX": 0.0, "nicknameY": 0.0, "invariantX": 0.0, "invariantY": 0.0})).collect();
    let edges: Vec<_> = v["e"].as_array().unwrap().iter().enumerate().map(|(i, e)| { let a = s(&e[2]); serde_json::json!({"id": format!("E{i}"), "group": "",
        "sourceLocation": e[0], "targetLocation": e[1], "status": if a.ends_with('?') { "INPUT" } else { "OUTPUT" }, "select": "",
        "guard": e.get(3).map(s).unwrap_or_default(), "update": e.get(4).map(s).unwrap_or_default(), "sync": a, "isLocked": false, "nails": []})}).collect();
    serde_json::json!({"name": v["n"], "declarations": if clocks.is_empty() { String::new() } else { format!("clock {};", clocks) },
        "locations": locs, "edges": edges, "description": "", "x": 0.0, "y": 0.0, "width": 0.0, "height": 0.0, "color": "6", "includeInPeriodicCheck": false}).to_string()
}
fn main() {
    driver::quiet_panics();
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap()).unwrap();
    let mut bad = 0;
    for c in v.as_array().unwrap() {
        let js: Vec<String> = c["components"].as_array().unwrap().iter().map(comp).collect();
        for _ in 0..c["repeat"].as_u64().unwrap_or(1) {
            let a = driver::ask(&js, c["query"].as_str().unwrap(), c["reduce"].as_bool().unwrap_or(false));
            if a.class() != c["expect"].as_str().unwrap() {
                println!("{}: expected {}, got {:?}", c["query"], c["expect"], a);
                bad += 1;
            }
        }
    }
    println!("{bad} unexpected answers");
    std::process::exit(if bad == 0 { 0 } else { 1 });
}
