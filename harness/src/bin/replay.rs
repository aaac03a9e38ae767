//! Re-issues the request of a replay file and prints the full answer.
use mc::driver::*;
fn main() {
    let p = std::env::args().nth(1).expect("replay file");
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(p).unwrap()).unwrap();
    println!("{}\n{}", v["key"].as_str().unwrap_or(""), v["what"].as_str().unwrap_or(""));
    let r = &v["replay"];
    println!("{}", serde_json::to_string_pretty(&r["models"]).unwrap());
    if r["kind"] != "query" {
        println!("{}", serde_json::to_string_pretty(r).unwrap());
        return;
    }
    let js: Vec<String> = r["components"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().into()).collect();
    let q = r["query"].as_str().unwrap();
    println!("query: {q}\nexpected: {}\nobserved then: {}", r["expected"], r["observed"]);
    println!("observed now: {:?}", ask(&js, q, r["clock_reduction"].as_bool().unwrap_or(false)));
}
