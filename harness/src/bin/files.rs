//! F01 A model means the same however it reaches the tool: through a request, a project folder, an XML
//! file or the command line, whatever the layout of its declarations and whatever was asked before.
use mc::cat::*;
use mc::driver::*;
use mc::model::*;
use mc::project::*;
use mc::report::*;
use reveaal::DataReader::component_loader::{parse_components_if_some, ModelCache};
use reveaal::ModelObjects::Component;
use reveaal::ProtobufServer::services::{self, component::Rep};
use reveaal::{parse_queries, JsonProjectLoader, ProjectLoader, XmlProjectLoader};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

/// The same component as an XML template. Styles differ in what carries no meaning.
fn template(c: &Comp, style: usize, declaration: Option<&str>) -> String {
    let decl = match declaration {
        Some(d) => d.to_string(),
        None if c.clocks.is_empty() => String::new(),
        None => format!("clock {};", c.clocks.join(", ")),
    };
    let mut out = String::from("<template>");
    out += &if style == 3 { format!("<name x=\"5\" y=\"5\">{}</name>", c.name) } else { format!("<name>{}</name>", c.name) };
    if !(style == 1 && decl.is_empty()) {
        out += &format!("<declaration>{}</declaration>", esc(&decl));
    }
    for l in &c.locs {
        out += &format!("<location id=\"{}\" x=\"-1\" y=\"2\">", l.id);
        if style % 2 == 1 {
            out += &format!("<name x=\"1\" y=\"1\">{}</name>", l.id);
        }
        if style == 2 {
            out += "<label kind=\"comments\" x=\"0\" y=\"0\">to be done</label>";
        }
        if l.inv != F::T {
            out += &format!("<label kind=\"invariant\" x=\"0\" y=\"0\">{}</label>", esc(&l.inv.text(&c.clocks)));
        }
        if style == 1 {
            out += "<label kind=\"comments\">x</label>";
        }
        out += "</location>";
    }
    let init = c.locs.iter().find(|l| l.kind == Kind::Initial).expect("an initial location");
    out += &format!("<init ref=\"{}\"/>", init.id);
    for e in &c.edges {
        out += &format!(
            "<transition controllable=\"{}\" action=\"\"><source ref=\"{}\"/><target ref=\"{}\"/>",
            e.input, c.locs[e.src].id, c.locs[e.dst].id
        );
        let mut labels = vec![];
        if e.guard != F::T {
            labels.push(format!("<label kind=\"guard\" x=\"1\" y=\"1\">{}</label>", esc(&e.guard.text(&c.clocks))));
        }
        labels.push(format!("<label kind=\"synchronisation\">{}{}</label>", e.act, if e.input { "?" } else { "!" }));
        if !e.resets.is_empty() {
            let u: Vec<String> = e.resets.iter().map(|(x, v)| format!("{}={}", c.clocks[*x], v)).collect();
            labels.push(format!("<label kind=\"assignment\">{}</label>", u.join(", ")));
        }
        if style == 2 {
            labels.reverse();
        }
        if style == 3 {
            labels.insert(0, "<label kind=\"comments\">x</label>".into());
        }
        out += &labels.concat();
        if style >= 1 {
            out += "<nail x=\"1\" y=\"2\"/>";
        }
        out += "</transition>";
    }
    out + "</template>"
}

fn nta(templates: &[String], system: &str) -> String {
    format!(
        "<?xml version=\"1.0\" encoding=\"utf-8\"?><nta><declaration>// global\nbroadcast chan a;</declaration>{}<system>{}</system></nta>",
        templates.concat(),
        esc(system)
    )
}

// ---------------------------------------------------------------- routes

fn xml_request(xmls: &[String], query: &str, reduce: bool) -> Ans {
    let mut req = request(&[], query, reduce);
    req.components_info.as_mut().unwrap().components =
        xmls.iter().map(|x| services::Component { rep: Some(Rep::Xml(x.clone())) }).collect();
    send(req, ModelCache::new(4))
}

/// What the command line prints for an answer.
fn verdict_line(a: &Ans) -> Option<&'static str> {
    match a {
        Ans::Success | Ans::Path(_) => Some("Property is satisfied"),
        Ans::Component(_) => Some("Component succesfully created"),
        Ans::Refinement(_) | Ans::Consistency(_) | Ans::Determinism(_) | Ans::Unreachable | Ans::Model(_) => Some("Property is NOT satisfied"),
        _ => None,
    }
}

/// Runs the real program. The verdict lines it printed, in order.
fn cli(path: &Path, query: &str, reduce: bool) -> Result<Vec<String>, String> {
    let exe = std::env::current_exe().unwrap().with_file_name("reveaal-cli");
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("query").arg(query).arg("-i").arg(path);
    if reduce {
        cmd.arg("-e");
    }
    let out = cmd.output().map_err(|e| format!("cannot run: {e}"))?;
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    if !out.status.success() {
        let err: String = String::from_utf8_lossy(&out.stderr).chars().take(300).collect();
        return Err(format!("{}: {err}", out.status));
    }
    Ok(text.lines().filter_map(|l| l.rsplit_once(" -- ").map(|x| x.1.trim().to_string())).collect())
}

// ---------------------------------------------------------------- declarations

/// What a component declares, or why it could not be read.
fn declared(c: &services::Component) -> Result<(BTreeMap<String, usize>, BTreeSet<String>), String> {
    let cs: Vec<Component> = match guarded(|| parse_components_if_some(c)) {
        Err(p) => return Err(format!("panic: {p}")),
        Ok(Err(s)) => return Err(format!("{s:?}")),
        Ok(Ok(cs)) => cs,
    };
    let [c] = &cs[..] else { return Err(format!("{} components", cs.len())) };
    let d = &c.declarations;
    Ok((d.clocks.iter().map(|(k, v)| (k.clone(), *v)).collect(), d.ints.keys().cloned().collect()))
}

fn declarations(run: &Run) {
    let seps = [", ", ",", " , ", ",\n  ", ",\t"];
    let gaps = [" ", "  ", "\t", "\n"];
    let terms = [";", " ;", ";\n", "; ", "; // clock q;\n", ";\n\n// int q, clock r;\n", ";\n  // c\n"];
    let pres = ["", "// clock q;\n", "\n", "  ", "\t// c\n \n"];
    let sufs = ["", " ", "\n", "\n// the end"];
    let ints = [(0, ""), (1, "int i;"), (2, "int i, j;"), (3, "int i = 2;\n"), (4, "\nint i=2, j = 3;")];
    // names, whether they start a new declaration
    let mut shapes = vec![(0usize, 0usize)];
    for n in 1..=3usize {
        for cut in 0..1usize << (n - 1) {
            shapes.push((n, cut));
        }
    }
    let names = ["x", "y", "clock_1"];
    let dims = [shapes.len(), seps.len(), gaps.len(), terms.len(), pres.len(), sufs.len(), ints.len(), 2, 2, 2];
    let n: u64 = dims.iter().map(|d| *d as u64).product();
    run.space("declarations", n, "layouts of clock and int declarations, in JSON and in XML");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let v: Vec<usize> = dims.iter().map(|m| d.pick(*m)).collect();
        let (count, cut) = shapes[v[0]];
        let (sep, gap, term, pre, suf) = (seps[v[1]], gaps[v[2]], terms[v[3]], pres[v[4]], sufs[v[5]]);
        let (int, first, crlf, xml) = (ints[v[6]], v[7] == 0, v[8] == 1, v[9] == 1);
        let mut text = pre.to_string();
        if first {
            text += int.1;
        }
        for i in 0..count {
            let starts = i == 0 || cut >> (i - 1) & 1 == 1;
            if starts {
                if i > 0 {
                    text += term;
                }
                text += &format!("clock{gap}{}", names[i]);
            } else {
                text += &format!("{sep}{}", names[i]);
            }
        }
        if count > 0 {
            text += term;
        }
        if !first {
            text += int.1;
        }
        text += suf;
        if crlf {
            text = text.replace('\n', "\r\n");
        }
        let want: BTreeSet<String> = names[..count].iter().map(|s| s.to_string()).collect();
        let want_ints: BTreeSet<String> = match int.0 {
            0 => vec![],
            1 | 3 => vec!["i".to_string()],
            _ => vec!["i".to_string(), "j".to_string()],
        }
        .into_iter()
        .collect();
        let mut c = Comp::new("A", 0);
        c.loc(F::T);
        c.edge(0, "a!", F::T, &[], 0);
        let rep = if xml {
            Rep::Xml(nta(&[template(&c, 0, Some(&text))], "system A;\nIO A { a! }"))
        } else {
            Rep::Json(c.json().replacen("\"declarations\":\"\"", &format!("\"declarations\":{}", jstr(&text)), 1))
        };
        let got = declared(&services::Component { rep: Some(rep) });
        run.states(1);
        run.trace(if xml { "declarations:xml" } else { "declarations:json" });
        let fine = match &got {
            Err(_) => false,
            Ok((clocks, ints)) => {
                let idx: BTreeSet<usize> = clocks.values().copied().collect();
                clocks.keys().cloned().collect::<BTreeSet<_>>() == want && idx == (1..=count).collect() && *ints == want_ints
            }
        };
        if k % 30011 == 0 {
            run.sample(json!({"declarations": text, "xml": xml, "read": format!("{got:?}")}));
        }
        if !fine {
            run.violation(
                &format!("declarations | {} | {text:?}", if xml { "xml" } else { "json" }),
                &format!("declarations {text:?}: expected clocks {want:?} numbered from 1 and ints {want_ints:?}, read {got:?}"),
                json!({"kind": "text", "declarations": text, "xml": xml, "expected": format!("{want:?} {want_ints:?}"), "observed": format!("{got:?}")}),
            );
        }
    });
}

// ---------------------------------------------------------------- system declarations

fn systems(run: &Run) {
    let seps = [", ", ",", " , ", ",\n\t"];
    let ends = [";\n", ";\n\n", " ;\n// IO A { q? }\n", "; // system Q;\n", ";"];
    let pres = ["", "// system Q;\n", "\n", "  ", "//\n\n"];
    let opens = [" { ", " {", "{", "  {\n  "];
    let commas = [", ", ",", " ,\n ", ",  "];
    let closes = [" }", "}", "\n}", "}\t"];
    let lines = ["\n", "\n\n", " // c\n", "\n// IO B { q? }\n", " "];
    // inputs, outputs per component
    let ios: [&[&str]; 5] = [&["a?"], &["a?", "b!"], &["b!"], &["b!", "a?", "c?"], &[]];
    let some = |n: usize| if run.quick() { n - 2 } else { n };
    let dims = [3, seps.len(), ends.len(), pres.len(), some(opens.len()), some(commas.len()), some(closes.len()), lines.len(), ios.len(), 2, 2, 2];
    let n: u64 = dims.iter().map(|d| *d as u64).product();
    run.space("system-declarations", n, "layouts of the list of components and of their actions, in JSON and in XML");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let v: Vec<usize> = dims.iter().map(|m| d.pick(*m)).collect();
        let count = v[0] + 1;
        let names = &["A", "B", "Long_Name1"][..count];
        let (xml, crlf, backwards) = (v[9] == 1, v[10] == 1, v[11] == 1);
        let mut text = format!("{}system {}{}", pres[v[3]], names.join(seps[v[1]]), ends[v[2]]);
        let mut order: Vec<usize> = (0..count).collect();
        if backwards {
            order.reverse();
        }
        let io = |i: usize| ios[(v[8] + i * 2) % ios.len()];
        for i in order {
            if io(i).is_empty() && i > 0 {
                continue;
            }
            text += &format!("IO {}{}{}{}{}", names[i], opens[v[4]], io(i).join(commas[v[5]]), closes[v[6]], lines[v[7]]);
        }
        if crlf {
            text = text.replace('\n', "\r\n");
        }
        let decl = match guarded(|| {
            if xml {
                let dir = Dir::new();
                let mut c = Comp::new("A", 0);
                c.loc(F::T);
                let p = dir.write("m.xml", &nta(&[template(&c, 0, None)], &text));
                let l = XmlProjectLoader::new_loader(&p, settings(false));
                l.get_declarations().clone()
            } else {
                serde_json::from_value(json!({"name": "S", "declarations": text})).unwrap()
            }
        }) {
            Ok(d) => Ok(d),
            Err(p) => Err(p),
        };
        run.states(1);
        run.trace(if xml { "system:xml" } else { "system:json" });
        let read = |d: &reveaal::ModelObjects::SystemDeclarations| {
            let s = d.get_declarations();
            let of = |m: &std::collections::HashMap<String, Vec<String>>, n: &str| -> BTreeSet<String> {
                m.get(n).map(|v| v.iter().cloned().collect()).unwrap_or_default()
            };
            let acts: Vec<_> = names.iter().map(|n| (of(s.get_input_actions(), n), of(s.get_output_actions(), n))).collect();
            (s.get_components().clone(), acts)
        };
        let want_acts: Vec<(BTreeSet<String>, BTreeSet<String>)> = (0..count)
            .map(|i| {
                let pick = |suffix: char| io(i).iter().filter(|a| a.ends_with(suffix)).map(|a| a[..1].to_string()).collect();
                (pick('?'), pick('!'))
            })
            .collect();
        let want = (names.iter().map(|s| s.to_string()).collect::<Vec<_>>(), want_acts);
        let got = decl.as_ref().map(read);
        if got.as_ref().ok() != Some(&want) {
            run.violation(
                &format!("system | {} | {text:?}", if xml { "xml" } else { "json" }),
                &format!("system declarations {text:?}: expected {want:?}, read {got:?}"),
                json!({"kind": "text", "declarations": text, "xml": xml, "expected": format!("{want:?}"), "observed": format!("{got:?}")}),
            );
        }
    });
}

// ---------------------------------------------------------------- routes

fn catalogue(quick: bool) -> Vec<Comp> {
    let no: Vec<Upd> = vec![vec![], vec![(0, 0)]];
    let mut v = one_loc("A", "b", "a", &[F::T, le(2), gt(1)], &no, &[F::T, le(2)]);
    v.extend(two_loc("A", "a?", &[("b!", 0), ("a?", 1), ("c?", 0)], &[F::T, ge(1)], &no, &[F::T, lt(2)], &no, &[F::T], &[F::T, le(2)]));
    v.extend(two_loc("A", "b!", &[("b!", 0), ("a?", 1)], &[F::T, ge(1)], &no, &[eq(2)], &no, &[F::T, le(1)], &[F::T, le(2)]));
    // two clocks, disjunctions, values, differences, an unreachable and an initial-last location
    for g in [or(lt(1), c(1, Op::Gt, 2)), F::D(0, 1, Op::Le, 1), and(ge(1), c(1, Op::Le, 3))] {
        for r in [vec![(1, 0)], vec![(0, 2), (1, 0)]] {
            for i in 0..2 {
                let mut c = Comp::new("A", 2);
                c.loc(F::T);
                c.loc(if i == 0 { le(3) } else { F::T });
                c.edge(0, "a?", g.clone(), &r, 1);
                c.edge(1, "b!", F::T, &[(0, 0), (1, 0)], 0);
                c.edge(1, "c?", ge(1), &[], 1);
                if i == 1 {
                    c.locs[0].kind = Kind::Normal;
                    c.locs[1].kind = Kind::Initial;
                }
                v.push(c);
            }
        }
    }
    for g in [F::T, ge(1), le(0)] {
        let mut c = Comp::new("A", 1);
        c.loc(le(2));
        c.loc(F::T);
        c.edge(0, "b!", le(0), &[], 1);
        c.edge(0, "b!", g, &[(0, 0)], 0);
        v.push(c);
    }
    if quick {
        v.into_iter().step_by(3).collect()
    } else {
        v
    }
}

/// Class of an answer; for components also what they consist of, apart from edge ids and orders.
fn told(a: &Ans) -> String {
    let Ans::Component(j) = a else { return a.class() };
    let c = match Comp::from_json(j) {
        Ok(c) => c,
        Err(w) => return format!("component that cannot be read: {w}"),
    };
    let parts = |f: &F| {
        let mut ors: Vec<Vec<String>> = f
            .text(&c.clocks)
            .split("||")
            .map(|o| {
                let mut v: Vec<String> = o.split("&&").map(|t| t.replace(['(', ')', ' '], "")).collect();
                v.sort();
                v
            })
            .collect();
        ors.sort();
        format!("{ors:?}")
    };
    let locs: BTreeSet<String> = c.locs.iter().map(|l| format!("{} {:?} {}", l.id, l.kind, parts(&l.inv))).collect();
    let mut edges: Vec<String> = c
        .edges
        .iter()
        .map(|e| {
            let mut r: Vec<String> = e.resets.iter().map(|(x, k)| format!("{}={k}", c.clocks[*x])).collect();
            r.sort();
            format!("{} {} {} {} {} {r:?}", c.locs[e.src].id, c.locs[e.dst].id, e.act, e.input, parts(&e.guard))
        })
        .collect();
    edges.sort();
    let clocks: BTreeSet<&String> = c.clocks.iter().collect();
    format!("component {} {clocks:?} {locs:?} {edges:?}", c.name)
}

fn key(route: &str, q: &str, shown: &[String]) -> String {
    format!("routes | {route} | {q} | {}", shown.join(" | "))
}

fn routes(run: &Run) {
    let quick = run.quick();
    let cat = catalogue(quick);
    let m = cat.len();
    let queries = [
        "consistency: A",
        "determinism: B",
        "refinement: A <= B",
        "refinement: A && B <= A",
        "reachability: A @ init -> A.L1",
        "reachability: A || C @ A.L0 && C.L0 && A.x < 2 -> A.L1 && C.x > 2",
        "get-component: A save-as D",
        "get-component: A && B save-as D",
        "consistency: A && B",
    ];
    let styles = if quick { 2 } else { 4 };
    let bs = if quick { 3 } else { 6 };
    let n = (m * bs) as u64;
    run.space("routes", n, "pairs of components: nine queries, with and without clock reduction, by request (JSON, XML as one or several files), project folder and XML project");
    run.for_all(n, |k| {
        let mut dg = Dig(k);
        let a = dg.of(&cat).renamed("A");
        let b = cat[(k as usize / m * 7 + k as usize % m * 5) % m].renamed("B");
        let mut c3 = Comp::new("C", 1);
        c3.loc(F::T);
        c3.edge(0, "d!", ge(1), &[], 0);
        let comps = [&a, &b, &c3];
        let shown: Vec<String> = comps.iter().map(|c| c.show()).collect();
        let jsons: Vec<String> = comps.iter().map(|c| c.json()).collect();
        let decl = system_decl(&comps);
        let folder = json_project(&comps, &decl, &[]);
        let style = k as usize % styles + if quick { 2 * (k as usize / 2 % 2) } else { 0 };
        let xmls: Vec<String> = comps.iter().map(|c| template(c, style, None)).collect();
        let whole = nta(&xmls, &decl);
        let parts: Vec<String> = xmls.iter().map(|t| nta(std::slice::from_ref(t), "system A;")).collect();
        let file = folder.write("m.xml", &whole);
        run.states(1);
        for (qi, q) in queries.iter().enumerate() {
            for reduce in [false, true] {
                let want = ask(&jsons, q, reduce);
                let mut others = vec![
                    ("json-project", ask_project(&folder.0, q, reduce)),
                    ("xml-project", ask_project(&file, q, reduce)),
                    ("xml-request", xml_request(std::slice::from_ref(&whole), q, reduce)),
                ];
                if qi % 3 == 0 {
                    others.push(("xml-requests", xml_request(&parts, q, reduce)));
                }
                run.trace(&format!("{}:{}", q.split(':').next().unwrap(), want.class()));
                if k % 401 == 0 && qi == 2 {
                    run.sample(json!({"query": q, "models": shown, "answer": want.class()}));
                }
                for (route, got) in others {
                    run.trans(1);
                    // the XML loader cannot save components
                    if route == "xml-project" && q.starts_with("get-component") {
                        continue;
                    }
                    let single = q.starts_with("get-component: A save");
                    if want.class() != got.class() || single && told(&want) != told(&got) {
                        run.violation(
                            &key(route, q, &shown),
                            &format!("{q}: answer {} by a JSON request, {} by {route}", want.brief(), got.brief()),
                            query_replay(&jsons, q, reduce, &shown, &want.class(), &format!("{route}: {}", got.brief())),
                        );
                    }
                }
            }
        }
    });
    // the program itself
    let program = |q: &str, reduce: bool, xml: bool, a: &Comp, b: &Comp| {
        let comps = [a, b];
        let shown: Vec<String> = comps.iter().map(|c| c.show()).collect();
        let jsons: Vec<String> = comps.iter().map(|c| c.json()).collect();
        let decl = system_decl(&comps);
        let folder = json_project(&comps, &decl, &[]);
        let path = if xml {
            folder.write("model.xml", &nta(&[template(a, 0, None), template(b, 3, None)], &decl))
        } else {
            folder.0.clone()
        };
        let want: Vec<Option<&str>> = q.split("; ").map(|q| verdict_line(&ask(&jsons, q, reduce))).collect();
        if want.iter().any(|w| w.is_none()) {
            run.note("command-line:no-verdict");
            return;
        }
        let want: Vec<String> = want.iter().map(|w| w.unwrap().to_string()).collect();
        let got = cli(&path, q, reduce);
        run.states(1);
        run.trace(&format!("command-line:{}", if xml { "xml" } else { "json" }));
        for w in &want {
            run.note(w);
        }
        if got.as_ref().ok() != Some(&want) {
            run.violation(
                &key(if xml { "program-xml" } else { "program-json" }, q, &shown),
                &format!("{q}: the program answers {got:?}, requests are answered {want:?}"),
                query_replay(&jsons, q.split("; ").next().unwrap(), reduce, &shown, &format!("{want:?}"), &format!("{got:?}")),
            );
        }
    };
    let step = if quick { 5 } else { 1 };
    let cli_queries = ["refinement: A <= B", "reachability: A @ init -> A.L1", "consistency: A; determinism: B; refinement: A <= A"];
    let n = (m / step) as u64 * cli_queries.len() as u64 * 4;
    run.space("command-line", n, "the program run on project folders and XML files, one query and a list of queries, with and without clock reduction");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let q = *d.of(&cli_queries);
        let (reduce, xml) = (d.pick(2) == 1, d.pick(2) == 1);
        let i = d.pick(m / step) * step;
        program(q, reduce, xml, &cat[i].renamed("A"), &cat[(i * 5 + 3) % m].renamed("B"));
    });
    // every kind of answer
    let mut good = Comp::new("A", 1);
    good.loc(le(2));
    good.loc(F::T);
    good.edge(0, "b!", ge(1), &[(0, 0)], 1);
    good.edge(1, "a?", F::T, &[], 1);
    let mut twice = good.clone();
    twice.edge(0, "b!", le(1), &[], 0);
    let mut stuck = Comp::new("A", 1);
    stuck.loc(le(2));
    stuck.edge(0, "a?", F::T, &[], 0);
    let mut late = good.clone();
    late.edges[0].guard = eq(2);
    let mut early = good.clone();
    early.edges[0].guard = le(0);
    let mut other = Comp::new("A", 1);
    other.loc(F::T);
    other.edge(0, "b?", F::T, &[], 0);
    let mut none = Comp::new("A", 0);
    none.loc(F::T);
    let mix = [good, twice, stuck, late, early, other, none];
    let systems = ["A", "B", "A && B", "A || B", "A // B", "B && (A || B)"];
    let mut asked: Vec<String> = vec![];
    for s in systems {
        asked.push(format!("consistency: {s}"));
        asked.push(format!("determinism: {s}"));
        asked.push(format!("get-component: {s} save-as D"));
        asked.push(format!("refinement: {s} <= A"));
        asked.push(format!("refinement: A <= {s}; consistency: B; determinism: {s}"));
    }
    asked.push("reachability: A @ init -> A.L0 && A.x > 2".into());
    asked.push("reachability: A && B @ init -> A.L0 && B.x < 1".into());
    asked.push("reachability: A @ A.L0 && A.x == 1 -> A.L0 && A.x < 1; consistency: A".into());
    let n = (asked.len() * mix.len() * mix.len() * 2) as u64;
    run.space("command-line-verdicts", n, "the program run on pairs of components whose queries end in every kind of answer");
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let xml = d.pick(2) == 1;
        let (a, b) = (d.of(&mix).renamed("A"), d.of(&mix).renamed("B"));
        let q = d.of(&asked);
        // the XML loader cannot save components
        if xml && q.contains("save-as") {
            return;
        }
        program(q, k % 3 == 0, xml, &a, &b);
    });
}

// ---------------------------------------------------------------- histories of a loader

fn histories(run: &Run) {
    let quick = run.quick();
    let mut spec = Comp::new("A", 1);
    spec.loc(F::T);
    spec.loc(le(2));
    spec.edge(0, "a?", F::T, &[(0, 0)], 1);
    spec.edge(1, "b!", ge(1), &[], 0);
    let mut imp = Comp::new("B", 2);
    imp.loc(F::T);
    imp.loc(le(2));
    imp.edge(0, "a?", F::T, &[(0, 0)], 1);
    imp.edge(1, "b!", and(ge(1), le(1)), &[(1, 0)], 0);
    let mut other = Comp::new("C", 1);
    other.loc(F::T);
    other.loc(F::T);
    other.edge(0, "b?", ge(1), &[(0, 0)], 1);
    other.edge(1, "c!", F::T, &[], 0);
    let mut odd = Comp::new("N", 1);
    odd.loc(F::T);
    odd.loc(le(1));
    odd.edge(0, "b!", F::T, &[], 1);
    odd.edge(0, "b!", ge(1), &[], 0);
    let comps = [&spec, &imp, &other, &odd];
    let decl = system_decl(&comps);
    let queries = [
        "refinement: B <= A",
        "refinement: A <= B",
        "consistency: A || C",
        "determinism: N",
        "consistency: N",
        "reachability: A || C @ init -> C.L1",
        "refinement: A && B <= A",
        "refinement: B <= A && A",
        "reachability: B @ init -> B.L1 && B.y > 3",
    ];
    // on their own, each on a new loader
    let alone = |xml: bool, reduce: bool| -> Vec<Ans> {
        let folder = json_project(&comps, &decl, &[]);
        let path = if xml {
            let ts: Vec<String> = comps.iter().map(|c| template(c, 0, None)).collect();
            folder.write("m.xml", &nta(&ts, &decl))
        } else {
            folder.0.clone()
        };
        queries.iter().map(|q| ask_project(&path, q, reduce)).collect()
    };
    let single: Vec<Vec<Ans>> = (0..4).map(|v| alone(v & 1 == 1, v & 2 == 2)).collect();
    let m = queries.len();
    let len: u32 = if quick { 3 } else { 4 };
    let n = (m as u64).pow(len) * 4;
    run.space("histories", n, &format!("all sequences of {len} queries on one loader, and the same sequence as a list of queries and as the queries of a project"));
    run.for_all(n, |k| {
        let mut d = Dig(k);
        let v = d.pick(4);
        let (xml, reduce) = (v & 1 == 1, v & 2 == 2);
        let seq: Vec<usize> = (0..len).map(|_| d.pick(m)).collect();
        let texts: Vec<String> = seq.iter().map(|i| queries[*i].to_string()).collect();
        let folder = json_project(&comps, &decl, &texts);
        let path = if xml {
            let ts: Vec<String> = comps.iter().map(|c| template(c, 0, None)).collect();
            folder.write("m.xml", &nta(&ts, &decl))
        } else {
            folder.0.clone()
        };
        run.states(1);
        run.trans(len as u64);
        let got = guarded(|| {
            let list = parse_queries::parse_to_query(&texts.join("; "));
            let l: Box<dyn ProjectLoader> = if xml {
                XmlProjectLoader::new_loader(&path, settings(reduce))
            } else {
                JsonProjectLoader::new_loader(&path, settings(reduce))
            };
            // the queries of the project say the same as the list
            let own: Vec<String> = l.get_queries().iter().map(|q| format!("{:?}", q.query)).collect();
            let listed: Vec<String> = list.iter().map(|q| format!("{:?}", q.query)).collect();
            let same = xml || own == listed;
            let mut l = l.to_comp_loader();
            (same, list.iter().map(|q| run_query(&mut *l, q)).collect::<Vec<Ans>>())
        });
        run.trace(if xml { "history:xml" } else { "history:json" });
        let want: Vec<String> = seq.iter().map(|i| single[v][*i].class()).collect();
        let (same, have) = match &got {
            Ok((same, a)) => (*same, a.iter().map(|a| a.class()).collect::<Vec<_>>()),
            Err(p) => (true, vec![p.clone()]),
        };
        if !same || have != want {
            run.violation(
                &format!("histories | xml={xml} reduce={reduce} | {}", texts.join("; ")),
                &format!("{}: answers {have:?}, each alone {want:?}; project queries {}", texts.join("; "), if same { "agree" } else { "differ" }),
                json!({"kind": "text", "queries": texts, "xml": xml, "reduce": reduce, "expected": want, "observed": have}),
            );
        }
    });
}

fn main() {
    let run = Run::new("F01");
    declarations(&run);
    systems(&run);
    routes(&run);
    histories(&run);
    run.finish();
}
