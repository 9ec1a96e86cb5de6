//! C24: the programs do each requested step, and end with an error if one fails.
use crate::{bins::*, mlog, mstd::{process::{self, Call}, program, sched}, sym, util::*};
use osmgraphing::{configs, io, network::*};
use std::fs;

pub const TABLE: &[(&str, extern "C" fn())] = &[("c24_steps", c24_steps), ("c24_routing", c24_routing), ("c24_tool", c24_tool), ("c24_balance", c24_balance), ("c24_balance_t", c24_balance_t)];

const PARSING: &str = "parsing:
  map-file: 'g.fmi'
  nodes:
  - meta: { info: 'NodeId', id: 'node-id' }
  - metric: { unit: 'Latitude', id: 'lat' }
  - metric: { unit: 'Longitude', id: 'lon' }
  edges:
    will_normalize_metrics_by_mean: false
    data:
    - meta: { info: 'EdgeId', id: 'edge-id' }
    - meta: { info: 'SrcId', id: 'src-id' }
    - meta: { info: 'DstId', id: 'dst-id' }
    - metric: { unit: 'F64', id: 'm0' }
";
const MAP: &str = "3\n4\n4 48.5 9.25\n5 48.75 9.5\n6 49 9.75\n0 4 5 1\n1 5 6 2\n2 6 4 4\n3 4 6 8\n";
const ROUTES: &str = "2\n4 6 2\n6 5 1\n";
fn read(f: &str) -> Option<Vec<u8>> { fs::read(f).ok() }
fn clean(dirs: &[&str], files: &[&str]) {
    for f in files { let _ = fs::remove_file(f); }
    for d in dirs { let _ = fs::remove_dir(d); }
}

/// any of the steps, each of them going wrong
#[no_mangle]
pub extern "C" fn c24_steps() {
    sched::limit(0);
    let graph = sym::decide(sym::b("writing_graph"));
    let edges = sym::decide(sym::b("writing_edges"));
    let routes = sym::decide(sym::b("writing_route-pairs"));
    let routing = sym::decide(sym::b("routing"));
    let eval = sym::decide(sym::b("evaluating_balance"));
    let trouble = sym::conc_us(sym::us("trouble", 0, 14));
    let s = |k: usize, t: &str| if trouble == k { String::new() } else { t.to_string() };
    let yaml = PARSING.to_string() + "writing:\n  dummy: 1\n"
        + &s(6, "  graph:\n    map-file: 'o.fmi'\n    nodes: [ { id: 'node-id' }, { id: 'lat' }, { id: 'lon' } ]\n    edges:\n      ids: [ { id: 'src-id' }, { id: 'dst-id' }, { id: 'm0' } ]\n")
        + &s(7, "  edges-info:\n    file: 'o.csv'\n    ids: [ { id: 'edge-id' }, { id: 'm0' } ]\n")
        + &s(8, "  route-pairs:\n    file: 'o.route-pairs'\n    random_or_all: { max_count: 100 }\n")
        + &s(9, "routing:\n  route-pairs-file: 'in.route-pairs'\n  algorithm: Dijkstra\n  metrics: [{ id: 'm0' }]\n")
        + &s(10, "evaluating_balance:\n  results-dir: 'res/deep'\n  number_of_threads: 1\n  monitoring:\n    export_vehicles_for_SMARTS: true\n    edges-info:\n      file: 's.csv'\n      ids: [ { id: 'edge-id' }, { id: 'm0' } ]\n");
    if trouble != 12 { fs::write("c.yaml", &yaml).unwrap(); }
    if trouble != 11 { fs::write("g.fmi", MAP).unwrap(); }
    if trouble != 13 { fs::write("in.route-pairs", ROUTES).unwrap(); }
    let old = match trouble { 1 => "o.fmi", 2 => "o.csv", 3 => "o.route-pairs", 4 => "res/deep/s.csv", 5 => "res/deep/abs_workloads.csv", 14 => "res/deep/smarts.xml", _ => "" };
    if old.starts_with("res") { fs::create_dir_all("res/deep").unwrap(); }
    if old != "" { fs::write(old, "old").unwrap(); }
    let mut args = vec!["osmgraphing", "--log", "ERROR", "--config", "c.yaml"];
    if graph { args.push("--writing_graph"); }
    if edges { args.push("--writing_edges"); }
    if routes { args.push("--writing_route-pairs"); }
    if routing { args.push("--routing"); }
    if eval { args.push("--evaluating_balance"); }
    let ok = program::run(osmgraphing_bin::main, &args);
    let hit = match trouble {
        0 => false,
        1 | 6 => graph,
        2 | 7 => edges,
        3 | 8 => routes,
        4 | 5 | 14 | 10 => eval,
        9 => routes || routing || eval,
        13 => routing || eval,
        _ => true,
    };
    if hit { sym::check(!ok, "a step fails, but the program succeeds"); sym::cover("failed"); } else { sym::check(ok, "the program fails"); sym::cover("done"); }
    if old != "" { sym::check(read(old).unwrap() == b"old", "an existing file is changed"); }
    if ok {
        // what the library writes
        let pcfg = configs::parsing::Config::try_from_yaml("c.yaml").unwrap();
        let g = io::network::graph::Parser::parse_and_finalize(pcfg).unwrap();
        let same = |on: bool, f: &str, want: &dyn Fn(&str)| {
            if !on { return sym::check(f == old || read(f).is_none(), "a file is written, but not requested"); }
            let tmp = f.replace("o.", "x.");
            want(&tmp);
            sym::check(read(f).is_some() && read(f) == read(&tmp), "content of a requested file");
            fs::remove_file(&tmp).unwrap();
        };
        same(graph, "o.fmi", &|f| { let mut c = configs::writing::network::graph::Config::try_from_yaml("c.yaml").unwrap(); c.map_file = f.into(); io::network::graph::Writer::write(&g, &c).unwrap(); });
        same(edges, "o.csv", &|f| { let mut c = configs::writing::network::edges::Config::try_from_yaml("c.yaml").unwrap(); c.file = f.into(); io::network::edges::Writer::write(&g, &c).unwrap(); });
        same(routes, "o.route-pairs", &|f| {
            let mut c = configs::writing::routing::Config::try_from_yaml("c.yaml").unwrap();
            c.file = f.into();
            io::routing::Writer::write(&g, &configs::routing::Config::try_from_yaml("c.yaml", g.cfg()).unwrap(), &c).unwrap();
        });
        if eval {
            // 4 -> 5 -> 6 twice, 6 -> 4 -> 5 once
            sym::check(read("res/deep/abs_workloads.csv").unwrap_or_default() == b"edge-id num_routes\n0 3\n3 0\n1 2\n2 1\n", "workload of every edge");
            sym::check(read("res/deep/s.csv").unwrap_or_default() == b"edge-id m0\n0 1\n3 8\n1 2\n2 4\n", "information of every edge");
            sym::check(read("res/deep/smarts.xml").is_some(), "routes for SMARTS");
        } else if !old.starts_with("res") {
            sym::check(!std::path::Path::new("res").exists(), "results are written, but not requested");
        }
        sym::obs("written", read("o.fmi").map_or(0, |f| f.len() as u64));
    }
    sym::check(read("g.fmi").map_or(trouble == 11, |f| f == MAP.as_bytes()), "the map-file is changed");
    clean(&["res/deep", "res"], &["c.yaml", "g.fmi", "in.route-pairs", "o.fmi", "o.csv", "o.route-pairs", "res/deep/s.csv", "res/deep/abs_workloads.csv", "res/deep/smarts.xml"]);
}

/// routes are searched with any algorithm, and their costs are shown
#[no_mangle]
pub extern "C" fn c24_routing() {
    sched::limit(0);
    let algo = sym::conc_us(sym::us("algorithm", 0, 3));
    let slow = sym::decide(sym::b("metric"));
    let routes = [sym::conc_us(sym::us("route0", 0, 4)), sym::conc_us(sym::us("route1", 0, 5)), sym::conc_us(sym::us("route2", 3, 5))];
    let yaml = PARSING.to_string() + "    - metric: { unit: 'F64', id: 'm1' }\nrouting:\n  route-pairs-file: 'in.route-pairs'\n  algorithm: "
        + ["Dijkstra", "CHDijkstra", "{ Explorator: { algo: Dijkstra } }", "{ Explorator: { algo: CHDijkstra } }"][algo]
        + if slow { "\n  metrics: [{ id: 'm0', alpha: 0.25 }, { id: 'm1' }]\n" } else { "\n  metrics: [{ id: 'm0' }, { id: 'm1', alpha: 0.25 }]\n" };
    fs::write("c.yaml", &yaml).unwrap();
    fs::write("g.fmi", "4\n4\n4 48.5 9.25\n5 48.75 9.5\n6 49 9.75\n7 49 10\n0 4 5 1 8\n1 5 6 2 8\n2 4 6 8 1\n3 7 4 1 1\n").unwrap();
    // costs of the path of the first metric, and of the one of the second
    const R: [(&str, &[&str]); 5] = [("4 6", &["[3.0, 16.0]", "[8.0, 1.0]"]), ("6 4", &[]), ("7 6", &["[4.0, 17.0]", "[9.0, 2.0]"]), ("5 4", &[]), ("7 5", &["[2.0, 9.0]"])];
    let routes: Vec<_> = routes.iter().filter(|&&r| r < 5).map(|&r| R[r]).collect();
    let mut text = format!("{}\n", routes.len());
    for r in &routes { text += &format!("{} 1\n", r.0); }
    fs::write("in.route-pairs", text).unwrap();
    unsafe { mlog::RECORD = true; mlog::MESSAGES.clear(); }
    let ok = program::run(osmgraphing_bin::main, &["osmgraphing", "--log", "ERROR", "--config", "c.yaml", "--routing"]);
    unsafe { mlog::RECORD = false; }
    sym::check(ok, "the program fails");
    let shown = unsafe { &mlog::MESSAGES };
    let all: Vec<&str> = R.iter().flat_map(|r| r.1.iter().copied()).collect();
    let mut found = shown.iter().filter_map(|(_, t)| all.iter().find(|c| t.contains(**c)).copied());
    for (_, costs) in &routes {
        if algo < 2 || costs.len() < 2 {
            if let Some(want) = costs.get(if slow { costs.len().saturating_sub(1) } else { 0 }) { sym::check(found.next() == Some(*want), "costs of a route"); sym::cover("path"); }
        } else {
            let (a, b) = (found.next(), found.next());
            sym::check(a == Some(costs[0]) && b == Some(costs[1]) || a == Some(costs[1]) && b == Some(costs[0]), "costs of alternatives");
            sym::cover("alternatives");
        }
    }
    sym::check(found.next().is_none(), "costs are shown, but not of a requested route");
    let missing = routes.iter().filter(|r| r.1.is_empty()).count();
    sym::check(shown.iter().filter(|(w, _)| *w).count() == missing, "a warning for each route without a path");
    if missing > 0 { sym::cover("warned"); }
    sym::obs("shown", shown.len() as u64);
    clean(&[], &["c.yaml", "g.fmi", "in.route-pairs"]);
}

static mut CALLS: Vec<Call> = Vec::new();
/// the call which fails, and how
static mut FAIL: (usize, usize) = (0, 0);
fn calls() -> &'static mut Vec<Call> { unsafe { &mut CALLS } }
fn note(c: &Call) -> Option<i32> {
    calls().push(c.clone());
    let (at, how) = unsafe { FAIL };
    if calls().len() != at { return Some(0); }
    match how { 0 => Some(1), 1 => Some(-6), _ => None }
}
/// values of options, e.g. --text
fn option<'a>(c: &'a Call, name: &str) -> Option<&'a str> { c.args.iter().position(|a| a == name).map(|k| c.args[k + 1].as_str()) }
fn has(c: &Call, name: &str) -> bool { c.args.iter().any(|a| a == name) }
fn define(c: &Call, name: &str) -> Option<String> {
    let p = format!("{}=", name);
    c.args.iter().enumerate().filter_map(|(k, a)| if let Some(v) = a.strip_prefix(&p) { if k > 0 && c.args[k - 1] == "-D" { Some(v.to_string()) } else { None } } else { a.strip_prefix("-D").and_then(|a| a.strip_prefix(&p)).map(|v| v.to_string()) }).last()
}
const DIR: &str = "externals/multi-ch-constructor";
/// the three calls building and running the tool
fn check_tool(c: &[Call], dim: usize, accuracy: f64, threads: usize, ratio: &str, text: &str, write: &str, osm: bool, ids: bool) {
    sym::check(c[0].program == "cmake" && c[1].program == "cmake", "the tool is built with cmake");
    sym::check(c[0].dir.as_deref() == Some(DIR) && c[1].dir.as_deref() == Some(DIR), "the tool is built in its directory");
    sym::check(has(&c[0], "-Bbuild") || option(&c[0], "-B") == Some("build"), "the tool is configured in its build-directory");
    sym::check(define(&c[0], "GRAPH_DIM") == Some(format!("{}", dim)), "dimension of the tool");
    sym::check(define(&c[0], "COST_ACCURACY").and_then(|v| v.parse::<f64>().ok()) == Some(accuracy), "accuracy of the tool");
    sym::check(option(&c[1], "--build") == Some("build"), "the tool is built");
    sym::check(c[2].program == "externals/multi-ch-constructor/build/multi-ch", "the tool is started");
    sym::check(option(&c[2], "--threads") == Some(format!("{}", threads).as_str()), "threads of the tool");
    sym::check(option(&c[2], "--percent") == Some(ratio), "contraction-ratio of the tool");
    sym::check(option(&c[2], "--text") == Some(text), "graph given to the tool");
    sym::check(option(&c[2], "--write") == Some(write), "graph written by the tool");
    sym::check(has(&c[2], "--using-osm-ids") == osm && has(&c[2], "--external-edge-ids") == ids, "ids used by the tool");
}
/// a config of the program multi-ch-constructor
#[no_mangle]
pub extern "C" fn c24_tool() {
    sched::limit(0);
    let (osm, ids) = (sym::decide(sym::b("osm-ids")), sym::decide(sym::b("edge-ids")));
    let dim = sym::conc_us(sym::us("dim", 1, 3));
    let threads = sym::conc_us(sym::us("threads", 0, 2));
    let acc = sym::conc_us(sym::us("accuracy", 0, 2));
    let ratio = sym::conc_us(sym::us("ratio", 0, 1));
    let at = sym::conc_us(sym::us("fails", 0, 3));
    let how = if at > 0 { sym::conc_us(sym::us("how", 0, 2)) } else { 0 };
    let mut yaml = format!("multi-ch-constructor:\n  fmi-graph: 'a b/g.fmi'\n  contracted-graph: 'o/g.ch.fmi'\n  dimension: {}\n  is_printing_osm-ids: {}\n  is_using_external_edge-ids: {}\n", dim, osm, ids);
    if threads > 0 { yaml += &format!("  number_of_threads: {}\n", [0, 1, 7][threads]); }
    if acc > 0 { yaml += &format!("  cost-accuracy: {}\n", [0.0, 0.5, 0.000001][acc]); }
    if ratio > 0 { yaml += "  contraction-ratio: \"95\"\n"; }
    fs::write("c.yaml", &yaml).unwrap();
    unsafe { FAIL = (at, how); process::RUN = Some(note); }
    calls().clear();
    let ok = program::run(multi_ch_bin::main, &["multi-ch-constructor", "--log", "ERROR", "--config", "c.yaml"]);
    fs::remove_file("c.yaml").unwrap();
    sym::check(ok == (at == 0), "failing programs are reported");
    let c = calls();
    sym::obs("calls", c.len() as u64);
    sym::check(c.len() == if at == 0 { 3 } else { at }, "nothing is started after a failure");
    if at == 0 {
        check_tool(c, dim, [0.0001, 0.5, 0.000001][acc], [4, 1, 7][threads], ["99.8", "95"][ratio], "a b/g.fmi", "o/g.ch.fmi", osm, ids);
        sym::cover("done");
    } else { sym::cover("failed"); }
}

fn iteration_cfg(i: bool) -> String {
    let w = if i { ", { id: 'w' }" } else { "" };
    let mut s = format!("writing:
  graph:
    map-file: 'graph.fmi'
    nodes: [ {{ id: 'node-id' }}, {{ id: 'lat' }}, {{ id: 'lon' }} ]
    edges:
      ids: [ {{ id: 'edge-id' }}, {{ id: 'src-id' }}, {{ id: 'dst-id' }}{} ]
  edges-info:
    file: 'info.csv'
    ids: [ {{ id: 'edge-id' }}, {{ id: 'm0' }} ]
", w);
    s += &PARSING.replace("g.fmi", "graph.ch.fmi").replace("    - metric: { unit: 'F64', id: 'm0' }\n", if i { "    - metric: { unit: 'F64', id: 'w' }\n" } else { "" });
    s += "  generating:\n    nodes: []\n    edges:\n    - custom: { id: 'm0', unit: 'F64', default: 64.0 }\n";
    if !i { s += "    - custom: { id: 'w', unit: 'F64', default: 1.0 }\n"; }
    s += "    - merge: { from: 'info.csv', edge-id: 'edge-id', edges-info: [ { id: 'edge-id' }, { id: 'm0' } ] }\n";
    s
}
static mut BROKEN: bool = false;
static mut TEXTS: Vec<String> = Vec::new();
fn texts() -> &'static mut Vec<String> { unsafe { &mut TEXTS } }
/// contracting a graph may always yield the graph itself
fn contract(c: &Call) -> Option<i32> {
    let r = note(c);
    if let (Some(a), Some(b)) = (option(c, "--text"), option(c, "--write")) {
        if r == Some(0) {
            match fs::read(a) {
                Ok(t) => { texts().push(String::from_utf8(t.clone()).unwrap()); let t = if unsafe { BROKEN } { t[..t.len() - 12].to_vec() } else { t }; sym::check(fs::write(b, t).is_ok(), "the directory of the contracted graph exists"); }
                Err(_) => sym::fail("the graph given to the tool does not exist"),
            }
        }
    }
    r
}
/// id and values of edges of a written file, sorted by id
fn rows(t: &str, skip: usize, cols: &[usize]) -> Vec<Vec<f64>> {
    let mut v: Vec<Vec<f64>> = t.lines().skip(skip).filter(|l| !l.is_empty() && !l.starts_with('#')).map(|l| { let w: Vec<&str> = l.split_whitespace().collect(); cols.iter().map(|&k| w[k].parse().unwrap()).collect() }).collect();
    v.sort_by(|a, b| a[0].partial_cmp(&b[0]).unwrap());
    v
}
/// rows of edges of a map-file: lines behind counts and nodes
fn edge_rows(t: &str, metrics: usize, cols: &[usize]) -> Vec<Vec<f64>> {
    let l: Vec<&str> = t.lines().filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
    // the number of metrics of an edge is what the tool expects
    sym::check(l.len() == 10 && l[0] == format!("{}", metrics) && l[1] == "3" && l[2] == "4", "counts of the written graph");
    rows(&l[6..].join("\n"), 0, cols)
}
fn text(f: String) -> String { match fs::read(&f) { Ok(t) => String::from_utf8(t).unwrap(), Err(_) => { sym::fail("a file of the results is missing"); panic!() } } }
fn balance(max_updates: usize, faults: usize) {
    sched::limit(0);
    let updates = sym::conc_us(sym::us("updates", 0, max_updates));
    let euler = sym::decide(sym::b("euler"));
    let smarts = sym::decide(sym::b("smarts"));
    let at = sym::conc_us(sym::us("fails", 0, faults));
    let how = if at > 0 { sym::conc_us(sym::us("how", 0, 2)) } else { 0 };
    let count = sym::conc_us(sym::us("count", 1, 2));
    // what else is missing: a minimum of the metric, files, parts of the config, the end of the contracted graph
    let trouble = if at == 0 { sym::conc_us(sym::us("trouble", 0, 7)) } else { 0 };
    let s = |k: usize, t: &str| if trouble == k { String::new() } else { t.to_string() };
    let main_cfg = PARSING.to_string() + "  generating:\n    nodes: []\n    edges:\n    - custom: { id: 'w', unit: 'F64', default: 1.0 }\n"
        + "balancing:\n  results-dir: 'res'\n  number_of_threads: 1\n  iter-0-cfg: 'i0.yaml'\n  iter-i-cfg: 'ii.yaml'\n" + &s(1, "  min_new_metric: 0.25\n") + "  optimizing_with:\n    metric-id: 'w'\n    method:\n"
        + if euler { "      explicit_euler: { correction: 0.5 }\n" } else { "      averaging\n" }
        + &format!("  number_of_metric-updates: {}\n", updates)
        + "  multi-ch-constructor: { fmi-graph: 'graph.fmi', contracted-graph: 'graph.ch.fmi', dimension: 2, number_of_threads: 3, is_printing_osm-ids: true, is_using_external_edge-ids: false }\n"
        + &format!("  monitoring:\n    export_vehicles_for_SMARTS: {}\n    edges-info:\n      file: 's.csv'\n      ids: [ {{ id: 'edge-id' }}, {{ id: 'w' }}, {{ id: 'm0' }} ]\n", smarts)
        + &s(6, "routing:\n  route-pairs-file: 'in.route-pairs'\n  algorithm: Dijkstra\n  metrics: [{ id: 'm0', alpha: 1 }, { id: 'w', alpha: 16 }]\n")
        + &s(5, "writing:\n  graph:\n    map-file: 'some/balanced.fmi'\n    nodes: [ { id: 'node-id' }, { id: 'lat' }, { id: 'lon' } ]\n    edges:\n      ids: [ { id: 'edge-id' }, { id: 'src-id' }, { id: 'dst-id' }, { id: 'm0' }, { id: 'w' } ]\n");
    let routes = format!("2\n4 6 {}\n6 5 1\n", count);
    for (f, t) in [("c.yaml", &main_cfg), ("i0.yaml", &iteration_cfg(false)), ("ii.yaml", &iteration_cfg(true)), ("in.route-pairs", &routes), ("g.fmi", &MAP.to_string())].iter() { fs::write(f, t).unwrap(); }
    match trouble { 2 => fs::remove_file("i0.yaml").unwrap(), 3 => fs::remove_file("ii.yaml").unwrap(), 4 => fs::remove_file("in.route-pairs").unwrap(), _ => {} }
    unsafe { FAIL = (at, how); BROKEN = trouble == 7; process::RUN = Some(contract); }
    calls().clear();
    texts().clear();
    let ok = program::run(osmgraphing_bin::main, &["osmgraphing", "--log", "ERROR", "--config", "c.yaml", "--balancing"]);
    let c = calls();
    sym::obs("calls", c.len() as u64);
    let n = 3 * (updates + 1);
    // euler keeps half of the old metric, so it does not vanish
    let stops = match trouble { 0 => None, 1 => if euler { None } else { Some(3) }, 2 => Some(0), 3 => if updates > 0 { Some(3) } else { None }, 4 | 7 => Some(3), _ => Some(0) };
    let stops = if at > 0 && at <= n { Some(at) } else { stops };
    sym::check(ok == stops.is_none(), if stops.is_some() { "a failing step is not reported" } else { "balancing fails" });
    sym::check(c.len() == stops.unwrap_or(n), "the tool is built and started once per iteration");
    let mut files: Vec<String> = ["c.yaml", "i0.yaml", "ii.yaml", "in.route-pairs", "g.fmi"].iter().map(|s| s.to_string()).collect();
    let mut dirs = vec![];
    if ok {
        let first = option(&c[2], "--text").unwrap_or("");
        let dir = first.strip_suffix("/0/graph.fmi").unwrap_or("").to_string();
        sym::check(dir.starts_with("res/utc_") && !dir[8..].contains('/'), "results are written to a directory of their own");
        sym::check(text(format!("{}/c.yaml", dir)) == main_cfg, "config among the results");
        sym::check(text(format!("{}/in.route-pairs", dir)) == routes, "routes among the results");
        files.extend([format!("{}/c.yaml", dir), format!("{}/in.route-pairs", dir), format!("{}/balanced.fmi", dir)]);
        let m0 = [1.0, 2.0, 4.0, 8.0];
        let mut w = [1.0f64; 4];
        for i in 0..=updates {
            let d = format!("{}/{}", dir, i);
            check_tool(&c[3 * i..], if i == 0 { 1 } else { 2 }, 0.000001, 3, "99.8", &format!("{}/graph.fmi", d), &format!("{}/graph.ch.fmi", d), true, false);
            sym::check(text(format!("{}/iteration.yaml", d)) == iteration_cfg(i > 0), "config of the iteration");
            // the graph is the one of the last iteration
            for (k, r) in edge_rows(&texts()[i], if i > 0 { 1 } else { 0 }, if i > 0 { &[0, 3] } else { &[0] }).iter().enumerate() { sym::check(r[0] == k as f64 && (i == 0 || near(r[1], w[k])), "metric written for the iteration"); }
            for (k, r) in rows(&text(format!("{}/info.csv", d)), 1, &[0, 1]).iter().enumerate() { sym::check(r[0] == k as f64 && r[1] == m0[k], "information written for the iteration"); }
            if i == updates {
                for (k, r) in edge_rows(&text(format!("{}/balanced.fmi", dir)), 2, &[0, 3, 4]).iter().enumerate() { sym::check(r[0] == k as f64 && r[1] == m0[k] && near(r[2], w[k]), "balanced graph"); }
            }
            // routes of the iteration: 4 -> 5 -> 6 or 4 -> 6, and 6 -> 4 -> 5
            let a = if i == 0 { 0.0 } else { 16.0 };
            let (x, y) = (m0[0] + m0[1] + a * (w[0] + w[1]), m0[3] + a * w[3]);
            sym::check(x < y - 0.001 || x > y + 0.001, "the harness has clear costs");
            let l = count as f64;
            let load = if x < y { [l + 1.0, l, 1.0, 0.0] } else { [1.0, 0.0, 1.0, l] };
            for (k, r) in rows(&text(format!("{}/stats/abs_workloads.csv", d)), 1, &[0, 1]).iter().enumerate() { sym::check(r[0] == k as f64 && r[1] == load[k], "workload of the iteration"); }
            // new metric
            let mean = (load[0] + load[1] + load[2] + load[3]) / 4.0;
            for k in 0..4 {
                let new = load[k] / mean;
                let old = w[k];
                w[k] = if euler { old + (new - old) * 0.5 } else { (i as f64 * old + new) / (i as f64 + 1.0) };
                if trouble != 1 && w[k] < 0.25 { w[k] = 0.25; }
            }
            let mean = (w[0] + w[1] + w[2] + w[3]) / 4.0;
            for k in 0..4 { w[k] /= mean; }
            for (k, r) in rows(&text(format!("{}/stats/s.csv", d)), 1, &[0, 1, 2]).iter().enumerate() { sym::obs_f("metric", r[1]); sym::check(r[0] == k as f64 && near(r[1], w[k]) && r[2] == m0[k], "metric after the iteration"); }
            sym::check(read(&format!("{}/stats/smarts.xml", d)).is_some() == smarts, "routes for SMARTS as requested");
            if x > y { sym::cover("routes move"); }
            for f in ["graph.fmi", "graph.ch.fmi", "info.csv", "iteration.yaml", "stats/abs_workloads.csv", "stats/s.csv", "stats/smarts.xml"].iter() { files.push(format!("{}/{}", d, f)); }
            dirs.push(format!("{}/stats", d));
            dirs.push(d);
        }
        dirs.push(dir);
        dirs.push("res".to_string());
        sym::cover("done");
    } else {
        sym::cover("failed");
    }
    sym::check((trouble == 4 || text("in.route-pairs".into()) == routes) && text("c.yaml".into()) == main_cfg && text("g.fmi".into()) == MAP, "inputs are not changed");
    clean(&dirs.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &files.iter().map(|s| s.as_str()).collect::<Vec<_>>());
}
/// balancing writes, contracts, evaluates and updates the graph in every iteration
#[no_mangle]
pub extern "C" fn c24_balance() { balance(2, 4) }
#[no_mangle]
pub extern "C" fn c24_balance_t() { balance(4, 9) }
