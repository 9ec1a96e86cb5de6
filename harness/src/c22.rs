//! C22: a step of the balancer: new metrics from workloads, files of results, configs.
use crate::{sym, util::*};
use osmgraphing::{configs::{self, balancing::{Config, OptimizationMethod}}, defaults::balancing::update_new_metric, io::evaluating_balance::Writer, network::*};

pub const TABLE: &[(&str, extern "C" fn())] = &[("c22_update", c22_update), ("c22_twice", c22_twice), ("c22_update_t", c22_update_t), ("c22_config", c22_config), ("c22_results", c22_results), ("c22_existing", c22_existing)];

fn pick(n: &str, t: &[f64]) -> f64 { t[sym::conc_us(sym::us(n, 0, t.len() - 1))] }
fn yaml(method: &str, more: &str) -> String {
    format!("balancing:\n  results-dir: 'res'\n  iter-0-cfg: 'a.yaml'\n  iter-i-cfg: 'b.yaml'\n  optimizing_with:\n    metric-id: 'm1'\n    method:\n      {}\n  number_of_metric-updates: 2\n{}  multi-ch-constructor:\n    fmi-graph: 'g.fmi'\n    contracted-graph: 'g.ch.fmi'\n    dimension: 3\n    is_printing_osm-ids: true\n    is_using_external_edge-ids: false\n  monitoring:\n    edges-info:\n      file: 'o.csv'\n      ids: [ id: 'm1' ]\n", method, more)
}
fn cfg(method: &str, more: &str) -> Config { Config::try_from_str(&yaml(method, more)).unwrap() }
/// one update, compared with the documented formulas
fn update(g: &mut Graph, iteration: usize, loads: &[usize], c: &Config) {
    let n = loads.len();
    let before: Vec<[f64; 3]> = (0..n).map(|k| { let m = &g.metrics()[EdgeIdx(k)]; [m[0], m[1], m[2]] }).collect();
    let means: Vec<Option<f64>> = (0..3).map(|i| g.metrics().mean(MetricIdx(i))).collect();
    let sum: usize = loads.iter().sum();
    let r = update_new_metric(iteration, &loads.to_vec(), g, c);
    let mut want = vec![];
    for k in 0..n {
        let new = loads[k] as f64 * n as f64 / sum as f64;
        let mut v = match c.optimization.method {
            OptimizationMethod::ExplicitEuler { correction } => before[k][1] + (new - before[k][1]) * correction,
            OptimizationMethod::Averaging => (iteration as f64 * before[k][1] + new) / (iteration + 1) as f64,
        };
        if let Some(m) = c.min_new_metric { if v < m { v = m; } }
        want.push(v);
    }
    let bad = sum == 0 || (c.min_new_metric.is_none() && c.is_err_when_metric_is_zero && want.iter().any(|v| *v < 1e-9)) || want.iter().sum::<f64>() < 1e-9;
    sym::check(r.is_err() == bad, "refused iff there is no workload, or a zero is not wanted");
    let mean = want.iter().sum::<f64>() / n as f64;
    for k in 0..n {
        let m = &g.metrics()[EdgeIdx(k)];
        sym::check(m[0] == before[k][0] && m[2] == before[k][2], "other metrics are kept");
        sym::obs_f("value", m[1]);
        if bad { sym::check(m[1] == before[k][1], "a refused update changes nothing"); continue; }
        // values and their mean: in a normalised graph the mean restores the value
        sym::check((m[1] * mean - want[k]).abs() <= 1e-9, "new metric is the documented one, normalised");
    }
    for i in 0..3 {
        match (g.metrics().mean(MetricIdx(i)), means[i]) {
            (None, None) => {}
            (Some(a), Some(b)) => if i == 1 && !bad { sym::check((a - mean).abs() <= 1e-9, "the mean is kept for restoring values") } else { sym::check(a == b, "other means are kept") },
            _ => sym::fail("means exist as before"),
        }
    }
    sym::cover(if bad { "refused" } else { "updated" });
}
fn graph(old: &[f64]) -> Graph {
    let norm = sym::decide(sym::b("normalised"));
    let y = metrics_yaml(3);
    let y = if norm { y.replace("    data:\n", "    will_normalize_metrics_by_mean: true\n    data:\n") } else { y };
    let es: Vec<E> = old.iter().enumerate().map(|(k, o)| e(k as i64, (k as i64 + 1) % old.len() as i64, &[1.0 + k as f64, *o, 2.5])).collect();
    build(parsing_cfg(&y), &es, &vec![0; old.len()]).unwrap()
}
fn options() -> (String, &'static str) {
    let min = ["", "  min_new_metric: 0.125\n", "  min_new_metric: 1.5\n"][sym::conc_us(sym::us("min", 0, 2))];
    let err = ["", "  throw_err_when_new_metric_is_zero: true\n", "  throw_err_when_new_metric_is_zero: false\n"][sym::conc_us(sym::us("err", 0, 2))];
    let method = ["averaging", "explicit_euler: { correction: 0.25 }", "explicit_euler: { correction: 1.0 }"][sym::conc_us(sym::us("method", 0, 2))];
    (format!("{}{}", min, err), method)
}
fn load(t: &[usize]) -> usize { t[sym::conc_us(sym::us("load", 0, t.len() - 1))] }
fn one(n: usize, olds: &[f64], loads: &[usize], iters: usize) {
    let (more, method) = options();
    let c = cfg(method, &more);
    let old: Vec<f64> = (0..n).map(|_| pick("old", olds)).collect();
    let mut g = graph(&old);
    let iteration = sym::conc_us(sym::us("iteration", 0, iters));
    let loads: Vec<usize> = (0..n).map(|_| load(loads)).collect();
    update(&mut g, iteration, &loads, &c);
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn c22_update() { one(2, &[0.5, 3.0], &[0, 1, 6], 2) }
#[no_mangle]
pub extern "C" fn c22_update_t() { one(3, &[0.5, 4.0], &[0, 1, 6], 1) }
/// several updates one after another
#[no_mangle]
pub extern "C" fn c22_twice() {
    let (more, method) = options();
    let c = cfg(method, &more);
    let mut g = graph(&[1.0, 4.0, 1.0]);
    for it in 0..2 { update(&mut g, it, &[load(&[0, 3]), 2, load(&[1, 5])], &c); }
    sym::cover("end");
}
/// everything that may be left out is left out or given
#[no_mangle]
pub extern "C" fn c22_config() {
    let given = sym::conc(sym::u("given", 0, 255));
    let has = |k: u64| given >> k & 1 == 1;
    let d = |n: &str| sym::conc(sym::u(n, 0, 3)) * 3;
    let (seed, threads, updates) = (d("seed"), [1, 8][sym::conc_us(sym::us("threads", 0, 1))], d("updates"));
    let mut more = String::new();
    if has(0) { more += &format!("  seed: {}\n", seed); }
    if has(1) { more += &format!("  number_of_threads: {}\n", threads); }
    if has(2) { more += "  min_new_metric: 0.5\n"; }
    if has(3) { more += "  throw_err_when_new_metric_is_zero: false\n"; }
    let mut y = yaml("averaging", &more).replace("updates: 2", &format!("updates: {}", updates));
    if has(4) { y = y.replace("    dimension: 3\n", "    dimension: 3\n    contraction-ratio: '97.5'\n"); }
    if has(5) { y = y.replace("    dimension: 3\n", "    dimension: 3\n    number_of_threads: 7\n"); }
    if has(6) { y = y.replace("    dimension: 3\n", "    dimension: 3\n    cost-accuracy: 0.5\n"); }
    if has(7) { y = y.replace("  monitoring:\n", "  monitoring:\n    export_vehicles_for_SMARTS: true\n"); }
    std::fs::write("c22.yaml", &y).unwrap();
    let c = Config::try_from_yaml("c22.yaml").unwrap();
    std::fs::remove_file("c22.yaml").unwrap();
    sym::check(c.seed == if has(0) { seed } else { 42 }, "seed (default 42)");
    sym::check(c.num_threads == if has(1) { threads as usize } else { 4 }, "threads (default 4)");
    sym::check(c.min_new_metric == if has(2) { Some(0.5) } else { None }, "minimum (default none)");
    sym::check(c.is_err_when_metric_is_zero != has(3), "errors of zeros (default yes)");
    sym::check(c.num_iter == updates as usize + 1, "one iteration more than updates");
    let m = &c.multi_ch_constructor;
    sym::check(m.contraction_ratio == if has(4) { "97.5" } else { "99.8" }, "contraction-ratio (default 99.8)");
    sym::check(m.num_threads == if has(5) { 7 } else { 4 }, "threads of the contraction (default 4)");
    if has(6) { sym::check(m.cost_accuracy == 0.5, "cost-accuracy"); }
    sym::check(m.dim == 3 && m.is_printing_osm_ids && !m.is_using_external_edge_ids && m.fmi_graph.to_str() == Some("g.fmi") && m.ch_fmi_graph.to_str() == Some("g.ch.fmi"), "contraction");
    sym::check(c.monitoring.is_writing_for_smarts == has(7), "export for SMARTS (default no)");
    sym::check(c.results_dir.to_str() == Some("res") && c.iter_0_cfg.to_str() == Some("a.yaml") && c.iter_i_cfg.to_str() == Some("b.yaml"), "paths");
    sym::check(c.optimization.metric_id == configs::SimpleId::from("m1"), "optimised metric");
    sym::cover("end");
}
fn eval() -> configs::evaluating_balance::Config {
    configs::evaluating_balance::Config::try_from_str("evaluating_balance:\n  results-dir: '.'\n  monitoring:\n    edges-info:\n      file: 'e.csv'\n      ids: [ id: 'edge-id', id: 'm0' ]\n").unwrap()
}
/// values per edge are written with the ids of the edges
#[no_mangle]
pub extern "C" fn c22_results() {
    let id = sym::decide(sym::b("edge-ids"));
    let y = metrics_yaml(1);
    let y = if id { y.replace("    data:\n", "    data:\n    - meta: { info: 'EdgeId', id: 'edge-id' }\n") } else { y };
    // ids in any order, edges in any order
    let first = sym::conc_us(sym::us("first", 0, 2));
    let ids: Vec<usize> = (0..3).map(|k| [4, 9, 2][(k + first) % 3]).collect();
    let rev = sym::decide(sym::b("descending"));
    let ends: Vec<(i64, i64)> = if rev { vec![(2, 0), (1, 2), (0, 1)] } else { vec![(0, 1), (1, 2), (2, 0)] };
    let es: Vec<E> = (0..3).map(|k| { let mut x = e(ends[k].0, ends[k].1, &[k as f64 + 0.5]); if id { x.id = Some(ids[k]); } x }).collect();
    let g = build(parsing_cfg(&y), &es, &[0; 3]).unwrap();
    let vals: Vec<u64> = (0..3).map(|_| sym::u("value", 0, 9)).collect();
    let c = eval();
    sym::check(Writer::check(&c).is_ok(), "no files are in the way");
    let r = Writer::write(&vals, &g, &c);
    if !id { sym::check(r.is_err(), "edge-ids are needed"); sym::cover("refused"); return; }
    sym::check(r.is_ok(), "results are written");
    let read = |f: &str| -> Vec<Vec<String>> { std::fs::read_to_string(f).unwrap().lines().map(|l| l.split(|c| c == ',' || c == ' ').map(|x| x.to_string()).collect()).collect() };
    let (a, b) = (read("abs_workloads.csv"), read("e.csv"));
    sym::check(a.len() == 4 && b.len() == 4, "a line per edge and a header");
    sym::check(a[0] == vec!["edge-id", "num_routes"], "header");
    for k in 0..3 {
        // the k-th edge of the graph
        let (s, d) = (g.nodes().id(g.bwd_edges().dst_idx(EdgeIdx(k))), g.nodes().id(g.fwd_edges().dst_idx(EdgeIdx(k))));
        let j = ends.iter().position(|x| *x == (s, d)).unwrap();
        let row = a.iter().find(|r| r[0] == ids[j].to_string());
        match row {
            None => sym::fail("every edge is written"),
            Some(r) => sym::check(r.len() == 2 && r[1].len() == 1 && r[1].as_bytes()[0] as u64 == 48 + vals[k], "value of the edge"),
        }
    }
    for f in ["abs_workloads.csv", "e.csv"].iter() { std::fs::remove_file(f).unwrap(); }
    sym::cover("written");
}
/// files of earlier evaluations are not touched
#[no_mangle]
pub extern "C" fn c22_existing() {
    let c = eval();
    let f = ["e.csv", "abs_workloads.csv", "vehicles.xml", "other.csv"][sym::conc_us(sym::us("file", 0, 3))];
    std::fs::write(f, "x").unwrap();
    let r = Writer::check(&c);
    std::fs::remove_file(f).unwrap();
    if f == "other.csv" { sym::check(r.is_ok(), "other files do not matter"); sym::cover("free"); }
    if f == "e.csv" || f == "abs_workloads.csv" { sym::check(r.is_err(), "existing results are reported"); sym::cover("existing"); }
}
