//! C01: best path of the bidirectional Dijkstra is a real path of minimal cost, None iff there is none.
use crate::{sym, util::*};
use osmgraphing::{network::*, routing::dijkstra::*};

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("c01_struct3", c01_struct3), ("c01_struct4", c01_struct4), ("c01_k4", c01_k4), ("c01_ladder", c01_ladder),
    ("c01_alpha", c01_alpha), ("c01_neg", c01_neg), ("c01_small", c01_small), ("c01_struct3_t", c01_struct3_t), ("c01_struct4_t", c01_struct4_t), ("c01_k4_t", c01_k4_t),
];

fn structured(n: usize, m: usize, wmax: i64, loops: bool, fixed: bool) {
    let pcfg = parsing_cfg(&metrics_yaml(1));
    let rcfg = routing_cfg(&pcfg, "Dijkstra");
    let mut es = vec![];
    let mut prev = 0;
    for _ in 0..m {
        // edges in ascending (src,dst)-order: the order of insertion is another property
        let k = sym::us("edge", 0, n * n - 1);
        sym::assume(k >= prev);
        prev = sym::conc_us(k);
        if !loops { sym::assume(prev / n != prev % n); }
        es.push(e((prev / n) as i64, (prev % n) as i64, &[sym::f("w", 1, wmax, 1)]));
    }
    let (s, t) = if fixed { (0, n as i64 - 1) } else { (sym::conc_us(sym::us("s", 0, n - 1)) as i64, sym::conc_us(sym::us("t", 0, n - 1)) as i64) };
    let used = |v: i64| es.iter().any(|x| x.src == v || x.dst == v);
    sym::assume(used(s) && used(t));
    let g = build(pcfg, &es, &vec![0; n]).unwrap();
    let mut d = Dijkstra::new();
    check_best(&mut d, &g, &rcfg, &es, s, t, 0.0);
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn c01_struct3() { structured(3, 4, 6, true, false) }
#[no_mangle]
pub extern "C" fn c01_struct4() { structured(4, 5, 4, false, true) }
#[no_mangle]
pub extern "C" fn c01_struct3_t() { structured(3, 5, 8, true, false) }
#[no_mangle]
pub extern "C" fn c01_struct4_t() { structured(4, 5, 6, false, false) }

/// complete digraph on 4 nodes, all 12 weights symbolic
fn k4(wmax: i64) {
    let pcfg = parsing_cfg(&metrics_yaml(1));
    let rcfg = routing_cfg(&pcfg, "Dijkstra");
    let mut es = vec![];
    for i in 0..4 { for j in 0..4 { if i != j { es.push(e(i, j, &[sym::f("w", 1, wmax, 0)])); } } }
    let g = build(pcfg, &es, &[0; 4]).unwrap();
    let mut d = Dijkstra::new();
    check_best(&mut d, &g, &rcfg, &es, 0, 3, 0.0);
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn c01_k4() { k4(4) }
#[no_mangle]
pub extern "C" fn c01_k4_t() { k4(16) }

/// 6 nodes, two parallel chains with crossings: long paths, meeting nodes far from the cheapest path
#[no_mangle]
pub extern "C" fn c01_ladder() {
    let pcfg = parsing_cfg(&metrics_yaml(1));
    let rcfg = routing_cfg(&pcfg, "Dijkstra");
    let mut es = vec![];
    for &(i, j) in &[(0, 1), (1, 2), (2, 5), (0, 3), (3, 4), (4, 5), (1, 4)] { es.push(e(i, j, &[sym::f("w", 1, 4, 0)])); }
    let g = build(pcfg, &es, &[0; 6]).unwrap();
    let mut d = Dijkstra::new();
    check_best(&mut d, &g, &rcfg, &es, 0, 5, 0.0);
    sym::cover("end");
}

/// costs are the alpha-weighted sums of all metrics
#[no_mangle]
pub extern "C" fn c01_alpha() {
    let pcfg = parsing_cfg(&metrics_yaml(2));
    let mut rcfg = routing_cfg(&pcfg, "Dijkstra");
    rcfg.alphas[0] = sym::f("a0", 0, 3, 1);
    rcfg.alphas[1] = sym::f("a1", 0, 3, 1);
    let mut es = vec![];
    for &(i, j) in &[(0, 1), (1, 2), (0, 2)] { es.push(e(i, j, &[sym::f("w0", 1, 4, 0), sym::f("w1", 1, 4, 0)])); }
    let g = build(pcfg, &es, &[0; 3]).unwrap();
    let mut d = Dijkstra::new();
    check_best(&mut d, &g, &rcfg, &es, 0, 2, 0.0);
    sym::cover("end");
}

/// a negative weight of a metric leads to "no path"
#[no_mangle]
pub extern "C" fn c01_neg() {
    let pcfg = parsing_cfg(&metrics_yaml(2));
    let mut rcfg = routing_cfg(&pcfg, "Dijkstra");
    rcfg.alphas[0] = sym::f("a0", -4, 4, 1);
    rcfg.alphas[1] = sym::f("a1", -4, 4, 1);
    let es = [e(0, 1, &[1.0, 2.0]), e(1, 2, &[2.0, 1.0]), e(0, 2, &[4.0, 2.0])];
    let g = build(pcfg, &es, &[0; 3]).unwrap();
    let mut d = Dijkstra::new();
    let p = d.compute_best_path(Query { src_idx: NodeIdx(0), dst_idx: NodeIdx(2), graph: &g, routing_cfg: &rcfg });
    if sym::decide(rcfg.alphas[0] < 0.0 || rcfg.alphas[1] < 0.0) {
        sym::check(p.is_none(), "negative alpha: no path");
        sym::cover("neg");
    } else {
        sym::check(p.is_some(), "path exists");
        sym::cover("pos");
    }
}

/// tiny metrics (raised to the accuracy when zero) next to ordinary ones; optimal within the accuracy
#[no_mangle]
pub extern "C" fn c01_small() {
    let pcfg = parsing_cfg(&metrics_yaml(1));
    let rcfg = routing_cfg(&pcfg, "Dijkstra");
    let mut es = vec![];
    for &(i, j) in &[(0, 1), (1, 3), (0, 2), (2, 3), (0, 3), (1, 2)] { es.push(e(i, j, &[sym::f_of("w", &[0.0, 0.25, 1.0, 1.5])])); }
    let g = build(pcfg, &es, &[0; 4]).unwrap();
    let mut d = Dijkstra::new();
    check_best(&mut d, &g, &rcfg, &es, 0, 3, 1e-5);
    sym::cover("end");
}
