//! C02: on contracted graphs, the CH-query (and the plain query) finds a path of the cheapest base cost.
use crate::{sym, util::*};
use osmgraphing::{network::*, routing::dijkstra::*};

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("c02_levels", c02_levels), ("c02_core", c02_core), ("c02_k4", c02_k4), ("c02_pruned", c02_pruned), ("c02_struct", c02_struct), ("c02_two", c02_two),
    ("c02_struct_t", c02_struct_t), ("c02_k4_t", c02_k4_t), ("c02_chain5", c02_chain5),
];

/// contracts the nodes with a level below `core` in ascending order of their level
pub fn contract(es: &mut Vec<E>, levels: &[usize], core: usize, prune: bool) {
    let n = levels.len();
    let mut order: Vec<usize> = (0..n).filter(|&v| levels[v] < core).collect();
    order.sort_by_key(|&v| levels[v]);
    let mut done = vec![false; n];
    for v in order {
        let m = es.len();
        for i in 0..m {
            for j in 0..m {
                let (u, w) = (es[i].src as usize, es[j].dst as usize);
                if es[i].dst as usize != v || es[j].src as usize != v || u == w || u == v || w == v || done[u] || done[w] { continue; }
                let mm: Vec<f64> = es[i].m.iter().zip(&es[j].m).map(|(a, b)| a + b).collect();
                if prune && es[..].iter().any(|x| x.src as usize == u && x.dst as usize == w && sym::decide(x.m[0] <= mm[0])) { continue; }
                es.push(E { id: None, src: u as i64, dst: w as i64, m: mm, sc: Some([i, j]) });
            }
        }
        done[v] = true;
    }
}

fn run(base: &[E], levels: &[usize], core: usize, prune: bool, nm: usize, alphas: &[f64], s: i64, t: i64) {
    let pcfg = parsing_cfg(&metrics_yaml(nm));
    let mut rcfg = routing_cfg(&pcfg, "CHDijkstra");
    let mut plain = routing_cfg(&pcfg, "Dijkstra");
    for k in 0..alphas.len() { rcfg.alphas[k] = alphas[k]; plain.alphas[k] = alphas[k]; }
    let mut es = base.to_vec();
    contract(&mut es, levels, core, prune);
    if es.len() > base.len() { sym::cover("shortcuts"); }
    let g = build(pcfg, &es, levels).unwrap();
    let mut d = Dijkstra::new();
    let (si, ti) = (g.nodes().idx_from(s).unwrap(), g.nodes().idx_from(t).unwrap());
    let sp = simple_paths(base, s, t);
    for cfg in [&rcfg, &plain] {
        let p = d.compute_best_path(Query { src_idx: si, dst_idx: ti, graph: &g, routing_cfg: cfg });
        match p {
            None => {
                sym::cover("no path");
                sym::obs("hops", 99);
                sym::check(sp.is_empty(), "a path exists but none is returned");
            }
            Some(p) => {
                sym::cover("path");
                sym::check(!sp.is_empty(), "a path is returned but none exists");
                let c = check_path(&g, &cfg.alphas, &p, si, ti);
                sym::obs_f("cost", c);
                for q in &sp {
                    let mut best = 0.0;
                    for &k in q { best += cost_of(&cfg.alphas, &base[k].m); }
                    sym::check(c <= best, "cost on the contracted graph is the cheapest of the base graph");
                }
                let hops = p.iter().count();
                let f = p.flatten(&g);
                if f.iter().count() > hops { sym::cover("flattened"); }
                sym::obs("hops", f.iter().count() as u64);
                for ei in &f { sym::check(!g.fwd_edges().is_shortcut(*ei), "flattened path has no shortcuts"); }
                let fc = check_path(&g, &cfg.alphas, &f, si, ti);
                sym::check(fc == c, "flattening keeps the cost");
                sym::check(cost_of(&cfg.alphas, f.costs()) == c, "costs of the flattened path");
            }
        }
    }
    sym::cover("end");
}
fn perm(n: usize, mut k: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in (1..=n).rev() { out.push(left.remove(k % i)); k /= i; }
    out
}
const DIAMOND: &[(i64, i64)] = &[(0, 1), (1, 3), (0, 2), (2, 3), (1, 2), (3, 0)];
fn base(st: &[(i64, i64)], wmax: i64) -> Vec<E> { st.iter().map(|&(i, j)| e(i, j, &[sym::f("w", 1, wmax, 0)])).collect() }

/// any order of contraction, any src and dst
#[no_mangle]
pub extern "C" fn c02_levels() {
    let lv = perm(4, sym::conc_us(sym::us("perm", 0, 23)));
    let (s, t) = (sym::conc_us(sym::us("s", 0, 3)) as i64, sym::conc_us(sym::us("t", 0, 3)) as i64);
    run(&base(DIAMOND, 3), &lv, 4, false, 1, &[1.0], s, t);
}
/// only some nodes are contracted; the others share the highest level
#[no_mangle]
pub extern "C" fn c02_core() {
    let mut lv = perm(4, sym::conc_us(sym::us("perm", 0, 23)));
    let core = sym::conc_us(sym::us("core", 0, 3));
    for l in &mut lv { if *l > core { *l = core } }
    run(&base(DIAMOND, 4), &lv, core, false, 1, &[1.0], 0, 3);
}
fn k4(wmax: i64) {
    let mut es = vec![];
    for i in 0..4 { for j in 0..4 { if i != j && j != 0 && i != 3 { es.push((i, j)); } } }
    run(&base(&es, wmax), &[3, 0, 1, 2], 4, true, 1, &[1.0], 0, 3);
}
#[no_mangle]
pub extern "C" fn c02_k4() { k4(3) }
#[no_mangle]
pub extern "C" fn c02_k4_t() { k4(8) }
/// shortcuts only where needed
#[no_mangle]
pub extern "C" fn c02_pruned() {
    let lv = perm(4, sym::conc_us(sym::us("perm", 0, 23)));
    run(&base(DIAMOND, 4), &lv, 4, true, 1, &[1.0], 0, 3);
}
fn structured(m: usize, wmax: i64) {
    let lv = [[0, 1, 2], [1, 0, 2], [2, 0, 1], [1, 2, 0]][sym::conc_us(sym::us("lv", 0, 3))];
    let mut es = vec![];
    let mut prev = 0;
    for _ in 0..m {
        let k = sym::us("edge", 0, 8);
        sym::assume(k >= prev);
        prev = sym::conc_us(k);
        es.push(e((prev / 3) as i64, (prev % 3) as i64, &[sym::f("w", 1, wmax, 0)]));
    }
    let used = |v: i64| es.iter().any(|x| x.src == v || x.dst == v);
    sym::assume(used(0) && used(2));
    run(&es, &lv, 3, false, 1, &[1.0], 0, 2);
}
#[no_mangle]
pub extern "C" fn c02_struct() { structured(3, 3) }
#[no_mangle]
pub extern "C" fn c02_struct_t() { structured(4, 4) }
/// two metrics and free alphas on a personalizable hierarchy
#[no_mangle]
pub extern "C" fn c02_two() {
    let es: Vec<E> = [(0, 1), (1, 2), (0, 2)].iter().map(|&(i, j)| e(i, j, &[sym::f("w0", 1, 3, 0), sym::f("w1", 1, 3, 0)])).collect();
    let al = [sym::f("a0", 0, 2, 1), sym::f("a1", 0, 2, 1)];
    run(&es, &[1, 0, 2], 3, false, 2, &al, 0, 2);
}
/// chain of nested shortcuts next to direct edges
#[no_mangle]
pub extern "C" fn c02_chain5() {
    let es = base(&[(0, 1), (1, 2), (2, 3), (3, 4), (0, 2), (2, 4)], 4);
    let lv = perm(5, sym::conc_us(sym::us("perm", 0, 119)));
    run(&es, &lv, 5, false, 1, &[1.0], 0, 4);
}
