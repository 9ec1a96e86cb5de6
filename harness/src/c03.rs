//! C03: answers of a reused Dijkstra-instance equal the ones of a new instance.
use crate::{sym, util::*};
use osmgraphing::{configs, network::*, routing::{dijkstra::*, paths::Path}};

pub const TABLE: &[(&str, extern "C" fn())] = &[("c03_two", c03_two), ("c03_three", c03_three), ("c03_same", c03_same), ("c03_ch", c03_ch), ("c03_mixed", c03_mixed), ("c03_three_t", c03_three_t)];

struct G { es: Vec<E>, g: Graph, dij: configs::routing::Config, ch: configs::routing::Config, n: usize }
fn graph(st: &[(i64, i64)], levels: &[usize], wmax: i64) -> G {
    let pcfg = parsing_cfg(&metrics_yaml(1));
    let (dij, ch) = (routing_cfg(&pcfg, "Dijkstra"), routing_cfg(&pcfg, "CHDijkstra"));
    let es: Vec<E> = st.iter().map(|&(i, j)| e(i, j, &[sym::f("w", 1, wmax, 0)])).collect();
    let mut all = es.clone();
    crate::c02::contract(&mut all, levels, levels.len(), false);
    let g = build(pcfg, &all, levels).unwrap();
    G { es, g, dij, ch, n: levels.len() }
}
fn same(g: &G, cfg: &configs::routing::Config, a: Option<Path>, b: Option<Path>, s: NodeIdx, t: NodeIdx) {
    match (a, b) {
        (None, None) => { sym::cover("no path"); sym::obs("hops", 99); }
        (Some(a), Some(b)) => {
            sym::cover("path");
            let (ca, cb) = (check_path(&g.g, &cfg.alphas, &a, s, t), check_path(&g.g, &cfg.alphas, &b, s, t));
            sym::obs_f("cost", ca);
            sym::check(ca == cb, "reused instance finds a path of the same cost");
            for q in &simple_paths(&g.es, *s as i64, *t as i64) {
                let mut best = 0.0;
                for &k in q { best += g.es[k].m[0]; }
                sym::check(ca <= best, "reused instance finds a cheapest path");
            }
        }
        _ => sym::fail("reused instance finds a path iff a new one does"),
    }
}
fn query(g: &G, d: &mut Dijkstra, ch: bool, s: usize, t: usize) {
    let cfg = if ch { &g.ch } else { &g.dij };
    let q = Query { src_idx: NodeIdx(s), dst_idx: NodeIdx(t), graph: &g.g, routing_cfg: cfg };
    let a = d.compute_best_path(q);
    let b = Dijkstra::new().compute_best_path(q);
    same(g, cfg, a, b, NodeIdx(s), NodeIdx(t));
}
fn any(g: &G, d: &mut Dijkstra) {
    let (s, t) = (sym::conc_us(sym::us("s", 0, g.n - 1)), sym::conc_us(sym::us("t", 0, g.n - 1)));
    query(g, d, sym::conc_us(sym::us("ch", 0, 1)) == 1, s, t);
}
const ONEWAY: &[(i64, i64)] = &[(0, 1), (1, 2), (0, 2), (3, 1)];
const PAIR: &[(i64, i64)] = &[(0, 1), (1, 0)];
/// a query on one graph, then one on a smaller or larger graph
#[no_mangle]
pub extern "C" fn c03_two() {
    let order = sym::conc_us(sym::us("order", 0, 1));
    let (a, b) = (graph(ONEWAY, &[1, 0, 3, 2], 3), graph(PAIR, &[0, 1], 2));
    let mut d = Dijkstra::new();
    let (x, y) = if order == 0 { (&a, &b) } else { (&b, &a) };
    any(x, &mut d);
    any(y, &mut d);
    sym::cover("end");
}
fn three(w: i64, w2: i64) {
    let (a, b) = (graph(ONEWAY, &[1, 0, 3, 2], w), graph(PAIR, &[0, 1], w2));
    let c1 = sym::conc_us(sym::us("algos", 0, 7));
    let (s, t) = (sym::conc_us(sym::us("s", 0, 3)), sym::conc_us(sym::us("t", 0, 3)));
    let mut d = Dijkstra::new();
    query(&a, &mut d, c1 & 1 == 1, s, t);
    query(&b, &mut d, c1 & 2 == 2, 0, 1);
    let (s3, t3) = [(0, 2), (3, 2), (2, 1), (0, 1)][sym::conc_us(sym::us("q3", 0, 3))];
    query(&a, &mut d, c1 & 4 == 4, s3, t3);
    sym::cover("end");
}
/// large, small, large again
#[no_mangle]
pub extern "C" fn c03_three() { three(3, 2) }
#[no_mangle]
pub extern "C" fn c03_three_t() { three(5, 4) }
/// queries on the same graph
#[no_mangle]
pub extern "C" fn c03_same() {
    let a = graph(&[(0, 1), (1, 3), (0, 2), (2, 3), (3, 0)], &[1, 0, 3, 2], 4);
    let algos = sym::conc_us(sym::us("algos", 0, 3));
    let (s, t) = (sym::conc_us(sym::us("s", 0, 3)), sym::conc_us(sym::us("t", 0, 3)));
    let (s2, t2) = [(0, 3), (1, 2), (3, 1), (2, 1)][sym::conc_us(sym::us("q2", 0, 3))];
    let mut d = Dijkstra::new();
    query(&a, &mut d, algos & 1 == 1, s, t);
    query(&a, &mut d, algos & 2 == 2, s2, t2);
    sym::cover("end");
}
/// a rejected query (negative weight) leaves nothing behind
#[no_mangle]
pub extern "C" fn c03_ch() {
    let mut a = graph(&[(0, 1), (1, 2), (0, 2), (2, 0)], &[1, 0, 2], 3);
    let algos = sym::conc_us(sym::us("algos", 0, 7));
    let mut d = Dijkstra::new();
    query(&a, &mut d, algos & 1 == 1, 0, 2);
    a.dij.alphas[0] = -1.0;
    a.ch.alphas[0] = -1.0;
    let cfg = if algos & 2 == 2 { &a.ch } else { &a.dij };
    let p = d.compute_best_path(Query { src_idx: NodeIdx(0), dst_idx: NodeIdx(2), graph: &a.g, routing_cfg: cfg });
    sym::check(p.is_none(), "negative weight: no path");
    a.dij.alphas[0] = 1.0;
    a.ch.alphas[0] = 1.0;
    query(&a, &mut d, algos & 4 == 4, 2, 1);
    sym::cover("end");
}
/// three queries on the same graph with both algorithms in any order
#[no_mangle]
pub extern "C" fn c03_mixed() {
    let a = graph(&[(0, 1), (1, 2), (2, 3), (0, 2)], &[1, 0, 3, 2], 2);
    let algos = sym::conc_us(sym::us("algos", 0, 7));
    let mut d = Dijkstra::new();
    let (s, t) = (sym::conc_us(sym::us("s", 0, 3)), sym::conc_us(sym::us("t", 0, 3)));
    query(&a, &mut d, algos & 1 == 1, s, t);
    let (s, t) = [(0, 0), (3, 0), (1, 3)][sym::conc_us(sym::us("q2", 0, 2))];
    query(&a, &mut d, algos & 2 == 2, s, t);
    let (s, t) = [(0, 3), (1, 3), (3, 1), (2, 3)][sym::conc_us(sym::us("q3", 0, 3))];
    query(&a, &mut d, algos & 4 == 4, s, t);
    sym::cover("end");
}
