//! C21: exploration of alternative routes (convex hull of the costs of all paths).
use crate::{sym, util::*};
use osmgraphing::{configs, network::*, routing::{dijkstra::*, explorating::ConvexHullExplorator, paths::Path}};

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("c21_hull", c21_hull), ("c21_hull_t", c21_hull_t), ("c21_free", c21_free), ("c21_free_t", c21_free_t), ("c21_diamond", c21_diamond), ("c21_ignored", c21_ignored), ("c21_one", c21_one),
    ("c21_tol", c21_tol), ("c21_three", c21_three), ("c21_reuse", c21_reuse), ("c21_tie", c21_tie), ("c21_ch", c21_ch),
];

/// whether every cost is the same (costs of the checks are sums of small dyadic numbers)
fn same(a: &[f64], b: &[f64]) -> bool { a.iter().zip(b).all(|(x, y)| x == y) }

struct Case<'a> { g: &'a Graph, es: &'a [E], rcfg: &'a configs::routing::Config, s: i64, t: i64 }
impl<'a> Case<'a> {
    fn run(&self, x: &mut ConvexHullExplorator, d: &mut Dijkstra) -> Vec<Path> {
        let n = self.g.nodes();
        x.fully_explorate(Query { src_idx: n.idx_from(self.s).unwrap(), dst_idx: n.idx_from(self.t).unwrap(), graph: self.g, routing_cfg: self.rcfg }, d)
    }
    /// costs of all simple paths
    fn all(&self) -> Vec<Vec<f64>> {
        let dim = self.rcfg.alphas.len();
        simple_paths(self.es, self.s, self.t).iter().map(|p| (0..dim).map(|i| p.iter().map(|&k| self.es[k].m[i]).sum()).collect()).collect()
    }
    fn check(&self, found: &[Path]) {
        let n = self.g.nodes();
        let (si, ti) = (n.idx_from(self.s).unwrap(), n.idx_from(self.t).unwrap());
        let dim = self.rcfg.alphas.len();
        let all = self.all();
        sym::obs("found", found.len() as u64);
        let considered: Vec<usize> = (0..dim).filter(|&i| self.rcfg.alphas[i] > 0.0).collect();
        let opt: Vec<f64> = (0..dim).map(|i| all.iter().fold(INF, |m, c| min(m, c[i]))).collect();
        let tol = |i: usize| opt[i] * self.rcfg.tolerated_scales[i];
        let inf = considered.iter().all(|&i| self.rcfg.tolerated_scales[i] == std::f64::INFINITY);
        if all.is_empty() { sym::cover("unreachable"); sym::check(found.is_empty(), "nothing is found if there is no path"); return; }
        // every path is one, with its costs, tolerated
        for p in found {
            check_path(self.g, &self.rcfg.alphas, p, si, ti);
            let c = p.costs();
            sym::check(c.len() == dim, "a cost per metric");
            for i in 0..dim {
                sym::obs_f("cost", c[i]);
                let mut sum = 0.0;
                for e in p { sum += self.g.metrics()[*e][i]; }
                sym::check(c[i] == sum, "costs of a path are the sums of its metrics");
            }
            for &i in &considered {
                if !inf { sym::check(c[i] <= tol(i) * (1.0 + 1e-6) + 1e-6, "paths are within the tolerance"); }
            }
        }
        for a in 0..found.len() { for b in 0..a { sym::check(!same(found[a].costs(), found[b].costs()), "every alternative is returned once"); } }
        // paths of a considered metric's optimum, unless not tolerated
        if inf {
            for &i in &considered { sym::check(found.iter().any(|p| p.costs()[i] == opt[i]), "an optimum of every considered metric is found"); }
        }
        if considered.len() == 2 {
            let (x, y) = (considered[0], considered[1]);
            // distinct optima of the initial weightings: ties have to be excluded by the caller
            let sum = all.iter().fold(INF, |m, c| min(m, c[x] + c[y]));
            let three = !all.iter().any(|c| c[x] + c[y] == sum && (c[x] == opt[x] || c[y] == opt[y])) && !all.iter().any(|c| c[x] == opt[x] && c[y] == opt[y]);
            if three {
                sym::cover("three initial alternatives");
                // each corner of the lower hull: it is the unique optimum of some weighting of positive weights,
                // which is iff it is below every line through two others
                for c in &all {
                    let dominated = all.iter().any(|o| !same2(o, c, x, y) && o[x] <= c[x] && o[y] <= c[y]);
                    let above = all.iter().any(|l| all.iter().any(|r| {
                        l[x] < c[x] && c[x] < r[x] && {
                            // cross product of (r - l) and (c - l): not below the line
                            (r[x] - l[x]) * (c[y] - l[y]) >= (r[y] - l[y]) * (c[x] - l[x])
                        }
                    }));
                    if dominated || above { continue; }
                    let tolerated = inf || considered.iter().all(|&i| c[i] <= tol(i));
                    if !tolerated { continue; }
                    if found.len() > 3 { sym::cover("further alternatives"); }
                    sym::check(found.iter().any(|p| same2(p.costs(), c, x, y)), "the optimum of every weighting is found");
                }
            }
        }
    }
}
fn same2(a: &[f64], b: &[f64], x: usize, y: usize) -> bool { a[x] == b[x] && a[y] == b[y] }

fn config(pcfg: &configs::parsing::Config, dim: usize, alphas: &[f64], scales: &[f64]) -> configs::routing::Config {
    let mut c = routing_cfg(pcfg, "Dijkstra");
    for i in 0..dim {
        c.alphas[i] = alphas[i];
        c.tolerated_scales[i] = scales[i];
    }
    c
}
const FREE: f64 = std::f64::INFINITY;
fn pick(n: &str, t: &[f64]) -> f64 { t[sym::conc_us(sym::us(n, 0, t.len() - 1))] }

/// parallel edges: first metric fixed (ascending), second one any of a table
fn hull(xs: &[f64], ys: &[&[f64]], alphas: &[f64], scales: &[f64]) {
    let pcfg = parsing_cfg(&metrics_yaml(2));
    let rcfg = config(&pcfg, 2, alphas, scales);
    let mut es = vec![];
    for (k, x) in xs.iter().enumerate() { es.push(e(0, 1, &[*x, pick("y", ys[k])])); }
    let g = build(pcfg, &es, &[0; 2]).unwrap();
    let c = Case { g: &g, es: &es, rcfg: &rcfg, s: 0, t: 1 };
    let found = c.run(&mut ConvexHullExplorator::new(), &mut Dijkstra::new());
    c.check(&found);
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn c21_hull() {
    hull(&[1.0, 2.0, 4.0, 7.0, 12.0], &[&[11.0, 13.0, 16.0], &[6.0, 7.0, 9.0, 11.0], &[3.0, 4.0, 5.0, 6.5], &[2.0, 2.5, 3.0, 4.0], &[1.0, 1.5, 2.0]], &[1.0, 1.0], &[FREE, FREE]);
}
#[no_mangle]
pub extern "C" fn c21_hull_t() {
    hull(&[1.0, 2.0, 3.0, 5.0, 8.0, 13.0], &[&[21.0, 25.0, 30.0], &[10.0, 12.0, 14.0, 16.0, 20.0], &[6.0, 7.0, 8.0, 9.0, 11.0], &[3.0, 4.0, 4.5, 5.0, 6.0], &[2.0, 3.0, 3.5, 4.0], &[1.0, 1.5, 2.0]], &[0.5, 2.0], &[FREE, FREE]);
}
/// any costs within the ranges: all comparisons and the linear systems are symbolic
fn free(xs: &[f64], ys: &[(i64, i64)]) {
    let pcfg = parsing_cfg(&metrics_yaml(2));
    let rcfg = config(&pcfg, 2, &[1.0, 1.0], &[FREE, FREE]);
    let mut es = vec![];
    for (k, x) in xs.iter().enumerate() { es.push(e(0, 1, &[*x, sym::f("y", ys[k].0, ys[k].1, 0)])); }
    let g = build(pcfg, &es, &[0; 2]).unwrap();
    let c = Case { g: &g, es: &es, rcfg: &rcfg, s: 0, t: 1 };
    let found = c.run(&mut ConvexHullExplorator::new(), &mut Dijkstra::new());
    c.check(&found);
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn c21_free_t() { free(&[1.0, 2.0, 4.0, 8.0, 12.0], &[(11, 13), (6, 11), (3, 6), (2, 5), (1, 2)]) }
#[no_mangle]
pub extern "C" fn c21_free() { free(&[1.0, 2.0, 4.0, 8.0, 12.0], &[(12, 12), (6, 9), (3, 4), (2, 3), (1, 1)]) }
/// alternatives combined of alternatives of the parts, across nodes; also unreachable targets
#[no_mangle]
pub extern "C" fn c21_diamond() {
    let pcfg = parsing_cfg(&metrics_yaml(2));
    let rcfg = config(&pcfg, 2, &[1.0, 0.5], &[FREE, FREE]);
    let mut es = vec![];
    for (src, dst, x, t) in vec![(0, 1, 1.0, [8.0, 10.0]), (0, 1, 4.0, [2.0, 5.0]), (0, 2, 2.0, [6.0, 3.0]), (1, 3, 1.0, [7.0, 4.0]), (1, 3, 5.0, [1.0, 3.0]), (2, 3, 3.0, [2.0, 6.0])] {
        es.push(e(src, dst, &[x, pick("y", &t)]));
    }
    es.push(e(4, 0, &[1.0, 1.0]));
    let g = build(pcfg, &es, &[0; 5]).unwrap();
    let c = Case { g: &g, es: &es, rcfg: &rcfg, s: 0, t: if sym::decide(sym::b("reachable")) { 3 } else { 4 } };
    let found = c.run(&mut ConvexHullExplorator::new(), &mut Dijkstra::new());
    c.check(&found);
    sym::cover("end");
}
/// a metric that is not considered; its place among the metrics is any
#[no_mangle]
pub extern "C" fn c21_ignored() {
    let pcfg = parsing_cfg(&metrics_yaml(3));
    let place = sym::conc_us(sym::us("place", 0, 2));
    let with = |z: f64, x: f64, y: f64| { let mut v = vec![x, y]; v.insert(place, z); v };
    let rcfg = config(&pcfg, 3, &with(0.0, 1.0, 1.0), &with(1.0, pick("scale", &[FREE, 5.0]), FREE));
    let mut es = vec![];
    for (x, t) in vec![(1.0, [12.0, 16.0]), (2.0, [6.0, 9.0]), (4.0, [3.0, 5.0]), (8.0, [2.0, 4.0]), (14.0, [1.0, 1.0])] {
        let z = pick("z", &[0.5, 20.0]);
        es.push(e(0, 1, &with(z, x, pick("y", &t))));
    }
    let g = build(pcfg, &es, &[0; 2]).unwrap();
    let c = Case { g: &g, es: &es, rcfg: &rcfg, s: 0, t: 1 };
    let found = c.run(&mut ConvexHullExplorator::new(), &mut Dijkstra::new());
    c.check(&found);
    sym::cover("end");
}
/// one considered metric: a best path
#[no_mangle]
pub extern "C" fn c21_one() {
    let pcfg = parsing_cfg(&metrics_yaml(2));
    let first = sym::decide(sym::b("first"));
    let rcfg = config(&pcfg, 2, &if first { [1.0, 0.0] } else { [0.0, 1.0] }, &[pick("scale0", &[FREE, 1.0]), pick("scale1", &[FREE, 2.0])]);
    let mut es = vec![];
    for &(i, j) in &[(0, 1), (1, 2), (0, 2)] { es.push(e(i, j, &[sym::f("x", 1, 5, 0), sym::f("y", 1, 5, 0)])); }
    let g = build(pcfg, &es, &[0; 3]).unwrap();
    let c = Case { g: &g, es: &es, rcfg: &rcfg, s: 0, t: 2 };
    let found = c.run(&mut ConvexHullExplorator::new(), &mut Dijkstra::new());
    c.check(&found);
    sym::check(found.len() == 1, "the best path is found");
    sym::cover("end");
}
/// tolerated scales of the optima
#[no_mangle]
pub extern "C" fn c21_tol() {
    let scales = [pick("scale0", &[1.0, 2.0, 4.5, FREE]), pick("scale1", &[1.0, 1.5, 4.0, FREE])];
    hull(&[1.0, 2.0, 4.0, 7.0, 12.0], &[&[11.0, 16.0], &[6.0, 9.0], &[3.0, 5.0], &[2.0, 4.0], &[1.0, 2.0]], &[1.0, 1.0], &scales);
}
/// three considered metrics
#[no_mangle]
pub extern "C" fn c21_three() {
    let pcfg = parsing_cfg(&metrics_yaml(3));
    let rcfg = config(&pcfg, 3, &[1.0, 1.0, 1.0], &[FREE, FREE, pick("scale", &[FREE, 3.0])]);
    let mut es = vec![];
    for (x, y, t) in vec![(1.0, 9.0, [9.0, 6.0]), (9.0, 1.0, [8.0, 7.0]), (8.0, 8.0, [1.0, 2.0]), (3.0, 3.0, [4.0, 12.0]), (2.0, 6.0, [3.0, 5.0]), (6.0, 2.0, [2.0, 5.0])] { es.push(e(0, 1, &[x, y, pick("z", &t)])); }
    let g = build(pcfg, &es, &[0; 2]).unwrap();
    let c = Case { g: &g, es: &es, rcfg: &rcfg, s: 0, t: 1 };
    let found = c.run(&mut ConvexHullExplorator::new(), &mut Dijkstra::new());
    c.check(&found);
    sym::cover("end");
}
/// an explorator and a dijkstra used before: like new ones
#[no_mangle]
pub extern "C" fn c21_reuse() {
    let pcfg = parsing_cfg(&metrics_yaml(2));
    let rcfg = config(&pcfg, 2, &[1.0, 1.0], &[FREE, FREE]);
    let mut es = vec![];
    for (x, t) in vec![(1.0, [12.0, 16.0]), (2.0, [6.0, 9.0]), (4.0, [3.0, 5.0]), (8.0, [2.0, 4.0])] { es.push(e(0, 1, &[x, pick("y", &t)])); }
    for (x, y) in vec![(1.0, 7.0), (3.0, 2.0), (6.0, 1.0)] { es.push(e(1, 2, &[x, y])); }
    let g = build(pcfg, &es, &[0; 3]).unwrap();
    let (mut x, mut d) = (ConvexHullExplorator::new(), Dijkstra::new());
    let q = sym::conc_us(sym::us("before", 0, 3));
    for k in 0..2 {
        let (s, t) = if k == 1 { (0, 1) } else { [(0, 2), (1, 2), (2, 0), (0, 0)][q] };
        let c = Case { g: &g, es: &es, rcfg: &rcfg, s, t };
        let found = c.run(&mut x, &mut d);
        c.check(&found);
    }
    sym::cover("end");
}
/// several optima of a metric
#[no_mangle]
pub extern "C" fn c21_tie() {
    let scales = [pick("scale0", &[2.0, FREE]), FREE];
    hull(&[1.0, 1.0, 2.0, 4.0, 4.0], &[&[5.0, 9.0], &[3.0, 7.0], &[2.5, 4.0], &[1.0, 2.0], &[1.0, 3.0]], &[1.0, 1.0], &scales);
}
/// on a contracted graph
#[no_mangle]
pub extern "C" fn c21_ch() {
    let pcfg = parsing_cfg(&metrics_yaml(2));
    let mut rcfg = routing_cfg(&pcfg, "CHDijkstra");
    for i in 0..2 { rcfg.alphas[i] = 1.0; rcfg.tolerated_scales[i] = FREE; }
    let mut es = vec![];
    for (src, dst, x, t) in vec![(0, 1, 1.0, [8.0, 10.0]), (0, 1, 4.0, [2.0, 5.0]), (0, 2, 2.0, [6.0, 3.0]), (1, 3, 1.0, [7.0, 4.0]), (1, 3, 5.0, [1.0, 3.0]), (2, 3, 3.0, [2.0, 6.0])] {
        es.push(e(src, dst, &[x, pick("y", &t)]));
    }
    let g = build(pcfg, &es, &[0, 2, 3, 1]).unwrap();
    let c = Case { g: &g, es: &es, rcfg: &rcfg, s: 0, t: 3 };
    let found = c.run(&mut ConvexHullExplorator::new(), &mut Dijkstra::new());
    c.check(&found);
    sym::cover("end");
}
