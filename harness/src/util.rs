//! Shared pieces of the harnesses: configs, graphs, reference oracles.
#![allow(dead_code)]
use crate::sym;
use osmgraphing::{configs, network::*, routing::dijkstra::{Dijkstra, Query}};
use kissunits::geo::Coordinate;
use smallvec::SmallVec;

pub fn parsing_cfg(yaml: &str) -> configs::parsing::Config {
    std::fs::write("cfg.yaml", yaml).unwrap();
    let cfg = configs::parsing::Config::try_from_yaml("cfg.yaml").unwrap();
    std::fs::remove_file("cfg.yaml").unwrap();
    cfg
}
pub fn metrics_yaml(n: usize) -> String {
    let mut s = String::from("parsing:\n  map-file: 'g.fmi'\n  nodes:\n  - meta: { info: 'NodeId', id: 'node-id' }\n  - metric: { unit: 'Latitude', id: 'lat' }\n  - metric: { unit: 'Longitude', id: 'lon' }\n  - meta: { info: 'CHLevel', id: 'lvl' }\n  edges:\n    data:\n    - meta: { info: 'SrcId', id: 'src-id' }\n    - meta: { info: 'DstId', id: 'dst-id' }\n");
    for i in 0..n { s.push_str(&format!("    - metric: {{ unit: 'F64', id: 'm{}' }}\n", i)); }
    s
}
pub fn routing_cfg(pcfg: &configs::parsing::Config, algo: &str) -> configs::routing::Config {
    configs::routing::Config::try_from_str(&format!("routing:\n  algorithm: {}\n  metrics: [{{ id: 'm0' }}]\n", algo), pcfg).unwrap()
}
/// index of the only edge src->dst (node-ids)
pub fn edge(g: &Graph, src: i64, dst: i64) -> EdgeIdx {
    let (f, b, n) = (g.fwd_edges(), g.bwd_edges(), g.nodes());
    for k in 0..f.count() {
        let x = EdgeIdx(k);
        if n.id(b.dst_idx(x)) == src && n.id(f.dst_idx(x)) == dst { return x; }
    }
    sym::fail("edge is part of the graph");
    panic!()
}
/// equal up to a relative error of 1e-9
pub fn near(a: f64, b: f64) -> bool {
    if a.to_bits() == b.to_bits() || a == b { return true; }
    let d = if a > b { a - b } else { b - a };
    let m = if b < 0.0 { -b } else { b };
    d <= m * 1e-9
}
pub fn coord(k: usize) -> Coordinate { Coordinate { lat: 48.0 + k as f64 * 0.25, lon: 9.0 + k as f64 * 0.5 } }
#[derive(Clone)]
pub struct E { pub id: Option<usize>, pub src: i64, pub dst: i64, pub m: Vec<f64>, pub sc: Option<[usize; 2]> }
pub fn e(src: i64, dst: i64, m: &[f64]) -> E { E { id: None, src, dst, m: m.to_vec(), sc: None } }
pub fn proto(x: &E) -> ProtoShortcut {
    let mut metrics = SmallVec::new();
    for v in &x.m { metrics.push(*v); }
    ProtoShortcut { proto_edge: ProtoEdge { id: x.id, src_id: x.src, dst_id: x.dst, metrics }, sc_edges: x.sc.map(|a| [EdgeIdx(a[0]), EdgeIdx(a[1])]) }
}
/// builds a graph whose nodes are 0..n (all of them get a coordinate; only the ones used by an edge are part of the graph)
pub fn build(cfg: configs::parsing::Config, edges: &[E], levels: &[usize]) -> osmgraphing::helpers::err::Result<Graph> {
    let mut eb = GraphBuilder::new(cfg);
    for x in edges { eb.insert(proto(x))?; }
    let mut nb = eb.next();
    for (k, &l) in levels.iter().enumerate() { nb.insert(ProtoNode { id: k as i64, coord: coord(k), ch_level: Some(l) }); }
    nb.next()?.finalize()
}
/// cheapest cost between all pairs, n small; INF if unreachable. Branch-free min (merged symbolically).
pub const INF: f64 = 1099511627776.0;
pub fn min(a: f64, b: f64) -> f64 { if a < b { a } else { b } }
pub fn cost_of(alphas: &[f64], m: &[f64]) -> f64 {
    let mut c = 0.0;
    for k in 0..alphas.len() { c += alphas[k] * m[k]; }
    c
}
/// every simple path from s to t (sequences of indices into `es`; structure has to be concrete)
pub fn simple_paths(es: &[E], s: i64, t: i64) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn rec(es: &[E], v: i64, t: i64, seen: &mut Vec<i64>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if v == t { out.push(cur.clone()); return; }
        for k in 0..es.len() {
            if es[k].src == v && !seen.contains(&es[k].dst) {
                seen.push(es[k].dst);
                cur.push(k);
                rec(es, es[k].dst, t, seen, cur, out);
                cur.pop();
                seen.pop();
            }
        }
    }
    rec(es, s, t, &mut vec![s], &mut vec![], &mut out);
    out
}
/// checks that `p` is a path from s to t of the graph and returns its alpha-weighted cost
pub fn check_path(g: &Graph, alphas: &[f64], p: &osmgraphing::routing::paths::Path, s: NodeIdx, t: NodeIdx) -> f64 {
    sym::check(p.src_idx() == s && p.dst_idx() == t, "path carries the queried src and dst");
    let (fwd, bwd) = (g.fwd_edges(), g.bwd_edges());
    let mut cur = s;
    let mut c = 0.0;
    for ei in p {
        sym::check(**ei < fwd.count(), "edge of path exists in graph");
        sym::check(bwd.dst_idx(*ei) == cur, "path is contiguous from src");
        cur = fwd.dst_idx(*ei);
        c += cost_of(alphas, &g.metrics()[*ei]);
    }
    sym::check(cur == t, "path ends in dst");
    c
}
/// one query, compared with all simple paths of the inserted edges
pub fn check_best(d: &mut Dijkstra, g: &Graph, rcfg: &configs::routing::Config, es: &[E], s: i64, t: i64, tol: f64) {
    let (si, ti) = (g.nodes().idx_from(s).unwrap(), g.nodes().idx_from(t).unwrap());
    let p = d.compute_best_path(Query { src_idx: si, dst_idx: ti, graph: g, routing_cfg: rcfg });
    let sp = simple_paths(es, s, t);
    match p {
        None => {
            sym::cover("no path");
            sym::obs("hops", 99);
            sym::check(sp.is_empty(), "a path exists but none is returned");
        }
        Some(p) => {
            sym::cover("path");
            sym::obs("hops", p.iter().count() as u64);
            sym::check(!sp.is_empty(), "a path is returned but none exists");
            let c = check_path(g, &rcfg.alphas, &p, si, ti);
            sym::obs_f("cost", c);
            if s == t { sym::check(p.iter().count() == 0, "path from a node to itself is empty"); }
            for q in &sp {
                let mut best = tol;
                for &k in q { best += cost_of(&rcfg.alphas, &es[k].m); }
                sym::check(c <= best, "cost of returned path is minimal");
            }
        }
    }
}
