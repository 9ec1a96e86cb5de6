//! C05: nodes of a graph are exactly the ends of its edges, sorted by id, with the data they were given.
use crate::{sym, util::*};
use kissunits::geo::Coordinate;
use osmgraphing::network::*;

pub const TABLE: &[(&str, extern "C" fn())] = &[("c05_any", c05_any), ("c05_far", c05_far), ("c05_seq", c05_seq), ("c05_missing", c05_missing), ("c05_again", c05_again), ("c05_chain", c05_chain), ("c05_any_t", c05_any_t), ("c05_seq_t", c05_seq_t)];

fn node(id: i64, k: usize, lvl: Option<usize>) -> ProtoNode { ProtoNode { id, coord: coord(k), ch_level: lvl } }
fn check_nodes(g: &Graph, want: &[(i64, usize, usize)]) {
    let nodes = g.nodes();
    sym::obs("nodes", nodes.count() as u64);
    sym::check(nodes.count() == want.len(), "number of nodes");
    for k in 1..nodes.count() { sym::check(nodes.id(NodeIdx(k - 1)) < nodes.id(NodeIdx(k)), "ids are ascending with the index"); }
    for &(id, c, l) in want {
        match nodes.idx_from(id) {
            Ok(idx) => {
                sym::check(nodes.id(idx) == id, "id of found index");
                let nc = nodes.coord(idx);
                sym::check(nc.lat == coord(c).lat && nc.lon == coord(c).lon, "coordinate of node");
                sym::check(nodes.level(idx) == l, "level of node");
                let n = nodes.create_from(id).unwrap();
                sym::check(n.id() == id && n.idx() == idx && n.ch_level() == l && n.coord().lat == coord(c).lat && n.coord().lon == coord(c).lon, "created node");
                let n = nodes.create(idx);
                sym::check(n.id() == id && n.idx() == idx, "node created from index");
            }
            Err(_) => sym::fail("node is not found by its id"),
        }
    }
    sym::check(nodes.iter().count() == want.len(), "iteration over nodes");
}
const FAR: [i64; 7] = [i64::MIN, -4294967296, -1, 0, 2147483648, 9007199254740993, i64::MAX];
/// any node-ids
fn any(m: usize, lo: i64, hi: i64) {
    let pick = |n: &str| if lo < hi { sym::i(n, lo, hi) } else { FAR[sym::conc_us(sym::us(n, 0, FAR.len() - 1))] };
    let mut ids = vec![];
    for _ in 0..m { ids.push(pick("id")); }
    let other = pick("other");
    for i in 0..m {
        for j in 0..i { sym::assume(ids[i] != ids[j]); }
        sym::assume(other != ids[i]);
    }
    let mut eb = GraphBuilder::new(parsing_cfg(&metrics_yaml(1)));
    for k in 0..m { eb.insert(proto(&e(ids[k], ids[(k + 1) % m], &[k as f64 + 1.0]))).unwrap(); }
    let mut nb = eb.next();
    sym::check(!nb.insert(node(other, 9, Some(7))), "node without edges is not taken");
    for k in 0..m { sym::check(nb.insert(node(ids[k], k, Some(k + 1))), "node of an edge is taken"); }
    let g = nb.next().unwrap().finalize().unwrap();
    let want: Vec<(i64, usize, usize)> = (0..m).map(|k| (ids[k], k, k + 1)).collect();
    check_nodes(&g, &want);
    sym::check(g.nodes().idx_from(other).is_err() && g.nodes().create_from(other).is_none(), "unknown node is not found");
    // edges connect the nodes they were inserted with
    for k in 0..m {
        let (s, t) = (g.nodes().idx_from(ids[k]).unwrap(), g.nodes().idx_from(ids[(k + 1) % m]).unwrap());
        match g.fwd_edges().between(s, t) {
            Some(h) => sym::check(h.metrics()[0] == k as f64 + 1.0, "edge between the nodes it was inserted with"),
            None => sym::fail("edge between the nodes it was inserted with is missing"),
        }
    }
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn c05_any() { any(3, -9, 9) }
#[no_mangle]
pub extern "C" fn c05_far() { any(3, 0, 0) }
#[no_mangle]
pub extern "C" fn c05_any_t() { any(4, -9, 9) }
/// any sequence of edges: exactly their ends are nodes
fn seq(m: usize, n: usize) {
    let mut used = vec![false; n];
    let mut eb = GraphBuilder::new(parsing_cfg(&metrics_yaml(1)));
    for k in 0..m {
        let x = sym::conc_us(sym::us("ends", 0, n * n - 1));
        used[x / n] = true;
        used[x % n] = true;
        eb.insert(proto(&e((x / n) as i64, (x % n) as i64, &[k as f64 + 1.0]))).unwrap();
    }
    let mut nb = eb.next();
    for k in (0..n).rev() { sym::check(nb.insert(node(k as i64, k, if k == 1 { None } else { Some(k + 1) })) == used[k], "node is taken iff an edge uses it"); }
    let g = nb.next().unwrap().finalize().unwrap();
    let want: Vec<(i64, usize, usize)> = (0..n).filter(|k| used[*k]).map(|k| (k as i64, k, if k == 1 { 0 } else { k + 1 })).collect();
    check_nodes(&g, &want);
    for k in 0..n { if !used[k] { sym::cover("unused"); sym::check(g.nodes().idx_from(k as i64).is_err(), "unused node is not part of the graph"); } }
    sym::cover("end");
}
#[no_mangle]
pub extern "C" fn c05_seq() { seq(3, 4) }
#[no_mangle]
pub extern "C" fn c05_seq_t() { seq(4, 5) }
/// every end of an edge needs a coordinate
#[no_mangle]
pub extern "C" fn c05_missing() {
    let have = sym::conc_us(sym::us("have", 0, 15));
    let mut eb = GraphBuilder::new(parsing_cfg(&metrics_yaml(1)));
    for k in 0..3 { eb.insert(proto(&e(k, k + 1, &[1.0]))).unwrap(); }
    let mut nb = eb.next();
    for k in 0..4 { if have >> k & 1 == 1 { nb.insert(node(k as i64, k, None)); } }
    match nb.next().and_then(|b| b.finalize()) {
        Ok(g) => {
            sym::cover("built");
            sym::check(have == 15, "a node without coordinate is part of an edge but the graph is built");
            sym::obs("nodes", g.nodes().count() as u64);
        }
        Err(_) => {
            sym::cover("error");
            sym::check(have != 15, "all nodes have coordinates but building fails");
        }
    }
}
/// nodes may arrive in any order
#[no_mangle]
pub extern "C" fn c05_again() {
    let mut left: Vec<usize> = (0..4).collect();
    let mut eb = GraphBuilder::new(parsing_cfg(&metrics_yaml(1)));
    for k in 0..3 { eb.insert(proto(&e(k, k + 1, &[1.0]))).unwrap(); }
    let mut nb = eb.next();
    while left.len() > 0 {
        let k = left.remove(sym::conc_us(sym::us("next", 0, left.len() - 1)));
        nb.insert(node(k as i64, k, Some(k)));
    }
    let g = nb.next().unwrap().finalize().unwrap();
    check_nodes(&g, &[(0, 0, 0), (1, 1, 1), (2, 2, 2), (3, 3, 3)]);
    sym::cover("end");
}
/// longer sequences: chains, there and back, stars, far apart
#[no_mangle]
pub extern "C" fn c05_chain() {
    let shape = sym::conc_us(sym::us("shape", 0, 4));
    let es: Vec<(i64, i64)> = (0..7).map(|k: i64| match shape {
        0 => (k, k + 1),
        1 => if k < 4 { (k, k + 1) } else { (7 - k, 6 - k) },
        2 => (0, k + 1),
        3 => (k + 1, 0),
        _ => (2 * k, 2 * k + 1),
    }).collect();
    let rot = sym::conc_us(sym::us("rot", 0, 6));
    let mut eb = GraphBuilder::new(parsing_cfg(&metrics_yaml(1)));
    for k in 0..7 { let (s, t) = es[(k + rot) % 7]; eb.insert(proto(&e(s, t, &[1.0]))).unwrap(); }
    let mut nb = eb.next();
    let mut want = vec![];
    for k in 0..15usize {
        let used = es.iter().any(|x| x.0 == k as i64 || x.1 == k as i64);
        sym::check(nb.insert(node(k as i64, k, Some(k))) == used, "node is taken iff an edge uses it");
        if used { want.push((k as i64, k, k)); }
    }
    let g = nb.next().unwrap().finalize().unwrap();
    check_nodes(&g, &want);
    sym::cover("end");
}
