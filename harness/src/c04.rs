//! C04: a built graph contains exactly the inserted edges, reachable from both ends and by id.
use crate::{sym, util::*};
use kissunits::geo::Coordinate;
use osmgraphing::network::*;

pub const TABLE: &[(&str, extern "C" fn())] = &[("c04_order", c04_order), ("c04_ids", c04_ids), ("c04_metric", c04_metric), ("c04_loops", c04_loops), ("c04_nan", c04_nan), ("c04_order_t", c04_order_t), ("c04_ids_t", c04_ids_t)];

const IDS: [i64; 3] = [-7, 3, 1 << 40];
fn make(nm: usize, es: &[E], levels: &[usize]) -> osmgraphing::helpers::err::Result<Graph> {
    let mut eb = GraphBuilder::new(parsing_cfg(&metrics_yaml(nm)));
    for x in es {
        let mut y = x.clone();
        y.src = IDS[x.src as usize];
        y.dst = IDS[x.dst as usize];
        eb.insert(proto(&y))?;
    }
    let mut nb = eb.next();
    for k in 0..IDS.len() { nb.insert(ProtoNode { id: IDS[k], coord: coord(k), ch_level: Some(levels[k]) }); }
    nb.next()?.finalize()
}
fn near(a: f64, b: f64) -> bool { a - b < 1.25e-6 && b - a < 1.25e-6 }
/// the value a metric is stored with
fn stored(v: f64) -> f64 { if v < 1.4e-6 && v > -1.4e-6 { 1e-6 } else { v } }

/// metrics within 1.25e-6 count as the same; the inputs are either that close or clearly apart (> 1.6e-6)
fn check_graph(r: osmgraphing::helpers::err::Result<Graph>, es: &[E]) {
    let key = |x: &E| (x.src, x.dst, x.id);
    let alike = |a: &E, b: &E| key(a) == key(b) && a.m.iter().zip(&b.m).all(|(x, y)| sym::decide(near(*x, *y)));
    let mut neg = false;
    for x in es { for v in &x.m { if sym::decide(*v < -1.4e-6) { neg = true; } } }
    let mut dup = false;
    for i in 0..es.len() { for j in 0..i { if es[i].id.is_some() && es[i].id == es[j].id && !alike(&es[i], &es[j]) { dup = true; } } }
    let g = match r {
        Err(_) => {
            sym::cover(if neg { "negative" } else { "id conflict" });
            sym::check(neg || dup, "edges are fine but building fails");
            return;
        }
        Ok(g) => g,
    };
    sym::cover("built");
    sym::check(!neg, "negative metric is rejected");
    sym::check(!dup, "different edges of same id are rejected");
    let (fwd, bwd, nodes) = (g.fwd_edges(), g.bwd_edges(), g.nodes());
    sym::check(fwd.count() == bwd.count(), "as many forward as backward edges");
    sym::obs("edges", fwd.count() as u64);
    // every graph edge stems from an inserted edge
    let mut got: Vec<(i64, i64, Option<usize>)> = vec![];
    for ei in &fwd {
        let (s, t) = (nodes.id(bwd.dst_idx(ei)), nodes.id(fwd.dst_idx(ei)));
        let id = fwd.try_id(ei);
        let m = &g.metrics()[ei];
        sym::obs_f("m", m[0]);
        let mut found = false;
        for x in es {
            if (IDS[x.src as usize], IDS[x.dst as usize], x.id) != (s, t, id) { continue; }
            if m.len() == x.m.len() && (0..m.len()).all(|k| sym::decide(m[k] == stored(x.m[k]))) { found = true; break; }
        }
        sym::check(found, "edge of the graph has been inserted");
        got.push((s, t, id));
        if let Some(id) = id {
            sym::check(fwd.try_idx_from(id).ok() == Some(ei), "edge is found by its id");
            sym::cover("id");
        }
        sym::check(!fwd.is_shortcut(ei) && fwd.sc_edges(ei).is_none(), "no shortcuts");
    }
    sym::check(fwd.try_idx_from(6).is_err(), "unknown edge-id");
    // every inserted edge is there
    for x in es {
        let k = (IDS[x.src as usize], IDS[x.dst as usize], x.id);
        let mut found = false;
        for ei in &fwd {
            if got[*ei] != k { continue; }
            let m = &g.metrics()[ei];
            if (0..m.len()).all(|i| sym::decide(near(m[i], stored(x.m[i])))) { found = true; break; }
        }
        sym::check(found, "inserted edge is part of the graph");
        // duplicates collapse, different ones stay
        let group: Vec<&E> = es.iter().filter(|y| key(y) == key(x)).collect();
        let count = got.iter().filter(|y| **y == k).count();
        sym::check(count <= group.len(), "no edge is multiplied");
        let (mut all, mut none) = (true, true);
        for i in 0..group.len() { for j in 0..i { if alike(group[i], group[j]) { none = false } else { all = false } } }
        if all { sym::check(count == 1, "same edges collapse"); if group.len() > 1 { sym::cover("collapsed"); } }
        if none { sym::check(count == group.len(), "different edges stay"); if group.len() > 1 { sym::cover("parallel"); } }
    }
    // both directions
    for v in &nodes {
        let mut out: Vec<usize> = fwd.starting_from(v).map(|h| *h.idx()).collect();
        let mut inc: Vec<usize> = bwd.starting_from(v).map(|h| *h.idx()).collect();
        out.sort();
        inc.sort();
        let o: Vec<usize> = (0..fwd.count()).filter(|&k| bwd.dst_idx(EdgeIdx(k)) == v).collect();
        let i: Vec<usize> = (0..fwd.count()).filter(|&k| fwd.dst_idx(EdgeIdx(k)) == v).collect();
        sym::check(out == o, "leaving edges of a node");
        sym::check(inc == i, "incoming edges of a node");
        for h in fwd.starting_from(v) { sym::check(h.dst_idx() == fwd.dst_idx(h.idx()) && h.metrics()[0] == g.metrics()[h.idx()][0], "half-edge"); }
        for h in bwd.starting_from(v) { sym::check(h.dst_idx() == bwd.dst_idx(h.idx()), "backward half-edge"); }
        for w in &nodes {
            let any = (0..fwd.count()).any(|k| bwd.dst_idx(EdgeIdx(k)) == v && fwd.dst_idx(EdgeIdx(k)) == w);
            match fwd.between(v, w) {
                Some(h) => sym::check(any && bwd.dst_idx(h.idx()) == v && fwd.dst_idx(h.idx()) == w, "between finds an edge of these ends"),
                None => sym::check(!any, "between misses an edge"),
            }
            match bwd.between(w, v) {
                Some(h) => sym::check(any && bwd.dst_idx(h.idx()) == v && fwd.dst_idx(h.idx()) == w, "backward between"),
                None => sym::check(!any, "backward between misses an edge"),
            }
        }
    }
    sym::cover("end");
}
const LV: [[usize; 3]; 4] = [[0, 0, 0], [0, 1, 2], [2, 1, 0], [1, 2, 1]];
const NEAR: [f64; 3] = [1.0, 1.0 + 0.000000476837158203125, 2.0];
fn order(m: usize) {
    let mut es = vec![];
    for _ in 0..m {
        let k = sym::conc_us(sym::us("ends", 0, 8));
        es.push(e((k / 3) as i64, (k % 3) as i64, &[sym::f_of("w", &NEAR)]));
    }
    let lv = LV[sym::conc_us(sym::us("lv", 0, 3))];
    check_graph(make(1, &es, &lv), &es);
}
#[no_mangle]
pub extern "C" fn c04_order() { order(3) }
#[no_mangle]
pub extern "C" fn c04_order_t() { order(4) }
fn ids(m: usize) {
    let mut es = vec![];
    for _ in 0..m {
        let (s, t) = [(0, 1), (1, 2), (1, 0)][sym::conc_us(sym::us("ends", 0, 2))];
        let mut x = e(s, t, &[sym::f_of("w", &NEAR)]);
        x.id = [None, Some(5), Some(0), Some(usize::MAX)][sym::conc_us(sym::us("id", 0, 3))];
        es.push(x);
    }
    check_graph(make(1, &es, &LV[1]), &es);
}
#[no_mangle]
pub extern "C" fn c04_ids() { ids(3) }
#[no_mangle]
pub extern "C" fn c04_ids_t() { ids(4) }
/// metrics around zero
#[no_mangle]
pub extern "C" fn c04_metric() {
    const V: [f64; 9] = [0.0, -0.000000476837158203125, 0.00000095367431640625, 0.0000019073486328125, 0.125, 4096.0, -0.0000019073486328125, -0.5, -0.0];
    let mut es = vec![e(0, 1, &[3.0, sym::f_of("w", &V)]), e(1, 2, &[sym::f_of("w", &V), sym::f_of("w", &V)])];
    if sym::conc_us(sym::us("three", 0, 1)) == 1 { es.push(e(0, 1, &[sym::f_of("w", &V), 0.125])); }
    check_graph(make(2, &es, &LV[2]), &es);
}
/// all edges are between the same two nodes
#[no_mangle]
pub extern "C" fn c04_loops() {
    let mut es = vec![];
    for _ in 0..5 {
        let (s, t) = [(1, 1), (1, 2)][sym::conc_us(sym::us("ends", 0, 1))];
        es.push(e(s, t, &[sym::f_of("w", &NEAR)]));
    }
    check_graph(make(1, &es, &LV[0]), &es);
}

/// unusual values as metric: what is no number or negative never becomes part of a graph
#[no_mangle]
pub extern "C" fn c04_nan() {
    let v = sym::conc_f(sym::f_of("metric", &[f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN, f64::MAX, -1e-5, -0.0, 0.0, 5e-324, 1e-7, 3e-6, 1e300]));
    let k = sym::conc_us(sym::us("which", 0, 2));
    let mut es = vec![e(0, 1, &[1.0, 2.0]), e(1, 2, &[3.0, 4.0]), e(2, 0, &[5.0, 6.0])];
    es[k].m[1] = v;
    let nan = sym::decide(v.is_nan());
    let neg = !nan && sym::decide(v < -1.4e-6);
    let pos = !nan && sym::decide(v > 1.4e-6);
    match make(2, &es, &[0, 0, 0]) {
        Err(_) => { sym::cover("refused"); sym::check(!pos, "edges are fine but building fails"); }
        Ok(g) => {
            sym::cover("built");
            sym::check(!nan, "a metric which is no number is refused");
            sym::check(!neg, "negative metric is refused");
            if pos {
                let x = edge(&g, IDS[es[k].src as usize], IDS[es[k].dst as usize]);
                sym::check(g.metrics()[x][1].to_bits() == v.to_bits(), "metric is kept");
            }
        }
    }
}
