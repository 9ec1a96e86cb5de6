//! C06: a shortcut refers to the edges it was inserted with, whatever the order of insertion and the duplicates.
use crate::{sym, util::*};
use osmgraphing::network::*;

pub const TABLE: &[(&str, extern "C" fn())] = &[("c06_perm", c06_perm), ("c06_dups", c06_dups), ("c06_any", c06_any), ("c06_perm_t", c06_perm_t), ("c06_any_t", c06_any_t)];

/// inserts `es` (sc: indices into `es`) in the order `ord` and checks all shortcuts
fn check_sc(es: &[E], ord: &[usize], levels: &[usize]) {
    let pos = |k: usize| ord.iter().position(|&x| x == k).unwrap();
    let ins: Vec<E> = ord.iter().map(|&k| { let mut x = es[k].clone(); x.sc = x.sc.map(|[a, b]| [pos(a), pos(b)]); x }).collect();
    let g = build(parsing_cfg(&metrics_yaml(1)), &ins, levels).unwrap();
    let (fwd, bwd) = (g.fwd_edges(), g.bwd_edges());
    sym::obs("edges", fwd.count() as u64);
    // metrics identify edges: equal ones are duplicates
    let is = |ei: EdgeIdx, x: &E| *bwd.dst_idx(ei) as i64 == x.src && *fwd.dst_idx(ei) as i64 == x.dst && g.metrics()[ei][0] == x.m[0];
    for x in es {
        let mut n = 0;
        for ei in &fwd {
            if !is(ei, x) { continue; }
            n += 1;
            match (fwd.sc_edges(ei), x.sc) {
                (None, None) => sym::check(!fwd.is_shortcut(ei) && fwd.half_edge(ei).sc_edges().is_none() && !fwd.half_edge(ei).is_shortcut(), "base edge"),
                (Some(sc), Some([a, b])) => {
                    sym::check(fwd.is_shortcut(ei) && fwd.half_edge(ei).is_shortcut() && bwd.sc_edges(ei) == Some(sc), "shortcut from all views");
                    sym::check(*sc[0] < fwd.count() && is(sc[0], &es[a]), "first half of the shortcut");
                    sym::check(*sc[1] < fwd.count() && is(sc[1], &es[b]), "second half of the shortcut");
                    sym::cover("shortcut");
                }
                _ => sym::fail("edge is a shortcut iff it was inserted as one"),
            }
        }
        sym::check(n >= 1, "edge is part of the graph");
    }
    sym::cover("end");
}
fn sc(src: i64, dst: i64, w: f64, a: usize, b: usize) -> E { E { id: None, src, dst, m: vec![w], sc: Some([a, b]) } }
fn any_perm(n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while left.len() > 0 { out.push(left.remove(sym::conc_us(sym::us("next", 0, left.len() - 1)))); }
    out
}
const LV: [[usize; 4]; 3] = [[3, 0, 1, 2], [0, 0, 0, 0], [1, 3, 0, 2]];
/// nested shortcuts in any order
#[no_mangle]
pub extern "C" fn c06_perm() {
    let lv = LV[sym::conc_us(sym::us("lv", 0, 1))];
    let es = [e(0, 1, &[1.0]), e(1, 2, &[2.0]), e(2, 3, &[4.0]), sc(0, 2, 3.0, 0, 1), sc(0, 3, 7.0, 3, 2)];
    check_sc(&es, &any_perm(5), &lv);
}
#[no_mangle]
pub extern "C" fn c06_perm_t() {
    let lv = LV[sym::conc_us(sym::us("lv", 0, 2))];
    let es = [e(0, 1, &[1.0]), e(1, 2, &[2.0]), e(2, 3, &[4.0]), sc(0, 2, 3.0, 0, 1), sc(0, 3, 7.0, 3, 2), e(1, 2, &[2.0]), sc(1, 3, 6.0, 5, 2)];
    check_sc(&es, &any_perm(7), &lv);
}
/// duplicates anywhere; shortcuts refer to any of them
#[no_mangle]
pub extern "C" fn c06_dups() {
    let (a, b, c) = (sym::conc_us(sym::us("a", 0, 1)), sym::conc_us(sym::us("b", 2, 4)), sym::conc_us(sym::us("c", 5, 6)));
    let mut es = vec![e(0, 1, &[1.0]), e(0, 1, &[1.0]), e(1, 2, &[2.0]), e(1, 2, &[2.0]), e(1, 2, &[2.0]), sc(0, 2, 3.0, a, b), sc(0, 2, 3.0, a, b), e(2, 3, &[4.0]), sc(0, 3, 7.0, c, 7)];
    // some duplicates are missing
    let drop = sym::conc_us(sym::us("drop", 0, 3));
    if drop & 1 == 1 { es[3].m[0] = 8.0; }
    if drop & 2 == 2 { es[0].src = 3; es[0].dst = 1; sym::assume(a == 1); }
    let rot = sym::conc_us(sym::us("rot", 0, 8));
    let rev = sym::conc_us(sym::us("rev", 0, 1)) == 1;
    let mut ord: Vec<usize> = (0..9).map(|k| (k + rot) % 9).collect();
    if rev { ord.reverse(); }
    check_sc(&es, &ord, &LV[2]);
}
/// any pair of edges behind every shortcut
fn any(n: usize) {
    let base = [e(0, 1, &[1.0]), e(1, 2, &[2.0]), e(0, 1, &[1.0]), e(2, 3, &[4.0])];
    let mut es = base[..n].to_vec();
    for k in 0..2 {
        let (a, b) = (sym::conc_us(sym::us("a", 0, n + 1)), sym::conc_us(sym::us("b", 0, n + 1)));
        es.push(sc([2, 0][k], [0, 2][k], 16.0 + k as f64, a, b));
    }
    let rot = sym::conc_us(sym::us("rot", 0, n + 1));
    let ord: Vec<usize> = (0..n + 2).map(|k| (k + rot) % (n + 2)).collect();
    let lv = LV[sym::conc_us(sym::us("lv", 0, 1))];
    check_sc(&es, &ord, &lv);
}
#[no_mangle]
pub extern "C" fn c06_any() { any(3) }
#[no_mangle]
pub extern "C" fn c06_any_t() { any(4) }
