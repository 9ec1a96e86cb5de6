//! C07: flattening replaces every shortcut by its base edges and sums their metrics; cyclic references are an error.
use crate::{sym, util::*};
use osmgraphing::{network::*, routing::paths::Path};

pub const TABLE: &[(&str, extern "C" fn())] = &[("c07_any", c07_any), ("c07_nested", c07_nested), ("c07_costs", c07_costs), ("c07_any_t", c07_any_t)];

fn expand(scs: &[Option<[usize; 2]>], k: usize, depth: usize, out: &mut Vec<usize>) -> bool {
    if depth > scs.len() { return false; }
    match scs[k] {
        None => { out.push(k); true }
        Some([a, b]) => expand(scs, a, depth + 1, out) && expand(scs, b, depth + 1, out),
    }
}
/// n edges in a row (edge k: k -> k+1); some of them are shortcuts of any two edges; a path of p edges
fn any(n: usize, nsc: usize, p: usize) {
    let mut es = vec![];
    for k in 0..n { es.push(e(k as i64, k as i64 + 1, &[sym::f("w", 1, 8, 1), sym::f("v", 1, 8, 1)])); }
    let mut scs: Vec<Option<[usize; 2]>> = vec![None; n];
    let which = sym::conc_us(sym::us("which", 0, (1 << n) - 1));
    sym::assume((which as u32).count_ones() as usize <= nsc);
    for k in 0..n { if which >> k & 1 == 1 { scs[k] = Some([sym::conc_us(sym::us("a", 0, n - 1)), sym::conc_us(sym::us("b", 0, n - 1))]); es[k].sc = scs[k]; } }
    let path: Vec<usize> = (0..p).map(|_| sym::conc_us(sym::us("e", 0, n - 1))).collect();
    let g = build(parsing_cfg(&metrics_yaml(2)), &es, &vec![0; n + 1]).unwrap();
    let (s, t) = (NodeIdx(path[0]), NodeIdx(path[p - 1] + 1));
    let q = Path::new(s, *s as i64, t, *t as i64, path.iter().map(|&k| EdgeIdx(k)).collect());
    let mut want = vec![];
    let mut ok = true;
    for &k in &path { ok = ok && expand(&scs, k, 0, &mut want); }
    match q.try_flatten(&g) {
        Err(_) => {
            sym::cover("error");
            sym::obs("len", 99);
            sym::check(!ok || want.len() > n, "flattening fails although there is no cycle");
        }
        Ok(f) => {
            sym::cover("flat");
            sym::check(ok, "cyclic shortcuts are flattened");
            let got: Vec<usize> = f.iter().map(|x| **x).collect();
            sym::obs("len", got.len() as u64);
            sym::check(got == want, "flattened path consists of the base edges in order");
            sym::check(f.src_idx() == s && f.dst_idx() == t, "src and dst stay");
            let (mut c0, mut c1) = (0.0, 0.0);
            for &k in &want { c0 += es[k].m[0]; c1 += es[k].m[1]; }
            sym::obs_f("cost", f.costs()[0]);
            sym::check(f.costs().len() == 2 && f.costs()[0] == c0 && f.costs()[1] == c1, "costs are the sums of the base edges' metrics");
        }
    }
}
#[no_mangle]
pub extern "C" fn c07_any() { any(3, 2, 2) }
#[no_mangle]
pub extern "C" fn c07_any_t() { any(4, 2, 2) }
/// deep nesting along a chain, in any shape
#[no_mangle]
pub extern "C" fn c07_nested() {
    // base edges 0..4: k -> k+1; shortcuts cover intervals
    let mut es: Vec<E> = (0..4).map(|k| e(k, k + 1, &[sym::f("w", 1, 4, 0), 1.0])).collect();
    let mut iv: Vec<(i64, i64)> = vec![(0, 1), (1, 2), (2, 3), (3, 4)];
    for _ in 0..3 {
        let (a, b) = (sym::conc_us(sym::us("a", 0, iv.len() - 1)), sym::conc_us(sym::us("b", 0, iv.len() - 1)));
        sym::assume(iv[a].1 == iv[b].0);
        let m = [es[a].m[0] + es[b].m[0], es[a].m[1] + es[b].m[1]];
        let mut x = e(iv[a].0, iv[b].1, &m);
        x.sc = Some([a, b]);
        es.push(x);
        iv.push((iv[a].0, iv[b].1));
    }
    let g = build(parsing_cfg(&metrics_yaml(2)), &es, &[0; 5]).unwrap();
    let (fwd, bwd) = (g.fwd_edges(), g.bwd_edges());
    for ei in &fwd {
        let (s, t) = (bwd.dst_idx(ei), fwd.dst_idx(ei));
        let mut q = Path::new(s, *s as i64, t, *t as i64, vec![ei]);
        let c = q.calc_costs(&g)[0];
        let f = q.flatten(&g);
        sym::check(f.iter().count() == *t - *s, "number of base edges");
        let fc = check_path(&g, &[1.0, 0.0], &f, s, t);
        sym::check(fc == c && f.costs()[0] == c && f.costs()[1] == (*t - *s) as f64, "a shortcut costs as much as its base edges");
        for x in &f { sym::check(!fwd.is_shortcut(*x), "only base edges"); }
        if *t - *s > 2 { sym::cover("deep"); }
    }
    sym::cover("end");
}
/// costs of a path without shortcuts
#[no_mangle]
pub extern "C" fn c07_costs() {
    let n = 3;
    let es: Vec<E> = (0..n).map(|k| e(k as i64, k as i64 + 1, &[sym::f("w", 1, 64, 2), sym::f("v", 1, 64, 2)])).collect();
    let len = sym::conc_us(sym::us("len", 0, 3));
    let path: Vec<usize> = (0..len).map(|_| sym::conc_us(sym::us("e", 0, n - 1))).collect();
    let g = build(parsing_cfg(&metrics_yaml(2)), &es, &[0; 4]).unwrap();
    let mk = || Path::new(NodeIdx(0), 0, NodeIdx(1), 1, path.iter().map(|&k| EdgeIdx(k)).collect());
    let (mut c0, mut c1) = (0.0, 0.0);
    for &k in &path { c0 += es[k].m[0]; c1 += es[k].m[1]; }
    let mut q = mk();
    let c = q.calc_costs(&g).clone();
    sym::check(c.len() == 2 && c[0] == c0 && c[1] == c1, "costs are the sums of the metrics");
    sym::check(q.costs()[0] == c0 && q.costs()[1] == c1, "costs are remembered");
    let f = mk().flatten(&g);
    sym::check(f.costs().len() == 2 && f.costs()[0] == c0 && f.costs()[1] == c1, "costs after flattening");
    sym::check(f == q && mk() == q, "a path without shortcuts is flat");
    sym::cover("end");
}
