//! C08: normalisation of metrics by their mean.
use crate::{sym, util::*};
use osmgraphing::network::*;

pub const TABLE: &[(&str, extern "C" fn())] = &[("c08_two", c08_two), ("c08_zero", c08_zero), ("c08_wide", c08_wide), ("c08_off", c08_off), ("c08_gen", c08_gen), ("c08_shortcut", c08_shortcut), ("c08_dup", c08_dup), ("c08_genzero", c08_genzero)];

fn yaml(n: usize, norm: Option<bool>, gen: &str) -> String {
    let s = metrics_yaml(n);
    let s = match norm { Some(b) => s.replace("    data:\n", &format!("    will_normalize_metrics_by_mean: {}\n    data:\n", b)), None => s };
    s + gen
}
const EPS: f64 = 1e-6;
const ST: &[(i64, i64)] = &[(2, 0), (0, 1), (1, 2), (0, 2)];
/// metrics of the built graph against the inserted ones
fn judge(g: osmgraphing::helpers::err::Result<Graph>, es: &[E], dim: usize) {
    let n = es.len() as f64;
    // metrics around zero are lifted to the accuracy before
    let val = |x: f64| if x < EPS { EPS } else { x };
    let mut means = vec![];
    for k in 0..dim {
        let mut s = 0.0;
        for e in es { s += val(e.m[k]); }
        means.push(s / n);
    }
    match g {
        Err(_) => {
            sym::cover("error");
            sym::obs("err", 1);
            sym::check(means.iter().any(|m| *m < 1.6e-6), "error only if a mean vanishes");
        }
        Ok(g) => {
            sym::cover("normalised");
            sym::obs("err", 0);
            for k in 0..dim {
                sym::check(means[k] > 0.9e-6, "mean vanishes, but no error");
                let m = g.metrics().mean(MetricIdx(k));
                sym::check(m.is_some(), "mean is remembered");
                sym::check(near(m.unwrap(), means[k]), "remembered mean is the mean of the metric");
                sym::obs_f("mean", m.unwrap());
            }
            for e in es {
                let x = edge(&g, e.src, e.dst);
                sym::check(g.metrics()[x].len() == dim, "number of metrics");
                for k in 0..dim {
                    let got = g.metrics()[x][k];
                    let want = val(e.m[k]) / means[k];
                    sym::obs_f("m", got);
                    if want < 0.9e-6 { sym::cover("tiny"); sym::check(got == EPS, "vanishing metric is lifted to the accuracy"); }
                    else if want > 1.6e-6 { sym::check(near(got, want), "metric is divided by its mean"); }
                    else { sym::check(got == EPS || near(got, want), "metric around the accuracy"); }
                    sym::check(got >= EPS * 0.999, "normalised metric is positive");
                }
            }
        }
    }
}
/// two metrics, four edges
#[no_mangle]
pub extern "C" fn c08_two() {
    let es: Vec<E> = ST[..3].iter().map(|&(a, b)| e(a, b, &[sym::f("a", 1, 6, 1), sym::f_of("b", &[0.5, 3.0, 40.0])])).collect();
    judge(build(parsing_cfg(&yaml(2, Some(true), "")), &es, &[0; 3]), &es, 2);
}
/// metrics at and around zero
#[no_mangle]
pub extern "C" fn c08_zero() {
    let es: Vec<E> = ST.iter().map(|&(a, b)| e(a, b, &[sym::f_of("a", &[0.0, 1.0 / 1048576.0, 2.0 / 1048576.0, 1.0])])).collect();
    judge(build(parsing_cfg(&yaml(1, Some(true), "")), &es, &[0; 3]), &es, 1);
}
/// very different sizes: some normalised metrics vanish
#[no_mangle]
pub extern "C" fn c08_wide() {
    let es: Vec<E> = ST[..3].iter().map(|&(a, b)| e(a, b, &[sym::f_of("a", &[0.0, 0.25, 1024.0, 67108864.0]), 2.0])).collect();
    judge(build(parsing_cfg(&yaml(2, Some(true), "")), &es, &[0; 3]), &es, 2);
}
/// switched off or not mentioned: values stay; empty graph
#[no_mangle]
pub extern "C" fn c08_off() {
    let norm = [None, Some(false), Some(true)][sym::conc_us(sym::us("norm", 0, 2))];
    let empty = sym::conc_us(sym::us("empty", 0, 1)) == 1;
    let es: Vec<E> = if empty { vec![] } else { ST.iter().map(|&(a, b)| e(a, b, &[sym::f("a", 1, 9, 1)])).collect() };
    if norm == Some(true) && !empty { return; }
    let g = build(parsing_cfg(&yaml(1, norm, "")), &es, &[0; 3]);
    if norm == Some(true) { sym::cover("empty"); sym::check(g.is_err(), "no edges: no mean"); return; }
    let g = g.unwrap();
    sym::cover("off");
    sym::check(g.metrics().mean(MetricIdx(0)).is_none(), "no mean without normalisation");
    for x in &es {
        let m = g.metrics()[edge(&g, x.src, x.dst)][0];
        sym::obs_f("m", m);
        sym::check(m == x.m[0], "metric is kept without normalisation");
    }
}
/// generated metrics are normalised as well
#[no_mangle]
pub extern "C" fn c08_gen() {
    let gen = "  generating:\n    nodes: []\n    edges:\n    - copy: { from: { unit: 'F64', id: 'm0' }, to: { unit: 'F64', id: 'm1' } }\n    - custom: { unit: 'F64', id: 'm2', default: 4.0 }\n";
    let mut es: Vec<E> = ST[..3].iter().map(|&(a, b)| e(a, b, &[sym::f("a", 1, 5, 1)])).collect();
    let g = build(parsing_cfg(&yaml(1, Some(true), gen)), &es, &[0; 3]);
    for x in es.iter_mut() { let v = x.m[0]; x.m.push(v); x.m.push(4.0); }
    judge(g, &es, 3);
}

/// shortcuts count like any other edge; any edges may be shortcuts, inserted at any place
#[no_mangle]
pub extern "C" fn c08_shortcut() {
    let which = sym::conc_us(sym::us("shortcut", 0, 4));
    // (2, 3) + (3, 1) = (2, 1), (0, 1) + (1, 2) = (0, 2), one of them, both or none
    const S2: &[(i64, i64)] = &[(2, 1), (3, 1), (0, 1), (2, 3), (1, 2), (0, 2)];
    let mut es: Vec<E> = S2.iter().map(|&(a, b)| e(a, b, &[sym::f_of("a", &[0.5, 3.0]), 2.0])).collect();
    if which & 1 == 1 { es[0].sc = Some([3, 1]); }
    if which & 2 == 2 { es[5].sc = Some([2, 4]); }
    if which == 4 { es[0].sc = Some([3, 1]); es[3].sc = Some([2, 4]); es[3].src = 0; es[3].dst = 2; es[5].src = 2; es[5].dst = 3; es[0].sc = Some([5, 1]); }
    judge(build(parsing_cfg(&yaml(2, Some(true), "")), &es, &[0; 4]), &es, 2);
}
/// duplicates count once
#[no_mangle]
pub extern "C" fn c08_dup() {
    let k = sym::conc_us(sym::us("dup", 0, 2));
    let es: Vec<E> = ST[..3].iter().map(|&(a, b)| e(a, b, &[sym::f("a", 1, 4, 1)])).collect();
    let mut all: Vec<E> = vec![];
    for x in &es { all.push(e(x.src, x.dst, &x.m)); }
    all.insert(0, e(es[k].src, es[k].dst, &es[k].m));
    all.push(e(es[k].src, es[k].dst, &es[k].m));
    judge(build(parsing_cfg(&yaml(1, Some(true), "")), &all, &[0; 3]), &es, 1);
}
/// generated zeros: lifted if the mean does not vanish, otherwise an error
#[no_mangle]
pub extern "C" fn c08_genzero() {
    let n = sym::conc_us(sym::us("lines", 0, 2));
    let gen = "  generating:\n    nodes: []\n    edges:\n    - meta: { info: 'EdgeId', id: 'id' }\n    - custom: { unit: 'F64', id: 'm1' }\n    - copy: { from: { unit: 'F64', id: 'm1' }, to: { unit: 'F64', id: 'm2' } }\n    - merge: { from: 'i.csv', with_header-line: false, edge-id: 'id', edges-info: [ { id: 'id' }, { id: 'm1' } ] }\n    - custom: { unit: 'F64', id: 'm3', default: 1.0 }\n    - merge: { from: 'i.csv', with_header-line: false, edge-id: 'id', edges-info: [ { id: 'id' }, { id: 'm3' } ] }\n";
    let keep = sym::conc_us(sym::us("copy", 0, 1)) == 1;
    let gen = if keep { gen.to_string() } else { gen.replace("    - copy: { from: { unit: 'F64', id: 'm1' }, to: { unit: 'F64', id: 'm2' } }\n", "") };
    let mut f = String::new();
    let mut vals = [[0.0, 1.0]; 3];
    for k in 0..n {
        let x = sym::conc_us(sym::us("edge", 0, 2));
        let v = ["0", "0.5", "64"][sym::conc_us(sym::us("value", 0, 2))];
        f += &format!("{} {}\n", x, v);
        vals[x] = [v.parse().unwrap(); 2];
        let _ = k;
    }
    std::fs::write("i.csv", f).unwrap();
    let es: Vec<E> = ST[..3].iter().map(|&(a, b)| e(a, b, &[1.0])).collect();
    let g = build(parsing_cfg(&yaml(1, Some(true), &gen)), &es, &[0; 3]);
    std::fs::remove_file("i.csv").unwrap();
    // edges are sorted by src, so the generated ids are 0 -> (0, 1), 1 -> (1, 2), 2 -> (2, 0)
    let zero = vals.iter().all(|v| v[0] == 0.0) || vals.iter().all(|v| v[1] == 0.0) || keep;
    sym::check(g.is_err() == zero, "error exactly if a mean vanishes");
    if let Ok(g) = g {
        for c in 0..2 {
            let mean = (vals[0][c] + vals[1][c] + vals[2][c]) / 3.0;
            sym::check(near(g.metrics().mean(MetricIdx(1 + c)).unwrap(), mean), "remembered mean of a generated metric");
            for k in 0..3 {
                let got = g.metrics()[edge(&g, k as i64, (k as i64 + 1) % 3)][1 + c];
                sym::check(if vals[k][c] == 0.0 { got == EPS } else { near(got, vals[k][c] / mean) }, "generated metric is divided by its mean, and positive");
            }
        }
        sym::cover("normalised");
    } else { sym::cover("error"); }
}
