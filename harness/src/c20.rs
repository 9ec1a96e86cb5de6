//! C20: linear algebra and helpers with vectors and lines.
use crate::sym;
use osmgraphing::defaults::capacity::DimVec;
use osmgraphing::helpers::{self, algebra::Matrix};

pub const TABLE: &[(&str, extern "C" fn())] = &[("c20_index", c20_index), ("c20_solve2", c20_solve2), ("c20_solve3", c20_solve3), ("c20_solve3_t", c20_solve3_t), ("c20_scaled", c20_scaled), ("c20_vec", c20_vec), ("c20_dot", c20_dot), ("c20_line", c20_line)];

fn dv(v: &[f64]) -> DimVec<f64> { v.iter().copied().collect() }
/// every cell of a matrix of any shape stands where it has been put
#[no_mangle]
pub extern "C" fn c20_index() {
    let (r, c) = (sym::conc_us(sym::us("rows", 1, 4)), sym::conc_us(sym::us("cols", 1, 4)));
    let v: Vec<Vec<f64>> = (0..r).map(|_| (0..c).map(|_| sym::f("cell", -9, 9, 1)).collect()).collect();
    let m = Matrix::from_rows(v.iter().map(|x| dv(x)).collect());
    for i in 0..r { for j in 0..c {
        sym::obs_f("cell", m[(i, j)]);
        sym::check(m[(i, j)] == v[i][j], "cell of a matrix");
    } }
    sym::cover(if r == c { "square" } else { "oblong" });
}
fn judge(a: &[Vec<f64>], b: &[f64], det: f64, exact: bool) {
    let x = Matrix::from_rows(a.iter().map(|x| dv(x)).collect()).lu().solve(&dv(b));
    match x {
        None => { sym::cover("singular"); sym::check(det == 0.0, "a regular system has a solution"); }
        Some(x) => {
            if det == 0.0 { sym::check(!exact, "a singular system has no unique solution"); return; }
            sym::cover("solved");
            sym::check(x.len() == b.len(), "number of unknowns");
            let abs = |v: f64| if v < 0.0 { -v } else { v };
            // relative to the largest summands of all rows
            let mut m = 0.0;
            for i in 0..b.len() {
                let mut s = abs(b[i]);
                for j in 0..b.len() { s += abs(a[i][j] * x[j]); }
                if s > m { m = s; }
            }
            for i in 0..b.len() {
                let mut s = 0.0;
                for j in 0..b.len() { s += a[i][j] * x[j]; }
                sym::check(abs(s - b[i]) <= m * 1e-9, "solution fulfils every row");
            }
        }
    }
}
fn any(n: &str, t: &[f64]) -> f64 { t[sym::conc_us(sym::us(n, 0, t.len() - 1))] }
#[no_mangle]
pub extern "C" fn c20_solve2() {
    let t = [0.0, 1.0, -1.0, 2.0, -2.0];
    let a: Vec<Vec<f64>> = (0..2).map(|_| (0..2).map(|_| any("a", &t)).collect()).collect();
    let b = [any("b", &[0.0, 1.0, -3.5]), 2.0];
    judge(&a, &b, a[0][0] * a[1][1] - a[0][1] * a[1][0], true);
}
fn det3(a: &[Vec<f64>]) -> f64 {
    a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
}
fn solve3(t: &[f64]) {
    let a: Vec<Vec<f64>> = (0..3).map(|_| (0..3).map(|_| any("a", t)).collect()).collect();
    let b = [any("b", &[0.0, 1.0]), -3.0, 2.5];
    judge(&a, &b, det3(&a), false);
}
#[no_mangle]
pub extern "C" fn c20_solve3() { solve3(&[0.0, 2.0]); }
#[no_mangle]
pub extern "C" fn c20_solve3_t() { solve3(&[0.0, 1.0, -2.0]); }
/// rows of very different size, as costs in metres beside alphas
#[no_mangle]
pub extern "C" fn c20_scaled() {
    let t = [1.0, 9.5367431640625e-7, 1048576.0, -256.0];
    let r = [1.0, 5.9604644775390625e-8, 16777216.0, 8.673617379884035e-19];
    let (p, q) = (any("row0", &r), any("row1", &r));
    let a: Vec<Vec<f64>> = vec![vec![p, any("a", &[1.0, -4.0, 0.0]) * p], vec![any("a", &t) * q, any("a", &t) * q]];
    judge(&a, &[p * 2.0, any("b", &[0.0, 5.0]) * q], a[0][0] * a[1][1] - a[0][1] * a[1][0], true);
}
/// sums, differences, products and order of vectors of any dimension
#[no_mangle]
pub extern "C" fn c20_vec() {
    let n = sym::conc_us(sym::us("dim", 0, 4));
    let a: Vec<f64> = (0..n).map(|_| sym::f("a", -9, 9, 1)).collect();
    let b: Vec<f64> = (0..n).map(|_| sym::f("b", -9, 9, 1)).collect();
    let (s, d) = (helpers::add(&dv(&a), &dv(&b)), helpers::sub(&dv(&a), &dv(&b)));
    let mut acc = dv(&a);
    helpers::add_assign(&mut acc, &dv(&b));
    sym::check(s.len() == n && d.len() == n && acc.len() == n, "dimension");
    let mut le = true;
    for k in 0..n {
        sym::check(s[k] == a[k] + b[k] && acc[k] == s[k], "sum");
        sym::check(d[k] == a[k] - b[k], "difference");
        le &= a[k] <= b[k];
    }
    sym::check(helpers::le(&a, &b) == le, "less or equal");
    sym::cover(if n == 0 { "empty" } else { "values" });
}
/// weighted sums, one of the vectors of few values (weights)
#[no_mangle]
pub extern "C" fn c20_dot() {
    let n = sym::conc_us(sym::us("dim", 0, 4));
    let w: Vec<f64> = (0..n).map(|_| any("w", &[0.0, 1.0, 0.5, -2.0])).collect();
    let b: Vec<f64> = (0..n).map(|_| sym::f("b", -9, 9, 1)).collect();
    let mut p = 0.0;
    for k in 0..n { p += w[k] * b[k]; }
    sym::check(helpers::dot_product(&w, &b) == p && helpers::dot_product(&b, &w) == p, "dot-product");
    sym::cover(if n == 0 { "empty" } else { "values" });
}
/// lines count if they are neither empty nor a comment
#[no_mangle]
pub extern "C" fn c20_line() {
    let n = sym::conc_us(sym::us("len", 0, 3));
    let t: Vec<u8> = (0..n).map(|_| sym::u("byte", 0, 127) as u8).collect();
    let want = n > 0 && t[0] != b'#';
    let s = String::from_utf8(t).unwrap();
    sym::check(helpers::is_line_functional(&s) == want, "functional line");
    let u = ["\u{e4}", "\u{1f600}#", "#\u{e4}", " #"][sym::conc_us(sym::us("text", 0, 3))];
    sym::check(helpers::is_line_functional(&u.to_string()) == (u.as_bytes()[0] != b'#'), "functional line");
    sym::cover("end");
}
