//! C17: approximate comparisons.
use crate::sym;
use kissunits::geo::Coordinate;
use osmgraphing::{approximating::Approx, defaults::capacity::DimVec};
use std::cmp::Ordering::{self, *};

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("c17_number", c17_number),
    ("c17_wide", c17_wide),
    ("c17_order", c17_order),
    ("c17_option", c17_option),
    ("c17_vector", c17_vector),
    ("c17_vector_t", c17_vector_t),
    ("c17_coord", c17_coord),
];

fn base(n: &str) -> f64 { sym::conc_f(sym::f_of(n, &[0.0, 1.0, -1.0, 0.5, 130.0, -48.0, 0.0009765625, 1024.0])) }
/// what users expect of two numbers: closer than 1e-6 -> same, further than 2e-6 -> different
fn expect(a: f64, b: f64) -> Option<Ordering> {
    let d = if a < b { b - a } else { a - b };
    if d <= 1e-6 { Some(Equal) } else if d < 2e-6 { None } else if a < b { Some(Less) } else { Some(Greater) }
}
/// all operators of both numbers have to tell the same
fn agree<T: PartialOrd + Copy>(a: T, b: T) -> Ordering {
    let c = match a.partial_cmp(&b) { Some(c) => c, None => { sym::fail("numbers are not comparable"); Equal } };
    sym::check((a == b) == (c == Equal), "== and cmp disagree");
    sym::check((a != b) == (c != Equal), "!= and cmp disagree");
    sym::check((a < b) == (c == Less), "< and cmp disagree");
    sym::check((a > b) == (c == Greater), "> and cmp disagree");
    sym::check((a <= b) == (c != Greater), "<= and cmp disagree");
    sym::check((a >= b) == (c != Less), ">= and cmp disagree");
    sym::check(b.partial_cmp(&a) == Some(c.reverse()), "comparing isn't symmetric");
    sym::check((b == a) == (c == Equal), "== isn't symmetric");
    sym::check(a == a && a.partial_cmp(&a) == Some(Equal), "a value is different from itself");
    c
}
fn number(a: f64, b: f64) {
    let c = agree(Approx(a), Approx(b));
    sym::check(Approx(a).cmp(&Approx(b)) == c, "partial_cmp and cmp disagree");
    if let Some(e) = expect(a, b) {
        match e { Equal => sym::cover("same"), Less => sym::cover("less"), Greater => sym::cover("greater") }
        sym::check(c == e, "the order is not the one of the numbers");
    }
    sym::check(agree(Approx(&a), Approx(&b)) == c, "references are ordered differently");
}
/// differences around the accuracy, next to numbers of different magnitudes
#[no_mangle]
pub extern "C" fn c17_number() {
    let a = base("a");
    let d = sym::conc_f(sym::f("d", -40, 40, 23));
    number(a, a + d);
}
/// larger differences
#[no_mangle]
pub extern "C" fn c17_wide() {
    let a = sym::f("a", -3, 3, 1);
    let b = sym::f("b", -3, 3, 1);
    number(a, b);
}
/// three numbers: the order can be used for sorting
#[no_mangle]
pub extern "C" fn c17_order() {
    let a = base("a");
    let b = a + sym::conc_f(sym::f("b", -8, 8, 20));
    let c = a + sym::conc_f(sym::f("c", -8, 8, 20));
    let (x, y, z) = (Approx(a), Approx(b), Approx(c));
    if x < y && y < z { sym::cover("sorted"); sym::check(x < z, "the order isn't transitive"); }
    if x > y && y > z { sym::check(x > z, "the order isn't transitive"); }
    // values at least 4e-6 apart are sorted like the numbers
    let mut v = vec![x, y, z];
    v.sort();
    for w in v.windows(2) { sym::check(w[0].0 - w[1].0 < 2e-6, "numbers are not sorted"); }
}
#[no_mangle]
pub extern "C" fn c17_option() {
    let mk = |n: &str, some: bool| if some { Some(sym::conc_f(sym::f(n, -6, 6, 20))) } else { None };
    let a = mk("a", sym::decide(sym::b("is_a")));
    let b = mk("b", sym::decide(sym::b("is_b")));
    let c = agree(Approx(a), Approx(b));
    match (a, b) {
        (None, None) => { sym::cover("none"); sym::check(c == Equal, "None is different from None") }
        (None, Some(_)) => sym::check(c == Less, "None isn't less than a value"),
        (Some(_), None) => sym::check(c == Greater, "a value isn't greater than None"),
        (Some(a), Some(b)) => { sym::cover("some"); if let Some(e) = expect(a, b) { sym::check(c == e, "the order is not the one of the values") } }
    }
}
fn vector(n: usize, k: i64) {
    // differences between 2^-19 and its multiples, hence no difference is close to the accuracy
    let a: Vec<f64> = (0..n).map(|i| 0.5 * i as f64).collect();
    let b: Vec<f64> = (0..n).map(|i| a[i] + sym::conc_f(sym::f(&format!("d{}", i), -k, k, 19)) * 2.0).collect();
    let cmps: Vec<Ordering> = (0..n).map(|i| if a[i] < b[i] { Less } else if a[i] > b[i] { Greater } else { Equal }).collect();
    let all = |o: Ordering| cmps.iter().all(|&c| c == o);
    let not = |o: Ordering| cmps.iter().all(|&c| c != o);
    let (da, db): (DimVec<f64>, DimVec<f64>) = (a.iter().copied().collect(), b.iter().copied().collect());
    fn chk<T: PartialOrd>(x: T, y: T, eq: bool, lt: bool, gt: bool, le: bool, ge: bool) {
        sym::check((x == y) == eq, "vectors are same, if and only if all values are");
        sym::check((x != y) == !eq, "vectors are different, if and only if one value is");
        sym::check((x < y) == lt, "a vector is less, if and only if all values are");
        sym::check((x > y) == gt, "a vector is greater, if and only if all values are");
        sym::check((x <= y) == le, "a vector is less or equal, if and only if no value is greater");
        sym::check((x >= y) == ge, "a vector is greater or equal, if and only if no value is less");
        sym::check(x.partial_cmp(&y) == if eq { Some(Equal) } else if lt { Some(Less) } else if gt { Some(Greater) } else { None }, "partial_cmp of vectors");
    }
    if all(Equal) { sym::cover("same") } else if all(Less) { sym::cover("less") } else if all(Greater) { sym::cover("greater") } else if not(Greater) { sym::cover("le") } else { sym::cover("incomparable") }
    chk(Approx(&a[..]), Approx(&b[..]), all(Equal), all(Less), all(Greater), not(Greater), not(Less));
    chk(Approx(&da), Approx(&db), all(Equal), all(Less), all(Greater), not(Greater), not(Less));
}
#[no_mangle]
pub extern "C" fn c17_vector() { let n = sym::conc_us(sym::us("n", 1, 3)); vector(n, 2) }
#[no_mangle]
pub extern "C" fn c17_vector_t() { vector(4, 3) }
#[no_mangle]
pub extern "C" fn c17_coord() {
    let a = Coordinate { lat: base("lat"), lon: 9.0 };
    let (dlat, dlon) = (sym::conc_f(sym::f("dlat", -4, 4, 20)), sym::conc_f(sym::f("dlon", -4, 4, 20)));
    let b = Coordinate { lat: a.lat + dlat, lon: a.lon + dlon };
    let eq = Approx(a) == Approx(b);
    sym::check(eq == (Approx(b) == Approx(a)), "comparing isn't symmetric");
    sym::check(eq == (Approx(a.lat) == Approx(b.lat) && Approx(a.lon) == Approx(b.lon)), "coordinates are the same, if and only if lat and lon are");
    if expect(a.lat, b.lat) == Some(Equal) && expect(a.lon, b.lon) == Some(Equal) { sym::cover("same"); sym::check(eq, "same coordinates count as different"); }
    for e in &[expect(a.lat, b.lat), expect(a.lon, b.lon)] { if *e == Some(Less) || *e == Some(Greater) { sym::cover("different"); sym::check(!eq, "different coordinates count as the same"); } }
    let r = Approx(a).approx();
    sym::check(Approx(r) == Approx(a), "a rounded coordinate is different from the coordinate");
}
