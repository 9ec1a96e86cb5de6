//! C09: generated metrics and meta-infos.
use crate::{sym, util::*};
use osmgraphing::configs::parsing::edges::{metrics::UnitInfo as U, Category, MetaInfo};
use osmgraphing::configs::parsing::nodes;
use osmgraphing::{helpers::err, network::*};

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("c09_each", c09_each), ("c09_chain", c09_chain), ("c09_meta", c09_meta), ("c09_ids", c09_ids), ("c09_ids_convert", c09_ids_convert), ("c09_unknown", c09_unknown), ("c09_merge", c09_merge), ("c09_merge_value", c09_merge_value), ("c09_merge_bad", c09_merge_bad), ("c09_invalid", c09_invalid), ("c09_haversine", c09_haversine),
];
const ST: &[(i64, i64)] = &[(2, 0), (0, 1), (1, 2), (0, 2)];
/// metrics 'km' (kilometres), 'v' (km/h), 'x' (plain number), in this order; edge-ids 100..
fn yaml(gen_nodes: &str, gen_edges: &str) -> String {
    metrics_yaml(0).replace("    data:\n", "    data:\n    - meta: { info: 'EdgeId', id: 'edge-id' }\n")
        + "    - metric: { unit: 'Kilometers', id: 'km' }\n    - ignored\n    - metric: { unit: 'KilometersPerHour', id: 'v' }\n    - metric: { unit: 'F64', id: 'x' }\n"
        + &format!("  generating:\n    nodes:{}\n    edges:{}\n", if gen_nodes.is_empty() { " []".to_string() } else { format!("\n{}", gen_nodes) }, if gen_edges.is_empty() { " []".to_string() } else { format!("\n{}", gen_edges) })
}
fn edges() -> Vec<E> {
    ST.iter().enumerate().map(|(k, &(a, b))| E { id: Some(100 + k), src: a, dst: b, m: vec![sym::f("km", 1, 6, 1), sym::f_of("v", &[0.5, 30.0, 50.0]), sym::f("x", 1, 9, 0)], sc: None }).collect()
}
/// expected metric: id, unit, values in the order of ST
struct M { id: String, unit: U, vals: Vec<f64> }
fn base(es: &[E]) -> Vec<M> {
    [("km", U::Kilometers), ("v", U::KilometersPerHour), ("x", U::F64)].iter().enumerate().map(|(k, (id, u))| M { id: id.to_string(), unit: *u, vals: es.iter().map(|e| e.m[k]).collect() }).collect()
}
fn judge(g: &Graph, es: &[E], want: &[M]) {
    let m = &g.cfg().edges.metrics;
    sym::check(m.ids.len() == want.len() && m.units.len() == want.len() && g.metrics().dim() == want.len(), "number of metrics in the config");
    let mut cats = vec![];
    for c in &g.cfg().edges.categories { if let Category::Metric { unit, id } = c { cats.push((*unit, id.0.clone())); } }
    sym::check(cats.len() == want.len(), "categories list every metric once");
    for (k, w) in want.iter().enumerate() {
        sym::check(m.ids[k].0 == w.id && m.units[k] == w.unit, "id and unit of a metric");
        sym::check(cats[k].0 == w.unit && cats[k].1 == w.id, "categories agree with the metrics");
        let idx = m.try_idx_of(&w.id);
        sym::check(idx.is_ok() && *idx.unwrap() == k, "metric is found by its id");
    }
    for (j, x) in es.iter().enumerate() {
        let ei = edge(g, x.src, x.dst);
        let got = &g.metrics()[ei];
        sym::check(got.len() == want.len(), "every edge has every metric");
        for (k, w) in want.iter().enumerate() {
            sym::obs_f("m", got[k]);
            sym::check(near(got[k], w.vals[j]), "value of a metric");
        }
    }
}
fn mk(id: &str, unit: U, vals: Vec<f64>) -> M { M { id: id.into(), unit, vals } }
fn go(gen_nodes: &str, gen_edges: &str, es: &[E]) -> err::Result<Graph> { build(parsing_cfg(&yaml(gen_nodes, gen_edges)), es, &[0; 3]) }
const NEW: [(&str, &str); 9] = [
    ("    - copy: { from: { unit: 'Kilometers', id: 'km' }, to: { unit: 'Meters', id: 'new' } }\n", "copy"),
    ("    - convert: { from: { unit: 'Kilometers', id: 'km' }, to: { unit: 'Meters', id: 'new' } }\n", "convert"),
    ("    - convert: { from: { unit: 'F64', id: 'x' }, to: { unit: 'LaneCount', id: 'x' } }\n", "retype"),
    ("    - calc: { result: { unit: 'Hours', id: 'new' }, a: { unit: 'Kilometers', id: 'km' }, b: { unit: 'KilometersPerHour', id: 'v' } }\n", "hours"),
    ("    - calc: { result: { unit: 'Minutes', id: 'new' }, a: { unit: 'Kilometers', id: 'km' }, b: { unit: 'KilometersPerHour', id: 'v' } }\n", "minutes"),
    ("    - calc: { result: { unit: 'Seconds', id: 'new' }, a: { unit: 'Kilometers', id: 'km' }, b: { unit: 'KilometersPerHour', id: 'v' } }\n", "seconds"),
    ("    - custom: { unit: 'Seconds', id: 'new', default: 2.5 }\n", "custom"),
    ("    - custom: { id: 'new' }\n", "custom default"),
    ("    - copy: { from: { unit: 'Kilometers', id: 'km' }, to: { unit: 'Seconds', id: 'new' } }\n", "misfit"),
];
fn apply(k: usize, w: &mut Vec<M>) {
    let i = |w: &Vec<M>, s: &str| w.iter().position(|m| m.id == s).unwrap();
    let calc = |w: &Vec<M>, f: f64| { let (a, b) = (i(w, "km"), i(w, "v")); (0..ST.len()).map(|j| if f == 1.0 { w[a].vals[j] / w[b].vals[j] } else { w[a].vals[j] / w[b].vals[j] * f }).collect::<Vec<f64>>() };
    match k {
        0 => { let v = w[i(w, "km")].vals.iter().map(|x| x * 1000.0).collect(); w.push(mk("new", U::Meters, v)); }
        1 => { let j = i(w, "km"); let v = w[j].vals.iter().map(|x| x * 1000.0).collect(); w[j] = mk("new", U::Meters, v); }
        2 => { let j = i(w, "x"); w[j].unit = U::LaneCount; }
        3 => { let v = calc(w, 1.0); w.push(mk("new", U::Hours, v)); }
        4 => { let v = calc(w, 60.0); w.push(mk("new", U::Minutes, v)); }
        5 => { let v = calc(w, 3600.0); w.push(mk("new", U::Seconds, v)); }
        6 => w.push(mk("new", U::Seconds, vec![2.5; ST.len()])),
        _ => w.push(mk("new", U::F64, vec![0.0; ST.len()])),
    }
}
/// each way to generate a metric, any values
#[no_mangle]
pub extern "C" fn c09_each() {
    let k = sym::conc_us(sym::us("kind", 0, 8));
    let es = edges();
    let g = go("", NEW[k].0, &es);
    if k == 8 { sym::cover("misfit"); sym::check(g.is_err(), "units that do not fit are refused"); return; }
    sym::check(g.is_ok(), "metric is generated");
    let mut w = base(&es);
    apply(k, &mut w);
    judge(&g.unwrap(), &es, &w);
    sym::cover(NEW[k].1);
}
/// metrics generated from generated metrics, in any order of the steps that permits it
#[no_mangle]
pub extern "C" fn c09_chain() {
    let (a, b) = (sym::conc_us(sym::us("first", 0, 7)), sym::conc_us(sym::us("second", 0, 7)));
    if a == 1 && ((b != 2 && b < 6) || b == 1) { return; } // 'km' has got a new id
    let es = edges();
    let second = NEW[b].0.replace("'new'", "'new2'");
    let third = "    - copy: { from: { unit: 'F64', id: 'x2' }, to: { unit: 'F64', id: 'x3' } }\n";
    let zero = "    - copy: { from: { unit: 'F64', id: 'x' }, to: { unit: 'F64', id: 'x2' } }\n";
    let g = go("", &(zero.to_string() + NEW[a].0 + &second + third), &es).unwrap();
    let mut w = base(&es);
    let x: Vec<f64> = w[2].vals.clone();
    w.push(mk("x2", U::F64, x.clone()));
    apply(a, &mut w);
    for m in w.iter_mut() { if m.id == "new" { m.id = "old".into(); } }
    apply(b, &mut w);
    for m in w.iter_mut() { if m.id == "new" { m.id = "new2".into(); } else if m.id == "old" { m.id = "new".into(); } }
    w.push(mk("x3", U::F64, x));
    judge(&g, &es, &w);
    sym::cover("end");
}
/// meta-infos change nothing but the list of categories, and edge-ids
#[no_mangle]
pub extern "C" fn c09_meta() {
    const T: [(&str, MetaInfo); 7] = [("EdgeId", MetaInfo::EdgeId), ("SrcIdx", MetaInfo::SrcIdx), ("SrcLat", MetaInfo::SrcLat), ("SrcLon", MetaInfo::SrcLon), ("DstIdx", MetaInfo::DstIdx), ("DstLat", MetaInfo::DstLat), ("DstLon", MetaInfo::DstLon)];
    let k = sym::conc_us(sym::us("meta", 0, 8));
    let es = edges();
    if k == 8 {
        let g = go("    - meta: { info: 'NodeIdx', id: 'idx' }\n", "", &es).unwrap();
        judge(&g, &es, &base(&es));
        let c = &g.cfg().nodes.categories;
        sym::check(c.len() == 5, "one more category of nodes");
        sym::check(match &c[4] { nodes::Category::Meta { info, id } => *info == nodes::MetaInfo::NodeIdx && id.0 == "idx", _ => false }, "category of the node's index");
        sym::cover("node");
        return;
    }
    if k == 7 {
        std::fs::write("cfg.yaml", yaml("", "    - meta: { info: 'ShortcutIdx0', id: 'sc' }\n")).unwrap();
        sym::check(osmgraphing::configs::parsing::Config::try_from_yaml("cfg.yaml").is_err(), "shortcuts can't be generated");
        std::fs::remove_file("cfg.yaml").unwrap();
        return;
    }
    let g = go("", &format!("    - meta: {{ info: '{}', id: 'mm' }}\n", T[k].0), &es).unwrap();
    judge(&g, &es, &base(&es));
    let c = &g.cfg().edges.categories;
    sym::check(match &c[c.len() - 1] { Category::Meta { info, id } => *info == T[k].1 && id.0 == "mm", _ => false }, "category of the meta-info");
    let f = g.fwd_edges();
    for j in 0..es.len() {
        let id = f.try_id(EdgeIdx(j));
        let x = edge(&g, es[j].src, es[j].dst);
        if k == 0 {
            sym::check(id == Some(j), "generated edge-id is the index");
            sym::check(f.try_idx_from(j).ok() == Some(EdgeIdx(j)), "edge is found by the generated id");
        } else {
            sym::check(f.try_id(x) == Some(100 + j), "edge-id is kept");
            sym::check(f.try_idx_from(100 + j).ok() == Some(x), "edge is found by its id");
        }
    }
    sym::cover("edge");
}
/// an id that exists already (parsed or generated) is refused
#[no_mangle]
pub extern "C" fn c09_ids() {
    let a = sym::conc_us(sym::us("kind", 0, 7));
    let which = sym::conc_us(sym::us("which", 0, 5));
    let es = edges();
    let id = ["km", "v", "x", "edge-id", "src-id", "first"][which];
    let first = "    - custom: { unit: 'F64', id: 'first', default: 1.0 }\n";
    if a == 1 || a == 2 {
        // in-place: only the id of another node-category
        if a == 2 { return; }
        let g = go(&format!("    - meta: {{ info: 'NodeIdx', id: '{}' }}\n", ["node-id", "lat", "lon", "lvl", "new", "km"][which]), first, &es);
        sym::check(g.is_err() == (which < 4), "id of a node-category is refused exactly if it exists");
        sym::cover("node");
        return;
    }
    let g = go("", &(first.to_string() + &NEW[a].0.replace("'new'", &format!("'{}'", id))), &es);
    sym::check(g.is_err(), "existing id is refused");
    sym::cover("edge");
}
/// a conversion may give a new id or keep it, but not take one that exists at that time (sequences of two conversions and a new metric)
#[no_mangle]
pub extern "C" fn c09_ids_convert() {
    const IDS: [&str; 5] = ["km", "x", "edge-id", "new", "old"];
    let es = edges();
    let (a, b) = (IDS[sym::conc_us(sym::us("to", 0, 4))], IDS[sym::conc_us(sym::us("to2", 0, 4))]);
    let second = sym::conc_us(sym::us("second", 0, 3));
    let mut s = format!("    - convert: {{ from: {{ unit: 'F64', id: 'x' }}, to: {{ unit: 'F64', id: '{}' }} }}\n", a);
    let mut live = vec!["km", "v", "x", "edge-id", "src-id", "dst-id"];
    let mut ok = a == "x" || !live.contains(&a);
    live[2] = a;
    match second {
        0 => {}
        1 => { s += &format!("    - convert: {{ from: {{ unit: 'F64', id: '{}' }}, to: {{ unit: 'F64', id: '{}' }} }}\n", a, b); ok &= b == a || !live.contains(&b); live[2] = b; }
        2 => { s += &format!("    - copy: {{ from: {{ unit: 'Kilometers', id: 'km' }}, to: {{ unit: 'Kilometers', id: '{}' }} }}\n", b); if b == "x" { return; } ok &= !live.contains(&b); live.push(b); }
        _ => { s = format!("    - custom: {{ unit: 'F64', id: '{}', default: 1.0 }}\n", b) + &s; ok = !["km", "x", "edge-id"].contains(&b) && (a == "x" || (a != b && !["km", "edge-id"].contains(&a))); live.push(b); }
    }
    let g = go("", &s, &es);
    if !ok { sym::check(g.is_err(), "existing id is refused"); sym::cover("refused"); return; }
    sym::check(g.is_ok(), "new ids are fine");
    let g = g.unwrap();
    let m = &g.cfg().edges.metrics;
    sym::check(m.ids.iter().any(|id| id.0 == live[2]), "metric has got its new id");
    for (k, i) in m.ids.iter().enumerate() { sym::check(*m.try_idx_of(&i.0).unwrap() == k, "every metric is found by its id"); }
    for (j, x) in es.iter().enumerate() { let _ = j; sym::check(g.metrics()[edge(&g, x.src, x.dst)][2] == x.m[2], "value is kept"); }
    sym::cover("renamed");
}
/// an unknown metric is an error, not a panic
#[no_mangle]
pub extern "C" fn c09_unknown() {
    let a = sym::conc_us(sym::us("kind", 0, 5));
    let es = edges();
    let b = sym::conc_us(sym::us("second", 0, 1)) == 1;
    let s = if b && a >= 3 { NEW[a].0.replace("id: 'v'", "id: 'unknown'") } else { NEW[a].0.replace("id: 'km'", "id: 'unknown'").replace("'F64', id: 'x' }, to", "'F64', id: 'unknown' }, to") };
    sym::check(go("", &s, &es).is_err(), "unknown metric is refused");
    sym::cover("end");
}
fn merge(header: &str, content: &str, es: &[E]) -> err::Result<Graph> {
    std::fs::write("info.csv", content).unwrap();
    let s = format!("    - custom: {{ unit: 'Seconds', id: 'new', default: 2.5 }}\n    - merge: {{ from: 'info.csv', {}edge-id: 'edge-id', edges-info: [ ignored, {{ id: 'x' }}, {{ id: 'edge-id' }}, {{ id: 'new' }} ] }}\n", header);
    let g = go("", &s, es);
    std::fs::remove_file("info.csv").unwrap();
    g
}
/// a value of any digits and exponent is taken as it is
#[no_mangle]
pub extern "C" fn c09_merge_value() {
    let es: Vec<E> = ST.iter().enumerate().map(|(k, &(a, b))| E { id: Some(100 + k), src: a, dst: b, m: vec![1.0, 30.0, 2.0], sc: None }).collect();
    let t = ["1.5", "0.1", "16777217", "4294967297.5", "1e300", "1e-300", "0.30000000000000004", "179.99999999999997", "inf", "7", "+7.25", ".5", "5.", "1E2"];
    let s = t[sym::conc_us(sym::us("value", 0, t.len() - 1))];
    let at = sym::conc_us(sym::us("edge", 0, 3));
    let g = merge("with_header-line: false, ", &format!("foo {} {} 1\n", s, 100 + at), &es).unwrap();
    for (j, x) in es.iter().enumerate() {
        let m = &g.metrics()[edge(&g, x.src, x.dst)];
        let want: f64 = if j == at { s.parse().unwrap() } else { 2.0 };
        sym::check(m[2].to_bits() == want.to_bits(), "merged value is taken bit by bit");
        sym::check(m[0] == 1.0 && m[1] == 30.0 && m[3] == if j == at { 1.0 } else { 2.5 }, "other values");
    }
    sym::cover("end");
}
/// values of a file replace the values of the edges with these ids, everything else stays
#[no_mangle]
pub extern "C" fn c09_merge() {
    let es = edges();
    let header = sym::conc_us(sym::us("header", 0, 2));
    let n = sym::conc_us(sym::us("lines", 0, 2));
    let mut w = base(&es);
    w.push(mk("new", U::Seconds, vec![2.5; ST.len()]));
    let mut s = String::from("# comment\n");
    if header != 1 { s += "ignored x edge-id new\n"; }
    for k in 0..n {
        let e = sym::conc_us(sym::us("edge", 0, 3));
        // values that need all bits of an f64, and its range
        let (x, new) = [("1.50000000000001", "0.1"), ("4e-3", "123456789.0123456")][k];
        s += &format!("foo {} {} {}\n\n", x, 100 + e, new);
        w[2].vals[e] = x.parse().unwrap();
        w[3].vals[e] = new.parse().unwrap();
    }
    let g = merge(["", "with_header-line: false, ", "with_header-line: true, "][header], &s, &es);
    sym::check(g.is_ok(), "file is merged");
    judge(&g.unwrap(), &es, &w);
    sym::cover("end");
}
/// broken files are errors, not panics
#[no_mangle]
pub extern "C" fn c09_merge_bad() {
    let es = edges();
    let k = sym::conc_us(sym::us("case", 0, 6));
    let line = ["foo 1.5 100\n", "foo 1.5\n", "foo\n", "foo bar 100 1.0\n", "foo 1.5 bar 1.0\n", "foo 1.5 99 1.0\n", "foo 1.5 100 2,5\n"][k];
    sym::check(merge("with_header-line: false, ", &format!("foo 1.5 101 3.0\n{}", line), &es).is_err(), "broken line is refused");
    let s = "    - merge: { from: 'missing.csv', edge-id: 'edge-id', edges-info: [ { id: 'edge-id' } ] }\n";
    sym::check(go("", s, &es).is_err(), "missing file is refused");
    let s = "    - merge: { from: 'cfg.txt', edge-id: 'edge-id', edges-info: [ { id: 'edge-id' } ] }\n";
    sym::check(go("", s, &es).is_err(), "unsupported file is refused");
    std::fs::write("info.csv", "100 3\n").unwrap();
    let s = "    - merge: { from: 'info.csv', with_header-line: false, edge-id: 'edge-id', edges-info: [ { id: 'edge-id' }, { id: 'unknown' } ] }\n";
    sym::check(go("", s, &es).is_err(), "unknown metric is refused");
    let s = "    - merge: { from: 'info.csv', with_header-line: false, edge-id: 'edge-id', edges-info: [ { id: 'x' } ] }\n";
    sym::check(go("", s, &es).is_err(), "missing edge-id is refused");
    std::fs::remove_file("info.csv").unwrap();
    sym::cover("end");
}
/// distances between the ends of the edges; other units than kilometres are refused
#[no_mangle]
pub extern "C" fn c09_haversine() {
    const UN: [&str; 8] = ["Meters", "Kilometers", "Seconds", "Minutes", "Hours", "KilometersPerHour", "LaneCount", "F64"];
    let k = sym::conc_us(sym::us("unit", 0, 7));
    let es = edges();
    let g = go("", &format!("    - haversine: {{ unit: '{}', id: 'new' }}\n", UN[k]), &es);
    if k != 1 { sym::check(g.is_err(), "haversine yields kilometres"); sym::cover("refused"); return; }
    let mut w = base(&es);
    w.push(mk("new", U::Kilometers, es.iter().map(|x| dist(coord(x.src as usize), coord(x.dst as usize))).collect()));
    judge(&g.unwrap(), &es, &w);
    sym::cover("distance");
}
fn dist(a: kissunits::geo::Coordinate, b: kissunits::geo::Coordinate) -> f64 {
    let r = |d: f64| d * std::f64::consts::PI / 180.0;
    let (x, y) = (r(a.lat - b.lat) / 2.0, r(a.lon - b.lon) / 2.0);
    let h = x.sin() * x.sin() + r(a.lat).cos() * r(b.lat).cos() * y.sin() * y.sin();
    2.0 * 6371.0 * h.sqrt().asin()
}
/// generated values have to be proper metrics as well
#[no_mangle]
pub extern "C" fn c09_invalid() {
    let es = edges();
    let v = ["-1.5", "NaN", "-inf", "-1e-30", "0", "2.5"][sym::conc_us(sym::us("value", 0, 5))];
    let yv = match v { "NaN" => ".nan", "-inf" => "-.inf", v => v };
    let ok = v == "0" || v == "2.5";
    let g = go("", &format!("    - custom: {{ unit: 'Seconds', id: 'new', default: {} }}\n", yv), &es);
    sym::check(g.is_ok() == ok, "constant is checked");
    let g = merge("with_header-line: false, ", &format!("foo 1.5 101 3.0\nfoo 2 100 {}\n", v), &es);
    sym::check(g.is_ok() == ok, "merged value is checked");
    sym::cover("end");
}
