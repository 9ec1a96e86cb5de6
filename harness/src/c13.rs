//! C13: written maps and edges-infos hold what the graph holds, and are read back as the same graph.
use crate::{sym, util::*};
use osmgraphing::{configs, helpers::err, io::network::{edges, graph::{Parser, Writer}}, network::*};

pub const TABLE: &[(&str, extern "C" fn())] = &[("c13_values", c13_values), ("c13_ids", c13_ids), ("c13_edges", c13_edges), ("c13_shortcuts", c13_shortcuts), ("c13_columns", c13_columns), ("c13_infos", c13_infos), ("c13_mean", c13_mean), ("c13_external", c13_external), ("c13_exists", c13_exists), ("c13_edges_t", c13_edges_t)];

const META: [&str; 5] = ["SrcId", "DstId", "EdgeId", "ShortcutIdx0", "ShortcutIdx1"];
/// config of a map with these columns; names starting with 'm' are metrics
fn yaml(file: &str, nodes: &[&str], edges: &[&str], extra: &str) -> String {
    let mut s = format!("parsing:\n  map-file: '{}'\n  nodes:\n", file);
    for n in nodes { s += &match *n { "id" => "  - meta: { info: 'NodeId', id: 'id' }\n".into(), "lvl" => "  - meta: { info: 'CHLevel', id: 'lvl' }\n".into(), "lat" => "  - metric: { unit: 'Latitude', id: 'lat' }\n".into(), "lon" => "  - metric: { unit: 'Longitude', id: 'lon' }\n".into(), "idx" | "_" => "  - ignored\n".to_string(), x => format!("  - metric: {{ unit: 'Height', id: '{}' }}\n", x) }; }
    s += &format!("  edges:\n{}    data:\n", if extra == "norm" { "    will_normalize_metrics_by_mean: true\n" } else { "" });
    for e in edges { s += &if META.contains(e) { format!("    - meta: {{ info: '{}', id: '{}' }}\n", e, e) } else if e.starts_with('m') { format!("    - metric: {{ unit: 'F64', id: '{}' }}\n", e) } else { "    - ignored\n".into() }; }
    if extra != "norm" { s += extra; }
    s
}
fn wcfg(file: &str, nodes: &[&str], edges: &[&str], opts: &str) -> configs::writing::network::graph::Config {
    let mut s = format!("writing:\n  graph:\n    map-file: '{}'\n    nodes:\n", file);
    for n in nodes { s += &if *n == "_" { "    - ignored\n".to_string() } else { format!("    - id: '{}'\n", n) }; }
    s += &format!("    edges:\n{}      ids:\n", opts);
    for n in edges { s += &if *n == "_" { "      - ignored\n".to_string() } else { format!("      - id: '{}'\n", n) }; }
    std::fs::write("w.yaml", s).unwrap();
    let c = configs::writing::network::graph::Config::try_from_yaml("w.yaml").unwrap();
    std::fs::remove_file("w.yaml").unwrap();
    c
}
fn ecfg(file: &str, ids: &[&str], opts: &str) -> configs::writing::network::edges::Config {
    let mut s = format!("writing:\n  edges-info:\n    file: '{}'\n{}    ids:\n", file, opts);
    for n in ids { s += &if *n == "_" { "    - ignored\n".to_string() } else { format!("    - id: '{}'\n", n) }; }
    std::fs::write("w.yaml", s).unwrap();
    let c = configs::writing::network::edges::Config::try_from_yaml("w.yaml").unwrap();
    std::fs::remove_file("w.yaml").unwrap();
    c
}
fn make(cfg: &str, ns: &[(i64, f64, f64, usize)], es: &[E]) -> Graph {
    let mut eb = GraphBuilder::new(parsing_cfg(cfg));
    for x in es { eb.insert(proto(x)).unwrap(); }
    let mut nb = eb.next();
    for n in ns { nb.insert(ProtoNode { id: n.0, coord: kissunits::geo::Coordinate { lat: n.1, lon: n.2 }, ch_level: Some(n.3) }); }
    nb.next().unwrap().finalize().unwrap()
}
/// writes the graph, and reads it with this config
fn again(g: &Graph, w: &configs::writing::network::graph::Config, cfg: &str) -> Graph {
    sym::check(Writer::write(g, w).is_ok(), "graph is written");
    let h = Parser::parse_and_finalize(parsing_cfg(cfg));
    std::fs::remove_file("out.fmi").unwrap();
    if let Err(e) = &h { eprintln!("{}", e); }
    sym::check(h.is_ok(), "written graph is read");
    h.unwrap()
}
fn same_nodes(g: &Graph, h: &Graph, levels: bool) {
    let (n, m) = (g.nodes(), h.nodes());
    sym::check(n.count() == m.count(), "number of nodes");
    for k in 0..n.count() {
        let (x, y) = (NodeIdx(k), NodeIdx(k));
        sym::check(n.id(x) == m.id(y), "id of node");
        sym::check(n.coord(x).lat.to_bits() == m.coord(y).lat.to_bits() && n.coord(x).lon.to_bits() == m.coord(y).lon.to_bits(), "coordinate of node");
        sym::check(m.level(y) == if levels { n.level(x) } else { 0 }, "level of node");
    }
}
fn text(f: &str) -> String {
    let s = String::from_utf8(std::fs::read(f).unwrap()).unwrap();
    std::fs::remove_file(f).unwrap();
    s
}
/// the lines of the file, without comments
fn rows(f: &str) -> Vec<Vec<String>> { text(f).lines().filter(|l| !l.is_empty() && !l.starts_with('#')).map(|l| l.split(' ').map(String::from).collect()).collect() }
const N3: [(i64, f64, f64, usize); 3] = [(-4, 48.5, 9.25, 3), (2, -33.125, 151.0, 0), (70, 0.0, -0.1, 12)];
const VALS: [f64; 10] = [1e-6, 1.5, 0.1, 0.30000000000000004, 123456789.123, 1e22, 1.7976931348623157e308, 2.2250738585072014e-3, 1e-5, 1.0 / 3.0];
const COORDS: [f64; 10] = [0.0, -0.0, 90.0, -179.99999999, 48.7654321, 1e-7, -1.0 / 3.0, 0.1, 5e-324, 180.0];
/// values of any size keep every bit
#[no_mangle]
pub extern "C" fn c13_values() {
    let v = sym::conc_f(sym::f_of("metric", &VALS));
    let w = sym::conc_f(sym::f_of("lat", &COORDS));
    let x = sym::conc_f(sym::f_of("lon", &COORDS[..4]));
    let id = [0usize, 7, usize::MAX][sym::conc_us(sym::us("id", 0, 2))];
    let (nc, ec) = (["id", "lat", "lon", "lvl"], ["EdgeId", "SrcId", "DstId", "m", "m2"]);
    let ns = [(i64::MIN, w, x, usize::MAX), (i64::MAX, x, w, 0)];
    let cfg = yaml("out.fmi", &nc, &ec, "");
    let g = make(&cfg, &ns, &[E { id: Some(id), src: i64::MIN, dst: i64::MAX, m: vec![v, 2.5], sc: None }]);
    let h = again(&g, &wcfg("out.fmi", &nc, &ec, ""), &cfg);
    same_nodes(&g, &h, true);
    sym::check(h.fwd_edges().count() == 1 && h.fwd_edges().id(EdgeIdx(0)) == id, "edge");
    sym::check(h.metrics()[EdgeIdx(0)][0].to_bits() == g.metrics()[EdgeIdx(0)][0].to_bits() && h.metrics()[EdgeIdx(0)][1] == 2.5, "metrics");
    sym::check(g.metrics()[EdgeIdx(0)][0] == v, "metric");
    sym::cover("end");
}
fn any_edges(n: usize, nodes: usize) {
    let (nc, ec) = (["id", "lat", "lon", "lvl"], ["SrcId", "DstId", "m", "m2"]);
    let ns: Vec<_> = (0..nodes).map(|k| [N3[0], N3[1], N3[2], (100, 1.5, 2.5, 7)][k]).collect();
    let mut es = vec![];
    for k in 0..n { es.push(e(ns[sym::conc_us(sym::us("src", 0, nodes - 1))].0, ns[sym::conc_us(sym::us("dst", 0, nodes - 1))].0, &[k as f64 + 0.5, 4.0])); }
    let cfg = yaml("out.fmi", &nc, &ec, "");
    let g = make(&cfg, &ns, &es);
    let h = again(&g, &wcfg("out.fmi", &nc, &ec, ""), &cfg);
    same_nodes(&g, &h, true);
    sym::check(h.fwd_edges().count() == g.fwd_edges().count() && h.fwd_edges().count() == n, "number of edges");
    for k in 0..n {
        let x = EdgeIdx(k);
        let (f, b) = (h.fwd_edges(), h.bwd_edges());
        let j = h.metrics()[x][0] as usize;
        sym::check(h.nodes().id(b.dst_idx(x)) == es[j].src && h.nodes().id(f.dst_idx(x)) == es[j].dst, "ends of edge");
        sym::check(g.metrics()[x] == h.metrics()[x], "metrics of edge");
    }
    sym::cover("end");
}
/// any edges
#[no_mangle]
pub extern "C" fn c13_edges() { any_edges(3, 3) }
#[no_mangle]
pub extern "C" fn c13_edges_t() { any_edges(4, 4) }
/// shortcuts are written with the edges they stand for, or left out
#[no_mangle]
pub extern "C" fn c13_shortcuts() {
    let (nc, ec) = (["id", "lat", "lon", "lvl"], ["SrcId", "DstId", "ShortcutIdx0", "ShortcutIdx1", "m", "m2"]);
    let refs: Vec<usize> = (0..4).map(|_| sym::conc_us(sym::us("ref", 0, 4))).collect();
    let with = sym::conc_us(sym::us("with", 0, 2));
    let st = [(70, -4), (-4, 2), (2, 70), (-4, 70), (70, 2)];
    let mut es: Vec<E> = st.iter().enumerate().map(|(k, &(a, b))| e(a, b, &[k as f64 + 0.5, 4.0])).collect();
    es[1].sc = Some([refs[0], refs[1]]);
    es[3].sc = Some([refs[2], refs[3]]);
    let cfg = yaml("out.fmi", &nc, &ec, "");
    let g = make(&cfg, &N3, &es);
    let h = again(&g, &wcfg("out.fmi", &nc, &ec, ["", "      with_shortcuts: false\n", "      with_shortcuts: true\n"][with]), &cfg);
    same_nodes(&g, &h, true);
    // shortcuts are left out by default
    sym::check(h.fwd_edges().count() == if with == 2 { 5 } else { 3 }, "number of edges");
    for k in 0..5 {
        if with != 2 && es[k].sc.is_some() { continue; }
        let x = edge(&h, st[k].0, st[k].1);
        sym::check(h.metrics()[x][0] == k as f64 + 0.5, "metric");
        sym::check(h.fwd_edges().is_shortcut(x) == es[k].sc.is_some(), "shortcut");
        if let Some(r) = es[k].sc {
            let f = h.fwd_edges();
            let s = f.sc_edges(x).unwrap();
            for j in 0..2 { sym::check(s[j] == edge(&h, st[r[j]].0, st[r[j]].1), "edge behind the shortcut"); }
        }
    }
    sym::cover("end");
}
/// any order of columns, some left out, ignored or unknown
#[no_mangle]
pub extern "C" fn c13_columns() {
    let (nc, ec) = (["id", "lat", "lon", "lvl"], ["SrcId", "DstId", "EdgeId", "m", "m2"]);
    let cfg = yaml("in.fmi", &nc, &ec, "");
    let es: Vec<E> = [(2, -4), (-4, 70), (70, 2)].iter().enumerate().map(|(k, &(a, b))| E { id: Some(10 + k), src: a, dst: b, m: vec![k as f64 + 0.5, 9.0 - k as f64], sc: None }).collect();
    let g = make(&cfg, &N3, &es);
    let mut nw = ["id", "lat", "lon", "lvl"];
    let mut ew = ["SrcId", "DstId", "EdgeId", "m", "m2"];
    nw.swap(sym::conc_us(sym::us("i", 0, 3)), sym::conc_us(sym::us("j", 0, 3)));
    ew.swap(sym::conc_us(sym::us("ei", 0, 4)), sym::conc_us(sym::us("ej", 0, 4)));
    match sym::conc_us(sym::us("kind", 0, 4)) {
        0 => {}
        1 => { for c in nw.iter_mut() { if *c == "lvl" { *c = "_"; } } for c in ew.iter_mut() { if *c == "EdgeId" { *c = "_"; } } }
        2 => { for c in ew.iter_mut() { if *c == "m2" { *c = "_"; } } }
        k => {
            if k == 3 { nw[1] = "foo"; } else { ew[2] = "foo"; }
            sym::check(Writer::write(&g, &wcfg("out.fmi", &nw, &ew, "")).is_err(), "unknown id is refused");
            std::fs::remove_file("out.fmi").unwrap();
            sym::cover("unknown");
            return;
        }
    }
    let h = again(&g, &wcfg("out.fmi", &nw, &ew, ""), &yaml("out.fmi", &nw, &ew, ""));
    same_nodes(&g, &h, nw.contains(&"lvl"));
    sym::check(h.fwd_edges().count() == 3, "number of edges");
    let ms = &h.cfg().edges.metrics;
    for x in &es {
        let i = edge(&h, x.src, x.dst);
        if ew.contains(&"EdgeId") { sym::check(h.fwd_edges().id(i) == x.id.unwrap(), "id of edge"); }
        for (k, id) in ms.ids.iter().enumerate() { sym::check(h.metrics()[i][k] == x.m[if id.0 == "m" { 0 } else { 1 }], "metric"); }
    }
    sym::cover("end");
}
const GEN: &str = "  generating:\n    nodes:\n    - meta: { info: 'NodeIdx', id: 'idx' }\n    edges:\n    - meta: { info: 'SrcIdx', id: 'si' }\n    - meta: { info: 'SrcLat', id: 'sla' }\n    - meta: { info: 'SrcLon', id: 'slo' }\n    - meta: { info: 'DstIdx', id: 'di' }\n    - meta: { info: 'DstLat', id: 'dla' }\n    - meta: { info: 'DstLon', id: 'dlo' }\n";
/// every kind of information of edges and nodes stands in its column
#[no_mangle]
pub extern "C" fn c13_infos() {
    let ec = ["SrcId", "DstId", "EdgeId", "ShortcutIdx0", "ShortcutIdx1", "m", "m2"];
    let cfg = yaml("in.fmi", &["id", "lat", "lon", "lvl"], &ec, GEN);
    let cols = ["SrcId", "si", "sla", "slo", "DstId", "di", "dla", "dlo", "EdgeId", "ShortcutIdx0", "ShortcutIdx1", "m", "_", "m2"];
    let mut es = vec![];
    for k in 0..2 { es.push(E { id: Some(10 - k), src: N3[sym::conc_us(sym::us("src", 0, 2))].0, dst: N3[sym::conc_us(sym::us("dst", 0, 2))].0, m: vec![k as f64 + 0.5, 1e-3], sc: None }); }
    es.push(E { id: Some(77), src: 2, dst: 70, m: vec![1e9, 2.5], sc: Some([0, 1]) });
    let g = make(&cfg, &N3, &es);
    let (c0, c1) = (sym::conc_us(sym::us("from", 0, 13)), sym::conc_us(sym::us("opts", 0, 2)));
    let mut cols: Vec<_> = cols.to_vec();
    cols.rotate_left(c0);
    let opts = ["    with_shortcuts: true\n", "    with_shortcuts: false\n", ""][c1];
    sym::check(edges::Writer::write(&g, &ecfg("out.csv", &cols, opts)).is_ok(), "infos are written");
    let r = rows("out.csv");
    sym::check(r.len() == if c1 == 0 { 4 } else { 3 }, "number of lines");
    for (k, c) in cols.iter().enumerate() { sym::check(r[0].len() == cols.len() && r[0][k] == *c, "header"); }
    let at = |row: &Vec<String>, c: &str| row[cols.iter().position(|x| *x == c).unwrap()].clone();
    for row in &r[1..] {
        sym::check(row.len() == cols.len(), "number of columns");
        let found = es.iter().find(|x| x.id.unwrap().to_string() == at(row, "EdgeId"));
        sym::check(found.is_some(), "edge");
        let x = found.unwrap();
        sym::check(x.sc.is_none() || c1 == 0, "shortcuts are left out");
        for (p, id) in [("s", x.src), ("d", x.dst)].iter() {
            let i = g.nodes().idx_from(*id).unwrap();
            let n = N3.iter().find(|n| n.0 == *id).unwrap();
            sym::check(at(row, if *p == "s" { "SrcId" } else { "DstId" }) == id.to_string(), "id of src and dst");
            sym::check(at(row, &format!("{}i", p)) == i.to_string(), "index of src and dst");
            sym::check(at(row, &format!("{}la", p)) == n.1.to_string() && at(row, &format!("{}lo", p)) == n.2.to_string(), "coordinate of src and dst");
        }
        sym::check(at(row, "m") == x.m[0].to_string() && at(row, "m2") == x.m[1].to_string() && at(row, "_") == "_", "metrics");
        let f = g.fwd_edges();
        for (j, c) in ["ShortcutIdx0", "ShortcutIdx1"].iter().enumerate() {
            let want = match x.sc { Some(_) => f.try_idx_from([10, 9][j]).unwrap().to_string(), None => "-1".to_string() };
            sym::check(at(row, c) == want, "edges behind the shortcut");
        }
    }
    sym::cover("end");
}
/// normalised metrics are written as they are, or multiplied by their mean
#[no_mangle]
pub extern "C" fn c13_mean() {
    let (nc, ec) = (["id", "lat", "lon", "lvl"], ["SrcId", "DstId", "m", "m2"]);
    let norm = sym::conc_us(sym::us("norm", 0, 1)) == 1;
    let d = sym::conc_us(sym::us("denorm", 0, 2));
    let mut es: Vec<E> = [(2, -4), (-4, 70), (70, 2)].iter().map(|&(a, b)| e(a, b, &[0.0, 3.0])).collect();
    for x in es.iter_mut() { x.m[0] = sym::conc_f(sym::f_of("m", &[0.5, 3.0, 40.0, 0.001])); }
    let g = make(&yaml("out.fmi", &nc, &ec, if norm { "norm" } else { "" }), &N3, &es);
    let h = again(&g, &wcfg("out.fmi", &nc, &ec, ["", "      will_denormalize_metrics_by_mean: false\n", "      will_denormalize_metrics_by_mean: true\n"][d]), &yaml("out.fmi", &nc, &ec, ""));
    for x in &es {
        let i = edge(&h, x.src, x.dst);
        let j = edge(&g, x.src, x.dst);
        let want = if norm && d != 2 { g.metrics()[j].clone() } else { proto(x).proto_edge.metrics };
        for k in 0..2 { sym::check(near(h.metrics()[i][k], want[k]), "metric"); }
    }
    sym::cover("end");
}
/// values of others are written next to the edges they belong to
#[no_mangle]
pub extern "C" fn c13_external() {
    let ec = ["SrcId", "DstId", "EdgeId", "ShortcutIdx0", "ShortcutIdx1", "m", "m2"];
    let mut es = vec![];
    for k in 0..3 { es.push(E { id: Some(10 - k), src: N3[sym::conc_us(sym::us("src", 0, 2))].0, dst: N3[sym::conc_us(sym::us("dst", 0, 2))].0, m: vec![k as f64 + 0.5, 1e-3], sc: None }); }
    let k = sym::conc_us(sym::us("shortcut", 0, 3));
    if k < 3 { es[k].sc = Some([(k + 1) % 3, (k + 2) % 3]); }
    let g = make(&yaml("in.fmi", &["id", "lat", "lon", "lvl"], &ec, ""), &N3, &es);
    let with = sym::conc_us(sym::us("with", 0, 1));
    let vals: Vec<f64> = (0..3).map(|k| g.fwd_edges().id(EdgeIdx(k)) as f64 + 0.25).collect();
    sym::check(edges::Writer::write_external_values(&vals, &g, &ecfg("out.csv", &["EdgeId", "_"], ["    with_shortcuts: false\n", "    with_shortcuts: true\n"][with])).is_ok(), "values are written");
    let r = rows("out.csv");
    sym::check(r[0].len() == 2 && r[0][0] == "EdgeId" && r[0][1] == "_", "header");
    let want: Vec<&E> = es.iter().filter(|x| x.sc.is_none() || with == 1).collect();
    sym::check(r.len() == want.len() + 1, "number of lines");
    for x in want { let id = x.id.unwrap(); sym::check(r[1..].iter().any(|l| l.len() == 2 && l[0] == id.to_string() && l[1] == format!("{}.25", id)), "value of an edge"); }
    sym::cover("end");
}
/// existing files are never overwritten, unsupported files are refused
#[no_mangle]
pub extern "C" fn c13_exists() {
    let (nc, ec) = (["id", "lat", "lon", "lvl"], ["SrcId", "DstId", "EdgeId", "m", "m2"]);
    let es: Vec<E> = [(2, -4), (-4, 70)].iter().enumerate().map(|(k, &(a, b))| E { id: Some(10 + k), src: a, dst: b, m: vec![1.5, 2.5], sc: None }).collect();
    let g = make(&yaml("in.fmi", &nc, &ec, ""), &N3, &es);
    let f = ["out.fmi", "out.csv", "out.csv", "out.txt", "out.pbf", "out"][sym::conc_us(sym::us("file", 0, 5))];
    let kind = sym::conc_us(sym::us("kind", 0, 2));
    let exists = sym::conc_us(sym::us("exists", 0, 1)) == 1;
    let old: &[u8] = b"some longer content, which has to stay as it is";
    if exists { std::fs::write(f, old).unwrap(); }
    let mut w = wcfg("x.fmi", &nc, &ec, "");
    w.map_file = f.into();
    let mut c = ecfg("x.csv", &["EdgeId", "m"], "");
    c.file = f.into();
    let r = match kind { 0 => Writer::write(&g, &w), 1 => edges::Writer::write(&g, &c), _ => edges::Writer::write_external_values(&[1.5, 2.5], &g, &c) };
    let fits = f == if kind == 0 { "out.fmi" } else { "out.csv" };
    sym::check(r.is_ok() == (fits && !exists), "only new files of the right kind are written");
    if exists { sym::check(std::fs::read(f).unwrap() == old, "existing file stays as it is"); sym::cover("exists"); } else { sym::check(std::fs::read(f).is_ok() == r.is_ok(), "file is written or not"); sym::cover("new"); }
    if kind > 0 { sym::check(edges::Writer::check(&c).is_ok() == !(exists || r.is_ok()), "check tells if the file exists"); }
    let _ = std::fs::remove_file(f);
}

/// any ids and levels, not only some
#[no_mangle]
pub extern "C" fn c13_ids() {
    let (nc, ec) = (["id", "lat", "lon", "lvl"], ["EdgeId", "SrcId", "DstId", "m", "m2"]);
    let (mut id, mut lvl, mut nid) = (4711, 12, -3);
    match sym::conc_us(sym::us("which", 0, 2)) { 0 => id = sym::us("edge-id", 0, 9_999), 1 => lvl = sym::us("level", 0, 999), _ => nid = sym::i("node-id", -999, 999) }
    let ns = [(nid, 1.5, 2.5, lvl), (1 << 40, 3.5, 4.5, 6)];
    let cfg = yaml("out.fmi", &nc, &ec, "");
    let g = make(&cfg, &ns, &[E { id: Some(id), src: nid, dst: 1 << 40, m: vec![1.5, 2.5], sc: None }]);
    let h = again(&g, &wcfg("out.fmi", &nc, &ec, ""), &cfg);
    let (n, f) = (h.nodes(), h.fwd_edges());
    sym::check(n.count() == 2 && f.count() == 1, "number of nodes and edges");
    sym::check(n.id(NodeIdx(0)) == nid && n.level(NodeIdx(0)) == lvl && n.coord(NodeIdx(0)).lat == 1.5, "node");
    sym::check(f.id(EdgeIdx(0)) == id && f.dst_idx(EdgeIdx(0)) == NodeIdx(1), "edge");
    sym::cover("end");
}
