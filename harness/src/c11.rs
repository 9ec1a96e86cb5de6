//! C11: fmi-files are read as they are written down.
use crate::{sym, util::*};
use osmgraphing::{configs, helpers::err, io::network::graph::Parser, network::*};

pub const TABLE: &[(&str, extern "C" fn())] = &[("c11_values", c11_values), ("c11_edges", c11_edges), ("c11_layout", c11_layout), ("c11_columns", c11_columns), ("c11_shortcuts", c11_shortcuts), ("c11_counts", c11_counts), ("c11_numbers", c11_numbers)];

/// parses the text with the config
fn parse(cfg: &str, text: &[u8]) -> err::Result<Graph> {
    std::fs::write("g.fmi", text).unwrap();
    let g = Parser::parse_and_finalize(parsing_cfg(cfg));
    std::fs::remove_file("g.fmi").unwrap();
    g
}
fn yaml(nodes: &[&str], edges: &[&str]) -> String {
    let mut s = String::from("parsing:\n  map-file: 'g.fmi'\n  nodes:\n");
    for n in nodes {
        s += match *n { "id" => "  - meta: { info: 'NodeId', id: 'node-id' }\n", "lat" => "  - metric: { unit: 'Latitude', id: 'lat' }\n", "lon" => "  - metric: { unit: 'Longitude', id: 'lon' }\n", "lvl" => "  - meta: { info: 'CHLevel', id: 'lvl' }\n", _ => "  - ignored\n" };
    }
    s += "  edges:\n    data:\n";
    for e in edges {
        s += &match *e { "ign" => "    - ignored\n".to_string(), "EdgeId" | "SrcId" | "DstId" | "ShortcutIdx0" | "ShortcutIdx1" => format!("    - meta: {{ info: '{}', id: '{}' }}\n", e, e), m => format!("    - metric: {{ unit: 'F64', id: '{}' }}\n", m) };
    }
    s
}
/// a digit, and its value
fn digit(t: &mut Vec<u8>, lo: u8, hi: u8) -> u8 {
    let d = sym::u("digit", lo as u64, hi as u64) as u8;
    t.push(b'0' + d);
    d
}
struct N { id: i64, lat: f64, lon: f64, lvl: usize }
fn judge(g: &Graph, ns: &[N], es: &[E]) {
    let (n, f, b) = (g.nodes(), g.fwd_edges(), g.bwd_edges());
    sym::check(n.count() == ns.len(), "number of nodes");
    for x in ns {
        let i = n.idx_from(x.id);
        sym::check(i.is_ok(), "node of the file is part of the graph");
        let i = i.unwrap();
        sym::check(n.id(i) == x.id, "id of node");
        sym::check(n.coord(i).lat == x.lat && n.coord(i).lon == x.lon, "coordinate of node");
        sym::check(n.level(i) == x.lvl, "level of node");
    }
    sym::check(f.count() == es.len(), "number of edges");
    for x in es {
        // edges are told apart by their first metric
        let mut found = false;
        for k in 0..f.count() {
            let i = EdgeIdx(k);
            if g.metrics()[i][0] == x.m[0] && !found {
                found = true;
                sym::check(n.id(b.dst_idx(i)) == x.src && n.id(f.dst_idx(i)) == x.dst, "src and dst of edge");
                sym::check(f.try_id(i) == x.id, "id of edge");
                sym::check(g.metrics()[i].len() == x.m.len(), "number of metrics");
                for j in 0..x.m.len() { sym::check(g.metrics()[i][j] == x.m[j], "metric of edge"); }
            }
        }
        sym::check(found, "edge of the file is part of the graph");
    }
}
/// coordinates, levels and metrics of any digits
#[no_mangle]
pub extern "C" fn c11_values() {
    let mut t = b"3\n2\n".to_vec();
    let mut ns = vec![];
    for k in 0..3 {
        t.extend(format!("{} ", [7, -3, 12][k]).bytes());
        let mut v = [0.0; 2];
        for x in v.iter_mut() {
            let neg = k == 1;
            if neg { t.push(b'-'); }
            let a = digit(&mut t, 0, 9);
            t.push(b'.');
            let b = if k == 0 { digit(&mut t, 0, 9) } else { t.push(b'5'); 5 };
            t.push(b' ');
            *x = (a as f64 * 10.0 + b as f64) / 10.0;
            if neg { *x = -*x; }
        }
        let lvl = digit(&mut t, 0, 9) as usize;
        t.push(b'\n');
        ns.push(N { id: [7, -3, 12][k], lat: v[0], lon: v[1], lvl });
    }
    let mut es = vec![];
    for k in 0..2 {
        let (a, b) = [(7, 12), (12, -3)][k];
        t.extend(format!("{} {} {} ", a, b, k + 1).bytes());
        let d = digit(&mut t, 1, 9);
        t.push(b'e');
        t.push(b'1');
        t.push(b' ');
        let (x, y) = (digit(&mut t, 0, 9), digit(&mut t, 1, 9));
        t.push(b'\n');
        es.push(E { id: None, src: a, dst: b, m: vec![k as f64 + 1.0, d as f64 * 10.0, x as f64 * 10.0 + y as f64], sc: None });
    }
    let g = parse(&yaml(&["id", "lat", "lon", "lvl"], &["SrcId", "DstId", "k", "a", "b"]), &t).unwrap();
    judge(&g, &ns, &es);
    sym::cover("end");
}
const NS: &[&str] = &["id", "lat", "lon"];
fn nodes(ids: &[i64]) -> (Vec<u8>, Vec<N>) {
    let (mut t, mut ns) = (vec![], vec![]);
    for (k, id) in ids.iter().enumerate() {
        t.extend(format!("{} {}.5 -{}.25\n", id, 40 + k, k).bytes());
        ns.push(N { id: *id, lat: 40.5 + k as f64, lon: -0.25 - k as f64, lvl: 0 });
    }
    (t, ns)
}
/// any edges between any nodes, with ids
#[no_mangle]
pub extern "C" fn c11_edges() {
    let (nt, ns) = nodes(&[1, 4, 5, 9]);
    let mut t = b"4\n3\n".to_vec();
    t.extend(&nt);
    let mut es = vec![];
    let mut used = [false; 4];
    for k in 0..3u8 {
        let mut v = [0i64; 2];
        for x in v.iter_mut() {
            let d = sym::conc_us(sym::us("node", 0, 3));
            used[d] = true;
            *x = ns[d].id;
            t.push(b'0' + *x as u8);
            t.push(b' ');
        }
        // ids are different
        let chid = k == 1;
        if chid { t.extend(b"ch"); }
        t.push(b'3' - k);
        let id = digit(&mut t, 0, 9);
        t.extend(format!(" {}.5\n", k + 1).bytes());
        es.push(E { id: Some((3 - k as usize) * 10 + id as usize), src: v[0], dst: v[1], m: vec![k as f64 + 1.5], sc: None });
    }
    let g = parse(&yaml(NS, &["SrcId", "DstId", "EdgeId", "k"]), &t).unwrap();
    let mut all = vec![];
    for (k, n) in ns.into_iter().enumerate() { if used[k] { all.push(n); } }
    judge(&g, &all, &es);
    for x in &es { sym::check(g.fwd_edges().try_idx_from(x.id.unwrap()).map(|i| g.metrics()[i][0] == x.m[0]).unwrap_or(false), "edge is found by its id"); }
    sym::cover("end");
}
/// comments, blank lines, further header-lines, blanks and line-ends anywhere
#[no_mangle]
pub extern "C" fn c11_layout() {
    let nl = ["\n", "\r\n"][sym::conc_us(sym::us("nl", 0, 1))];
    let sep = [" ", "\t", "  \t "][sym::conc_us(sym::us("sep", 0, 2))];
    let head = ["", "# a b c|", "#|#|", "|", "not a count|", "one two three|", "xyz|# 5|", "17|"][sym::conc_us(sym::us("head", 0, 7))];
    // an extra line after one of the lines
    let noise = ["", "# 1 2 3", "#", "#9"][sym::conc_us(sym::us("noise", 0, 3))];
    let at = sym::conc_us(sym::us("at", 0, 6));
    let last = sym::conc_us(sym::us("last", 0, 1));
    let lines = ["3", "2", "7 1.5 2.5", "8 3.5 -4.5", "-9 5.5 6.5", "7 8 0.5", "8 -9 1.5"];
    let mut t = head.to_string();
    for (k, l) in lines.iter().enumerate() {
        t += l;
        if k < 6 || last == 1 { t += "|"; }
        if k == at && !(k == 6 && last == 0) { t += noise; t += "|"; }
    }
    let t = t.replace(" ", sep).replace("|", nl);
    let g = parse(&yaml(NS, &["SrcId", "DstId", "k"]), t.as_bytes()).unwrap();
    let ns = [N { id: 7, lat: 1.5, lon: 2.5, lvl: 0 }, N { id: 8, lat: 3.5, lon: -4.5, lvl: 0 }, N { id: -9, lat: 5.5, lon: 6.5, lvl: 0 }];
    judge(&g, &ns, &[e(7, 8, &[0.5]), e(8, -9, &[1.5])]);
    sym::cover("end");
}
/// any order of the columns, ignored columns in between
#[no_mangle]
pub extern "C" fn c11_columns() {
    let mut nc = vec!["id", "lat", "lon", "lvl", "ign"];
    let mut ec = vec!["SrcId", "DstId", "k", "EdgeId", "m", "ign"];
    let (i, j) = (sym::conc_us(sym::us("i", 0, 4)), sym::conc_us(sym::us("j", 0, 4)));
    nc.swap(i, j);
    let (i, j, k) = (sym::conc_us(sym::us("ei", 0, 5)), sym::conc_us(sym::us("ej", 0, 5)), sym::conc_us(sym::us("ek", 0, 2)));
    ec.swap(i, j);
    ec.rotate_left(k);
    let mut t = String::from("2\n1\n");
    for n in 0..2 {
        for c in &nc { t += match *c { "id" => ["5", "3"][n], "lat" => ["1.5", "-2.5"][n], "lon" => ["0.25", "100"][n], "lvl" => ["8", "4"][n], _ => ["foo", "8.5"][n] }; t += " "; }
        t += "more 1 2\n";
    }
    for c in &ec { t += match *c { "SrcId" => "5", "DstId" => "3", "k" => "3.5", "EdgeId" => "42", "m" => "0.125", _ => "bar" }; t += " "; }
    let g = parse(&yaml(&nc, &ec), t.as_bytes()).unwrap();
    let ns = [N { id: 5, lat: 1.5, lon: 0.25, lvl: 8 }, N { id: 3, lat: -2.5, lon: 100.0, lvl: 4 }];
    // metrics keep the order of the config
    let (a, b) = (ec.iter().position(|c| *c == "k").unwrap(), ec.iter().position(|c| *c == "m").unwrap());
    let m = if a < b { vec![3.5, 0.125] } else { vec![0.125, 3.5] };
    sym::check(g.cfg().edges.metrics.ids[0].0 == if a < b { "k" } else { "m" }, "order of metrics");
    judge(&g, &ns, &[E { id: Some(42), src: 5, dst: 3, m, sc: None }]);
    sym::cover("end");
}
/// shortcuts refer to lines of edges, -1 means none
#[no_mangle]
pub extern "C" fn c11_shortcuts() {
    let (nt, ns) = nodes(&[5, 2, 8]);
    let mut t = b"3\n4\n".to_vec();
    t.extend(&nt);
    let st = [(8, 5), (5, 2), (2, 8), (5, 8)];
    let sc = sym::conc_us(sym::us("which", 0, 3));
    let mut refs = [0, 0];
    for k in 0..4 {
        t.extend(format!("{} {} ", st[k].0, st[k].1).bytes());
        if k == sc { for r in refs.iter_mut() { *r = digit(&mut t, 0, 3) as usize; t.push(b' '); } } else { t.extend(b"-1 -1 "); }
        t.extend(format!("{}.5\n", k).bytes());
    }
    let g = parse(&yaml(NS, &["SrcId", "DstId", "ShortcutIdx0", "ShortcutIdx1", "k"]), &t).unwrap();
    let es: Vec<E> = st.iter().enumerate().map(|(k, &(a, b))| e(a, b, &[k as f64 + 0.5])).collect();
    judge(&g, &ns, &es);
    let f = g.fwd_edges();
    for k in 0..4 {
        let x = edge(&g, st[k].0, st[k].1);
        sym::check(f.is_shortcut(x) == (k == sc), "shortcut of the file is a shortcut");
        if k == sc {
            let s = f.sc_edges(x).unwrap();
            for j in 0..2 { let (a, b) = st[sym::conc_us(refs[j])]; sym::check(s[j] == edge(&g, a, b), "edge behind the shortcut"); }
        }
    }
    sym::cover("end");
}
/// the last two counts are the ones of nodes and edges; only so many lines are read
#[no_mangle]
pub extern "C" fn c11_counts() {
    let (nc, ec) = (sym::conc_us(sym::us("nodes", 2, 4)), sym::conc_us(sym::us("edges", 1, 3)));
    let (nt, mut ns) = nodes(&[5, 2, 8, 4][..nc]);
    let mut t = ["", "2\n", "1\n2\n"][sym::conc_us(sym::us("more", 0, 2))].as_bytes().to_vec();
    t.extend(format!("{}\n{}\n", nc, ec).bytes());
    t.extend(&nt);
    let mut es = vec![];
    for k in 0..3 {
        t.extend(format!("{} {} {}.5\n", 5 - 3 * (k % 2), 2 + 3 * (k % 2), k).bytes());
        if (k as usize) < ec { es.push(e(5 - 3 * (k % 2), 2 + 3 * (k % 2), &[k as f64 + 0.5])); }
    }
    ns.truncate(2);
    let g = parse(&yaml(NS, &["SrcId", "DstId", "k"]), &t).unwrap();
    judge(&g, &ns, &es);
    sym::cover("end");
}

/// ids, levels, coordinates and metrics of any size and precision stand in the graph as in the file
#[no_mangle]
pub extern "C" fn c11_numbers() {
    const NODE: [&str; 9] = ["0", "7", "-1", "-9223372036854775808", "9223372036854775807", "4294967296", "+5", "65536", "007"];
    const EDGE: [&str; 11] = ["0", "255", "65536", "4294967296", "18446744073709551615", "ch0", "ch65536", "ch4294967297", "ch18446744073709551615", "ch007", "+3"];
    const LEVEL: [&str; 5] = ["0", "256", "65536", "4294967296", "18446744073709551615"];
    const F: [&str; 12] = ["0.1", "1e300", "4.9e-2", "16777217", "123456789.012345678", "0.30000000000000004", "1E3", "+2.5", ".75", "3.", "1e-5", "90"];
    const C: [&str; 10] = ["48.1234567890123", "-89.99999999999999", "90", "-0.0000001", "0.1", "1e2", "179.99999999999997", "-180", "+12.5", "00.5"];
    let c = sym::conc_us(sym::us("column", 0, 5));
    let mut v = ["11", "9", "1.5", "2.5", "4", "1.25"];
    let t: &[&str] = [&NODE[..], &EDGE[..], &C[..], &C[..], &LEVEL[..], &F[..]][c];
    v[c] = t[sym::conc_us(sym::us("value", 0, t.len() - 1))];
    let second = sym::conc_us(sym::us("line", 0, 1)) == 1;
    let (a, b) = (format!("{} {} {} {}\n", v[0], v[2], v[3], v[4]), "12 3.5 4.5 5\n");
    let text = format!("2\n2\n{}{}{} 12 {} {} 1\n12 {} 77 2.5 2\n", if second { b } else { &a }, if second { &a } else { b }, v[0], v[1], v[5], v[0]);
    let g = parse(&yaml(&["id", "lat", "lon", "lvl"], &["SrcId", "DstId", "EdgeId", "m", "n"]), text.as_bytes());
    sym::check(g.is_ok(), "proper numbers are read");
    let id: i64 = v[0].parse().unwrap();
    let eid: usize = if v[1].starts_with("ch") { v[1][2..].parse().unwrap() } else { v[1].parse().unwrap() };
    let ns = [N { id, lat: v[2].parse().unwrap(), lon: v[3].parse().unwrap(), lvl: v[4].parse().unwrap() }, N { id: 12, lat: 3.5, lon: 4.5, lvl: 5 }];
    let m: f64 = v[5].parse().unwrap();
    let es = [E { id: Some(eid), src: id, dst: 12, m: vec![m, 1.0], sc: None }, E { id: Some(77), src: 12, dst: id, m: vec![2.5, 2.0], sc: None }];
    // two metrics may be equal, so the second one tells them apart
    let g = g.unwrap();
    if m != 2.5 { judge(&g, &ns, &es); }
    sym::check(g.fwd_edges().try_idx_from(eid).is_ok(), "edge is found by its id");
    sym::cover("end");
}
