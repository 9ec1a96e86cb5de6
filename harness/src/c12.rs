//! C12: malformed files are reported, they neither crash nor are they accepted.
use crate::{sym, util::*};
use osmgraphing::{configs, helpers::err, io::network::graph::Parser, io::routing::Parser as RouteParser, network::*};

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("c12_edge", c12_edge), ("c12_node", c12_node), ("c12_count", c12_count), ("c12_cut", c12_cut), ("c12_tiny", c12_tiny), ("c12_csv", c12_csv), ("c12_routes", c12_routes), ("c12_yaml", c12_yaml), ("c12_missing", c12_missing),
    ("c12_node_t", c12_node_t), ("c12_count_t", c12_count_t), ("c12_tiny_t", c12_tiny_t), ("c12_yaml_t", c12_yaml_t), ("c12_routes_t", c12_routes_t), ("c12_csv_t", c12_csv_t),
];
const CFG: &str = "parsing:\n  map-file: 'g.fmi'\n  nodes:\n  - meta: { info: 'NodeId', id: 'node-id' }\n  - metric: { unit: 'Latitude', id: 'lat' }\n  - metric: { unit: 'Longitude', id: 'lon' }\n  - meta: { info: 'CHLevel', id: 'lvl' }\n  edges:\n    data:\n    - meta: { info: 'SrcId', id: 'src-id' }\n    - meta: { info: 'DstId', id: 'dst-id' }\n    - meta: { info: 'EdgeId', id: 'edge-id' }\n    - meta: { info: 'ShortcutIdx0', id: 's0' }\n    - meta: { info: 'ShortcutIdx1', id: 's1' }\n    - metric: { unit: 'F64', id: 'k' }\n";

fn any(n: usize) -> Vec<u8> { (0..n).map(|_| sym::u("byte", 0, 255) as u8).collect() }
/// plain bytes are no blanks, no comment and ASCII
fn plain(b: &[u8]) -> bool { b.iter().all(|&c| sym::decide(c > b' ' && c < 127 && c != b'#')) }
fn dig(c: u8) -> bool { sym::decide(c >= b'0' && c <= b'9') }
fn unsigned(b: &[u8]) -> bool {
    let b = if sym::decide(b[0] == b'+') { &b[1..] } else { b };
    !b.is_empty() && b.iter().all(|&c| dig(c))
}
fn signed(b: &[u8]) -> bool { unsigned(b) || sym::decide(b[0] == b'-') && b.len() > 1 && b[1..].iter().all(|&c| dig(c)) }
fn value(b: &[u8]) -> u64 { b.iter().fold(0, |v, &c| if c >= b'0' && c <= b'9' { v * 10 + (c - b'0') as u64 } else { v }) }
/// decimal numbers of up to three bytes, with point and exponent
fn real(b: &[u8]) -> bool {
    let mut b = b;
    if sym::decide(b[0] == b'+') || sym::decide(b[0] == b'-') { b = &b[1..]; }
    let word = |w: &[u8]| b.len() == w.len() && (0..w.len()).all(|k| sym::decide(b[k] | 32 == w[k]));
    if word(b"nan") || word(b"inf") { return true; }
    let (mut digits, mut point, mut k) = (0, false, 0);
    while k < b.len() {
        if dig(b[k]) { digits += 1; }
        else if !point && sym::decide(b[k] == b'.') { point = true; }
        else if digits > 0 && sym::decide(b[k] | 32 == b'e') {
            let r = &b[k + 1..];
            return !r.is_empty() && signed(r);
        }
        else { return false; }
        k += 1;
    }
    digits > 0
}
fn nan(b: &[u8]) -> bool { b.len() >= 3 && sym::decide(b[b.len() - 2] | 32 == b'a') }
fn inf(b: &[u8]) -> bool { b.len() >= 3 && sym::decide(b[b.len() - 2] | 32 == b'n') }
fn parse(cfg: &str, text: &[u8]) -> err::Result<Graph> {
    std::fs::write("g.fmi", text).unwrap();
    let g = Parser::parse_and_finalize(parsing_cfg(cfg));
    std::fs::remove_file("g.fmi").unwrap();
    g
}
/// the lines of a file, with the given one replaced
fn lines(ls: &[&str], at: usize, by: &[u8]) -> Vec<u8> {
    let mut t = vec![];
    for (k, l) in ls.iter().enumerate() { if k == at { t.extend(by); } else { t.extend(l.bytes()); } t.push(b'\n'); }
    t
}
/// a line whose column is replaced
fn column(l: &str, at: usize, by: &[u8]) -> Vec<u8> {
    let mut t = vec![];
    for (k, p) in l.split(' ').enumerate() { if k > 0 { t.push(b' '); } if k == at { t.extend(by); } else { t.extend(p.bytes()); } }
    t
}
const LS: [&str; 7] = ["3", "2", "7 1.5 2.5 3", "8 3.5 -4.5 0", "9 5.5 6.5 1", "7 8 100 -1 -1 1.5", "8 9 101 -1 -1 2.5"];
fn judge(g: err::Result<Graph>, valid: bool, plain: bool) {
    match g {
        Ok(g) => {
            sym::cover("accepted");
            if plain { sym::check(valid, "broken value is refused"); }
            sym::check(g.fwd_edges().count() <= 2 && g.nodes().count() <= 3, "no more than the file has");
        }
        Err(_) => {
            sym::cover("refused");
            if plain { sym::check(!valid, "proper value is accepted"); }
        }
    }
}
fn edge_bytes(n: usize) {
    let at = sym::conc_us(sym::us("column", 0, 5));
    let b = any(n);
    let g = parse(CFG, &lines(&LS, 5, &column(LS[5], at, &b)));
    let p = plain(&b);
    let valid = p && match at {
        // only nodes of the file
        0 | 1 => signed(&b) && sym::decide(b[0] != b'-') && sym::decide(value(&b) >= 7 && value(&b) <= 9),
        2 => (unsigned(&b) || b.len() > 2 && sym::decide(b[0] == b'c') && sym::decide(b[1] == b'h') && unsigned(&b[2..])) && sym::decide(value(&b) != 101),
        // the other half of the shortcut is missing
        3 | 4 => unsigned(&b) || b.len() == 2 && sym::decide(b[0] == b'-') && sym::decide(b[1] == b'1'),
        _ => real(&b) && !nan(&b) && !(sym::decide(b[0] == b'-') && (inf(&b) || positive(&b))),
    };
    judge(g, valid, p);
}
/// any digit but zero in front of an exponent
fn positive(b: &[u8]) -> bool {
    for &c in b { if sym::decide(c | 32 == b'e') { return false; } if sym::decide(c > b'0' && c <= b'9') { return true; } }
    false
}
/// any three bytes instead of any column of an edge
#[no_mangle]
pub extern "C" fn c12_edge() { edge_bytes(3) }
fn node_bytes(n: usize) {
    let at = sym::conc_us(sym::us("column", 0, 3));
    let b = any(n);
    // the node belongs to no edge
    let g = parse(CFG, &lines(&["3", "1", LS[2], LS[3], LS[4], LS[5]], 4, &column(LS[4], at, &b)));
    let p = plain(&b);
    let valid = p && match at { 0 => signed(&b), 1 | 2 => real(&b), _ => unsigned(&b) };
    judge(g, valid, p);
}
/// any three bytes instead of any column of a node
#[no_mangle]
pub extern "C" fn c12_node() { node_bytes(2) }
#[no_mangle]
pub extern "C" fn c12_node_t() { node_bytes(3) }
fn count_bytes(n: usize, ls: &[&str]) {
    let at = sym::conc_us(sym::us("line", 0, 1));
    let b = any(n);
    let g = parse(CFG, &lines(ls, at, &b));
    // too many nodes: edges are read as nodes, too few: nodes are read as edges
    judge(g, false, false);
}
/// any three bytes instead of a count
#[no_mangle]
pub extern "C" fn c12_count() {
    if sym::conc_us(sym::us("huge", 0, 1)) == 1 {
        let c = ["18446744073709551615", "18446744073709551614", "9223372036854775807", "99999999999999999999", "-1", "1e3", "0x10"][sym::conc_us(sym::us("count", 0, 6))];
        judge(parse(CFG, &lines(&LS, sym::conc_us(sym::us("line", 0, 1)), c.as_bytes())), false, false);
        return;
    }
    count_bytes(3, &LS)
}
#[no_mangle]
pub extern "C" fn c12_count_t() { count_bytes(4, &LS) }
/// the file ends anywhere
#[no_mangle]
pub extern "C" fn c12_cut() {
    let t = lines(&LS, 9, b"");
    let n = sym::conc_us(sym::us("length", 0, t.len()));
    let g = parse(CFG, &t[..n]);
    match g {
        Ok(g) => { sym::cover("accepted"); sym::check(g.fwd_edges().count() <= 2 && g.nodes().count() <= 3, "no more than the file has"); }
        Err(_) => { sym::cover("refused"); sym::check(n < t.len() - 1, "whole file is accepted"); }
    }
}
fn tiny(n: usize) {
    let b = any(n);
    match parse(CFG, &b) {
        Ok(g) => { sym::cover("accepted"); sym::check(g.fwd_edges().count() == 0 && g.nodes().count() == 0, "empty"); }
        Err(_) => sym::cover("refused"),
    }
}
/// a file of any bytes
#[no_mangle]
pub extern "C" fn c12_tiny() { tiny(4) }
#[no_mangle]
pub extern "C" fn c12_tiny_t() { tiny(5) }
fn csv_bytes(n: usize) {
    let at = sym::conc_us(sym::us("column", 0, 2));
    let b = any(n);
    let cfg = CFG.to_string() + "  generating:\n    nodes: []\n    edges:\n    - merge: { from: 'info.csv', with_header-line: false, edge-id: 'edge-id', edges-info: [ ignored, { id: 'edge-id' }, { id: 'k' } ] }\n";
    std::fs::write("info.csv", &lines(&["a 101 4.5", "x 100 3.5"], 1, &column("x 100 3.5", at, &b))).unwrap();
    let g = parse(&cfg, &lines(&LS, 9, b""));
    std::fs::remove_file("info.csv").unwrap();
    let p = plain(&b);
    let valid = p && match at { 0 => true, 1 => unsigned(&b) && b.len() > 2 && sym::decide(value(&b) >= 100 && value(&b) <= 101), _ => real(&b) && !nan(&b) && !(sym::decide(b[0] == b'-') && (inf(&b) || positive(&b))) };
    judge(g, valid, p);
}
/// any three bytes instead of any column of an edges-info-file
#[no_mangle]
pub extern "C" fn c12_csv() { csv_bytes(2) }
#[no_mangle]
pub extern "C" fn c12_csv_t() { csv_bytes(3) }
fn routes_bytes(n: usize) {
    let at = sym::conc_us(sym::us("column", 0, 3));
    let b = any(n);
    let mut ls: Vec<Vec<u8>> = vec![b"2".to_vec(), b"5 6 1".to_vec(), b"-7 8 2".to_vec()];
    if at == 3 { ls[0] = b.clone(); } else { ls[1] = column("5 6 1", at, &b); }
    let mut t = vec![];
    for l in ls { t.extend(l); t.push(b'\n'); }
    let r = routes(&t);
    let p = plain(&b);
    match r {
        Ok(r) => {
            sym::cover("accepted");
            if p {
                sym::check(match at { 0 | 1 => signed(&b), _ => unsigned(&b) }, "broken value is refused");
                if at < 3 { sym::check(r.len() == 2, "number of routes"); } else { sym::check(r.len() as u64 <= value(&b), "number of routes"); }
            }
        }
        Err(_) => {
            sym::cover("refused");
            if p { sym::check(!match at { 0 | 1 => signed(&b), _ => unsigned(&b) }, "proper value is accepted"); }
        }
    }
}
fn routes(t: &[u8]) -> err::Result<Vec<(RoutePair<i64>, usize)>> {
    std::fs::write("r.route-pairs", t).unwrap();
    let cfg = configs::routing::Config::try_from_str("routing:\n  route-pairs-file: 'r.route-pairs'\n  algorithm: Dijkstra\n  metrics: [{ id: 'k' }]\n", &parsing_cfg(CFG)).unwrap();
    let r = RouteParser::parse(&cfg);
    std::fs::remove_file("r.route-pairs").unwrap();
    r
}
/// any three bytes instead of any value of a routes-file
#[no_mangle]
pub extern "C" fn c12_routes() { routes_bytes(3) }
#[no_mangle]
pub extern "C" fn c12_routes_t() { routes_bytes(4) }
/// any byte at any place of a config
fn yaml_bytes(step: usize, n: usize) {
    let t = "parsing:\n  map-file: 'g.fmi'\n  nodes:\n  - meta: { info: 'NodeId', id: 'n' }\n  - ignored\n  edges:\n    data:\n    - meta: { info: 'SrcId', id: 's' }\n    - metric: { unit: 'F64', id: 'k' }\n";
    let at = sym::conc_us(sym::us("place", 0, t.len() / step - 1)) * step;
    let mut v = t.as_bytes().to_vec();
    for k in 0..n { if at + k < v.len() { v[at + k] = sym::u("byte", 0, 255) as u8; } }
    std::fs::write("c.yaml", &v).unwrap();
    match configs::parsing::Config::try_from_yaml("c.yaml") { Ok(_) => sym::cover("accepted"), Err(_) => sym::cover("refused") }
    std::fs::remove_file("c.yaml").unwrap();
}
#[no_mangle]
pub extern "C" fn c12_yaml() { yaml_bytes(1, 1) }
#[no_mangle]
pub extern "C" fn c12_yaml_t() { yaml_bytes(1, 2) }
/// files that are missing, directories, unsupported files
#[no_mangle]
pub extern "C" fn c12_missing() {
    let k = sym::conc_us(sym::us("case", 0, 8));
    let cfg = |f: &str| CFG.replace("g.fmi", f);
    let rc = |f: &str| configs::routing::Config::try_from_str(&format!("routing:\n{}  algorithm: Dijkstra\n  metrics: [{{ id: 'k' }}]\n", f), &parsing_cfg(CFG)).unwrap();
    let refused = match k {
        0 => Parser::parse_and_finalize(parsing_cfg(&cfg("no.fmi"))).is_err(),
        1 => Parser::parse_and_finalize(parsing_cfg(&cfg("no.pbf"))).is_err(),
2 => Parser::parse_and_finalize(parsing_cfg(&cfg("\u{e4}.fmi"))).is_err(),
        3 => configs::parsing::Config::try_from_yaml("no.yaml").is_err(),
        4 => { std::fs::write("c.yaml", cfg(["g.txt", "g", ".fmi", "g.fmi.txt"][sym::conc_us(sym::us("file", 0, 3))])).unwrap(); let r = configs::parsing::Config::try_from_yaml("c.yaml").is_err(); std::fs::remove_file("c.yaml").unwrap(); r }
        5 => { std::fs::write("c.txt", CFG).unwrap(); let r = configs::parsing::Config::try_from_yaml("c.txt").is_err(); std::fs::remove_file("c.txt").unwrap(); r }
        6 => RouteParser::parse(&rc("")).is_err(),
        7 => RouteParser::parse(&rc("  route-pairs-file: 'no.route-pairs'\n")).is_err(),
        _ => RouteParser::parse(&rc("  route-pairs-file: 'no.csv'\n")).is_err(),
    };
    sym::check(refused, "file is refused");
    sym::cover("end");
}
