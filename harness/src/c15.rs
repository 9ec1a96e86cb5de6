//! C15: ways of an osm.pbf-file become edges.
use crate::{sym, util::parsing_cfg};
use osmgraphing::{configs, io::network::graph::Parser, network::*};

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("c15_way", c15_way),
    ("c15_ways", c15_ways),
    ("c15_ways_t", c15_ways_t),
    ("c15_tags", c15_tags),
    ("c15_coords", c15_coords),
    ("c15_missing", c15_missing),
    ("c15_columns", c15_columns),
    ("c15_other", c15_other),
    ("c15_other_t", c15_other_t),
    ("c15_broken", c15_broken),
];

// ---- a writer of the format (https://wiki.openstreetmap.org/wiki/PBF_Format)
fn varint(o: &mut Vec<u8>, mut v: u64) { while v > 127 { o.push((v & 127) as u8 | 128); v >>= 7; } o.push(v as u8); }
fn zig(v: i64) -> u64 { ((v << 1) ^ (v >> 63)) as u64 }
fn num(o: &mut Vec<u8>, field: u64, v: u64) { varint(o, field << 3); varint(o, v); }
fn bytes(o: &mut Vec<u8>, field: u64, b: &[u8]) { varint(o, field << 3 | 2); varint(o, b.len() as u64); o.extend_from_slice(b); }
fn packed(o: &mut Vec<u8>, field: u64, v: &[u64]) { let mut b = vec![]; for &x in v { varint(&mut b, x); } bytes(o, field, &b); }
fn deltas(v: &[i64]) -> Vec<u64> { let mut last = 0; v.iter().map(|&x| { let d = zig(x - last); last = x; d }).collect() }
#[derive(Clone)]
struct W { refs: Vec<i64>, tags: Vec<(&'static str, &'static str)> }
struct N { id: i64, lat: i64, lon: i64 }
fn blob(kind: &str, data: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    bytes(&mut b, 1, data);
    let mut h = vec![];
    bytes(&mut h, 1, kind.as_bytes());
    num(&mut h, 3, b.len() as u64);
    let mut o = (h.len() as u32).to_be_bytes().to_vec();
    o.extend(h);
    o.extend(b);
    o
}
/// one block with nodes (dense or not) and ways
fn block(ns: &[N], dense: bool, ws: &[W]) -> Vec<u8> {
    let mut strings: Vec<&str> = vec![""];
    let mut g = vec![];
    if dense {
        let mut d = vec![];
        packed(&mut d, 1, &deltas(&ns.iter().map(|n| n.id).collect::<Vec<_>>()));
        packed(&mut d, 8, &deltas(&ns.iter().map(|n| n.lat).collect::<Vec<_>>()));
        packed(&mut d, 9, &deltas(&ns.iter().map(|n| n.lon).collect::<Vec<_>>()));
        bytes(&mut g, 2, &d);
    } else {
        for n in ns {
            let mut m = vec![];
            num(&mut m, 1, zig(n.id));
            num(&mut m, 8, zig(n.lat));
            num(&mut m, 9, zig(n.lon));
            bytes(&mut g, 1, &m);
        }
    }
    for (k, w) in ws.iter().enumerate() {
        let mut m = vec![];
        num(&mut m, 1, 100 + k as u64);
        let (mut keys, mut vals) = (vec![], vec![]);
        for (a, b) in &w.tags { keys.push(strings.len() as u64); strings.push(a); vals.push(strings.len() as u64); strings.push(b); }
        packed(&mut m, 2, &keys);
        packed(&mut m, 3, &vals);
        packed(&mut m, 8, &deltas(&w.refs));
        bytes(&mut g, 3, &m);
    }
    let mut t = vec![];
    for s in &strings { bytes(&mut t, 1, s.as_bytes()); }
    let mut b = vec![];
    bytes(&mut b, 1, &t);
    bytes(&mut b, 2, &g);
    blob("OSMData", &b)
}
fn cfg(vehicle: &str, picky: bool) -> configs::parsing::Config {
    let y = format!("parsing:\n  map-file: 'c15.pbf'\n  vehicles:\n    category: '{}'\n    are_drivers_picky: {}\n  nodes:\n  - meta: {{ info: 'NodeId', id: 'n' }}\n  - metric: {{ unit: 'Latitude', id: 'lat' }}\n  - metric: {{ unit: 'Longitude', id: 'lon' }}\n  edges:\n    data:\n    - meta: {{ info: 'SrcId', id: 's' }}\n    - meta: {{ info: 'DstId', id: 'd' }}\n    - metric: {{ unit: 'KilometersPerHour', id: 'kmph' }}\n    - ignored\n    - metric: {{ unit: 'LaneCount', id: 'lanes' }}\n", vehicle, picky);
    parsing_cfg(&y)
}
fn parse(file: &[u8], c: configs::parsing::Config) -> osmgraphing::helpers::err::Result<Graph> {
    std::fs::write("c15.pbf", file).unwrap();
    Parser::parse_and_finalize(c)
}
const IDS: [i64; 4] = [7, -3, 40, 1 << 33];
fn nodes(k: usize) -> Vec<N> { (0..k).map(|i| N { id: IDS[i], lat: 480000000 + 1000 * i as i64, lon: 90000000 + 2500 * i as i64 }).collect() }
/// source, destination, speed, lanes
type X = (i64, i64, f64, f64);
fn check(g: &Graph, want: &[X]) {
    let mut w: Vec<X> = vec![];
    for x in want { if !w.contains(x) { w.push(*x); } }
    let (f, b, n) = (g.fwd_edges(), g.bwd_edges(), g.nodes());
    sym::check(f.count() == w.len() && b.count() == w.len(), "number of edges");
    let mut used: Vec<i64> = vec![];
    for x in &w { for id in &[x.0, x.1] { if !used.contains(id) { used.push(*id); } } }
    sym::check(n.count() == used.len(), "number of nodes");
    sym::obs("edges", f.count() as u64);
    let mut got: Vec<X> = vec![];
    for e in &f {
        let m = &g.metrics()[e];
        got.push((n.id(b.dst_idx(e)), n.id(f.dst_idx(e)), m[0], m[1]));
    }
    for x in &w { sym::check(got.contains(x), "an edge of a way is missing"); }
    for x in &got { sym::check(w.contains(x), "an edge that no way has"); }
}
/// what a way means
fn expect(w: &W, speed: f64, lanes: f64, oneway: bool, reverse: bool) -> Vec<X> {
    let mut out = vec![];
    for p in w.refs.windows(2) {
        if !oneway || !reverse { out.push((p[0], p[1], speed, lanes)); }
        if !oneway || reverse { out.push((p[1], p[0], speed, lanes)); }
    }
    out
}
fn refs(n: usize, k: usize, name: &str) -> Vec<i64> { (0..n).map(|i| IDS[sym::conc_us(sym::us(&format!("{}{}", name, i), 0, k - 1))]).collect() }
fn oneway(name: &str) -> (Option<&'static str>, bool, bool) {
    match sym::conc_us(sym::us(name, 0, 3)) { 0 => (None, false, false), 1 => (Some("yes"), true, false), 2 => (Some("-1"), true, true), _ => (Some("no"), false, false) }
}
fn finish(r: osmgraphing::helpers::err::Result<Graph>, want: &[X]) {
    match r {
        Err(_) => sym::fail("the file is fine, but parsing fails"),
        Ok(g) => { sym::cover(if want.is_empty() { "empty" } else { "edges" }); check(&g, want) }
    }
}
/// one way of any nodes, also the same one several times
#[no_mangle]
pub extern "C" fn c15_way() {
    let k = 3;
    let n = sym::conc_us(sym::us("n", 0, 4));
    let mut w = W { refs: refs(n, k, "r"), tags: vec![("name", "x"), ("highway", "primary"), ("maxspeed", "80")] };
    let (t, one, rev) = oneway("oneway");
    if let Some(t) = t { w.tags.push(("oneway", t)); }
    let dense = sym::decide(sym::b("dense"));
    let want = expect(&w, 80.0, 2.0, one, rev);
    let mut file = blob("OSMHeader", &[]);
    file.extend(block(&nodes(k), dense, &[w]));
    finish(parse(&file, cfg("Car", false)), &want);
}
fn ways(nw: usize, k: usize) {
    const KINDS: [(&str, f64, f64, bool); 4] = [("residential", 50.0, 1.0, true), ("motorway", 130.0, 3.0, true), ("footway", 5.0, 1.0, false), ("platform", 0.0, 0.0, false)];
    let (mut ws, mut want) = (vec![], vec![]);
    for i in 0..nw {
        let n = 2 + sym::conc_us(sym::us(&format!("n{}", i), 0, 1));
        let kind = KINDS[sym::conc_us(sym::us(&format!("kind{}", i), 0, 3))];
        let (t, one, rev) = if i == 0 { oneway("oneway") } else { (None, false, false) };
        let mut w = W { refs: refs(n, k, &format!("w{}r", i)), tags: vec![("highway", kind.0)] };
        if let Some(t) = t { w.tags.push(("oneway", t)); }
        if kind.3 { want.extend(expect(&w, kind.1, kind.2, one, rev)); }
        ws.push(w);
    }
    // nodes in front of or behind the ways, in one or several blocks
    let mut file = blob("OSMHeader", &[]);
    match sym::conc_us(sym::us("layout", 0, 2)) {
        0 => file.extend(block(&nodes(k), true, &ws)),
        1 => { file.extend(block(&nodes(k), true, &ws[..1])); file.extend(block(&[], true, &ws[1..])); }
        _ => { file.extend(block(&[], false, &ws)); file.extend(blob("OSMHeader", &[])); file.extend(block(&nodes(k), false, &[])); }
    }
    finish(parse(&file, cfg("Car", true)), &want);
}
#[no_mangle]
pub extern "C" fn c15_ways() { ways(2, 2) }
#[no_mangle]
pub extern "C" fn c15_ways_t() { ways(2, 3) }
/// which streets are used by whom, at which speed
#[no_mangle]
pub extern "C" fn c15_tags() {
    // name, speed, lanes, car, bicycle, pedestrian (y: all drivers, u: unpicky ones)
    const STREETS: [(&str, f64, f64, &str); 9] = [("trunk", 100.0, 2.0, "y--"), ("primary_link", 30.0, 1.0, "yu-"), ("tertiary", 70.0, 1.0, "yy-"), ("living_street", 15.0, 1.0, "yyy"), ("track", 30.0, 1.0, "uuy"), ("cycleway", 25.0, 1.0, "-y-"), ("path", 15.0, 1.0, "-uy"), ("construction", 0.0, 0.0, "---"), ("anything else", 0.0, 0.0, "---")];
    let s = STREETS[sym::conc_us(sym::us("street", 0, 8))];
    let v = sym::conc_us(sym::us("vehicle", 0, 2));
    let picky = sym::decide(sym::b("picky"));
    let (max, speed) = match sym::conc_us(sym::us("maxspeed", 0, 4)) { 0 => (None, s.1), 1 => (Some("30"), 30.0), 2 => (Some("3"), 5.0), 3 => (Some("none"), s.1), _ => (Some("de:urban"), 50.0) };
    let mut w = W { refs: vec![IDS[0], IDS[1]], tags: vec![] };
    let tagged = sym::decide(sym::b("tagged"));
    if tagged { w.tags.push(("highway", s.0)); }
    if let Some(m) = max { w.tags.push(("maxspeed", m)); }
    let used = match s.3.as_bytes()[v] { b'y' => true, b'u' => !picky, _ => false } && tagged;
    let want = if used { expect(&w, speed, s.2, false, false) } else { vec![] };
    // another way, that everybody uses
    let all = W { refs: vec![IDS[2], IDS[1]], tags: vec![("highway", "residential")] };
    let mut want2 = expect(&all, 50.0, 1.0, false, false);
    want2.extend(want);
    finish(parse(&block(&nodes(3), true, &[w, all]), cfg(["Car", "Bicycle", "Pedestrian"][v], picky)), &want2);
}
fn other(max: usize) {
    let word = |name: &str, lo: u64, n: usize| -> &'static str {
        let b: Vec<u8> = (0..n).map(|i| sym::u(&format!("{}{}", name, i), lo, 0x7a) as u8).collect();
        Box::leak(unsafe { String::from_utf8_unchecked(b) }.into_boxed_str())
    };
    let key = word("k", 0x3a, sym::conc_us(sym::us("len-key", 1, max)));
    let value = word("v", 0x2d, sym::conc_us(sym::us("len-value", 1, max)));
    for known in &["highway", "maxspeed", "oneway"] {
        if known.len() == key.len() { sym::assume(known.as_bytes() != key.as_bytes()); }
    }
    let mut w = W { refs: vec![IDS[0], IDS[1], IDS[2], IDS[0]], tags: vec![("highway", "residential"), (key, value)] };
    let (t, one, rev) = oneway("oneway");
    if let Some(t) = t { w.tags.push(("oneway", t)); }
    let want = expect(&w, 50.0, 1.0, one, rev);
    finish(parse(&block(&nodes(3), true, &[w]), cfg("Car", false)), &want);
}
/// any other tag of a way changes nothing
#[no_mangle]
pub extern "C" fn c15_other() { other(10) }
#[no_mangle]
pub extern "C" fn c15_other_t() { other(16) }
/// coordinates and ids of nodes
#[no_mangle]
pub extern "C" fn c15_coords() {
    const LATS: [i64; 6] = [0, 1, -1, 487778450, -900000000, 900000000];
    const LONS: [i64; 6] = [0, 91801239, -1, 17, -1800000000, 1800000000];
    const ID: [i64; 4] = [0, -1, i64::max_value() / 4, 9007199254740993];
    let (a, b) = (sym::conc_us(sym::us("lat", 0, 5)), sym::conc_us(sym::us("lon", 0, 5)));
    let id = ID[sym::conc_us(sym::us("id", 0, 3))];
    let dense = sym::decide(sym::b("dense"));
    let ns = [N { id, lat: LATS[a], lon: LONS[b] }, N { id: 5, lat: LATS[b], lon: LONS[a] }, N { id: 6, lat: 3, lon: 4 }];
    let w = W { refs: vec![id, 5], tags: vec![("highway", "residential")] };
    match parse(&block(&ns, dense, &[w]), cfg("Bicycle", false)) {
        Err(_) => sym::fail("the file is fine, but parsing fails"),
        Ok(g) => {
            sym::cover("end");
            let n = g.nodes();
            sym::check(n.count() == 2, "only nodes of edges are part of the graph");
            for (i, x) in ns[..2].iter().enumerate() {
                match n.idx_from(x.id) {
                    Err(_) => sym::fail("a node is missing"),
                    Ok(idx) => {
                        let c = n.coord(idx);
                        sym::check(c.lat == LATS[if i == 0 { a } else { b }] as f64 * 1e-7 || near(c.lat, x.lat as f64 / 1e7), "latitude");
                        sym::check(near(c.lon, x.lon as f64 / 1e7), "longitude");
                        sym::obs_f("lat", c.lat);
                        sym::check(n.level(idx) == 0, "level of a node");
                    }
                }
            }
        }
    }
}
fn near(a: f64, b: f64) -> bool { a - b < 1e-9 && b - a < 1e-9 }
/// nodes of a way that are not part of the file
#[no_mangle]
pub extern "C" fn c15_missing() {
    let k = sym::conc_us(sym::us("known", 0, 3));
    let w = W { refs: refs(3, 3, "r"), tags: vec![("highway", if sym::decide(sym::b("street")) { "residential" } else { "construction" })] };
    let street = w.tags[0].1 == "residential";
    let mut missing = false;
    for r in &w.refs { if !IDS[..k].contains(r) { missing = true; } }
    let want = if street { expect(&w, 50.0, 1.0, false, false) } else { vec![] };
    let r = parse(&block(&nodes(k), true, &[w]), cfg("Car", false));
    if missing && street { sym::cover("missing"); sym::check(r.is_err(), "an edge's node isn't part of the file, but the file is accepted"); }
    else { finish(r, &want) }
}
/// what a pbf-file does not provide is refused
#[no_mangle]
pub extern "C" fn c15_columns() {
    const COLS: [(&str, bool); 18] = [("- meta: { info: 'EdgeId', id: 'x' }", false), ("- meta: { info: 'SrcIdx', id: 'x' }", false), ("- meta: { info: 'DstIdx', id: 'x' }", false),
        ("- meta: { info: 'SrcLat', id: 'x' }", false), ("- meta: { info: 'SrcLon', id: 'x' }", false), ("- meta: { info: 'DstLat', id: 'x' }", false), ("- meta: { info: 'DstLon', id: 'x' }", false),
        ("- meta: { info: 'ShortcutIdx0', id: 'x' }", false), ("- meta: { info: 'ShortcutIdx1', id: 'x' }", false),
        ("- metric: { unit: 'Meters', id: 'x' }", false), ("- metric: { unit: 'Kilometers', id: 'x' }", false), ("- metric: { unit: 'Seconds', id: 'x' }", false), ("- metric: { unit: 'Minutes', id: 'x' }", false), ("- metric: { unit: 'Hours', id: 'x' }", false), ("- metric: { unit: 'F64', id: 'x' }", false),
        ("- ignored", true), ("- metric: { unit: 'LaneCount', id: 'x' }", true), ("- metric: { unit: 'KilometersPerHour', id: 'x' }", true)];
    let c = COLS[sym::conc_us(sym::us("column", 0, 17))];
    let y = format!("parsing:\n  map-file: 'c15.pbf'\n  nodes:\n  - meta: {{ info: 'NodeId', id: 'n' }}\n  - metric: {{ unit: 'Latitude', id: 'lat' }}\n  - metric: {{ unit: 'Longitude', id: 'lon' }}\n  edges:\n    data:\n    - meta: {{ info: 'SrcId', id: 's' }}\n    {}\n    - meta: {{ info: 'DstId', id: 'd' }}\n", c.0);
    let w = W { refs: vec![IDS[0], IDS[1]], tags: vec![("highway", "residential"), ("oneway", "yes")] };
    std::fs::write("c15.yaml", &y).unwrap();
    let r = configs::parsing::Config::try_from_yaml("c15.yaml").and_then(|c| parse(&block(&nodes(2), true, &[w]), c));
    sym::check(r.is_ok() == c.1, "columns of a pbf-file");
    if c.1 { sym::cover("accepted") } else { sym::cover("refused") }
}
/// a block that can not be decoded is reported: the map is not complete
#[no_mangle]
pub extern "C" fn c15_broken() {
    let w = W { refs: vec![IDS[0], IDS[1]], tags: vec![("highway", "residential"), ("oneway", "yes")] };
    let mut file = block(&nodes(2), true, &[w]);
    let broken = sym::decide(sym::b("broken"));
    let b = if broken {
        sym::cover("broken");
        match sym::conc_us(sym::us("how", 0, 3)) {
            // neither a field nor raw data; a field that ends too late; a header that is too large; an unknown compression
            0 => { let mut h = vec![]; bytes(&mut h, 1, b"OSMData"); num(&mut h, 3, 0); let mut o = (h.len() as u32).to_be_bytes().to_vec(); o.extend(h); o }
            1 => blob("OSMData", &[10, 5, 1]),
            2 => vec![255, 255, 255, 255],
            _ => { let mut d = vec![]; bytes(&mut d, 4, &[1, 2, 3]); let mut h = vec![]; bytes(&mut h, 1, b"OSMData"); num(&mut h, 3, d.len() as u64); let mut o = (h.len() as u32).to_be_bytes().to_vec(); o.extend(h); o.extend(d); o }
        }
    } else { block(&[], true, &[]) };
    if sym::decide(sym::b("front")) { let mut f = b; f.extend(file); file = f; } else { file.extend(b); }
    let r = parse(&file, cfg("Car", false));
    if broken { sym::check(r.is_err(), "a part of the map is lost without an error") } else { finish(r, &[(IDS[0], IDS[1], 50.0, 1.0)]) }
}
