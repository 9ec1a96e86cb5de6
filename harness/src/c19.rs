//! C19: configs mean what the blueprint documents.
use crate::{sym, util::parsing_cfg};
use osmgraphing::{configs::{parsing, routing, writing, SimpleId}, io::SupportingFileExts, network::vehicles::Category as Vehicle};

pub const TABLE: &[(&str, extern "C" fn())] = &[
    ("c19_routing", c19_routing),
    ("c19_routing_t", c19_routing_t),
    ("c19_alpha", c19_alpha),
    ("c19_scale", c19_scale),
    ("c19_ids", c19_ids),
    ("c19_data", c19_data),
    ("c19_vehicles", c19_vehicles),
    ("c19_generating", c19_generating),
    ("c19_writing", c19_writing),
    ("c19_routes", c19_routes),
    ("c19_keys", c19_keys),
    ("c19_ext", c19_ext),
];

fn pick(n: &str, k: usize) -> usize { sym::conc_us(sym::us(n, 0, k - 1)) }
fn word(n: &str, len: usize) -> String {
    let v: Vec<u8> = (0..len).map(|i| sym::u(&format!("{}{}", n, i), b'a' as u64, b'c' as u64) as u8).collect();
    unsafe { String::from_utf8_unchecked(v) }
}
fn base(edges: &str) -> String {
    format!("parsing:\n  map-file: 'g.fmi'\n  nodes:\n  - meta: {{ info: 'NodeId', id: 'n' }}\n  - metric: {{ unit: 'Latitude', id: 'lat' }}\n  - metric: {{ unit: 'Longitude', id: 'lon' }}\n  edges:\n    data:\n    - meta: {{ info: 'SrcId', id: 's' }}\n{}    - meta: {{ info: 'DstId', id: 'd' }}\n", edges)
}
fn metrics(ids: &[&str]) -> String { ids.iter().map(|i| format!("    - metric: {{ unit: 'F64', id: '{}' }}\n", i)).collect() }
fn try_parsing(y: &str) -> osmgraphing::helpers::err::Result<parsing::Config> {
    std::fs::write("cfg.yaml", y).unwrap();
    let r = parsing::Config::try_from_yaml("cfg.yaml");
    std::fs::remove_file("cfg.yaml").unwrap();
    r
}

fn routing(n: usize) {
    const ALPHAS: [(&str, f64); 4] = [("", 1.0), ("alpha: 169.0, ", 169.0), ("alpha: 0, ", 0.0), ("alpha: 0.125, ", 0.125)];
    const SCALES: [(&str, f64); 5] = [("", f64::INFINITY), ("tolerated-scale: 1.5, ", 1.5), ("tolerated-scale: inf, ", f64::INFINITY), ("tolerated-scale: Infinity, ", f64::INFINITY), ("tolerated-scale: nonsense, ", -1.0)];
    let ids = ["km", "h", "w"];
    let p = parsing_cfg(&base(&metrics(&ids)));
    let algo = pick("algo", 3);
    let mut y = format!("other: 1\nrouting:\n  algorithm: {}\n", ["Dijkstra", "CHDijkstra", "Unknown"][algo]);
    let file = sym::decide(sym::b("file"));
    if file { y.push_str("  route-pairs-file: 'a/b.csv'\n"); }
    y.push_str("  metrics:");
    if n == 0 { y.push_str(" []"); }
    let (mut alphas, mut scales, mut ok) = ([0.0; 3], [f64::INFINITY; 3], algo < 2);
    for i in 0..n {
        let m = pick(&format!("m{}", i), 4);
        let (a, s) = (ALPHAS[pick(&format!("a{}", i), 4)], SCALES[if i == 0 { pick("s", 5) } else { 0 }]);
        y.push_str(&format!("\n  - {{ {}{}id: {} }}", a.0, s.0, if m < 3 { ids[m] } else { "unknown" }));
        if m == 3 || s.1 < 0.0 { ok = false; } else { alphas[m] = a.1; scales[m] = s.1; }
    }
    y.push('\n');
    std::fs::write("r.yaml", &y).unwrap();
    let r = if sym::decide(sym::b("from_file")) { routing::Config::try_from_yaml("r.yaml", &p) } else { routing::Config::try_from_str(&y, &p) };
    match r {
        Err(_) => { sym::cover("refused"); sym::check(!ok, "a fine routing-config is refused") }
        Ok(c) => {
            sym::cover("accepted");
            sym::check(ok, "unknown metrics, algorithms or scales are refused");
            if !ok { return; }
            sym::check(c.alphas.len() == 3 && c.tolerated_scales.len() == 3, "as many alphas and scales as metrics");
            for k in 0..3 {
                sym::check(c.alphas[k] == alphas[k], "alpha of a metric (default 1, not mentioned 0)");
                sym::check(c.tolerated_scales[k] == scales[k], "tolerated scale of a metric (default infinite)");
            }
            sym::check(c.routing_algo == if algo == 0 { routing::RoutingAlgo::Dijkstra } else { routing::RoutingAlgo::CHDijkstra }, "algorithm");
            sym::check(c.route_pairs_file.is_some() == file, "routes-file");
            if let Some(f) = &c.route_pairs_file { sym::check(f.to_str() == Some("a/b.csv"), "routes-file"); }
        }
    }
}
#[no_mangle]
pub extern "C" fn c19_routing() { let n = pick("n", 3); routing(n) }
#[no_mangle]
pub extern "C" fn c19_routing_t() { routing(3) }
/// any digits as alpha of the second metric
#[no_mangle]
pub extern "C" fn c19_alpha() {
    let p = parsing_cfg(&base(&metrics(&["km", "h"])));
    let frac = sym::decide(sym::b("fraction"));
    // a fraction is divided by a power of ten, so fewer numbers are looked at
    let n = if frac { 2 } else { 3 };
    let d: Vec<u64> = (0..n).map(|i| { let d = sym::u(&format!("d{}", i), 0, 9); if frac { sym::conc_us(d as usize) as u64 } else { d } }).collect();
    let mut t = String::new();
    for i in 0..n { if frac && i == 1 { t.push('.'); } t.push((b'0' + d[i] as u8) as char); }
    if !frac { sym::assume(d[0] > 0); }
    let y = format!("routing:\n  algorithm: Dijkstra\n  metrics: [{{ id: h, alpha: {} }}]\n", t);
    match routing::Config::try_from_str(&y, &p) {
        Err(_) => { sym::fail("a number is refused") }
        Ok(c) => {
            sym::cover(if frac { "fraction" } else { "integer" });
            let v = d.iter().fold(0, |v, d| v * 10 + d);
            sym::check(c.alphas[1] == if frac { v as f64 / 10.0 } else { v as f64 } && c.alphas[0] == 0.0, "alpha of a metric");
        }
    }
}
/// any text as scale
#[no_mangle]
pub extern "C" fn c19_scale() {
    let p = parsing_cfg(&base(&metrics(&["km", "h"])));
    let n = 1 + pick("n", 2);
    let t: Vec<u8> = (0..n).map(|i| sym::u(&format!("b{}", i), 33, 126) as u8).collect();
    for &b in &t { sym::assume(b != b'\'' && b != b'\\'); }
    let digits = t.iter().all(|b| sym::decide(*b >= b'0' && *b <= b'9'));
    let mut v = 0;
    for &b in &t { if digits { v = v * 10 + (b - b'0') as u64; } }
    let y = format!("routing:\n  algorithm: Dijkstra\n  metrics: [{{ id: km, tolerated-scale: '{}' }}]\n", unsafe { String::from_utf8_unchecked(t) });
    match routing::Config::try_from_str(&y, &p) {
        Err(_) => { sym::cover("refused"); sym::check(!digits, "a number is refused") }
        Ok(c) => {
            sym::cover("accepted");
            if digits { sym::check(c.tolerated_scales[0] == v as f64, "tolerated scale") }
            sym::check(c.tolerated_scales[1] == f64::INFINITY, "scale of another metric");
        }
    }
}
/// ids of edges' columns are unique and name their metric
#[no_mangle]
pub extern "C" fn c19_ids() {
    let (a, b, c) = (word("a", 1), word("b", 1), word("c", 1));
    let kind = sym::decide(sym::b("meta"));
    let third = if kind { format!("    - meta: {{ info: 'EdgeId', id: '{}' }}\n", c) } else { metrics(&[&c]) };
    let y = base(&(metrics(&[&a]) + "    - ignored\n" + &third + "    - ignored\n" + &metrics(&[&b])));
    let same = sym::decide(a == b) || sym::decide(a == c) || sym::decide(b == c);
    match try_parsing(&y) {
        Err(_) => { sym::cover("duplicate"); sym::check(same, "unique ids are refused") }
        Ok(cfg) => {
            sym::cover("unique");
            sym::check(!same, "duplicate ids are accepted");
            let m = &cfg.edges.metrics;
            let ids: Vec<&str> = if kind { vec![&a, &b] } else { vec![&a, &c, &b] };
            sym::check(m.ids.len() == ids.len() && m.units.len() == ids.len(), "number of metrics");
            for (k, id) in ids.iter().enumerate() {
                sym::check(m.ids[k].0 == *id, "metrics are ordered as in the config");
                match m.try_idx_of(id) { Ok(i) => sym::check(*i == k, "index of a metric"), Err(_) => sym::fail("a metric is unknown") }
            }
            sym::check(m.try_idx_of("zz").is_err(), "an unknown metric has an index");
            if kind { sym::check(m.try_idx_of(&c).is_err(), "an edge-id is no metric"); }
        }
    }
}
/// columns stay in order
#[no_mangle]
pub extern "C" fn c19_data() {
    use parsing::edges::{metrics::UnitInfo::*, Category, MetaInfo};
    const UNITS: [(&str, parsing::edges::metrics::UnitInfo); 8] = [("Meters", Meters), ("Kilometers", Kilometers), ("Seconds", Seconds), ("Minutes", Minutes), ("Hours", Hours), ("KilometersPerHour", KilometersPerHour), ("LaneCount", LaneCount), ("F64", F64)];
    let u = [pick("u0", 8), pick("u1", 8)];
    let norm = pick("norm", 3);
    let ext = pick("ext", 4);
    let mut y = base(&format!("    - metric: {{ unit: '{}', id: 'x' }}\n    - meta: {{ info: 'ShortcutIdx0', id: 'sc0' }}\n    - ignored\n    - metric: {{ unit: '{}', id: 'y' }}\n", UNITS[u[0]].0, UNITS[u[1]].0));
    if norm > 0 { y = y.replace("  edges:\n", &format!("  edges:\n    will_normalize_metrics_by_mean: {}\n", norm == 2)); }
    y = y.replace("g.fmi", ["a/g.fmi", "g.osm.pbf", "g.pbf", "g.csv"][ext]);
    match try_parsing(&y) {
        Err(_) => { sym::cover("refused"); sym::check(ext == 3, "a fine config is refused") }
        Ok(c) => {
            sym::cover("accepted");
            sym::check(ext != 3, "a map-file of an unknown kind is accepted");
            sym::check(c.map_file.to_str() == Some(["a/g.fmi", "g.osm.pbf", "g.pbf", "g.csv"][ext]), "map-file");
            sym::check(c.edges.metrics.are_normalized == (norm == 2), "normalising metrics (default no)");
            let k = &c.edges.categories;
            let meta = |i: usize, want: MetaInfo, name: &str| match &k[i] { Category::Meta { info, id } => *info == want && id.0 == name, _ => false };
            let metric = |i: usize, want: usize, name: &str| match &k[i] { Category::Metric { unit, id } => *unit == UNITS[want].1 && id.0 == name, _ => false };
            sym::check(k.len() == 6 && meta(0, MetaInfo::SrcId, "s") && metric(1, u[0], "x") && meta(2, MetaInfo::ShortcutIdx0, "sc0") && (match &k[3] { Category::Ignored => true, _ => false }) && metric(4, u[1], "y") && meta(5, MetaInfo::DstId, "d"), "columns of edges");
            for j in 0..2 { sym::check(c.edges.metrics.units[j] == UNITS[u[j]].1, "unit of a metric"); }
            use parsing::nodes;
            sym::check(c.nodes.categories.len() == 3, "columns of nodes");
            sym::check(match &c.nodes.categories[0] { nodes::Category::Meta { info, id } => *info == nodes::MetaInfo::NodeId && id.0 == "n", _ => false }, "columns of nodes");
            sym::check(match &c.nodes.categories[1] { nodes::Category::Metric { unit, id } => *unit == nodes::metrics::UnitInfo::Latitude && id.0 == "lat", _ => false }, "columns of nodes");
            sym::check(match &c.nodes.categories[2] { nodes::Category::Metric { unit, id } => *unit == nodes::metrics::UnitInfo::Longitude && id.0 == "lon", _ => false }, "columns of nodes");
            sym::check(c.generating.is_none(), "nothing is generated unless requested");
        }
    }
}
#[no_mangle]
pub extern "C" fn c19_vehicles() {
    let (some, cat, picky) = (sym::decide(sym::b("some")), pick("category", 5), pick("picky", 3));
    let mut v = String::new();
    if some {
        v.push_str("  vehicles: { ");
        if cat > 0 { v.push_str(&format!("category: '{}', ", ["Car", "Bicycle", "Pedestrian", "Ship"][cat - 1])); }
        if picky > 0 { v.push_str(&format!("are_drivers_picky: {} ", picky == 2)); }
        v.push_str("}\n");
    }
    let y = base("").replace("  nodes:\n", &(v + "  nodes:\n"));
    match try_parsing(&y) {
        Err(_) => { sym::cover("refused"); sym::check(some && cat == 4, "a fine config is refused") }
        Ok(c) => {
            sym::cover("accepted");
            sym::check(!some || cat != 4, "an unknown vehicle is accepted");
            let want = if some && cat > 0 { cat - 1 } else { 0 };
            let got = match c.vehicles.category { Vehicle::Car => 0, Vehicle::Bicycle => 1, Vehicle::Pedestrian => 2 };
            sym::check(got == want, "category of vehicles (default car)");
            sym::check(c.vehicles.are_drivers_picky == !(some && picky == 1), "drivers are picky (default yes)");
        }
    }
}
/// defaults of generated metrics
#[no_mangle]
pub extern "C" fn c19_generating() {
    use parsing::generating::edges::{merge, metrics::UnitInfo, Category};
    let (unit, def, head) = (pick("unit", 3), pick("default", 3), pick("header", 3));
    let mut y = base("") + "  generating:\n    nodes:\n    - meta: { info: 'NodeIdx', id: 'ni' }\n    edges:\n    - custom:\n";
    if unit > 0 { y.push_str(&format!("        unit: '{}'\n", ["Meters", "Hours"][unit - 1])); }
    y.push_str("        id: 'c'\n");
    if def > 0 { y.push_str(&format!("        default: {}\n", ["2.5", "7"][def - 1])); }
    y.push_str("    - merge:\n        from: 'x.csv'\n");
    if head > 0 { y.push_str(&format!("        with_header-line: {}\n", head == 2)); }
    y.push_str("        edge-id: 'e'\n        edges-info:\n        - id: 'e'\n        - ignored\n        - id: 'c'\n");
    match try_parsing(&y) {
        Err(_) => sym::fail("a fine config is refused"),
        Ok(c) => {
            sym::cover("end");
            let g = c.generating.unwrap();
            sym::check(g.nodes.categories.len() == 1 && g.edges.categories.len() == 2, "everything is generated");
            match &g.edges.categories[0] {
                Category::Custom { unit: u, id, default } => {
                    sym::check(*u == [UnitInfo::F64, UnitInfo::Meters, UnitInfo::Hours][unit], "unit of a metric (default F64)");
                    sym::check(id.0 == "c", "id of a metric");
                    sym::check(*default == [0.0, 2.5, 7.0][def], "value of a metric (default 0)");
                }
                _ => sym::fail("kind of a generated metric"),
            }
            match &g.edges.categories[1] {
                Category::Merge { from, is_file_with_header, edge_id, edges_info } => {
                    sym::check(from.to_str() == Some("x.csv") && edge_id.0 == "e" && edges_info.len() == 3, "merged file");
                    sym::check(*is_file_with_header == (head != 1), "merged files have a header (default yes)");
                    let ok = match (&edges_info[0], &edges_info[1], &edges_info[2]) { (merge::Category::Id(a), merge::Category::Ignored, merge::Category::Id(b)) => a.0 == "e" && b.0 == "c", _ => false };
                    sym::check(ok, "columns of a merged file");
                }
                _ => sym::fail("kind of a generated metric"),
            }
        }
    }
}
fn opt(name: &str, key: &str, indent: &str) -> (String, bool) {
    match pick(name, 3) { 0 => (String::new(), false), 1 => (format!("{}{}: false\n", indent, key), false), _ => (format!("{}{}: true\n", indent, key), true) }
}
fn same_ids(ids: &[Option<SimpleId>], want: &[&str]) -> bool {
    ids.len() == want.len() && ids.iter().zip(want).all(|(i, w)| match i { None => *w == "", Some(i) => i.0 == *w })
}
#[no_mangle]
pub extern "C" fn c19_writing() {
    let (n1, s1) = opt("sc", "with_shortcuts", "      ");
    let (n2, d1) = opt("denorm", "will_denormalize_metrics_by_mean", "      ");
    let (n3, s2) = opt("sc2", "with_shortcuts", "    ");
    let (n4, d2) = opt("denorm2", "will_denormalize_metrics_by_mean", "    ");
    let ext = pick("ext", 2);
    let f = [("g.fmi", "e.csv"), ("g.csv", "e.fmi")][ext];
    let y = format!("parsing: x\nwriting:\n  graph:\n    map-file: {}\n    nodes:\n    - id: n\n    - ignored\n    - id: lat\n    edges:\n{}{}      ids:\n      - ignored\n      - id: s\n      - id: d\n  edges-info:\n    file: {}\n{}{}    ids:\n    - id: e\n    - ignored\n", f.0, n1, n2, f.1, n3, n4);
    std::fs::write("w.yaml", &y).unwrap();
    match writing::network::graph::Config::try_from_yaml("w.yaml") {
        Err(_) => { sym::cover("refused"); sym::check(ext == 1, "a fine config is refused") }
        Ok(c) => {
            sym::cover("accepted");
            sym::check(ext == 0, "a map-file of an unknown kind is accepted");
            sym::check(c.map_file.to_str() == Some(f.0), "map-file");
            sym::check(same_ids(&c.nodes.ids, &["n", "", "lat"]) && same_ids(&c.edges.ids, &["", "s", "d"]), "columns of a written map");
            sym::check(c.edges.is_writing_shortcuts == s1, "writing shortcuts (default no)");
            sym::check(c.edges.is_denormalizing == d1, "denormalising metrics (default no)");
            sym::check(!c.edges.is_writing_header, "maps have no header");
        }
    }
    match writing::network::edges::Config::try_from_yaml("w.yaml") {
        Err(_) => sym::check(ext == 1, "a fine config is refused"),
        Ok(c) => {
            sym::check(ext == 0, "an edges-info-file of an unknown kind is accepted");
            sym::check(c.file.to_str() == Some(f.1) && same_ids(&c.ids, &["e", ""]), "columns of written edges-infos");
            sym::check(c.is_writing_shortcuts == s2, "writing shortcuts (default no)");
            sym::check(c.is_denormalizing == d2, "denormalising metrics (default no)");
            sym::check(c.is_writing_header, "edges-infos have a header");
        }
    }
}
#[no_mangle]
pub extern "C" fn c19_routes() {
    let d: Vec<u64> = (0..3).map(|i| sym::u(&format!("d{}", i), 0, 9)).collect();
    sym::assume(d[0] > 0 && d[2] > 0);
    let c = |k: usize| (b'0' + d[k] as u8) as char;
    let seed = sym::decide(sym::b("seed"));
    let ext = pick("ext", 3);
    let f = ["r.route-pairs", "r.yaml", "r"][ext];
    let y = format!("writing:\n  route-pairs:\n    file: {}\n    random_or_all:\n{}      max_count: {}{}\n", f, if seed { format!("      seed: {}\n", c(2)) } else { String::new() }, c(0), c(1));
    std::fs::write("w.yaml", &y).unwrap();
    match writing::routing::Config::try_from_yaml("w.yaml") {
        Err(_) => { sym::cover("refused"); sym::check(ext > 0, "a fine config is refused") }
        Ok(cfg) => {
            sym::cover("accepted");
            sym::check(ext == 0 && cfg.file.to_str() == Some(f), "a routes-file of an unknown kind is accepted");
            let writing::routing::Category::RandomOrAll { seed: s, max_count } = cfg.category;
            sym::check(s == if seed { d[2] } else { 42 }, "seed (default 42)");
            sym::check(max_count as u64 == d[0] * 10 + d[1], "number of routes");
        }
    }
}
/// a misspelled key is refused, a missing one, too
#[no_mangle]
pub extern "C" fn c19_keys() {
    let y = base(&metrics(&["km"]));
    const KEYS: [&str; 9] = ["map-file", "nodes:", "edges:", "data:", "info:", "unit:", "parsing:", "meta:", "metric:"];
    let k = KEYS[pick("key", 9)];
    let at = pick("at", 4);
    let mut b = y.clone().into_bytes();
    let p = y.find(k).unwrap() + at;
    let c = sym::u("byte", b'a' as u64, b'z' as u64) as u8;
    let same = sym::decide(c == b[p]);
    b[p] = c;
    let r = try_parsing(&unsafe { String::from_utf8_unchecked(b) });
    if same { sym::cover("same"); sym::check(r.is_ok(), "a fine config is refused") } else { sym::cover("misspelled"); sym::check(r.is_err(), "a misspelled key is accepted") }
    let _ = at;
}
struct Map;
impl osmgraphing::io::SupportingMapFileExts for Map {}
impl SupportingFileExts for Map { fn supported_exts<'a>() -> &'a [&'a str] { &["pbf", "fmi"] } }
/// any name of a file
#[no_mangle]
pub extern "C" fn c19_ext() {
    use osmgraphing::io::{MapFileExt, SupportingMapFileExts};
    let n = 3;
    let v: Vec<u8> = (0..n).map(|i| sym::u(&format!("b{}", i), 33, 126) as u8).collect();
    let dot = sym::decide(sym::b("dot"));
    let dir = sym::decide(sym::b("dir"));
    let mut name: Vec<u8> = vec![];
    if dir { name.extend(b"a.pbf/"); }
    name.push(b'x');
    if dot { name.push(b'.'); }
    name.extend(&v);
    for b in &v { sym::assume(*b != b'/' && *b != b'.'); }
    let path = unsafe { String::from_utf8_unchecked(name) };
    let is = |t: &[u8]| (0..3).all(|i| sym::decide(v[i] | 32 == t[i] && v[i] >= 65));
    let want = if !dot { 0 } else if is(b"pbf") { 1 } else if is(b"fmi") { 2 } else { 0 };
    match Map::from_path(&path) {
        Err(_) => { sym::cover("unknown"); sym::check(want == 0, "a known kind of file is refused") }
        Ok(MapFileExt::PBF) => { sym::cover("pbf"); sym::check(want == 1, "kind of a file") }
        Ok(MapFileExt::FMI) => { sym::cover("fmi"); sym::check(want == 2, "kind of a file") }
    }
    sym::check(Map::is_file_supported(&path) == (want > 0) && Map::check_ext_support(&path).is_ok() == (want > 0), "support of files");
    sym::check(osmgraphing::io::network::edges::Parser::is_file_supported(&path) == (dot && is(b"csv")), "edges-info stands in csv-files");
}
