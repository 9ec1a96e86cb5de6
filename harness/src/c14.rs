//! C14: files of routes: written routes exist, are read back as written; routes for SMARTS.
use crate::{sym, util::*};
use osmgraphing::{configs, defaults::smarts::route_file_format as D, helpers::err, io, network::*, routing::paths::Path};

pub const TABLE: &[(&str, extern "C" fn())] = &[("c14_all", c14_all), ("c14_random", c14_random), ("c14_parse", c14_parse), ("c14_into", c14_into), ("c14_smarts", c14_smarts), ("c14_empty", c14_empty), ("c14_random_t", c14_random_t)];

const IDS: [i64; 4] = [-5, 3, 40, 41];
fn graph(n: usize, m: usize) -> (Graph, Vec<E>) {
    let mut es = vec![];
    for _ in 0..m { es.push(e(sym::conc_us(sym::us("src", 0, n - 1)) as i64, sym::conc_us(sym::us("dst", 0, n - 1)) as i64, &[1.5])); }
    (make(n, &es), es)
}
fn make(n: usize, es: &[E]) -> Graph {
    let mut eb = GraphBuilder::new(parsing_cfg(&metrics_yaml(1)));
    for x in es { let mut y = x.clone(); y.src = IDS[x.src as usize]; y.dst = IDS[x.dst as usize]; eb.insert(proto(&y)).unwrap(); }
    let mut nb = eb.next();
    for k in 0..n { nb.insert(ProtoNode { id: IDS[k], coord: coord(k), ch_level: Some(0) }); }
    nb.next().unwrap().finalize().unwrap()
}
fn wcfg(seed: &str, max: usize) -> configs::writing::routing::Config {
    std::fs::write("w.yaml", format!("writing:\n  route-pairs:\n    file: 'out.route-pairs'\n    random_or_all: {{ {}max_count: {} }}\n", seed, max)).unwrap();
    let c = configs::writing::routing::Config::try_from_yaml("w.yaml");
    std::fs::remove_file("w.yaml").unwrap();
    if let Err(e) = &c { eprintln!("{}", e); }
    c.unwrap()
}
fn rcfg(file: &str) -> configs::routing::Config {
    configs::routing::Config::try_from_str(&format!("routing:\n  route-pairs-file: '{}'\n  algorithm: Dijkstra\n  metrics: [{{ id: 'm0' }}]\n", file), &parsing_cfg(&metrics_yaml(1))).unwrap()
}
/// the routes of a written file, as they are read again
fn written(g: &Graph, seed: &str, max: usize) -> Vec<(i64, i64)> {
    let r = rcfg("out.route-pairs");
    sym::check(io::routing::Writer::write(g, &r, &wcfg(seed, max)).is_ok(), "routes are written");
    let p = io::routing::Parser::parse(&r);
    if let Err(e) = &p { eprintln!("{}", e); }
    std::fs::remove_file("out.route-pairs").unwrap();
    sym::check(p.is_ok(), "written routes are read");
    p.unwrap().iter().map(|(r, n)| { sym::check(*n == 1, "count of a route"); (r.src, r.dst) }).collect()
}
/// ids of nodes which are part of the graph, and the pairs a path exists for
fn pairs(es: &[E]) -> (usize, Vec<(i64, i64)>) {
    let mut used = vec![];
    for k in 0..IDS.len() as i64 { if es.iter().any(|x| x.src == k || x.dst == k) { used.push(k); } }
    let mut ps = vec![];
    for &s in &used { for &t in &used { if s != t && !simple_paths(es, s, t).is_empty() { ps.push((IDS[s as usize], IDS[t as usize])); } } }
    (used.len(), ps)
}
/// enough routes are wanted: all of them are written
#[no_mangle]
pub extern "C" fn c14_all() {
    let (g, es) = graph(3, 3);
    let (n, ps) = pairs(&es);
    let max = [n * n, n * n + 1, 1000][sym::conc_us(sym::us("max", 0, 2))];
    let mut w = written(&g, "", max);
    w.sort();
    let mut ps = ps;
    ps.sort();
    sym::obs("routes", w.len() as u64);
    sym::check(w == ps, "all routes are written");
    sym::cover("end");
}
fn random(nodes: usize, m: usize, maxs: usize) {
    let (g, es) = graph(nodes, m);
    let (n, ps) = pairs(&es);
    let max = sym::conc_us(sym::us("max", 0, maxs));
    let seed = ["", "seed: 0, ", "seed: 18446744073709551615, "][sym::conc_us(sym::us("seed", 0, 2))];
    let w = written(&g, seed, max);
    sym::check(w.len() <= max, "no more routes than wanted");
    for k in 0..w.len() {
        sym::check(ps.contains(&w[k]), "a written route exists");
        for j in 0..k { sym::check(w[j] != w[k], "no route is written twice"); }
    }
    if n * n <= max { sym::check(w.len() == ps.len(), "all routes are written"); sym::cover("all"); } else { sym::cover("random"); }
    let again = written(&g, seed, max);
    sym::check(w == again, "the seed decides which routes are written");
}
/// fewer routes are wanted
#[no_mangle]
pub extern "C" fn c14_random() { random(3, 2, 5) }
#[no_mangle]
pub extern "C" fn c14_random_t() { random(4, 3, 10) }
/// a graph without nodes has no routes
#[no_mangle]
pub extern "C" fn c14_empty() {
    let g = make(3, &[]);
    sym::check(written(&g, "", sym::conc_us(sym::us("max", 0, 2))).is_empty(), "no routes");
    sym::cover("end");
}
/// files of routes are read as they are written
#[no_mangle]
pub extern "C" fn c14_parse() {
    let n = sym::conc_us(sym::us("lines", 0, 3));
    let cnt = sym::conc_us(sym::us("count", 0, 3));
    let nl = ["\n", "\r\n"][sym::conc_us(sym::us("nl", 0, 1))];
    let sep = [" ", "\t  "][sym::conc_us(sym::us("sep", 0, 1))];
    let at = sym::conc_us(sym::us("noise-at", 0, 4));
    let noise = ["", "# 1 2 3", "#5"][sym::conc_us(sym::us("noise", 0, 2))];
    let head = ["", "# graph-file: x|", "some header|", "1|"][sym::conc_us(sym::us("head", 0, 3))];
    let mut t: Vec<u8> = head.replace("|", nl).into_bytes();
    let line = |t: &mut Vec<u8>, k: usize| if at == k { t.extend(noise.bytes()); t.extend(nl.bytes()); };
    line(&mut t, 0);
    t.extend(format!("{}{}", cnt, nl).bytes());
    let mut want = vec![];
    let mut digit = |t: &mut Vec<u8>| { let d = sym::u("digit", 0, 9); t.push(b'0' + d as u8); d as i64 };
    for k in 0..n {
        line(&mut t, k + 1);
        let neg = k == 1;
        if neg { t.push(b'-'); }
        let mut a = digit(&mut t);
        if neg { a = -a; }
        t.extend(sep.bytes());
        let b = digit(&mut t) * 10 + digit(&mut t);
        t.extend(sep.bytes());
        let c = digit(&mut t);
        t.extend(nl.bytes());
        if k < cnt { want.push((a, b, c as usize)); }
    }
    std::fs::write("in.route-pairs", &t).unwrap();
    let r = io::routing::Parser::parse(&rcfg("in.route-pairs"));
    std::fs::remove_file("in.route-pairs").unwrap();
    if let Err(e) = &r { eprintln!("{}", e); }
    sym::check(r.is_ok(), "routes are read");
    let r = r.unwrap();
    sym::check(r.len() == want.len(), "number of routes");
    for k in 0..want.len() { sym::check(r[k].0.src == want[k].0 && r[k].0.dst == want[k].1 && r[k].1 == want[k].2, "route"); }
    sym::cover("end");
}
/// ids of a route become the nodes with these ids
#[no_mangle]
pub extern "C" fn c14_into() {
    let (g, es) = graph(4, 2);
    let (s, t) = (es[sym::conc_us(sym::us("s", 0, 1))].src as usize, es[sym::conc_us(sym::us("t", 0, 1))].dst as usize);
    let p = RoutePair { src: IDS[s], dst: IDS[t] };
    let q = p.into_idx(&g);
    sym::check(g.nodes().id(q.src) == IDS[s] && g.nodes().id(q.dst) == IDS[t], "indices");
    for (r, k) in [(p.into_node(&g), 0), (q.into_node(&g), 1)].iter() {
        let _ = k;
        sym::check(r.src.id() == IDS[s] && r.dst.id() == IDS[t] && r.src.idx() == q.src && r.dst.idx() == q.dst, "nodes");
        sym::check(r.src.coord().lat == coord(s).lat && r.dst.coord().lon == coord(t).lon, "coordinates");
    }
    sym::cover("end");
}
/// every path becomes a vehicle passing its nodes in order
#[no_mangle]
pub extern "C" fn c14_smarts() {
    let es: Vec<E> = [(0, 1), (1, 2), (2, 0), (1, 0)].iter().map(|&(a, b)| e(a, b, &[1.5])).collect();
    let g = make(3, &es);
    let n = sym::conc_us(sym::us("paths", 0, 2));
    let mut ps = vec![];
    let mut want = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<data>\n");
    for _ in 0..n {
        let src = sym::conc_us(sym::us("src", 0, 2)) as i64;
        let mut cur = src;
        let mut edges = vec![];
        let mut ids = vec![IDS[src as usize]];
        for _ in 0..sym::conc_us(sym::us("length", 0, 3)) {
            let out: Vec<_> = es.iter().filter(|x| x.src == cur).collect();
            let x = out[if out.len() > 1 { sym::conc_us(sym::us("way", 0, out.len() - 1)) } else { 0 }];
            edges.push(edge(&g, IDS[x.src as usize], IDS[x.dst as usize]));
            cur = x.dst;
            ids.push(IDS[cur as usize]);
        }
        let (s, t) = (g.nodes().idx_from(IDS[src as usize]).unwrap(), g.nodes().idx_from(IDS[cur as usize]).unwrap());
        if edges.is_empty() { ids.clear(); }
        want += &format!("<vehicle id=\"{}->{}\" type=\"{}\" start_time=\"{}\" driverProfile=\"{}\">\n", IDS[src as usize], IDS[cur as usize], D::VEHICLE_TYPE, D::START_TIME, D::DRIVER_PROFILE);
        for i in &ids { want += &format!("<node id=\"{}\"/>\n", i); }
        want += "</vehicle>\n";
        ps.push(Path::new(s, IDS[src as usize], t, IDS[cur as usize], edges));
    }
    want += "</data>\n";
    let c = configs::writing::smarts::Config { file: "out.xml".into() };
    sym::check(io::smarts::Writer::write(&ps, &g, &c).is_ok(), "paths are written");
    let got = String::from_utf8(std::fs::read("out.xml").unwrap()).unwrap();
    if got != want { eprintln!("{}\n{}", got, want); }
    sym::check(got == want, "content for SMARTS");
    // existing files stay
    sym::check(io::smarts::Writer::write(&[], &g, &c).is_err(), "existing file is not overwritten");
    std::fs::remove_file("out.xml").unwrap();
    sym::cover("end");
}
