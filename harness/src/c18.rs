//! C18: what could not be written is reported.
use crate::{sym, util::*};
use osmgraphing::{configs, helpers::err, io, network::*, routing::paths::Path};

pub const TABLE: &[(&str, extern "C" fn())] = &[("c18_full", c18_full), ("c18_read", c18_read), ("c18_dirs", c18_dirs)];

/// values of more than 300 characters fill some buffers
fn graph(n: usize) -> Graph {
    let cfg = metrics_yaml(2).replace("    data:\n", "    data:\n    - meta: { info: 'EdgeId', id: 'edge-id' }\n");
    let es: Vec<E> = (0..n).map(|k| E { id: Some(k), src: k as i64 % 3, dst: k as i64 / 3 % 3, m: vec![1.7976931348623157e308, 0.5], sc: None }).collect();
    build(parsing_cfg(&cfg), &es, &[0, 1, 2]).unwrap()
}
fn write(kind: usize, g: &Graph, vals: &[f64], file: &str) -> err::Feedback {
    let id = |s: &str| Some(configs::SimpleId::from(s));
    let ec = configs::writing::network::edges::Config { file: file.into(), is_writing_shortcuts: true, is_writing_header: true, is_denormalizing: false, ids: vec![id("edge-id"), id("m0")] };
    match kind {
        0 => io::network::graph::Writer::write(g, &configs::writing::network::graph::Config { map_file: file.into(), nodes: configs::writing::network::graph::nodes::Config { ids: vec![id("node-id"), id("lat"), id("lon")] }, edges: ec }),
        1 => io::network::edges::Writer::write(g, &ec),
        2 => io::network::edges::Writer::write_external_values(vals, g, &ec),
        3 => io::routing::Writer::write(g, &routing_cfg(g.cfg(), "Dijkstra"), &configs::writing::routing::Config { file: file.into(), category: configs::writing::routing::Category::RandomOrAll { seed: 1, max_count: 100 } }),
        _ => {
            let long: Vec<EdgeIdx> = (0..600).map(|k| EdgeIdx(k % g.fwd_edges().count())).collect();
            let p = Path::new(NodeIdx(0), 0, NodeIdx(1), 1, long);
            io::smarts::Writer::write(&[p], g, &configs::writing::smarts::Config { file: file.into() })
        }
    }
}
const FILES: [&str; 5] = ["o.fmi", "o.csv", "o.csv", "o.route-pairs", "o.xml"];
/// the disk is full after any number of writes
#[no_mangle]
pub extern "C" fn c18_full() {
    let kind = sym::conc_us(sym::us("writer", 0, 4));
    let n = [2, 60][sym::conc_us(sym::us("size", 0, 1))];
    let k = sym::conc(sym::u("writes", 0, 4));
    let fault = sym::conc(sym::u("fault", 0, 3));
    let g = graph(n);
    let vals = vec![1.7976931348623157e308; n];
    let f = FILES[kind];
    sym::check(write(kind, &g, &vals, f).is_ok(), "file is written");
    let want = std::fs::read(f).unwrap();
    std::fs::remove_file(f).unwrap();
    sym::check(want.len() > if n == 60 && kind < 3 { 16384 } else { 20 }, "file has content");
    sym::fault_write((k | fault << 32) as i64);
    let r = write(kind, &g, &vals, f);
    sym::fault_write(-1);
    let got = std::fs::read(f).unwrap();
    std::fs::remove_file(f).unwrap();
    if r.is_ok() { sym::check(got == want, "success is reported, but the file is incomplete"); sym::cover("written"); } else { sym::cover("full"); }
    if r.is_err() && fault == 0 { sym::check(got != want, "failure is reported, but the file is complete"); }
    if fault > 1 { sym::check(r.is_ok(), "partial and interrupted writes are continued"); }
}
/// reading fails at any point
#[no_mangle]
pub extern "C" fn c18_read() {
    let kind = sym::conc_us(sym::us("reader", 0, 3));
    let k = sym::conc(sym::u("reads", 0, 24));
    let fault = sym::conc(sym::u("fault", 0, 3));
    let cfg = metrics_yaml(2).replace("    data:\n", "    data:\n    - meta: { info: 'EdgeId', id: 'edge-id' }\n");
    let mut map = String::from("3\n60\n7 1.5 2.5 3\n8 3.5 -4.5 0\n9 5.5 6.5 1\n");
    for k in 0..60 { map += &format!("{} {} {} 1{:0300} 1.5\n", k, 7 + k % 3, 7 + k / 3 % 3, k); }
    std::fs::write("g.fmi", &map).unwrap();
    let mut csv = String::new();
    for k in 0..60 { csv += &format!("{} 1{:0300}\n", k, k); }
    std::fs::write("i.csv", &csv).unwrap();
    let mut routes = String::from("400\n");
    for k in 0..400 { routes += &format!("{} 1{:040} 1\n", 7 + k % 3, 7).replace(" 1000000000000000000000000000000000000000", " 00000000000000000000000000000000000"); }
    std::fs::write("r.route-pairs", &routes).unwrap();
    let p = parsing_cfg(&cfg);
    let q = parsing_cfg(&(cfg + "  generating:\n    nodes: []\n    edges:\n    - merge: { from: 'i.csv', with_header-line: false, edge-id: 'edge-id', edges-info: [ { id: 'edge-id' }, { id: 'm1' } ] }\n"));
    let r = configs::routing::Config::try_from_str("routing:\n  route-pairs-file: 'r.route-pairs'\n  algorithm: Dijkstra\n  metrics: [{ id: 'm0' }]\n", &p).unwrap();
    std::fs::write("c.yaml", metrics_yaml(2)).unwrap();
    sym::fault_read((k | fault << 32) as i64);
    let ok = match kind {
        0 => io::network::graph::Parser::parse_and_finalize(p).map(|g| sym::check(g.fwd_edges().count() == 60 && g.nodes().count() == 3, "success is reported, but the graph is incomplete")).is_ok(),
        1 => io::network::graph::Parser::parse_and_finalize(q).map(|g| sym::check((0..60).all(|k| g.metrics()[EdgeIdx(k)][1] != 1.5), "success is reported, but values are missing")).is_ok(),
        2 => io::routing::Parser::parse(&r).map(|r| sym::check(r.len() == 400, "success is reported, but routes are missing")).is_ok(),
        _ => configs::parsing::Config::try_from_yaml("c.yaml").is_ok(),
    };
    sym::fault_read(-1);
    for f in ["g.fmi", "i.csv", "r.route-pairs", "c.yaml"].iter() { std::fs::remove_file(f).unwrap(); }
    if k == 0 && fault < 2 { sym::check(!ok, "failure is reported"); }
    if fault > 1 { sym::check(ok, "partial and interrupted reads are continued"); }
    sym::cover(if ok { "read" } else { "failed" });
}
/// the directory of a file is missing, or the file is a directory itself
#[no_mangle]
pub extern "C" fn c18_dirs() {
    let kind = sym::conc_us(sym::us("writer", 0, 4));
    let case = sym::conc_us(sym::us("case", 0, 2));
    let g = graph(2);
    let (f, dir) = (FILES[kind], format!("no/{}", FILES[kind]));
    if case > 0 { std::fs::create_dir("no").unwrap(); }
    if case == 2 { std::fs::create_dir(&dir).unwrap(); }
    let ok = write(kind, &g, &[1.0, 2.0], &dir).is_ok();
    sym::check(ok == (case == 1), "what could not be written is reported");
    if ok {
        sym::check(write(kind, &g, &[1.0, 2.0], f).is_ok(), "file is written");
        sym::check(std::fs::read(f).unwrap() == std::fs::read(&dir).unwrap(), "file is complete");
        std::fs::remove_file(f).unwrap();
        std::fs::remove_file(&dir).unwrap();
        sym::cover("written");
    } else {
        sym::check(std::fs::read(&dir).is_err(), "a file is written");
        sym::cover("failed");
    }
    if case == 2 { std::fs::remove_dir(&dir).unwrap(); }
    if case > 0 { std::fs::remove_dir("no").unwrap(); }
}
