#![allow(unused, dead_code)]
use kissunits::geo::Coordinate;
use osmgraphing::{configs, helpers::err, network::*, routing::{dijkstra::*, paths::Path}};
use smallvec::SmallVec;

fn pcfg(metrics: usize, extra: &str) -> configs::parsing::Config {
    let mut s = String::from("parsing:\n  map-file: 'g.fmi'\n  nodes:\n  - meta: { info: 'NodeId', id: 'node-id' }\n  - metric: { unit: 'Latitude', id: 'lat' }\n  - metric: { unit: 'Longitude', id: 'lon' }\n  - meta: { info: 'CHLevel', id: 'lvl' }\n  edges:\n    data:\n    - meta: { info: 'SrcId', id: 'src-id' }\n    - meta: { info: 'DstId', id: 'dst-id' }\n");
    for i in 0..metrics { s.push_str(&format!("    - metric: {{ unit: 'F64', id: 'm{}' }}\n", i)); }
    s.push_str(extra);
    std::fs::write("cfg.yaml", s).unwrap();
    configs::parsing::Config::try_from_yaml("cfg.yaml").unwrap()
}
fn rcfg(p: &configs::parsing::Config, algo: &str) -> configs::routing::Config {
    configs::routing::Config::try_from_str(&format!("routing:\n  algorithm: {}\n  metrics: [{{ id: 'm0' }}]\n", algo), p).unwrap()
}
type Ed<'a> = (Option<usize>, i64, i64, &'a [f64], Option<[usize; 2]>);
fn graph(p: configs::parsing::Config, es: &[Ed], levels: &[usize]) -> err::Result<Graph> {
    let mut eb = GraphBuilder::new(p);
    for x in es {
        let mut metrics = SmallVec::new();
        for v in x.3 { metrics.push(*v); }
        eb.insert(ProtoShortcut { proto_edge: ProtoEdge { id: x.0, src_id: x.1, dst_id: x.2, metrics }, sc_edges: x.4.map(|a| [EdgeIdx(a[0]), EdgeIdx(a[1])]) })?;
    }
    let mut nb = eb.next();
    for (k, &l) in levels.iter().enumerate() { nb.insert(ProtoNode { id: k as i64, coord: Coordinate { lat: 48.0 + k as f64, lon: 9.0 + k as f64 }, ch_level: Some(l) }); }
    nb.next()?.finalize()
}
fn cost(g: &Graph, d: &mut Dijkstra, r: &configs::routing::Config, s: usize, t: usize) -> Option<f64> {
    d.compute_best_path(Query { src_idx: NodeIdx(s), dst_idx: NodeIdx(t), graph: g, routing_cfg: r }).map(|p| p.flatten(g).costs()[0])
}
