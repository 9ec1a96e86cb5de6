//! C23: all routes are evaluated exactly once by the threads of the balancer, whatever their schedule.
use crate::{mstd::sched, sym, util::*};
use osmgraphing::{configs, network::*};
use rand::SeedableRng;
use std::sync::Arc;

use crate::bins::osmgraphing_bin::balancing::multithreading::Master;

pub const TABLE: &[(&str, extern "C" fn())] = &[("c23_routes", c23_routes), ("c23_schedule", c23_schedule), ("c23_schedule_t", c23_schedule_t), ("c23_schedule3", c23_schedule3), ("c23_schedule3_t", c23_schedule3_t), ("c23_threads", c23_threads), ("c23_explore", c23_explore), ("c23_explore_t", c23_explore_t)];

/// edges of a graph, with a shortcut 0->2 of 0->1->2; node 3 is left only
fn graph() -> (Graph, [EdgeIdx; 4]) {
    let es = [e(0, 1, &[1.0]), e(1, 2, &[2.0]), e(2, 0, &[4.0]), e(3, 0, &[1.0]), E { sc: Some([0, 1]), ..e(0, 2, &[3.0]) }];
    let g = build(parsing_cfg(&metrics_yaml(1)), &es, &[1, 0, 2, 3]).unwrap();
    let k = [edge(&g, 0, 1), edge(&g, 1, 2), edge(&g, 2, 0), edge(&g, 3, 0)];
    (g, k)
}
/// source, destination, edges (indices of the array above)
type R = (i64, i64, Option<&'static [usize]>);
const ROUTES: [R; 6] = [(0, 2, Some(&[0, 1])), (1, 0, Some(&[1, 2])), (0, 3, None), (2, 2, Some(&[])), (3, 1, Some(&[3, 0])), (2, 0, Some(&[2]))];

fn work(threads: usize, ch: bool, routes: &[(R, usize)], collect: bool) {
    let (g, idx) = graph();
    let rcfg = Arc::new(routing_cfg(g.cfg(), if ch { "CHDijkstra" } else { "Dijkstra" }));
    let count = g.fwd_edges().count();
    let mut g = Arc::new(g);
    let pairs = routes.iter().map(|(r, c)| (RoutePair { src: r.0, dst: r.1 }, *c)).collect();
    let mut rng = rand_pcg::Pcg32::seed_from_u64(42);
    let mut master = Master::spawn_some(threads, &g, &rcfg).expect("threads");
    match master.work_off(pairs, &g, &mut rng, collect) {
        Err(_) => sym::fail("evaluating routes fails"),
        Ok((loads, paths)) => {
            let mut want = vec![0; count];
            let mut want_paths: Vec<(i64, i64, Vec<usize>)> = vec![];
            for ((s, t, es), c) in routes {
                if let Some(es) = es {
                    for _ in 0..*c {
                        for &k in *es { want[*idx[k]] += 1; }
                        want_paths.push((*s, *t, es.iter().map(|&k| *idx[k]).collect()));
                    }
                }
            }
            for k in 0..count { sym::obs("workload", loads[k] as u64); }
            sym::check(loads == want, "workload of every edge");
            sym::check(paths.is_some() == collect, "paths are returned as requested");
            if let Some(paths) = paths {
                let n = g.nodes();
                let mut got: Vec<(i64, i64, Vec<usize>)> = paths.iter().map(|p| (n.id(p.src_idx()), n.id(p.dst_idx()), p.into_iter().map(|x| **x).collect())).collect();
                got.sort();
                want_paths.sort();
                sym::check(got == want_paths, "every route is returned as often as it counts");
            }
            sym::cover("end");
        }
    }
    sym::check(sched::alive() == 1, "every thread has ended");
    sym::check(Arc::get_mut(&mut g).is_some(), "nothing but the caller owns the graph");
    if sched::choices() > 2 { sym::cover("threads in any order"); }
}
/// any routes, counted any times
#[no_mangle]
pub extern "C" fn c23_routes() {
    let n = sym::conc_us(sym::us("routes", 0, 2));
    let routes: Vec<(R, usize)> = (0..n).map(|i| (ROUTES[sym::conc_us(sym::us(&format!("route{}", i), 0, 5))], sym::conc_us(sym::us(&format!("count{}", i), 0, 2)))).collect();
    work(1, sym::decide(sym::b("ch")), &routes, sym::decide(sym::b("collecting")));
}
fn schedule(threads: usize, n: usize, ch: bool, interruptions: usize) {
    sched::limit(interruptions);
    let routes: Vec<(R, usize)> = (0..n).map(|i| (ROUTES[i % 6], 1 + i % 2)).collect();
    work(threads, ch, &routes, false);
}
/// more routes than one thread gets at once, any schedule of the threads
#[no_mangle]
pub extern "C" fn c23_schedule() { schedule(2, 83, false, 3) }
#[no_mangle]
pub extern "C" fn c23_schedule3() { schedule(3, 83, true, 2) }
/// idle threads shrink and busy ones grow the parts handed out
#[no_mangle]
pub extern "C" fn c23_schedule_t() { schedule(2, 84, true, 5) }
#[no_mangle]
pub extern "C" fn c23_schedule3_t() { schedule(3, 84, false, 3) }
/// any number of threads
#[no_mangle]
pub extern "C" fn c23_threads() {
    let n = 1 + sym::conc_us(sym::us("threads", 0, 3));
    schedule(n, sym::conc_us(sym::us("routes", 80, 81)), true, 1)
}
fn explore(threads: usize, n: usize) {
    // three alternatives from 0 to 2, one from 2 to 0, none from 0 to 3
    let ch = sym::decide(sym::b("ch"));
    let mut es = vec![e(0, 2, &[1.0, 8.0]), e(0, 1, &[1.0, 2.0]), e(1, 2, &[1.0, 1.0]), e(0, 2, &[8.0, 1.0]), e(2, 0, &[1.0, 1.0]), e(3, 0, &[1.0, 1.0]), e(0, 2, &[9.0, 9.0])];
    if ch { es.push(E { sc: Some([1, 2]), ..e(0, 2, &[2.0, 3.0]) }); }
    let g = build(parsing_cfg(&metrics_yaml(2)), &es, &[1, 0, 2, 3]).unwrap();
    let rcfg = configs::routing::Config::try_from_str(&format!("routing:\n  algorithm: {{ Explorator: {{ algo: {} }} }}\n  metrics: [{{ id: 'm0' }}, {{ id: 'm1' }}]\n", if ch { "CHDijkstra" } else { "Dijkstra" }), g.cfg());
    let rcfg = Arc::new(match rcfg { Ok(c) => c, Err(m) => panic!("{}", m) });
    let g = Arc::new(g);
    const R: [(i64, i64); 4] = [(0, 2), (2, 0), (0, 3), (0, 1)];
    let routes: Vec<((i64, i64), usize)> = (0..n).map(|i| (R[sym::conc_us(sym::us(&format!("route{}", i), 0, 3))], sym::conc_us(sym::us(&format!("count{}", i), 0, 3)))).collect();
    let mut rng = rand_pcg::Pcg32::seed_from_u64(sym::conc(sym::u("seed", 0, 1)));
    let pairs = routes.iter().map(|(r, c)| (RoutePair { src: r.0, dst: r.1 }, *c)).collect();
    let mut master = Master::spawn_some(threads, &g, &rcfg).expect("threads");
    match master.work_off(pairs, &g, &mut rng, true) {
        Err(_) => sym::fail("evaluating routes fails"),
        Ok((loads, paths)) => {
            let n = g.nodes();
            let mut want = vec![0; g.fwd_edges().count()];
            let paths = paths.unwrap_or_default();
            for p in &paths {
                let cost: Vec<f64> = p.costs().to_vec();
                let real = match (n.id(p.src_idx()), n.id(p.dst_idx())) { (0, 2) => [[1.0, 8.0], [2.0, 3.0], [8.0, 1.0]].iter().any(|c| c[..] == cost[..]), (2, 0) => cost == [1.0, 1.0], (0, 1) => cost == [1.0, 2.0], _ => false };
                sym::check(real, "a path that is no alternative");
                for k in p { want[**k] += 1; sym::check(!g.fwd_edges().is_shortcut(*k), "a shortcut is part of a path"); }
            }
            for &(s, t) in &R {
                let count: usize = if (s, t) == (0, 3) { 0 } else { routes.iter().filter(|(r, _)| *r == (s, t)).map(|(_, c)| *c).sum() };
                sym::check(paths.iter().filter(|p| n.id(p.src_idx()) == s && n.id(p.dst_idx()) == t).count() == count, "every route is returned as often as it counts");
            }
            sym::check(loads == want, "workload of every edge");
            for k in 0..want.len() { sym::obs("workload", loads[k] as u64); }
            sym::cover("end");
        }
    }
    sym::check(sched::alive() == 1, "every thread has ended");
}
/// any of the alternatives of a route
#[no_mangle]
pub extern "C" fn c23_explore() { explore(2, 1) }
#[no_mangle]
pub extern "C" fn c23_explore_t() { explore(2, 2) }
