//! Simulated processes that are not gc-* commands: they load the stored graph through the real
//! loader and call the real library, printing what it returns.
use crate::model::{capacity, weight, Con, Lib, Op};
use crate::plan::Cmd;
use crate::sim::{me, sim, yield_point};
use gc_command::{arg_utils, graph_utils};
use gc_core::algorithm::*;
use gc_core::constraint::constraint::Constraint;
use gc_core::directed_graph::DirectedGraph;
use gc_core::format::{gcmd, tgf};
use gc_core::graph::{Edge, VertexId};
use gc_core::graph_command::GraphCommand;
use gc_core::iter::*;
use gc_core::path::{Path, ScoredPath};
use gc_core::search::a_star;
use std::collections::HashMap;
use std::fs::File;

fn emit(s: String) {
    if let Some(p) = me() {
        if !p.killed {
            p.out.extend_from_slice(s.as_bytes());
            p.out.push(b'\n');
        }
    }
}

fn path_str(p: &Path) -> String {
    p.to_vertex_list().map(|v| v.0.to_string()).collect::<Vec<_>>().join(" ")
}

fn dump(tag: &str, g: &DirectedGraph) {
    emit(format!("{}OK", tag));
    emit(format!("{}V {}", tag, g.vertices().map(|v| v.0.to_string()).collect::<Vec<_>>().join(" ")));
    for e in g.edges() {
        emit(format!("{}E {} {}", tag, (e.0).0, (e.1).0));
    }
}

fn load(cmd: &Cmd) -> Result<DirectedGraph, i32> {
    graph_utils::load_graph(&cmd.dir).map_err(|_| 1)
}

pub fn build(cons: &[Con]) -> Vec<Constraint> {
    let vs = |v: &Vec<u64>| v.iter().map(|x| VertexId(*x)).collect::<Vec<_>>();
    let es = |v: &Vec<u64>| v.chunks(2).map(|c| Edge(VertexId(c[0]), VertexId(c[1]))).collect::<Vec<_>>();
    let mut out = vec![];
    for c in cons {
        match c {
            Con::Include(v) => out.extend(arg_utils::build_constraint_include(vs(v))),
            Con::Exclude(v) => out.extend(arg_utils::build_constraint_exclude(vs(v))),
            Con::IncludeEdges(v) => out.extend(arg_utils::build_constraint_include_edges(es(v))),
            Con::ExcludeEdges(v) => out.extend(arg_utils::build_constraint_exclude_edges(es(v))),
            Con::Ordered(v) => out.push(arg_utils::build_constraint_ordered(vs(v))),
            Con::WithCycle => out.push(arg_utils::build_constraint_include_cycle()),
            Con::NoCycle => out.push(arg_utils::build_constraint_no_cycle()),
            Con::MinLen(n) => out.push(arg_utils::build_constraint_min_length(*n as usize)),
            Con::MaxLen(n) => out.push(arg_utils::build_constraint_max_length(*n as usize)),
            Con::ExactLen(n) => out.extend(arg_utils::build_constraint_exact_length(*n as usize)),
            Con::MinScore(n) => out.push(arg_utils::build_constraint_min_score(*n)),
            Con::MaxScore(n) => out.push(arg_utils::build_constraint_max_score(*n)),
            Con::ExactScore(n) => out.extend(arg_utils::build_constraint_exact_score(*n)),
            Con::Not(c) => out.push(Constraint::Not(one(c))),
            Con::Both(a, b) => out.push(Constraint::And(one(a), one(b))),
            Con::Either(a, b) => out.push(Constraint::Or(one(a), one(b))),
            Con::OneOf(a, b) => out.push(Constraint::Xor(one(a), one(b))),
            Con::Bad(..) => unreachable!(),
        }
    }
    out
}

fn one(c: &Con) -> Box<Constraint> {
    let all = build(&[c.clone()]);
    Box::new(all.into_iter().reduce(|a, b| Constraint::And(Box::new(a), Box::new(b))).unwrap())
}

fn results(tag: &str, m: &HashMap<VertexId, ScoredPath>) {
    let mut l: Vec<_> = m.iter().collect();
    l.sort_by_key(|x| *x.0);
    for (v, sp) in l {
        emit(format!("{} {} {} {}", tag, v.0, sp.score, path_str(&sp.path)));
    }
}

fn single(tag: &str, end: u64, sp: Option<ScoredPath>) {
    match sp {
        Some(sp) => emit(format!("{} {} {} {}", tag, end, sp.score, path_str(&sp.path))),
        None => emit(format!("{} {} none", tag, end)),
    }
}

/// distances to `end`, for the heuristic of the A* client
fn dist_to(g: &DirectedGraph, end: u64, w: &dyn Fn(u64, u64) -> i64) -> HashMap<u64, i64> {
    let mut d: HashMap<u64, i64> = HashMap::new();
    d.insert(end, 0);
    loop {
        let mut changed = false;
        for e in g.edges() {
            let (a, b) = ((e.0).0, (e.1).0);
            if let Some(x) = d.get(&b).cloned() {
                let n = x + w(a, b);
                if d.get(&a).map(|y| n < *y).unwrap_or(true) {
                    d.insert(a, n);
                    changed = true;
                }
            }
        }
        if !changed {
            return d;
        }
    }
}

/// an estimate of what is left to the end that is never too high: none at all, half, everything,
/// or something else at every vertex
fn estimate(d: &HashMap<u64, i64>, heur: u8, wseed: u64, p: &Path) -> i64 {
    let v = match p.last() {
        Some(v) if heur > 0 => v.0,
        _ => return 0,
    };
    let d = match d.get(&v) {
        Some(d) => *d,
        None => return 1_000_000,
    };
    match heur {
        1 => d / 2,
        2 => d,
        _ => d / 4 * weight(wseed ^ 0x5eed, v, v, 0, 4),
    }
}

pub fn run(cmd: &Cmd) -> i32 {
    match run_inner(cmd) {
        Ok(()) => 0,
        Err(c) => c,
    }
}

fn run_inner(cmd: &Cmd) -> Result<(), i32> {
    match &cmd.op {
        Op::Dump => {
            let g = load(cmd)?;
            dump("", &g);
            Ok(())
        }
        Op::Crit { hold } => {
            let dir = cmd.dir.clone();
            let r = graph_utils::with_lock(&dir, || {
                let p = me().unwrap();
                p.marks.push((sim().step, "enter".into()));
                if let Ok(g) = graph_utils::load_graph(&dir) {
                    dump("a", &g);
                } else {
                    emit("aNONE".into());
                }
                for _ in 0..*hold {
                    if !p.killed {
                        yield_point(p);
                    }
                }
                if let Ok(g) = graph_utils::load_graph(&dir) {
                    dump("b", &g);
                } else {
                    emit("bNONE".into());
                }
                p.marks.push((sim().step, "leave".into()));
                Ok(())
            });
            r.map_err(|_| 1)
        }
        Op::Lib(l) => lib(cmd, l),
        Op::One { k, a, b } => match k {
            0 => graph_utils::add_vertex(&cmd.dir, VertexId(*a)),
            1 => graph_utils::add_edge(&cmd.dir, VertexId(*a), VertexId(*b)),
            _ => graph_utils::remove_vertex(&cmd.dir, VertexId(*a)),
        }
        .map_err(|_| 1),
        _ => unreachable!(),
    }
}

fn lib(cmd: &Cmd, l: &Lib) -> Result<(), i32> {
    match l {
        Lib::TgfImport { file, commands } => {
            let f = File::open(file).map_err(|_| 1)?;
            let g = if *commands {
                let cs = tgf::read_as_commands(f).map_err(|_| 1)?;
                let mut g = DirectedGraph::new();
                GraphCommand::apply_commands(cs, &mut g);
                g
            } else {
                tgf::read(f).map_err(|_| 1)?
            };
            dump("", &g);
            return Ok(());
        }
        Lib::GcmdCommands => {
            let f = File::open(format!("{}/.graph/commands", cmd.dir)).map_err(|_| 1)?;
            let cs = gcmd::read_as_commands(f).map_err(|_| 1)?;
            let mut g = DirectedGraph::new();
            GraphCommand::apply_commands(cs, &mut g);
            // and once more through the command list of the graph itself
            let mut h = DirectedGraph::new();
            GraphCommand::apply_commands(GraphCommand::as_commands(&g), &mut h);
            dump("", &h);
            return Ok(());
        }
        _ => (),
    }
    let g = load(cmd)?;
    let wf = |ws: u64, lo: i64, hi: i64| move |e: &Edge| weight(ws, (e.0).0, (e.1).0, lo, hi);
    let some_ends = |g: &DirectedGraph, seed: u64| -> Vec<u64> {
        let mut v: Vec<u64> = g.vertices().map(|x| x.0).collect();
        v.sort();
        let mut r = crate::rng::Rng::new(seed);
        (0..3).filter_map(|_| if v.is_empty() { None } else { Some(v[r.idx(v.len())]) }).collect()
    };
    match l {
        Lib::DagShortest { start, wseed, lo, hi } => {
            let f = wf(*wseed, *lo, *hi);
            match topo_sort::try_dag(&g) {
                None => emit("NODAG".into()),
                Some(d) => {
                    results("R", &shortest_path::dag_shortest_paths(d, &f, VertexId(*start)));
                    for end in some_ends(&g, *wseed) {
                        let d = topo_sort::try_dag(&g).unwrap();
                        single("S", end, shortest_path::dag_shortest_path(d, &f, VertexId(*start), VertexId(end)));
                    }
                }
            }
        }
        Lib::DagLongest { start, wseed, lo, hi } => {
            let f = wf(*wseed, *lo, *hi);
            match topo_sort::try_dag(&g) {
                None => emit("NODAG".into()),
                Some(d) => {
                    results("R", &longest_path::dag_longest_paths(d, &f, VertexId(*start)));
                    for end in some_ends(&g, *wseed) {
                        let d = topo_sort::try_dag(&g).unwrap();
                        single("S", end, longest_path::dag_longest_path(d, &f, VertexId(*start), VertexId(end)));
                    }
                }
            }
        }
        Lib::BellmanFord { start, wseed, lo, hi } => {
            match shortest_path::bellman_ford(&g, wf(*wseed, *lo, *hi), VertexId(*start)) {
                None => emit("NEGATIVE".into()),
                Some(m) => results("R", &m),
            }
        }
        Lib::Spfa { start, wseed, lo, hi } => {
            results("R", &shortest_path::spfa(&g, wf(*wseed, *lo, *hi), VertexId(*start)))
        }
        Lib::BestFirst { start, wseed, lo, hi } => {
            let f = wf(*wseed, *lo, *hi);
            let it = iter_best::best_iter_from(
                &g,
                |_: &DirectedGraph, p: &Path| p.to_edge_list().map(|e| f(&e)).sum(),
                VertexId(*start),
            );
            for sp in it {
                let last = sp.path.last().map(|v| v.0).unwrap_or(u64::MAX);
                emit(format!("R {} {} {}", last, sp.score, path_str(&sp.path)));
            }
        }
        Lib::AStar { start, end, wseed, lo, hi, heur } => {
            let f = wf(*wseed, *lo, *hi);
            let d = dist_to(&g, *end, &|a, b| weight(*wseed, a, b, *lo, *hi));
            let h = |_: &DirectedGraph, p: &Path| -> i64 {
                estimate(&d, *heur, *wseed, p)
            };
            let sp = a_star::shortest_path(
                &g,
                |_: &DirectedGraph, p: &Path| p.to_edge_list().map(|e| f(&e)).sum(),
                h,
                VertexId(*start),
                VertexId(*end),
            );
            single("S", *end, sp);
        }
        Lib::CspLib { start, end, wseed, lo, hi, heur, cons } => {
            let f = wf(*wseed, *lo, *hi);
            let d = dist_to(&g, *end, &|a, b| weight(*wseed, a, b, *lo, *hi));
            let sp = a_star::constrained_shortest_path(
                &g,
                |_: &DirectedGraph, p: &Path| p.to_edge_list().map(|e| f(&e)).sum(),
                |_: &DirectedGraph, p: &Path| estimate(&d, *heur, *wseed, p),
                VertexId(*start),
                VertexId(*end),
                build(cons),
            );
            single("S", *end, sp);
        }
        Lib::MaxFlow { start, end, wseed, cap } => {
            let c = |e: &Edge| capacity(*wseed, (e.0).0, (e.1).0, *cap, *start);
            let (t, m) = max_flow::max_flow(&g, c, VertexId(*start), VertexId(*end));
            emit(format!("T {}", t));
            let mut l: Vec<_> = m.iter().collect();
            l.sort_by_key(|x| *x.0);
            for (e, (f, c)) in l {
                emit(format!("F {} {} {} {}", (e.0).0, (e.1).0, f, c));
            }
        }
        Lib::Bfs { start } => {
            let it = match start {
                Some(s) => iter_breadth::bfs_iter_from(&g, VertexId(*s)),
                None => iter_breadth::bfs_iter(&g),
            };
            for v in it {
                emit(format!("N {}", v.0));
            }
        }
        Lib::Dfs { start } => {
            let it = match start {
                Some(s) => iter_depth::dfs_iter_from(&g, VertexId(*s)),
                None => iter_depth::dfs_iter(&g),
            };
            for v in it {
                emit(format!("N {}", v.0));
            }
        }
        Lib::BfsPaths { start } => {
            for p in iter_breadth::bfs_path_iter_from(&g, VertexId(*start)) {
                emit(format!("P {}", path_str(&p)));
            }
        }
        Lib::DfsPaths { start } => {
            for p in iter_depth::dfs_iter_path_from(&g, VertexId(*start)) {
                emit(format!("P {}", path_str(&p)));
            }
        }
        Lib::HamPaths => {
            emit(format!("H {}", hamiltonian::is_hamiltonian(&g)));
            for p in hamiltonian::iter_hamiltonian_paths(&g) {
                emit(format!("P {}", path_str(&p)));
                if !hamiltonian::is_path_hamiltonian(&p, &g) {
                    emit("BAD path said not to be hamiltonian".into());
                }
            }
            match hamiltonian::first_path(&g) {
                Some(p) => emit(format!("1 {}", path_str(&p))),
                None => emit("1 none".into()),
            }
        }
        Lib::Degrees => {
            dump("", &g);
            emit(format!("C {} {} {}", g.vertex_count(), g.edge_count(), g.is_empty()));
            let mut vs: Vec<VertexId> = g.vertices().cloned().collect();
            vs.sort();
            let mut some: Vec<VertexId> = vs.iter().take(4).chain(vs.iter().rev().take(3)).cloned().collect();
            some.push(VertexId(vs.last().map(|v| v.0.wrapping_add(1)).unwrap_or(5)));
            for a in &some {
                let has: Vec<String> =
                    some.iter().filter(|b| g.contains_edge(Edge(*a, **b))).map(|b| b.0.to_string()).collect();
                emit(format!("K {} {} {}", a.0, g.contains_vertex(*a), has.join(",")));
            }
            for v in vs {
                let o: Vec<String> = g.outbound_edges(v).map(|e| format!("{}>{}", (e.0).0, (e.1).0)).collect();
                let i: Vec<String> = g.inbound_edges(v).map(|e| format!("{}>{}", (e.0).0, (e.1).0)).collect();
                emit(format!("D {} {} {} o {} i {}", v.0, g.degree_out(v), g.degree_in(v), o.join(","), i.join(",")));
            }
        }
        Lib::TopoLib => {
            emit(format!("DAG {}", topo_sort::is_dag(&g)));
            match topo_sort::topological_sort(&g) {
                None => emit("NONE".into()),
                Some(v) => emit(format!("O {}", v.iter().map(|v| v.0.to_string()).collect::<Vec<_>>().join(" "))),
            }
            emit(format!("TRY {}", topo_sort::try_dag(&g).is_some()));
        }
        Lib::CycleLib => {
            let show = |c: &iter_cycle::Cycle| c.iter().map(|v| v.0.to_string()).collect::<Vec<_>>().join(" ");
            let opt = |c: Option<iter_cycle::Cycle>| c.map(|c| show(&c)).unwrap_or_else(|| "none".into());
            for c in cycle::take_all(&g) {
                emit(format!("A {}", show(&c)));
                if !c.is_canonical() || c.canonical() != c {
                    emit("BAD cycle not canonical".into());
                }
            }
            emit(format!("count {}", cycle::count(&g)));
            emit(format!("girth {:?}", cycle::girth(&g)));
            emit(format!("first {}", opt(cycle::first(&g))));
            emit(format!("shortest {}", opt(cycle::shortest(&g))));
            emit(format!("longest {}", opt(cycle::longest(&g))));
            emit(format!("ham {}", opt(cycle::hamiltonian(&g))));
            emit(format!("take2 {}", cycle::take(&g, 2).len()));
        }
        Lib::TgfExport { file } => {
            tgf::save(&g, file.clone()).map_err(|_| 1)?;
        }
        Lib::TgfImport { .. } | Lib::GcmdCommands => unreachable!(),
    }
    emit("END".into());
    Ok(())
}
