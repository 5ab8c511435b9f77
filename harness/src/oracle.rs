//! Reference answers: what a query on a given graph may print. Deliberately simple algorithms
//! that share nothing with the code under test.
use crate::model::{capacity, weight, Act, Con, Lib, Op, G};
use crate::plan::Cmd;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque};

type R = Result<(), String>;

macro_rules! fail { ($($t:tt)*) => { return Err(format!($($t)*)) } }

fn num<T: std::str::FromStr>(s: &str) -> Result<T, String> {
    s.parse::<T>().map_err(|_| format!("'{}' is not a number", s))
}
fn nums(s: &str) -> Result<Vec<u64>, String> {
    s.split_whitespace().map(num).collect()
}
fn after<'a>(line: Option<&'a str>, prefix: &str) -> Result<&'a str, String> {
    match line {
        Some(l) if l.starts_with(prefix) => Ok(&l[prefix.len()..]),
        Some(l) => Err(format!("expected '{}...' but the output has '{}'", prefix, l)),
        None => Err(format!("expected '{}...' but the output ends", prefix)),
    }
}

/// Does `out`, printed by a command that exited 0, answer rightly for the graph `g`?
pub fn answer(cmd: &Cmd, out: &str, g: &G) -> R {
    match &cmd.op {
        Op::Desc => {
            let mut l = out.lines();
            after(l.next(), "Path: ")?;
            let n: usize = num(after(l.next(), "Vertices: ")?)?;
            let m: usize = num(after(l.next(), "Edges: ")?)?;
            let lo = after(l.next(), "Min vertex id: ")?;
            let hi = after(l.next(), "Max vertex id: ")?;
            let show = |x: Option<&u64>| x.map(|v| v.to_string()).unwrap_or_else(|| "-".into());
            if n != g.v.len() || m != g.e.len() {
                fail!("description says {} vertices and {} edges, there are {} and {}", n, m, g.v.len(), g.e.len());
            }
            if lo != show(g.v.iter().next()) || hi != show(g.v.iter().next_back()) {
                fail!("description says ids {} to {}, they are {} to {}", lo, hi, show(g.v.iter().next()), show(g.v.iter().next_back()));
            }
            Ok(())
        }
        Op::Build => {
            let mut l = out.lines();
            let n: usize = num(after(l.next(), "Vertices: ")?)?;
            let m: usize = num(after(l.next(), "Edges: ")?)?;
            if n != g.v.len() || m != g.e.len() {
                fail!("rebuild says {} vertices and {} edges, there are {} and {}", n, m, g.v.len(), g.e.len());
            }
            Ok(())
        }
        Op::Topo => {
            let l = out.lines().next();
            if l == Some("Graph is not a DAG.") {
                return if acyclic(g) { Err("an acyclic graph is said not to be a DAG".into()) } else { Ok(()) };
            }
            topo_ok(&nums(after(l, "Topological order: ")?)?, g)
        }
        Op::Cycle { act, cons } => cycle_answer(act, cons, out, g),
        Op::Short { s, t } => {
            let mut l = out.lines();
            let first = l.next().unwrap_or("");
            let d = bfs(g, *s);
            if first == format!("Vertex {} is not reachable from vertex {}.", t, s) {
                return match d.get(t) {
                    None => Ok(()),
                    Some(d) => Err(format!("{} is said not to be reachable from {}, its distance is {}", t, s, d)),
                };
            }
            let cost: i64 =
                num(after(Some(first), &format!("Shortest path from vertex {} to vertex {} with total cost of ", s, t))?.trim_end_matches('.'))?;
            let path: Vec<u64> = l.map(num).collect::<Result<_, _>>()?;
            if s == t && !g.v.contains(s) && cost == 0 && path == [*s] {
                return Ok(()); // the property is about vertices of the graph
            }
            walk_ok(&path, *s, *t, g)?;
            let d = match d.get(t) {
                None => fail!("a path to an unreachable vertex"),
                Some(d) => *d as i64,
            };
            if cost != path.len() as i64 - 1 || cost != d {
                fail!("path {:?} with cost {}, the distance from {} to {} is {}", path, cost, s, t, d);
            }
            Ok(())
        }
        Op::Csp { s, t, cons } => {
            let none = format!("Vertex {} is not reachable from vertex {} within the given constraints.", t, s);
            let head = format!("Constrained shortest path from vertex {} to vertex {} with total cost of ", s, t);
            let mut ans: Option<(i64, Vec<u64>)> = None;
            let mut seen = false;
            let mut lines = out.lines();
            while let Some(l) = lines.next() {
                if l == none {
                    seen = true;
                } else if l.starts_with(&head) {
                    seen = true;
                    let c: i64 = num(l[head.len()..].trim_end_matches('.'))?;
                    let p: Vec<u64> = lines.by_ref().map(num).collect::<Result<_, _>>()?;
                    ans = Some((c, p));
                }
            }
            if !seen {
                fail!("no answer in the output");
            }
            csp_ok(g, *s, *t, cons, &|_, _| 1, ans)
        }
        Op::Dump => graph_ok(out, "", g),
        Op::Lib(l) => lib_answer(l, out, g),
        Op::Crit { .. } => {
            if !out.contains("aNONE") {
                graph_ok(out, "a", g)?;
            }
            graph_ok(out, "b", g)
        }
        _ => Ok(()),
    }
}

// ---- small algorithms

pub fn bfs(g: &G, s: u64) -> BTreeMap<u64, u64> {
    let succ = g.succ();
    let mut d = BTreeMap::new();
    if !g.v.contains(&s) {
        return d;
    }
    d.insert(s, 0);
    let mut q = VecDeque::new();
    q.push_back(s);
    while let Some(u) = q.pop_front() {
        let du = d[&u];
        for w in &succ[&u] {
            if !d.contains_key(w) {
                d.insert(*w, du + 1);
                q.push_back(*w);
            }
        }
    }
    d
}

pub fn acyclic(g: &G) -> bool {
    let mut indeg: BTreeMap<u64, usize> = g.v.iter().map(|v| (*v, 0)).collect();
    for (_, b) in &g.e {
        *indeg.get_mut(b).unwrap() += 1;
    }
    let succ = g.succ();
    let mut ready: Vec<u64> = indeg.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
    let mut n = 0;
    while let Some(v) = ready.pop() {
        n += 1;
        for w in &succ[&v] {
            let d = indeg.get_mut(w).unwrap();
            *d -= 1;
            if *d == 0 {
                ready.push(*w);
            }
        }
    }
    n == g.v.len()
}

fn topo_ok(order: &[u64], g: &G) -> R {
    let mut pos = BTreeMap::new();
    for (i, v) in order.iter().enumerate() {
        if pos.insert(*v, i).is_some() {
            fail!("vertex {} appears twice in the topological order", v);
        }
    }
    if pos.len() != g.v.len() || g.v.iter().any(|v| !pos.contains_key(v)) {
        fail!("the topological order does not list exactly the {} vertices", g.v.len());
    }
    for (a, b) in &g.e {
        if pos[a] >= pos[b] {
            fail!("edge {} -> {} points backwards in the topological order", a, b);
        }
    }
    Ok(())
}

fn walk_ok(p: &[u64], s: u64, t: u64, g: &G) -> R {
    if p.first() != Some(&s) || p.last() != Some(&t) {
        fail!("path {:?} does not go from {} to {}", p, s, t);
    }
    if p.len() == 1 && !g.v.contains(&s) {
        fail!("path through a vertex that does not exist");
    }
    for w in p.windows(2) {
        if !g.e.contains(&(w[0], w[1])) {
            fail!("path {:?} uses the edge {} -> {}, which does not exist", p, w[0], w[1]);
        }
    }
    Ok(())
}

fn graph_ok(out: &str, tag: &str, g: &G) -> R {
    let h = parse_dump(out, tag)?;
    if h != *g {
        fail!("loaded graph is {}, expected {}", diff(&h, g), g.brief());
    }
    Ok(())
}

fn diff(a: &G, b: &G) -> String {
    if a.v.len() + a.e.len() <= 60 {
        return a.brief();
    }
    let show = |n: &str, x: Vec<String>| if x.is_empty() { String::new() } else { format!(" {} {:?}", n, &x[..x.len().min(5)]) };
    format!(
        "{}:{}{}{}{}",
        a.brief(),
        show("extra vertices", a.v.difference(&b.v).map(|x| x.to_string()).collect()),
        show("missing vertices", b.v.difference(&a.v).map(|x| x.to_string()).collect()),
        show("extra edges", a.e.difference(&b.e).map(|x| format!("{:?}", x)).collect()),
        show("missing edges", b.e.difference(&a.e).map(|x| format!("{:?}", x)).collect())
    )
}

/// The graph printed by a Dump; an error if an element is listed twice.
pub fn parse_dump(out: &str, tag: &str) -> Result<G, String> {
    let mut g = G::default();
    let (ok, v, e) = (format!("{}OK", tag), format!("{}V ", tag), format!("{}E ", tag));
    let mut seen = false;
    for l in out.lines() {
        if l == ok {
            seen = true;
        } else if l.starts_with(&v) {
            for x in nums(&l[v.len()..])? {
                if !g.v.insert(x) {
                    fail!("vertex {} is listed twice", x);
                }
            }
        } else if l.starts_with(&e) {
            let p = nums(&l[e.len()..])?;
            if p.len() != 2 || !g.e.insert((p[0], p[1])) {
                fail!("edge {:?} is listed twice", p);
            }
        }
    }
    if !seen {
        fail!("no graph was loaded");
    }
    for (a, b) in &g.e {
        if !g.v.contains(a) || !g.v.contains(b) {
            fail!("edge {} -> {} without its vertices", a, b);
        }
    }
    Ok(g)
}

// ---- cycles

/// all elementary cycles, each with its smallest vertex first; None if there are too many
pub fn cycles(g: &G, limit: usize) -> Option<BTreeSet<Vec<u64>>> {
    let succ = g.succ();
    let mut out = BTreeSet::new();
    let mut work = 0usize;
    for s in &g.v {
        // paths from s through larger vertices
        let mut stack: Vec<(u64, usize)> = vec![(*s, 0)];
        let mut on: BTreeSet<u64> = BTreeSet::new();
        on.insert(*s);
        while let Some((v, i)) = stack.last().cloned() {
            work += 1;
            if work > limit * 50 || out.len() > limit {
                return None;
            }
            let n = succ[&v].get(i).cloned();
            match n {
                None => {
                    stack.pop();
                    on.remove(&v);
                }
                Some(w) => {
                    stack.last_mut().unwrap().1 += 1;
                    if w == *s {
                        out.insert(stack.iter().map(|x| x.0).collect());
                    } else if w > *s && !on.contains(&w) {
                        on.insert(w);
                        stack.push((w, 0));
                    }
                }
            }
        }
    }
    Some(out)
}

/// how many simple paths a search from the vertices without incoming edges goes through
pub fn simple_path_count(g: &G, cap: usize) -> usize {
    let succ = g.succ();
    let mut n = 0;
    for s in &g.v {
        let mut stack: Vec<(u64, usize)> = vec![(*s, 0)];
        let mut on: BTreeSet<u64> = BTreeSet::new();
        on.insert(*s);
        n += 1;
        while let Some((v, i)) = stack.last().cloned() {
            if n > cap {
                return n;
            }
            match succ[&v].get(i).cloned() {
                None => {
                    stack.pop();
                    on.remove(&v);
                }
                Some(w) => {
                    stack.last_mut().unwrap().1 += 1;
                    n += 1;
                    if !on.contains(&w) {
                        on.insert(w);
                        stack.push((w, 0));
                    }
                }
            }
        }
    }
    n
}

fn canon(mut c: Vec<u64>) -> Vec<u64> {
    if let Some(i) = (0..c.len()).min_by_key(|i| c[*i]) {
        c.rotate_left(i);
    }
    c
}

fn cycle_edges(c: &[u64]) -> BTreeSet<(u64, u64)> {
    (0..c.len()).map(|i| (c[i], c[(i + 1) % c.len()])).collect()
}

fn cycle_meets(c: &[u64], cons: &[Con]) -> bool {
    let n = c.len() as u64;
    let edges = cycle_edges(c);
    cons.iter().all(|k| match k {
        Con::Include(v) => v.iter().all(|x| c.contains(x)),
        Con::Exclude(v) => v.iter().all(|x| !c.contains(x)),
        Con::IncludeEdges(v) => v.chunks(2).all(|e| edges.contains(&(e[0], e[1]))),
        Con::ExcludeEdges(v) => v.chunks(2).all(|e| !edges.contains(&(e[0], e[1]))),
        Con::MinLen(k) => n >= *k,
        Con::MaxLen(k) => n <= *k,
        Con::ExactLen(k) => n == *k,
        Con::MinScore(k) => n as i64 >= *k,
        Con::MaxScore(k) => n as i64 <= *k,
        Con::ExactScore(k) => n as i64 == *k,
        _ => true,
    })
}

/// cycles that must be reported: reachable from a source, or all of them without any source
fn required_cycles(g: &G, all: &BTreeSet<Vec<u64>>) -> BTreeSet<Vec<u64>> {
    let targets: BTreeSet<u64> = g.e.iter().map(|e| e.1).collect();
    let sources: Vec<u64> = g.v.iter().cloned().filter(|v| !targets.contains(v)).collect();
    if sources.is_empty() {
        return all.clone();
    }
    let mut reach = BTreeSet::new();
    for s in sources {
        reach.extend(bfs(g, s).keys().cloned());
    }
    all.iter().filter(|c| reach.contains(&c[0])).cloned().collect()
}

fn parse_cycle(s: &str) -> Result<Vec<u64>, String> {
    let s = s.trim();
    if !s.starts_with('[') || !s.ends_with(']') {
        fail!("'{}' is not a cycle", s);
    }
    s[1..s.len() - 1].split(',').map(|x| num(x.trim())).collect()
}

/// one reported cycle, or none, out of the cycles that pass the filter
fn one(c: Option<Vec<u64>>, need: &[Vec<u64>], all: &BTreeSet<Vec<u64>>, ok: &dyn Fn(&[u64]) -> bool) -> Result<Option<Vec<u64>>, String> {
    match c {
        None => {
            if let Some(x) = need.first() {
                fail!("no cycle reported, but there is {:?}", x);
            }
            Ok(None)
        }
        Some(c) => {
            let c = canon(c);
            if !all.contains(&c) {
                fail!("{:?} is not an elementary cycle of the graph", c);
            }
            if !ok(&c) {
                fail!("{:?} does not pass the filters", c);
            }
            Ok(Some(c))
        }
    }
}

fn cycle_answer(act: &Act, cons: &[Con], out: &str, g: &G) -> R {
    let all = match cycles(g, 20_000) {
        Some(a) => a,
        None => return Ok(()), // the generator does not make such graphs
    };
    let req = required_cycles(g, &all);
    let cons_on: &[Con] = if matches!(act, Act::Girth | Act::Hamiltonian) { &[] } else { cons };
    let passes = |c: &[u64]| cycle_meets(c, cons_on);
    let need: Vec<Vec<u64>> = req.iter().filter(|c| passes(c)).cloned().collect();
    let may: Vec<Vec<u64>> = all.iter().filter(|c| passes(c)).cloned().collect();
    let opt = |s: &str| -> Result<Option<Vec<u64>>, String> {
        if s.trim() == "N/A" {
            Ok(None)
        } else {
            parse_cycle(s).map(Some)
        }
    };
    let first = out.lines().next();
    match act {
        Act::Girth => {
            let s = after(first, "girth: ")?;
            let lo = may.iter().map(|c| c.len()).min();
            let hi = need.iter().map(|c| c.len()).min();
            if s == "Infinity" {
                if hi.is_some() {
                    fail!("girth Infinity, but there is a cycle of length {}", hi.unwrap());
                }
                return Ok(());
            }
            let n: usize = num(s)?;
            if lo.map(|l| n < l).unwrap_or(true) || hi.map(|h| n > h).unwrap_or(false) {
                fail!("girth {}, the shortest cycle has length {:?}", n, lo);
            }
            Ok(())
        }
        Act::Hamiltonian => {
            let c = opt(after(first, "hamiltonian: ")?)?;
            let n = g.v.len();
            let hneed: Vec<Vec<u64>> = need.iter().filter(|c| c.len() == n).cloned().collect();
            one(c, &hneed, &all, &|c| c.len() == n).map(|_| ())
        }
        Act::Count => {
            let n: usize = num(after(first, "count: ")?)?;
            if n < need.len() || n > may.len() {
                fail!("count {}, there are {} cycles", n, may.len());
            }
            Ok(())
        }
        Act::Shortest => {
            let c = one(opt(after(first, "shortest cycle: ")?)?, &need, &all, &passes)?;
            if let (Some(c), Some(m)) = (c, need.iter().map(|c| c.len()).min()) {
                if c.len() > m {
                    fail!("shortest cycle {:?}, but there is one of length {}", c, m);
                }
            }
            Ok(())
        }
        Act::Longest => {
            let c = one(opt(after(first, "longest cycle: ")?)?, &need, &all, &passes)?;
            if let (Some(c), Some(m)) = (c, need.iter().map(|c| c.len()).max()) {
                if c.len() < m {
                    fail!("longest cycle {:?}, but there is one of length {}", c, m);
                }
            }
            Ok(())
        }
        Act::All | Act::Head | Act::Take(_) => {
            let max = match act {
                Act::Head => 1,
                Act::Take(n) => *n as usize,
                _ => usize::MAX,
            };
            let mut got = BTreeSet::new();
            for l in out.lines() {
                let c = one(Some(parse_cycle(l)?), &need, &all, &passes)?.unwrap();
                if !got.insert(c.clone()) {
                    fail!("cycle {:?} is reported twice", c);
                }
            }
            if got.len() > max {
                fail!("{} cycles reported, {} asked for", got.len(), max);
            }
            if got.len() < max {
                // the search came to its end: everything required must be there
                if let Some(c) = need.iter().find(|c| !got.contains(*c)) {
                    fail!("cycle {:?} is not reported", c);
                }
            }
            Ok(())
        }
    }
}

// ---- constrained paths

struct Limits {
    include: BTreeSet<u64>,
    exclude: BTreeSet<u64>,
    inc_edges: Vec<(u64, u64)>,
    exc_edges: BTreeSet<(u64, u64)>,
    ordered: Vec<Vec<u64>>,
    with_cycle: bool,
    no_cycle: bool,
    min_len: u64,
    max_len: u64,
    min_score: i64,
    max_score: i64,
}

fn limits(cons: &[Con]) -> Limits {
    let mut l = Limits {
        include: BTreeSet::new(),
        exclude: BTreeSet::new(),
        inc_edges: vec![],
        exc_edges: BTreeSet::new(),
        ordered: vec![],
        with_cycle: false,
        no_cycle: false,
        min_len: 0,
        max_len: u64::MAX,
        min_score: i64::MIN,
        max_score: i64::MAX,
    };
    for c in cons {
        match c {
            Con::Include(v) => l.include.extend(v),
            Con::Exclude(v) => l.exclude.extend(v),
            Con::IncludeEdges(v) => l.inc_edges.extend(v.chunks(2).map(|c| (c[0], c[1]))),
            Con::ExcludeEdges(v) => l.exc_edges.extend(v.chunks(2).map(|c| (c[0], c[1]))),
            Con::Ordered(v) => l.ordered.push(v.clone()),
            Con::WithCycle => l.with_cycle = true,
            Con::NoCycle => l.no_cycle = true,
            Con::MinLen(n) => l.min_len = l.min_len.max(*n),
            Con::MaxLen(n) => l.max_len = l.max_len.min(*n),
            Con::ExactLen(n) => {
                l.min_len = l.min_len.max(*n);
                l.max_len = l.max_len.min(*n)
            }
            Con::MinScore(n) => l.min_score = l.min_score.max(*n),
            Con::MaxScore(n) => l.max_score = l.max_score.min(*n),
            Con::ExactScore(n) => {
                l.min_score = l.min_score.max(*n);
                l.max_score = l.max_score.min(*n)
            }
            Con::Not(_) | Con::Both(..) | Con::Either(..) | Con::OneOf(..) | Con::Bad(..) => (),
        }
    }
    l
}

fn combined(cons: &[Con]) -> bool {
    cons.iter().any(|c| matches!(c, Con::Not(_) | Con::Both(..) | Con::Either(..) | Con::OneOf(..)))
}

fn holds(c: &Con, p: &[u64], score: i64) -> bool {
    match c {
        Con::Not(a) => !holds(a, p, score),
        Con::Both(a, b) => holds(a, p, score) && holds(b, p, score),
        Con::Either(a, b) => holds(a, p, score) || holds(b, p, score),
        Con::OneOf(a, b) => holds(a, p, score) != holds(b, p, score),
        c => path_meets(p, score, &limits(std::slice::from_ref(c))).is_ok(),
    }
}

fn all_met(p: &[u64], score: i64, cons: &[Con]) -> R {
    match cons.iter().find(|c| !holds(c, p, score)) {
        Some(c) => Err(format!("path {:?} with score {} does not meet {:?}", p, score, c)),
        None => Ok(()),
    }
}

/// Every walk from s within the limits on length and score that are not part of a combination.
fn walks(g: &G, s: u64, cons: &[Con], w: &dyn Fn(u64, u64) -> i64, cap: usize, see: &mut dyn FnMut(&[u64], i64)) -> usize {
    let l = limits(cons);
    let succ = g.succ();
    let mut stack: Vec<(Vec<u64>, i64)> = vec![(vec![s], 0)];
    let mut n = 0;
    while let Some((p, sc)) = stack.pop() {
        n += 1;
        if n >= cap {
            break;
        }
        see(&p, sc);
        let last = *p.last().unwrap();
        for v in succ.get(&last).into_iter().flatten() {
            let nsc = sc + w(last, *v);
            if p.len() as u64 + 1 <= l.max_len && nsc <= l.max_score {
                let mut q = p.clone();
                q.push(*v);
                stack.push((q, nsc));
            }
        }
    }
    n
}

fn repeats(p: &[u64]) -> bool {
    let s: BTreeSet<&u64> = p.iter().collect();
    s.len() != p.len()
}

fn in_order(p: &[u64], o: &[u64]) -> bool {
    let idx: Vec<usize> = p.iter().filter_map(|v| o.iter().position(|x| x == v)).collect();
    idx.windows(2).all(|w| w[0] <= w[1])
}

fn path_meets(p: &[u64], score: i64, l: &Limits) -> R {
    let n = p.len() as u64;
    if let Some(v) = l.include.iter().find(|v| !p.contains(v)) {
        fail!("path {:?} does not include {}", p, v);
    }
    if let Some(v) = l.exclude.iter().find(|v| p.contains(v)) {
        fail!("path {:?} includes the excluded {}", p, v);
    }
    let edges: BTreeSet<(u64, u64)> = p.windows(2).map(|w| (w[0], w[1])).collect();
    if l.inc_edges.iter().any(|e| !edges.contains(e)) || l.exc_edges.iter().any(|e| edges.contains(e)) {
        fail!("path {:?} breaks an edge constraint", p);
    }
    for o in &l.ordered {
        if !in_order(p, o) {
            fail!("path {:?} does not respect the order {:?}", p, o);
        }
    }
    if l.with_cycle && !repeats(p) {
        fail!("path {:?} has no cycle", p);
    }
    if l.no_cycle && repeats(p) {
        fail!("path {:?} has a cycle", p);
    }
    if n < l.min_len || n > l.max_len {
        fail!("path {:?} has {} vertices", p, n);
    }
    if score < l.min_score || score > l.max_score {
        fail!("path {:?} has score {}", p, score);
    }
    Ok(())
}

/// Cheapest score of a walk from s to t that meets the constraints. Weights are positive.
/// Searches the finite space of (vertex, visited set, progress of each constraint).
/// The best score, or no answer if that takes too many steps to find out.
pub fn csp_best(g: &G, s: u64, t: u64, cons: &[Con], w: &dyn Fn(u64, u64) -> i64) -> Result<Option<i64>, ()> {
    let l = limits(cons);
    if !g.v.contains(&s) {
        return Ok(None);
    }
    if combined(cons) {
        let mut best = None;
        walks(g, s, cons, w, usize::MAX, &mut |p, sc| {
            if p.last() == Some(&t) && best.map_or(true, |b| sc < b) && all_met(p, sc, cons).is_ok() {
                best = Some(sc);
            }
        });
        return Ok(best);
    }
    let ids: Vec<u64> = g.v.iter().cloned().collect();
    let index: BTreeMap<u64, usize> = ids.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    if l.include.iter().any(|v| !index.contains_key(v)) {
        return Ok(None);
    }
    // beyond this many vertices or this score nothing changes any more
    let len_cap = l.min_len.max(if l.max_len == u64::MAX { 0 } else { l.max_len + 1 });
    let score_cap = if l.min_score == i64::MIN { 0 } else { l.min_score };
    #[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
    struct St {
        at: usize,
        seen: u128,
        rep: bool,
        ord: Vec<usize>,
        len: u64,
        score: i64,
        edges: u32,
    }
    // visited vertices matter only to these constraints
    let relevant: u128 = if l.with_cycle || l.no_cycle {
        u128::MAX
    } else {
        l.include.iter().map(|v| 1u128 << index[v]).sum()
    };
    let succ = g.succ();
    let mut heap: BinaryHeap<(std::cmp::Reverse<i64>, St, u64)> = BinaryHeap::new();
    let mut done: std::collections::HashSet<St> = Default::default();
    let step = |prev: Option<(&St, i64, u64)>, v: u64| -> Option<(i64, St, u64)> {
        if l.exclude.contains(&v) {
            return None;
        }
        let i = index[&v];
        let (mut st, score, len) = match prev {
            None => (St { at: i, seen: 0, rep: false, ord: vec![0; l.ordered.len()], len: 0, score: 0, edges: 0 }, 0, 1),
            Some((p, sc, len)) => {
                let e = (ids[p.at], v);
                if l.exc_edges.contains(&e) {
                    return None;
                }
                let mut st = p.clone();
                for (k, x) in l.inc_edges.iter().enumerate() {
                    if *x == e {
                        st.edges |= 1 << k;
                    }
                }
                (st, sc + w(e.0, e.1), len + 1)
            }
        };
        st.at = i;
        if st.seen >> i & 1 == 1 {
            st.rep = true;
        }
        st.seen |= (1 << i) & relevant;
        for (k, o) in l.ordered.iter().enumerate() {
            if let Some(p) = o.iter().position(|x| *x == v) {
                if p < st.ord[k] {
                    return None;
                }
                st.ord[k] = p;
            }
        }
        if (l.no_cycle && st.rep) || len > l.max_len || score > l.max_score {
            return None;
        }
        st.len = len.min(len_cap);
        st.score = score.min(score_cap);
        Some((score, st, len))
    };
    if let Some((sc, st, len)) = step(None, s) {
        heap.push((std::cmp::Reverse(sc), st, len));
    }
    while let Some((std::cmp::Reverse(sc), st, len)) = heap.pop() {
        if !done.insert(st.clone()) {
            continue;
        }
        if done.len() > 20_000 {
            return Err(());
        }
        if ids[st.at] == t
            && l.include.iter().all(|v| st.seen >> index[v] & 1 == 1)
            && st.edges == ((1u64 << l.inc_edges.len()) - 1) as u32
            && (!l.with_cycle || st.rep)
            && len >= l.min_len
            && sc >= l.min_score
        {
            return Ok(Some(sc));
        }
        for v in &succ[&ids[st.at]] {
            if let Some((nsc, nst, nlen)) = step(Some((&st, sc, len)), *v) {
                if !done.contains(&nst) {
                    heap.push((std::cmp::Reverse(nsc), nst, nlen));
                }
            }
        }
    }
    Ok(None)
}

/// How many partial walks a search without memory goes through up to its answer, at most `cap`.
pub fn csp_effort(g: &G, s: u64, t: u64, cons: &[Con], w: &dyn Fn(u64, u64) -> i64, cap: usize) -> usize {
    let l = limits(cons);
    if combined(cons) {
        return walks(g, s, cons, w, cap, &mut |_, _| ());
    }
    let best = match csp_best(g, s, t, cons, w) {
        Ok(best) => best.unwrap_or(i64::MAX),
        Err(()) => return cap,
    };
    let succ = g.succ();
    let mut stack: Vec<(Vec<u64>, i64)> = vec![(vec![s], 0)];
    let mut n = 0;
    while let Some((p, sc)) = stack.pop() {
        n += 1;
        if n >= cap {
            return cap;
        }
        let last = *p.last().unwrap();
        for v in succ.get(&last).into_iter().flatten() {
            let nsc = sc + w(last, *v);
            if nsc > best || nsc > l.max_score || p.len() as u64 + 1 > l.max_len {
                continue;
            }
            let mut q = p.clone();
            q.push(*v);
            if (l.no_cycle && repeats(&q))
                || q.iter().any(|x| l.exclude.contains(x))
                || l.ordered.iter().any(|o| !in_order(&q, o))
                || l.exc_edges.contains(&(last, *v))
            {
                continue;
            }
            stack.push((q, nsc));
        }
    }
    n
}

fn csp_ok(g: &G, s: u64, t: u64, cons: &[Con], w: &dyn Fn(u64, u64) -> i64, ans: Option<(i64, Vec<u64>)>) -> R {
    if !g.v.contains(&s) || !g.v.contains(&t) {
        // the property is about vertices of the graph
        return match ans {
            Some((c, p)) if s != t || c != 0 || p != [s] => Err(format!("path {:?} with score {} between vertices that do not exist", p, c)),
            _ => Ok(()),
        };
    }
    // too large for the reference search
    if g.v.len() > 64 || combined(cons) && walks(g, s, cons, w, 20_000, &mut |_, _| ()) >= 20_000 {
        if let Some((c, p)) = &ans {
            walk_ok(p, s, t, g)?;
            all_met(p, *c, cons)?;
        }
        return Ok(());
    }
    let best = match (csp_best(g, s, t, cons, w), &ans) {
        (Ok(best), _) => best,
        (Err(()), None) => return Ok(()),
        (Err(()), Some((c, _))) => Some(*c),
    };
    match (ans, best) {
        (None, None) => Ok(()),
        (None, Some(b)) => Err(format!("said to be impossible, but a path of score {} from {} to {} meets {:?}", b, s, t, cons)),
        (Some((c, p)), best) => {
            walk_ok(&p, s, t, g)?;
            let real: i64 = p.windows(2).map(|x| w(x[0], x[1])).sum();
            if real != c {
                fail!("path {:?} has score {}, not {}", p, real, c);
            }
            path_meets(&p, c, &limits(cons))?;
            all_met(&p, c, cons)?;
            if best != Some(c) {
                fail!("path {:?} has score {}, the best score is {:?} for {:?}", p, c, best, cons);
            }
            Ok(())
        }
    }
}

// ---- library results

/// best scores from s; None if a negative cycle is reachable
pub fn bellman(g: &G, s: u64, w: &dyn Fn(u64, u64) -> i64) -> Option<BTreeMap<u64, i64>> {
    let reach = bfs(g, s);
    let mut d: BTreeMap<u64, i64> = BTreeMap::new();
    d.insert(s, 0);
    for round in 0..=g.v.len() {
        let mut changed = false;
        for (a, b) in &g.e {
            if !reach.contains_key(a) {
                continue;
            }
            if let Some(x) = d.get(a).cloned() {
                let n = x + w(*a, *b);
                if d.get(b).map(|y| n < *y).unwrap_or(true) {
                    d.insert(*b, n);
                    changed = true;
                }
            }
        }
        if !changed {
            return Some(d);
        }
        if round == g.v.len() {
            return None;
        }
    }
    None
}

fn scored(line: &str) -> Result<(u64, i64, Vec<u64>), String> {
    let mut it = line.split_whitespace();
    let v: u64 = num(it.next().unwrap_or(""))?;
    let s: i64 = num(it.next().unwrap_or(""))?;
    let p: Vec<u64> = it.map(num).collect::<Result<_, _>>()?;
    Ok((v, s, p))
}

/// lines "R vertex score path" against the best scores, and "S vertex score path" for one target
fn scores_ok(out: &str, s: u64, best: &BTreeMap<u64, i64>, w: &dyn Fn(u64, u64) -> i64, g: &G) -> R {
    let mut got = BTreeSet::new();
    let check = |v: u64, sc: i64, p: &[u64]| -> R {
        walk_ok(p, s, v, g)?;
        let real: i64 = p.windows(2).map(|x| w(x[0], x[1])).sum();
        if real != sc {
            fail!("path {:?} has score {}, not {}", p, real, sc);
        }
        if best.get(&v) != Some(&sc) {
            fail!("path {:?} with score {}, the best score is {:?}", p, sc, best.get(&v));
        }
        Ok(())
    };
    let mut all = false;
    for l in out.lines() {
        if l.starts_with("R ") {
            all = true;
            let (v, sc, p) = scored(&l[2..])?;
            if !got.insert(v) {
                fail!("vertex {} has two results", v);
            }
            check(v, sc, &p)?;
        } else if l.starts_with("S ") {
            if l.ends_with(" none") {
                let v: u64 = num(l[2..].split_whitespace().next().unwrap_or(""))?;
                if best.contains_key(&v) {
                    fail!("no path to {}, but there is one of score {}", v, best[&v]);
                }
            } else {
                let (v, sc, p) = scored(&l[2..])?;
                check(v, sc, &p)?;
            }
        }
    }
    if all {
        if let Some(v) = best.keys().find(|v| !got.contains(v)) {
            fail!("no result for vertex {}, which is reachable from {}", v, s);
        }
    }
    Ok(())
}

fn max_flow(g: &G, cap: &dyn Fn(u64, u64) -> u64, s: u64, t: u64) -> u64 {
    let mut res: BTreeMap<(u64, u64), u128> = BTreeMap::new();
    for (a, b) in &g.e {
        if a != b {
            *res.entry((*a, *b)).or_insert(0) += cap(*a, *b) as u128;
            res.entry((*b, *a)).or_insert(0);
        }
    }
    let mut total = 0u128;
    loop {
        let mut prev: BTreeMap<u64, u64> = BTreeMap::new();
        let mut q = VecDeque::new();
        q.push_back(s);
        prev.insert(s, s);
        while let Some(u) = q.pop_front() {
            for ((a, b), c) in res.range((u, 0)..=(u, u64::MAX)) {
                if *a == u && *c > 0 && !prev.contains_key(b) {
                    prev.insert(*b, u);
                    q.push_back(*b);
                }
            }
        }
        if !prev.contains_key(&t) {
            return total as u64;
        }
        let mut f = u128::MAX;
        let mut v = t;
        while v != s {
            f = f.min(res[&(prev[&v], v)]);
            v = prev[&v];
        }
        v = t;
        while v != s {
            let u = prev[&v];
            *res.get_mut(&(u, v)).unwrap() -= f;
            *res.get_mut(&(v, u)).unwrap() += f;
            v = u;
        }
        total += f;
    }
}

pub fn simple_paths(g: &G, s: u64) -> BTreeSet<Vec<u64>> {
    let succ = g.succ();
    let mut out = BTreeSet::new();
    let mut stack = vec![vec![s]];
    while let Some(p) = stack.pop() {
        for v in succ.get(p.last().unwrap()).into_iter().flatten() {
            if !p.contains(v) {
                let mut q = p.clone();
                q.push(*v);
                stack.push(q);
            }
        }
        out.insert(p);
    }
    out
}

fn lib_answer(l: &Lib, out: &str, g: &G) -> R {
    let tagged = |t: &str| -> Vec<String> {
        out.lines().filter(|l| l.starts_with(t)).map(|l| l[t.len()..].to_string()).collect()
    };
    if let Some(b) = out.lines().find(|l| l.starts_with("BAD ")) {
        return Err(b[4..].to_string());
    }
    let ended = out.lines().next_back() == Some("END");
    if !ended && !matches!(l, Lib::TgfImport { .. } | Lib::GcmdCommands) {
        fail!("the library client did not come to its end");
    }
    match l {
        Lib::DagShortest { start, wseed, lo, hi } | Lib::DagLongest { start, wseed, lo, hi } => {
            let long = matches!(l, Lib::DagLongest { .. });
            if out.starts_with("NODAG") {
                return if acyclic(g) { Err("an acyclic graph is said not to be a DAG".into()) } else { Ok(()) };
            }
            if !acyclic(g) {
                fail!("a graph with a cycle is said to be a DAG");
            }
            let w = |a: u64, b: u64| weight(*wseed, a, b, *lo, *hi);
            let best = if long {
                bellman(g, *start, &|a, b| -w(a, b)).unwrap().into_iter().map(|(v, s)| (v, -s)).collect()
            } else {
                bellman(g, *start, &w).unwrap()
            };
            scores_ok(out, *start, &best, &w, g)
        }
        Lib::BellmanFord { start, wseed, lo, hi } => {
            let w = |a: u64, b: u64| weight(*wseed, a, b, *lo, *hi);
            let best = bellman(g, *start, &w);
            let neg = out.starts_with("NEGATIVE");
            match best {
                None if neg => Ok(()),
                None => Err("a negative cycle is not detected".into()),
                Some(_) if neg => Err("a negative cycle is reported, there is none".into()),
                Some(b) => scores_ok(out, *start, &b, &w, g),
            }
        }
        Lib::Spfa { start, wseed, lo, hi } | Lib::BestFirst { start, wseed, lo, hi } => {
            let w = |a: u64, b: u64| weight(*wseed, a, b, *lo, *hi);
            match bellman(g, *start, &w) {
                None => Ok(()),
                Some(b) => scores_ok(out, *start, &b, &w, g),
            }
        }
        Lib::AStar { start, wseed, lo, hi, .. } => {
            let w = |a: u64, b: u64| weight(*wseed, a, b, *lo, *hi);
            scores_ok(out, *start, &bellman(g, *start, &w).unwrap(), &w, g)
        }
        Lib::CspLib { start, end, wseed, lo, hi, cons, .. } => {
            let w = |a: u64, b: u64| weight(*wseed, a, b, *lo, *hi);
            let line = tagged("S ").into_iter().next().ok_or("no answer")?;
            let ans = if line.ends_with(" none") { None } else { scored(&line).map(|(_, s, p)| Some((s, p)))? };
            csp_ok(g, *start, *end, cons, &w, ans)
        }
        Lib::MaxFlow { start, end, wseed, cap } => {
            let c = |a: u64, b: u64| capacity(*wseed, a, b, *cap, *start);
            let total: u64 = num(tagged("T ").first().map(|s| s.as_str()).unwrap_or(""))?;
            let mut net: BTreeMap<u64, i128> = BTreeMap::new();
            for l in tagged("F ") {
                let x = nums(&l)?;
                if !g.e.contains(&(x[0], x[1])) {
                    fail!("flow on the edge {} -> {}, which does not exist", x[0], x[1]);
                }
                if x[2] > c(x[0], x[1]) {
                    fail!("flow {} on {} -> {} with capacity {}", x[2], x[0], x[1], c(x[0], x[1]));
                }
                *net.entry(x[0]).or_insert(0) -= x[2] as i128;
                *net.entry(x[1]).or_insert(0) += x[2] as i128;
            }
            for (v, n) in &net {
                let want = if *v == *start { -(total as i128) } else if *v == *end { total as i128 } else { 0 };
                if *n != want {
                    fail!("flow is not conserved at {}: net {}, expected {}", v, n, want);
                }
            }
            let best = max_flow(g, &c, *start, *end);
            if total != best {
                fail!("flow value {}, the maximum is {}", total, best);
            }
            Ok(())
        }
        Lib::Bfs { start } | Lib::Dfs { start } => {
            let order: Vec<u64> = tagged("N ").iter().map(|s| num(s)).collect::<Result<_, _>>()?;
            let s = match start {
                Some(s) => *s,
                None => match order.first() {
                    Some(s) => *s,
                    None => return if g.v.is_empty() { Ok(()) } else { Err("the traversal is empty".into()) },
                },
            };
            if order.first() != Some(&s) {
                fail!("the traversal does not begin at {}", s);
            }
            let d = bfs(g, s);
            let set: BTreeSet<u64> = order.iter().cloned().collect();
            if set.len() != order.len() {
                fail!("the traversal {:?} visits a vertex twice", order);
            }
            let want: BTreeSet<u64> = d.keys().cloned().collect();
            if set != want {
                fail!("the traversal from {} visits {:?}, reachable are {:?}", s, set, want);
            }
            if matches!(l, Lib::Bfs { .. }) && order.windows(2).any(|w| d[&w[0]] > d[&w[1]]) {
                fail!("breadth-first traversal {:?} is not in order of distance", order);
            }
            Ok(())
        }
        Lib::BfsPaths { start } | Lib::DfsPaths { start } => {
            let ps: Vec<Vec<u64>> = tagged("P ").iter().map(|s| nums(s)).collect::<Result<_, _>>()?;
            let set: BTreeSet<Vec<u64>> = ps.iter().cloned().collect();
            if set.len() != ps.len() {
                fail!("a path is yielded twice");
            }
            let want = simple_paths(g, *start);
            if set != want {
                fail!(
                    "path traversal from {}: missing {:?}, not a simple path {:?}",
                    start,
                    want.difference(&set).next(),
                    set.difference(&want).next()
                );
            }
            if matches!(l, Lib::BfsPaths { .. }) && ps.windows(2).any(|w| w[0].len() > w[1].len()) {
                fail!("breadth-first paths are not in order of length");
            }
            Ok(())
        }
        Lib::HamPaths => {
            let ps: Vec<Vec<u64>> = tagged("P ").iter().map(|s| nums(s)).collect::<Result<_, _>>()?;
            let set: BTreeSet<Vec<u64>> = ps.iter().cloned().collect();
            let mut want = BTreeSet::new();
            for s in &g.v {
                want.extend(simple_paths(g, *s).into_iter().filter(|p| p.len() == g.v.len()));
            }
            if set.len() != ps.len() || set != want {
                fail!("hamiltonian paths {:?}, expected {:?}", ps, want);
            }
            let h = tagged("H ");
            if h.first().map(|s| s.as_str()) != Some(if want.is_empty() && !g.v.is_empty() { "false" } else { "true" }) {
                fail!("is_hamiltonian says {:?}, there are {} hamiltonian paths", h, want.len());
            }
            let f = tagged("1 ");
            match f.first().map(|s| s.as_str()) {
                Some("none") if want.is_empty() => Ok(()),
                Some("none") => Err("no first hamiltonian path".into()),
                Some(p) if want.contains(&nums(p)?) => Ok(()),
                x => Err(format!("first hamiltonian path {:?}", x)),
            }
        }
        Lib::Degrees => {
            graph_ok(out, "", g)?;
            let c = tagged("C ");
            let want = format!("{} {} {}", g.v.len(), g.e.len(), g.v.is_empty());
            if c.first() != Some(&want) {
                fail!("counts are {:?}, expected {}", c, want);
            }
            let mut succ: BTreeMap<u64, BTreeSet<String>> = BTreeMap::new();
            let mut pred: BTreeMap<u64, BTreeSet<String>> = BTreeMap::new();
            for (a, b) in &g.e {
                succ.entry(*a).or_default().insert(format!("{}>{}", a, b));
                pred.entry(*b).or_default().insert(format!("{}>{}", a, b));
            }
            let k: Vec<Vec<String>> = tagged("K ").iter().map(|l| l.split(' ').map(|x| x.to_string()).collect()).collect();
            let asked: Vec<u64> = k.iter().map(|f| num(&f[0])).collect::<Result<_, _>>()?;
            for f in &k {
                let a: u64 = num(&f[0])?;
                let want: Vec<String> =
                    asked.iter().filter(|b| g.e.contains(&(a, **b))).map(|b| b.to_string()).collect();
                if f[1] != g.v.contains(&a).to_string() || f[2] != want.join(",") {
                    fail!("vertex {} is contained: {}, its edges to {:?} are {}, expected {:?}", a, f[1], asked, f[2], want);
                }
            }
            for l in tagged("D ") {
                let f: Vec<&str> = l.split(' ').collect();
                let v: u64 = num(f[0])?;
                for (deg, list, want, what) in
                    vec![(f[1], f.get(4), succ.get(&v), "outgoing"), (f[2], f.get(6), pred.get(&v), "incoming")]
                {
                    let got: Vec<String> =
                        list.unwrap_or(&"").split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
                    let set: BTreeSet<String> = got.iter().cloned().collect();
                    let empty = BTreeSet::new();
                    let want = want.unwrap_or(&empty);
                    if set != *want || got.len() != want.len() || num::<usize>(deg)? != want.len() {
                        fail!("{} edges of {} are {:?} (degree {}), expected {:?}", what, v, got, deg, want);
                    }
                }
            }
            Ok(())
        }
        Lib::TopoLib => {
            let ac = acyclic(g);
            if tagged("DAG ").first().map(|s| s.as_str()) != Some(if ac { "true" } else { "false" })
                || tagged("TRY ").first().map(|s| s.as_str()) != Some(if ac { "true" } else { "false" })
            {
                fail!("is_dag is wrong, the graph is {}", if ac { "acyclic" } else { "cyclic" });
            }
            let o = tagged("O");
            match o.first() {
                None if !ac => Ok(()),
                None => Err("no topological order of an acyclic graph".into()),
                Some(o) => topo_ok(&nums(o)?, g),
            }
        }
        Lib::CycleLib => {
            let all = match cycles(g, 20_000) {
                Some(a) => a,
                None => return Ok(()),
            };
            let req = required_cycles(g, &all);
            let need: Vec<Vec<u64>> = req.iter().cloned().collect();
            let mut got = BTreeSet::new();
            for l in tagged("A ") {
                let c = canon(nums(&l)?);
                if !all.contains(&c) {
                    fail!("{:?} is not an elementary cycle of the graph", c);
                }
                if !got.insert(c.clone()) {
                    fail!("cycle {:?} is reported twice", c);
                }
            }
            if let Some(c) = need.iter().find(|c| !got.contains(*c)) {
                fail!("cycle {:?} is not reported", c);
            }
            let field = |t: &str| tagged(t).into_iter().next().unwrap_or_default();
            if field("count ") != got.len().to_string() {
                fail!("count is {}, {} cycles were listed", field("count "), got.len());
            }
            let min = got.iter().map(|c| c.len()).min();
            if field("girth ") != format!("{:?}", min) {
                fail!("girth is {}, expected {:?}", field("girth "), min);
            }
            let cyc = |t: &str, need: &[Vec<u64>], ok: &dyn Fn(&[u64]) -> bool| -> R {
                let f = field(t);
                let c = if f == "none" { None } else { Some(nums(&f)?) };
                one(c, need, &got, ok).map(|_| ()).map_err(|e| format!("{}: {}", t, e))
            };
            let lens: Vec<Vec<u64>> = got.iter().cloned().collect();
            let max = got.iter().map(|c| c.len()).max();
            cyc("first ", &lens, &|_| true)?;
            cyc("shortest ", &lens, &|c| Some(c.len()) == min)?;
            cyc("longest ", &lens, &|c| Some(c.len()) == max)?;
            let ham: Vec<Vec<u64>> = got.iter().filter(|c| c.len() == g.v.len()).cloned().collect();
            cyc("ham ", &ham, &|c| c.len() == g.v.len())?;
            if field("take2 ") != got.len().min(2).to_string() {
                fail!("take(2) yields {} of {} cycles", field("take2 "), got.len());
            }
            Ok(())
        }
        Lib::GcmdCommands => graph_ok(out, "", g),
        Lib::TgfExport { .. } | Lib::TgfImport { .. } => Ok(()),
    }
}

