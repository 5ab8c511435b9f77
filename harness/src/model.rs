//! The reference model: a graph is a set of vertices and a set of edges, a command is a list of
//! batches. Also turns an abstract operation into the command line of the real command.
use crate::plan::Cmd;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
pub enum Part {
    Vertex(Vec<u64>),
    Edge(Vec<u64>),
    Chain(Vec<u64>),
    Cycle(Vec<u64>),
    Star(Vec<u64>),
    Clique(Vec<u64>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Act {
    Girth,
    Hamiltonian,
    Count,
    Head,
    Take(u64),
    All,
    Shortest,
    Longest,
}

/// constraints of gc-csp and filters of gc-cycle
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Con {
    Include(Vec<u64>),
    Exclude(Vec<u64>),
    IncludeEdges(Vec<u64>),
    ExcludeEdges(Vec<u64>),
    Ordered(Vec<u64>),
    WithCycle,
    NoCycle,
    MinLen(u64),
    MaxLen(u64),
    ExactLen(u64),
    MinScore(i64),
    MaxScore(i64),
    ExactScore(i64),
    /// combinations, of the library only
    Not(Box<Con>),
    Both(Box<Con>, Box<Con>),
    Either(Box<Con>, Box<Con>),
    OneOf(Box<Con>, Box<Con>),
    /// an option whose values are no numbers, are too large or too few: the command must refuse it
    Bad(u8, Vec<String>),
}

/// library functions run by a simulated process on the graph it has loaded
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Lib {
    /// weights: deterministic function of the edge and this seed, within lo..=hi
    DagShortest { start: u64, wseed: u64, lo: i64, hi: i64 },
    DagLongest { start: u64, wseed: u64, lo: i64, hi: i64 },
    BellmanFord { start: u64, wseed: u64, lo: i64, hi: i64 },
    Spfa { start: u64, wseed: u64, lo: i64, hi: i64 },
    BestFirst { start: u64, wseed: u64, lo: i64, hi: i64 },
    AStar { start: u64, end: u64, wseed: u64, lo: i64, hi: i64, heur: u8 },
    MaxFlow { start: u64, end: u64, wseed: u64, cap: u64 },
    Bfs { start: Option<u64> },
    Dfs { start: Option<u64> },
    BfsPaths { start: u64 },
    DfsPaths { start: u64 },
    HamPaths,
    Degrees,
    TopoLib,
    CycleLib,
    TgfExport { file: String },
    TgfImport { file: String, commands: bool },
    GcmdCommands,
    CspLib { start: u64, end: u64, wseed: u64, lo: i64, hi: i64, heur: u8, cons: Vec<Con> },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Init,
    Add { parts: Vec<Part>, rev: bool },
    Delete { parts: Vec<Part> },
    Build,
    Clean { force: bool, silent: bool },
    Random { n: Option<u64>, e: Option<u64>, force: bool },
    Desc,
    Topo,
    Cycle { act: Act, cons: Vec<Con> },
    Short { s: u64, t: u64 },
    Csp { s: u64, t: u64, cons: Vec<Con> },
    /// a fresh process loads the graph and prints it
    Dump,
    /// a fresh process that holds the lock for a while
    Crit { hold: u32 },
    Lib(Lib),
    /// a fresh process that makes one edit through the library: add_vertex, add_edge, remove_vertex
    One { k: u8, a: u64, b: u64 },
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct G {
    pub v: BTreeSet<u64>,
    pub e: BTreeSet<(u64, u64)>,
}

/// one atomic edit
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Batch {
    AddV(Vec<u64>),
    AddE(Vec<(u64, u64)>),
    DelV(Vec<u64>),
    DelE(Vec<(u64, u64)>),
    Nop,
}

impl G {
    pub fn apply(&mut self, b: &Batch) {
        match b {
            Batch::AddV(vs) => {
                for v in vs {
                    self.v.insert(*v);
                }
            }
            Batch::AddE(es) => {
                for (a, b) in es {
                    self.v.insert(*a);
                    self.v.insert(*b);
                    self.e.insert((*a, *b));
                }
            }
            Batch::DelV(vs) => {
                for v in vs {
                    self.v.remove(v);
                }
                let gone: BTreeSet<u64> = vs.iter().cloned().collect();
                self.e = self.e.iter().cloned().filter(|(a, b)| !gone.contains(a) && !gone.contains(b)).collect();
            }
            Batch::DelE(es) => {
                for e in es {
                    self.e.remove(e);
                }
            }
            Batch::Nop => (),
        }
    }
    pub fn succ(&self) -> BTreeMap<u64, Vec<u64>> {
        let mut m: BTreeMap<u64, Vec<u64>> = self.v.iter().map(|v| (*v, vec![])).collect();
        for (a, b) in &self.e {
            m.get_mut(a).unwrap().push(*b);
        }
        m
    }
    /// the graph as a commands file
    pub fn text(&self) -> String {
        let mut s = String::new();
        for v in &self.v {
            s.push_str(&format!("AddVertex {}\n", v));
        }
        for (a, b) in &self.e {
            s.push_str(&format!("AddEdge {} {}\n", a, b));
        }
        s
    }
    pub fn brief(&self) -> String {
        if self.v.len() + self.e.len() > 60 {
            return format!("{} vertices, {} edges", self.v.len(), self.e.len());
        }
        format!("V={:?} E={:?}", self.v, self.e)
    }
}

fn pairs(v: &[u64]) -> Option<Vec<(u64, u64)>> {
    if v.len() % 2 != 0 {
        return None;
    }
    Some(v.chunks(2).map(|c| (c[0], c[1])).collect())
}

impl Part {
    pub fn ids(&self) -> &Vec<u64> {
        match self {
            Part::Vertex(v) | Part::Edge(v) | Part::Chain(v) | Part::Cycle(v) | Part::Star(v) | Part::Clique(v) => v,
        }
    }
    pub fn with(&self, v: Vec<u64>) -> Part {
        match self {
            Part::Vertex(_) => Part::Vertex(v),
            Part::Edge(_) => Part::Edge(v),
            Part::Chain(_) => Part::Chain(v),
            Part::Cycle(_) => Part::Cycle(v),
            Part::Star(_) => Part::Star(v),
            Part::Clique(_) => Part::Clique(v),
        }
    }
    pub fn min_ids(&self) -> usize {
        match self {
            Part::Vertex(_) => 1,
            _ => 2,
        }
    }
    pub fn opt(&self) -> (&'static str, &'static str) {
        match self {
            Part::Vertex(_) => ("--vertex", "-v"),
            Part::Edge(_) => ("--edge", "-e"),
            Part::Chain(_) => ("--chain", "-c"),
            Part::Cycle(_) => ("--cycle", "-O"),
            Part::Star(_) => ("--star", "-X"),
            Part::Clique(_) => ("--clique", "-C"),
        }
    }
    /// edges the option stands for; None: the option is malformed
    fn edges(&self) -> Option<Vec<(u64, u64)>> {
        Some(match self {
            Part::Vertex(_) => vec![],
            Part::Edge(v) => pairs(v)?,
            Part::Chain(v) => v.windows(2).map(|w| (w[0], w[1])).collect(),
            Part::Cycle(v) => {
                let mut e: Vec<(u64, u64)> = v.windows(2).map(|w| (w[0], w[1])).collect();
                e.push((v[v.len() - 1], v[0]));
                e
            }
            Part::Star(v) => v[1..].iter().map(|x| (v[0], *x)).collect(),
            Part::Clique(v) => {
                let mut e = vec![];
                for i in 0..v.len() {
                    for j in 0..v.len() {
                        if i != j {
                            e.push((v[i], v[j]));
                        }
                    }
                }
                e
            }
        })
    }
}

impl Op {
    /// the atomic edits of an add, delete or rebuild; None in the list: that option is malformed
    pub fn batches(&self) -> Vec<Option<Batch>> {
        match self {
            Op::Add { parts, rev } => parts
                .iter()
                .map(|p| match p {
                    Part::Vertex(v) => Some(Batch::AddV(v.clone())),
                    _ => p.edges().map(|e| {
                        Batch::AddE(if *rev { e.into_iter().map(|(a, b)| (b, a)).collect() } else { e })
                    }),
                })
                .collect(),
            Op::Delete { parts } => parts
                .iter()
                .map(|p| match p {
                    Part::Vertex(v) => Some(Batch::DelV(v.clone())),
                    _ => p.edges().map(Batch::DelE),
                })
                .collect(),
            Op::Build => vec![Some(Batch::Nop)],
            Op::One { k, a, b } => vec![Some(match k {
                0 => Batch::AddV(vec![*a]),
                1 => Batch::AddE(vec![(*a, *b)]),
                _ => Batch::DelV(vec![*a]),
            })],
            _ => vec![],
        }
    }
    /// has an option that cannot be understood
    pub fn is_malformed(&self) -> bool {
        match self {
            Op::Cycle { cons, .. } | Op::Csp { cons, .. } => cons.iter().any(|c| matches!(c, Con::Bad(..))),
            _ => false,
        }
    }
    pub fn is_edit(&self) -> bool {
        matches!(self, Op::Add { .. } | Op::Delete { .. } | Op::Build | Op::One { .. })
    }
    pub fn is_query(&self) -> bool {
        matches!(self, Op::Desc | Op::Topo | Op::Cycle { .. } | Op::Short { .. } | Op::Csp { .. } | Op::Dump)
    }
    pub fn takes_lock(&self) -> bool {
        matches!(
            self,
            Op::Add { .. } | Op::Delete { .. } | Op::Build | Op::Clean { .. } | Op::Random { .. } | Op::Crit { .. } | Op::One { .. }
        )
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::Init => "gc-init",
            Op::Add { .. } => "gc-add",
            Op::Delete { .. } => "gc-delete",
            Op::Build => "gc-build",
            Op::Clean { .. } => "gc-clean",
            Op::Random { .. } => "gc-random",
            Op::Desc => "gc-desc",
            Op::Topo => "gc-topo-sort",
            Op::Cycle { .. } => "gc-cycle",
            Op::Short { .. } => "gc-short-path",
            Op::Csp { .. } => "gc-csp",
            Op::Dump => "load",
            Op::Crit { .. } => "with_lock",
            Op::Lib(_) => "library",
            Op::One { .. } => "library edit",
        }
    }
    pub fn is_bin(&self) -> bool {
        self.name().starts_with("gc-")
    }
}

fn con_args(c: &Con, cycle: bool, out: &mut Vec<String>) {
    let ids = |name: &str, v: &Vec<u64>, out: &mut Vec<String>| {
        out.push(name.to_string());
        out.extend(v.iter().map(|x| x.to_string()));
    };
    match c {
        Con::Include(v) => ids(if cycle { "--include-all" } else { "--include" }, v, out),
        Con::Exclude(v) => ids(if cycle { "--exclude-all" } else { "--exclude" }, v, out),
        Con::IncludeEdges(v) => ids("--include-all-edges", v, out),
        Con::ExcludeEdges(v) => ids("--exclude-all-edges", v, out),
        Con::Ordered(v) => ids("--ordered", v, out),
        Con::WithCycle => out.push("--include-cycle".into()),
        Con::NoCycle => out.push("--no-cycle".into()),
        Con::MinLen(n) => out.extend(vec!["--min-length".into(), n.to_string()]),
        Con::MaxLen(n) => out.extend(vec!["--max-length".into(), n.to_string()]),
        Con::ExactLen(n) => out.extend(vec!["--exact-length".into(), n.to_string()]),
        Con::MinScore(n) => out.extend(vec!["--min-score".into(), n.to_string()]),
        Con::MaxScore(n) => out.extend(vec!["--max-score".into(), n.to_string()]),
        Con::ExactScore(n) => out.extend(vec!["--exact-score".into(), n.to_string()]),
        Con::Bad(o, v) => {
            let names: &[&str] = if cycle {
                &["--include-all", "--exclude-all", "--include-all-edges", "--exclude-all-edges", "--min-length", "--max-length", "--exact-length", "--min-score", "--max-score", "--exact-score"]
            } else {
                &["--include", "--exclude", "--include", "--ordered", "--min-length", "--max-length", "--exact-length", "--min-score", "--max-score", "--exact-score"]
            };
            out.push(names[*o as usize].to_string());
            out.extend(v.iter().cloned());
        }
        Con::Not(_) | Con::Both(..) | Con::Either(..) | Con::OneOf(..) => unreachable!(),
    }
}

/// argv and working directory of the real command
pub fn command_line(cmd: &Cmd) -> (Vec<String>, String) {
    let long = cmd.style & 1 == 0;
    let path_last = cmd.style & 2 != 0;
    let how = (cmd.style >> 2) & 3;
    let (parent, name) = cmd.dir.rsplit_once('/').unwrap_or(("", &cmd.dir));
    let parent = if parent.is_empty() { "/" } else { parent };
    // absolute path, relative path, current directory, absolute path with a trailing slash
    let (path, cwd): (Option<String>, String) = match how {
        // a detour, a dot in front, a dot, a symbolic link
        0 if cmd.style & 64 != 0 => (Some(format!("{}/..{}", parent, cmd.dir)), "/".into()),
        1 if cmd.style & 64 != 0 => (Some(format!("./{}", name)), parent.to_string()),
        2 if cmd.style & 64 != 0 => (Some(".".to_string()), cmd.dir.clone()),
        3 if cmd.style & 64 != 0 => (Some(format!("{}/l{}", parent, name)), "/".into()),
        0 => (Some(cmd.dir.clone()), "/".into()),
        1 => (Some(name.to_string()), parent.to_string()),
        2 => (None, cmd.dir.clone()),
        _ => (Some(format!("{}/", cmd.dir)), "/".into()),
    };
    let mut parg: Vec<String> = vec![];
    if let Some(p) = path {
        if long {
            parg.push(format!("--path={}", p));
        } else {
            parg.extend(vec!["-p".to_string(), p]);
        }
    }
    let mut args: Vec<String> = vec![cmd.op.name().to_string()];
    let mut rest: Vec<String> = vec![];
    let pick = |l: &str, s: &str| if long { l.to_string() } else { s.to_string() };
    match &cmd.op {
        Op::Add { parts, rev } => {
            let mut flags_first = cmd.style & 16 != 0;
            if !*rev {
                flags_first = false;
            }
            if flags_first {
                rest.push(pick("--reverse", "-r"));
            }
            let mut ps: Vec<&Part> = parts.iter().collect();
            if cmd.style & 32 != 0 {
                ps.reverse();
            }
            for p in ps {
                let o = p.opt();
                rest.push(pick(o.0, o.1));
                for (i, x) in p.ids().iter().enumerate() {
                    // the option of a vertex may be repeated
                    if i > 0 && cmd.style & 128 != 0 && i < 50 && matches!(p, Part::Vertex(_)) {
                        rest.push(pick(o.0, o.1));
                    }
                    rest.push(x.to_string());
                }
            }
            if *rev && !flags_first {
                rest.push(pick("--reverse", "-r"));
            }
        }
        Op::Delete { parts } => {
            let mut ps: Vec<&Part> = parts.iter().collect();
            if cmd.style & 32 != 0 {
                ps.reverse();
            }
            for p in ps {
                let o = p.opt();
                rest.push(pick(o.0, o.1));
                for (i, x) in p.ids().iter().enumerate() {
                    // the option of a vertex may be repeated
                    if i > 0 && cmd.style & 128 != 0 && i < 50 && matches!(p, Part::Vertex(_)) {
                        rest.push(pick(o.0, o.1));
                    }
                    rest.push(x.to_string());
                }
            }
        }
        Op::Build if cmd.style & 128 != 0 => rest.push(pick("--verbose", "-v")),
        Op::Clean { force, silent } => {
            if *force {
                rest.push(pick("--force", "-f"));
            }
            if *silent {
                rest.push(pick("--silent", "-s"));
            }
        }
        Op::Random { n, e, force } => {
            if *force {
                rest.push(pick("--force", "-f"));
            }
            if let Some(n) = n {
                rest.push(pick("--vertex-count", "-v"));
                rest.push(n.to_string());
            }
            if let Some(e) = e {
                rest.push(pick("--edge-count", "-e"));
                rest.push(e.to_string());
            }
        }
        Op::Cycle { act, cons } => {
            match act {
                Act::Girth => rest.push("--girth".into()),
                Act::Hamiltonian => rest.push("--hamiltonian".into()),
                Act::Count => rest.push(pick("--count", "-c")),
                Act::Head => rest.push(pick("--head", "-h")),
                Act::Take(n) => rest.extend(vec![pick("--take-n", "-n"), n.to_string()]),
                Act::All => rest.push(pick("--all", "-a")),
                Act::Shortest => rest.push(pick("--shortest", "-s")),
                Act::Longest => rest.push(pick("--longest", "-L")),
            }
            for c in cons {
                con_args(c, true, &mut rest);
            }
        }
        Op::Short { s, t } => {
            rest.extend(vec![pick("--start", "-s"), s.to_string(), pick("--end", "-e"), t.to_string()])
        }
        Op::Csp { s, t, cons } => {
            rest.extend(vec![pick("--start", "-s"), s.to_string(), pick("--end", "-e"), t.to_string()]);
            for c in cons {
                con_args(c, false, &mut rest);
            }
        }
        _ => (),
    }
    rest.extend(cmd.bad.iter().cloned());
    if path_last {
        args.extend(rest);
        args.extend(parg);
    } else {
        args.extend(parg);
        args.extend(rest);
    }
    (args, cwd)
}

pub fn show_cmd(cmd: &Cmd) -> String {
    let (a, cwd) = command_line(cmd);
    if cmd.op.is_bin() {
        let mut t = a.join(" ");
        if t.len() > 300 {
            t.truncate(300);
            t.push_str("...");
        }
        format!("{} (in {}, random seed {:x})", t, cwd, cmd.hseed)
    } else {
        format!("{:?} on {} (random seed {:x})", cmd.op, cmd.dir, cmd.hseed)
    }
}

/// The capacity of an edge. A limit of u64::MAX stands for networks in which most edges but those
/// of the source are as good as unlimited.
pub fn capacity(wseed: u64, a: u64, b: u64, cap: u64, source: u64) -> u64 {
    if cap < u64::MAX {
        return weight(wseed, a, b, 0, cap as i64) as u64;
    }
    let h = crate::rng::mix(wseed ^ crate::rng::mix(a).wrapping_mul(31) ^ crate::rng::mix(b ^ 0x77));
    if a == source {
        return h >> 5 >> (h % 3 * 20);
    }
    match h % 5 {
        0 => u64::MAX,
        1 => 1 << 63,
        2 => (1 << 63) - 1 + (h >> 8) % 3,
        3 => h >> 5,
        _ => u64::MAX - (h >> 8) % 3,
    }
}

/// deterministic edge weight
pub fn weight(wseed: u64, a: u64, b: u64, lo: i64, hi: i64) -> i64 {
    let h = crate::rng::mix(wseed ^ crate::rng::mix(a).wrapping_mul(31) ^ crate::rng::mix(b ^ 0x77));
    // the farther an edge leaps the dearer it is: the cheapest way is the one with the most steps
    if wseed % 16 == 5 && (1..1000).contains(&b.wrapping_sub(a)) {
        let d = b.wrapping_sub(a) as i64;
        return lo + (d * d).min(hi - lo);
    }
    let w = lo + (h % ((hi - lo) as u64 + 1)) as i64;
    if hi - lo <= 1 << 32 {
        return w;
    }
    // over a wide range a uniform choice never hits the places where narrower integers give way
    let x = match wseed % 4 {
        0 => w,
        1 => w & !0xffff_ffff,
        2 => 1i64 << (h % 56),
        _ => (1i64 << [31, 32, 33][(h % 3) as usize]) + (h >> 8) as i64 % 3 - 1,
    };
    let x = if (h >> 16) % 2 == 0 && lo < 0 { -x } else { x };
    if lo <= x && x <= hi {
        x
    } else {
        w
    }
}
