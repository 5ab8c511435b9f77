//! Decides whether a recorded run violates its property.
use crate::gen::{DIR, FILE};
use crate::lin::{self, Opts};
use crate::model::{Lib, Op, G};
use crate::oracle;
use crate::plan::*;
use crate::sim::{self, Done, History};
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Viol {
    /// what sort of violation; a minimised run has to show the same sort
    pub kind: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Verdict {
    pub states: u64,
    pub inconclusive: bool,
    /// the run exercised what the property is about
    pub nontrivial: bool,
}

macro_rules! viol { ($k:expr, $($t:tt)*) => { return Err(Viol { kind: $k.to_string(), msg: format!($($t)*) }) } }

fn lock_of(dir: &str) -> String {
    format!("{}/lock", dir)
}

fn show(c: &Cmd) -> String {
    format!("process {} `{}`", c.uid, crate::model::show_cmd(c))
}

/// the commands whose printed answers a property is about; of the others it only matters whether
/// they found a graph
fn subject(prop: &str) -> Option<fn(&Op) -> bool> {
    use Lib::*;
    Some(match prop {
        "C02" | "C03" | "C04" | "C08" | "C10" => |o| matches!(o, Op::Dump | Op::Crit { .. }),
        "C07" => |o| matches!(o, Op::Dump | Op::Build | Op::Lib(GcmdCommands)),
        "C09" => |o| matches!(o, Op::Dump | Op::Desc | Op::Lib(Degrees)),
        "C11" => |o| matches!(o, Op::Topo | Op::Lib(TopoLib)),
        "C12" => |o| matches!(o, Op::Cycle { .. } | Op::Lib(CycleLib)),
        "C13" => |o| matches!(o, Op::Short { .. }),
        "C14" => |o| matches!(o, Op::Csp { .. } | Op::Lib(CspLib { .. })),
        "C15" => |o| {
            matches!(
                o,
                Op::Lib(DagShortest { .. })
                    | Op::Lib(DagLongest { .. })
                    | Op::Lib(BellmanFord { .. })
                    | Op::Lib(Spfa { .. })
                    | Op::Lib(BestFirst { .. })
                    | Op::Lib(AStar { .. })
            )
        },
        "C16" => |o| matches!(o, Op::Lib(MaxFlow { .. })),
        "C17" => |o| {
            matches!(
                o,
                Op::Lib(Bfs { .. }) | Op::Lib(Dfs { .. }) | Op::Lib(BfsPaths { .. }) | Op::Lib(DfsPaths { .. }) | Op::Lib(HamPaths)
            )
        },
        _ => return None,
    })
}

fn explain(plan: &Plan, h: &History, o: &Opts, v: &mut Verdict) -> Result<(), Viol> {
    let mut o = o.clone();
    o.subject = subject(&plan.prop);
    let o = &o;
    match lin::explain(plan, h, DIR, o) {
        Ok(r) => {
            v.states += r.states;
            v.inconclusive |= r.inconclusive;
            Ok(())
        }
        Err((kind, msg)) => Err(Viol { kind, msg }),
    }
}

/// The graph that this very gc-random process makes: the same process, alone and without faults.
pub fn solo_random(cmd: &Cmd) -> Result<G, String> {
    let mut c = cmd.clone();
    c.out_fail = None;
    let p = Plan {
        prop: "solo".into(),
        scenario: "solo".into(),
        seed: 1,
        files: vec![(format!("{}/.graph/commands", c.dir), FileData::Text("AddVertex 1\n".into()))],
        dirs: vec![c.dir.clone()],
        phases: vec![Phase { pre: vec![], clients: vec![vec![c.clone()]], faults: FaultCfg::default() }],
        sched: Sched::Random(0),
        budget: 6_000_000,
        power: false,
    };
    let h = sim::run(&p, None, false);
    if !h.done[0].ok() {
        return Err(format!("{} fails when it runs alone: {}", show(&c), h.done[0].err));
    }
    let file = format!("{}/.graph/commands", c.dir);
    let data = h.trees.last().unwrap().get(&file).cloned();
    match data {
        None => Err(format!("{} leaves no graph", show(&c))),
        Some(d) => lin::try_parse_commands(&d).ok_or_else(|| format!("{} leaves a graph that cannot be loaded", show(&c))),
    }
}

fn random_opts(plan: &Plan, spec: bool, h: &History) -> Result<Opts, Viol> {
    let mut o = Opts::default();
    let done: BTreeMap<u32, &Done> = h.done.iter().map(|d| (d.uid, d)).collect();
    for c in plan.cmds() {
        if let Op::Random { n, e, .. } = &c.op {
            if !c.bad.is_empty() {
                continue;
            }
            // a command that never got far enough to store a graph needs no reference
            let d = match done.get(&c.uid) {
                Some(d) => d,
                None => continue,
            };
            if lin::consent(c) == Some(false) {
                continue;
            }
            let g = match solo_random(c) {
                Ok(g) => g,
                Err(m) if spec || d.ok() => viol!("random", "{}", m),
                Err(_) => continue,
            };
            if spec {
                let n = n.unwrap_or(100);
                let e = e.unwrap_or(3 * n);
                if g.v.len() as u64 != n {
                    viol!("random", "{} makes {} vertices", show(c), g.v.len());
                }
                if !oracle::acyclic(&g) {
                    viol!("random", "{} makes a graph with a cycle", show(c));
                }
                let m = g.e.len() as u64;
                if m > e || (n >= 10 && e <= 3 * n && m != e) {
                    viol!("random", "{} makes {} edges", show(c), m);
                }
            }
            o.random.insert(c.uid, vec![Rc::new(g)]);
        }
    }
    Ok(o)
}

fn lock_left(plan: &Plan, h: &History) -> Result<(), Viol> {
    for d in &h.done {
        let c = plan.cmds().find(|c| c.uid == d.uid).unwrap();
        let lock = lock_of(&c.dir);
        if !d.killed && d.created_left.contains(&lock) && !d.unlink_faulted.contains(&lock) {
            viol!("lock left", "{} ended with exit status {} and left its lock file behind", show(c), d.exit);
        }
    }
    Ok(())
}

/// the time spans in which the lock file exists, with its creator (None: put there from outside)
fn lock_spans(plan: &Plan, h: &History) -> Result<Vec<(Option<u32>, u64, u64)>, Viol> {
    let lock = lock_of(DIR);
    let mut spans = vec![];
    let mut open: Option<(Option<u32>, u64)> = None;
    for (pi, ph) in plan.phases.iter().enumerate() {
        let ds: Vec<&Done> = h.done.iter().filter(|d| d.phase == pi).collect();
        let first = ds.iter().map(|d| d.start).min().unwrap_or(0);
        for a in &ph.pre {
            match a {
                Pre::Lock(_) => open = Some((None, first)),
                Pre::Unlock(_) => {
                    if let Some((w, s)) = open.take() {
                        spans.push((w, s, first));
                    }
                }
                _ => (),
            }
        }
        for m in h.mutations.iter().filter(|m| m.path == lock && ds.iter().any(|d| d.uid as usize == m.actor)) {
            let who = m.actor as u32;
            match m.what {
                "create" | "rename-to" => open = Some((Some(who), m.step)),
                "unlink" | "rename-from" => {
                    if let Some((w, s)) = open.take() {
                        spans.push((w, s, m.step));
                        if w != Some(who) {
                            let c = plan.cmds().find(|c| c.uid == who).unwrap();
                            viol!("lock stolen", "{} removed a lock file that it had not created", show(c));
                        }
                    }
                }
                _ => (),
            }
        }
    }
    if let Some((w, s)) = open {
        spans.push((w, s, u64::MAX));
    }
    Ok(spans)
}

fn exclusion(plan: &Plan, h: &History) -> Result<(), Viol> {
    let cmds: BTreeMap<u32, &Cmd> = plan.cmds().map(|c| (c.uid, c)).collect();
    let spans = lock_spans(plan, h)?;
    let graph = format!("{}/.graph", DIR);
    for d in &h.done {
        let c = cmds[&d.uid];
        if !c.op.takes_lock() {
            continue;
        }
        for (who, s, e) in &spans {
            if *who != Some(d.uid) && *s < d.start && d.end < *e && d.ok() {
                viol!("exclusion", "{} reported success although the lock file existed all the time", show(c));
            }
            if let Some(m) = h.mutations.iter().find(|m| {
                m.actor == d.uid as usize
                    && m.path.starts_with(&graph)
                    && *who != Some(d.uid)
                    && *s < m.step
                    && m.step < *e
            }) {
                viol!("exclusion", "{} did a {} of {} while the lock file of {} existed", show(c), m.what, m.path,
                    who.map(|w| format!("process {}", w)).unwrap_or_else(|| "somebody else".into()));
            }
        }
    }
    // critical sections
    let mut crit: Vec<(u64, u64, u32)> = vec![];
    for d in &h.done {
        let at = |n: &str| d.marks.iter().find(|m| m.1 == n).map(|m| m.0);
        if let Some(s) = at("enter") {
            crit.push((s, at("leave").unwrap_or(d.end), d.uid));
        }
    }
    for a in &crit {
        for b in &crit {
            if a.2 < b.2 && a.0 < b.1 && b.0 < a.1 {
                viol!("exclusion", "processes {} and {} were inside the lock at the same time", a.2, b.2);
            }
        }
    }
    Ok(())
}

fn read_only(plan: &Plan, h: &History) -> Result<(), Viol> {
    for c in plan.cmds() {
        if !c.op.is_query() {
            continue;
        }
        if let Some(m) = h.mutations.iter().find(|m| m.actor == c.uid as usize) {
            viol!("query writes", "{} did a {} of {}", show(c), m.what, m.path);
        }
    }
    Ok(())
}

fn contained(plan: &Plan, h: &History) -> Result<(), Viol> {
    for m in &h.mutations {
        let c = match plan.cmds().find(|c| c.uid as usize == m.actor) {
            Some(c) => c,
            None => continue,
        };
        let root = format!("{}/.graph", c.dir);
        let inside = m.path == root || m.path.starts_with(&format!("{}/", root)) || m.path == lock_of(&c.dir);
        let makes_dir = m.what == "mkdir" && (c.dir == m.path || c.dir.starts_with(&format!("{}/", m.path)));
        if !inside && !makes_dir {
            viol!("outside", "{} did a {} of {}", show(c), m.what, m.path);
        }
    }
    Ok(())
}

fn consent(plan: &Plan, h: &History) -> Result<(), Viol> {
    for d in &h.done {
        let c = plan.cmds().find(|c| c.uid == d.uid).unwrap();
        if !matches!(c.op, Op::Clean { .. } | Op::Random { .. }) || lin::consent(c) != Some(false) {
            continue;
        }
        let lock = lock_of(&c.dir);
        if let Some(m) = h.mutations.iter().find(|m| m.actor == c.uid as usize && m.path != lock) {
            viol!("no consent", "{} did a {} of {} without consent (answer: {:?})", show(c), m.what, m.path, c.stdin);
        }
    }
    // init on an existing graph
    for (pi, ph) in plan.phases.iter().enumerate() {
        let all: Vec<&Cmd> = ph.clients.iter().flatten().collect();
        if all.len() == 1 && all[0].op == Op::Init {
            let after = h.trees.get(pi + 1);
            let (a, b) = (h.trees[pi].get(FILE), after.and_then(|t| t.get(FILE)));
            if a.is_some() && a != b {
                viol!("init", "{} changed the graph that was there", show(all[0]));
            }
        }
    }
    Ok(())
}

// ---- TGF

fn tgf(data: &[u8]) -> Option<G> {
    let mut g = G::default();
    let text = String::from_utf8(data.to_vec()).ok()?;
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let mut w = l.split_whitespace();
        let a = w.next()?;
        if a.starts_with('+') {
            return None;
        }
        let a: u64 = a.parse().ok()?;
        match w.next() {
            Some(x) if x.bytes().all(|b| b.is_ascii_digit()) => {
                let b: u64 = x.parse().ok()?;
                g.v.insert(a);
                g.v.insert(b);
                g.e.insert((a, b));
            }
            _ => {
                g.v.insert(a);
            }
        }
    }
    Some(g)
}

fn c18(plan: &Plan, h: &History) -> Result<(), Viol> {
    let want = lin::parse_commands(plan.files.iter().find(|f| f.0 == FILE).unwrap().1.bytes());
    let mut exported = false;
    for d in &h.done {
        let c = plan.cmds().find(|c| c.uid == d.uid).unwrap();
        if d.failed() && !d.out_failed && d.panic.is_some() && matches!(c.op, Op::Lib(Lib::TgfExport { .. } | Lib::TgfImport { .. })) {
            viol!("panic", "{} panicked instead of returning an error: {:?}", show(c), d.panic);
        }
        match &c.op {
            Op::Lib(Lib::TgfExport { .. }) => {
                if d.failed() && !d.hard_fault() {
                    viol!("export", "{} failed for no reason: {:?}", show(c), d.panic);
                }
                exported = d.ok();
            }
            Op::Lib(Lib::TgfImport { file, .. }) => {
                let data = h.trees[d.phase].get(file);
                let whole = data.and_then(|x| tgf(x));
                if d.ok() {
                    let got = oracle::parse_dump(&d.out, "").map_err(|m| Viol { kind: "import".into(), msg: format!("{}: {}", show(c), m) })?;
                    match &whole {
                        None => viol!("import", "{} accepted a damaged file", show(c)),
                        Some(w) if *w != got => {
                            viol!("import", "{} returned {}, the file says {}", show(c), got.brief(), w.brief())
                        }
                        _ => (),
                    }
                    if exported && file == "/w/out.tgf" && got != want {
                        viol!("export", "after an export that reported success, {} returned {} instead of {}", show(c), got.brief(), want.brief());
                    }
                } else if d.failed() && !d.hard_fault() && whole.is_some() {
                    viol!("import", "{} failed for no reason: {:?}", show(c), d.panic);
                } else if d.failed() && !d.hard_fault() && exported && file == "/w/out.tgf" {
                    viol!("export", "an export reported success but {} fails", show(c));
                }
            }
            _ => (),
        }
    }
    Ok(())
}

fn c06(plan: &Plan, h: &History, v: &mut Verdict) -> Result<(), Viol> {
    let damaged = plan.scenario == "damaged graph";
    let none = plan.scenario == "no graph";
    for d in &h.done {
        let c = plan.cmds().find(|c| c.uid == d.uid).unwrap();
        if (damaged || none) && d.ok() {
            viol!("half-read", "{} reported success on a graph that cannot be loaded", show(c));
        }
        if d.failed() && !d.out_failed && d.panic.is_some() && matches!(c.op, Op::Dump | Op::Lib(_)) {
            viol!("panic", "{} panicked instead of returning an error: {:?}", show(c), d.panic);
        }
        if d.failed() && !d.out.is_empty() && !d.out_failed && c.op != Op::Build {
            viol!("half-read", "{} failed but printed {:?}", show(c), d.out);
        }
        if d.failed() && c.op == Op::Build && (damaged || none) && !d.out.is_empty() {
            viol!("half-read", "{} failed but printed {:?}", show(c), d.out);
        }
    }
    if damaged || none {
        let last = h.trees.last().unwrap();
        let before = plan.files.iter().find(|f| f.0 == FILE).map(|f| f.1.bytes());
        if last.get(FILE).map(|x| &x[..]) != before {
            viol!("file changed", "a graph that cannot be loaded was changed on disk");
        }
        return Ok(());
    }
    explain(plan, h, &Opts::default(), v)
}

fn c03(plan: &Plan, h: &History, v: &mut Verdict) -> Result<(), Viol> {
    if plan.scenario == "lock is taken" {
        let lock = lock_of(DIR);
        for d in h.done.iter().filter(|d| d.phase == 0) {
            let c = plan.cmds().find(|c| c.uid == d.uid).unwrap();
            if d.ok() {
                viol!("exclusion", "{} reported success although the lock was taken", show(c));
            }
        }
        let (a, b) = (&h.trees[0], &h.trees[1]);
        if !b.contains_key(&lock) {
            viol!("lock stolen", "the lock file of somebody else is gone");
        }
        if a != b {
            viol!("exclusion", "files were changed although the lock was taken");
        }
    }
    exclusion(plan, h)?;
    let o = random_opts(plan, false, h)?;
    explain(plan, h, &o, v)
}

/// A rebuild that says it succeeded, and after which nothing was edited, has left no more commands
/// than there are vertices and edges.
fn compact(plan: &Plan, h: &History) -> Result<(), Viol> {
    let cmds: BTreeMap<u32, &Cmd> = plan.cmds().map(|c| (c.uid, c)).collect();
    for pi in 0..plan.phases.len() {
        let edits: Vec<&Done> = h.done.iter().filter(|d| d.phase == pi && !cmds[&d.uid].op.is_query()).collect();
        let last = match edits.iter().max_by_key(|d| d.end) {
            Some(d) => d,
            None => continue,
        };
        if cmds[&last.uid].op != Op::Build || !last.ok() || edits.iter().any(|d| d.uid != last.uid && d.end >= last.start) {
            continue;
        }
        let file = match h.trees.get(pi + 1).and_then(|t| t.get(FILE)) {
            Some(f) => f,
            None => continue,
        };
        let lines = file.split(|b| *b == b'\n').filter(|l| !l.is_empty() && !l.starts_with(b"#")).count();
        if let Some(g) = lin::try_parse_commands(file) {
            if lines > g.v.len() + g.e.len() {
                viol!("compact", "{} exits 0 and leaves {} commands for {} vertices and {} edges", show(cmds[&last.uid]), lines, g.v.len(), g.e.len());
            }
        }
    }
    Ok(())
}

pub fn judge(plan: &Plan, h: &History) -> Result<Verdict, Viol> {
    let mut v = Verdict::default();
    if h.step_cap_hit {
        viol!("hang", "a command makes system calls without end");
    }
    v.nontrivial = h.done.iter().any(|d| d.ok() || d.failed());
    let none = Opts::default();
    match plan.prop.as_str() {
        "C03" => c03(plan, h, &mut v)?,
        "C04" => {
            lock_left(plan, h)?;
            let mut o = random_opts(plan, false, h)?;
            o.strict_locks = true;
            if plan.scenario == "damaged graph" {
                let mut p = plan.clone();
                p.files.clear();
                p.phases[0].clients.clear();
                explain(&p, h, &o, &mut v)?
            } else {
                explain(plan, h, &o, &mut v)?
            }
        }
        "C05" => {
            read_only(plan, h)?;
            explain(plan, h, &none, &mut v)?
        }
        "C06" => c06(plan, h, &mut v)?,
        "C08" => {
            contained(plan, h)?;
            consent(plan, h)?;
            let o = random_opts(plan, false, h)?;
            explain(plan, h, &o, &mut v)?
        }
        "C10" => {
            let o = random_opts(plan, true, h)?;
            explain(plan, h, &o, &mut v)?
        }
        "C07" => {
            compact(plan, h)?;
            explain(plan, h, &none, &mut v)?
        }
        "C18" => c18(plan, h)?,
        _ => explain(plan, h, &none, &mut v)?,
    }
    Ok(v)
}
