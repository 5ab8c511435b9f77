//! Decides whether a recorded history can be explained by commands taking effect one at a time
//! (Wing and Gong's search), over the states "no graph" and "this graph", with faults: a command
//! that was killed or hit by a fault may have applied any of its atomic edits, each fully or not
//! at all.
use crate::model::{Batch, Op, G};
use crate::oracle::answer;
use crate::plan::{Cmd, Plan, Pre, StdinEv};
use crate::sim::{Done, History};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub type State = Option<Rc<G>>;

#[derive(Clone, Debug)]
enum Sub {
    Apply(Batch),
    Init,
    ToAbsent,
    SetAny(Vec<Rc<G>>),
    Query,
    SeeAbsent,
}

struct Item<'a> {
    cmd: &'a Cmd,
    done: &'a Done,
    subs: Vec<(Sub, bool)>, // effect, must have happened
    ordered: bool,
    not_all: bool,
    judged: bool,
}

#[derive(Clone, Default)]
pub struct Opts {
    /// a lock that a command left behind although it ended by itself excuses nothing
    pub strict_locks: bool,
    /// graphs that the gc-random commands make, by process
    pub random: BTreeMap<u32, Vec<Rc<G>>>,
    /// whose printed answers the property is about (None: everybody's)
    pub subject: Option<fn(&Op) -> bool>,
}

/// what is wrong: the sort of violation and its description
pub type Wrong = (String, String);

pub struct Outcome {
    pub states: u64,
    pub last: BTreeSet<State>,
    pub inconclusive: bool,
}

/// What the user answers: Some(true) exactly yes or y, None when it may be taken either way.
pub fn consent(cmd: &Cmd) -> Option<bool> {
    match &cmd.op {
        Op::Clean { force: true, .. } | Op::Random { force: true, .. } => return Some(true),
        _ => (),
    }
    let mut bytes: Vec<u8> = vec![];
    for ev in &cmd.stdin {
        match ev {
            StdinEv::Data(s) => bytes.extend_from_slice(s.as_bytes()),
            StdinEv::Raw(b) => bytes.extend_from_slice(b),
            StdinEv::Eintr => (),
            StdinEv::Eio => {
                if !bytes.contains(&b'\n') {
                    return Some(false);
                }
            }
        }
        if bytes.contains(&b'\n') {
            break;
        }
    }
    let line = bytes.split(|b| *b == b'\n').next().unwrap_or(&[]);
    if line == b"yes" || line == b"y" {
        return Some(true);
    }
    match std::str::from_utf8(line) {
        Ok(s) if s.trim() == "yes" || s.trim() == "y" => None,
        _ => Some(false),
    }
}

fn overlap(a: &Done, b: &Done) -> bool {
    a.start < b.end && b.start < a.end
}

fn lock_excuse(plan_cmds: &BTreeMap<u32, &Cmd>, h: &History, d: &Done, dir: &str, o: &Opts) -> bool {
    let lock = format!("{}/lock", dir);
    let legit = |q: &Done| !o.strict_locks || q.killed || q.unlink_faulted.contains(&lock);
    if h.trees[d.phase].contains_key(&lock) {
        // who left it?
        let left_by = h.done.iter().filter(|q| q.phase < d.phase && q.created_left.contains(&lock)).last();
        if left_by.map(|q| legit(q)).unwrap_or(true) {
            return true;
        }
    }
    h.done.iter().any(|q| {
        q.uid != d.uid
            && q.phase == d.phase
            && plan_cmds.get(&q.uid).map(|c| c.dir == dir && c.op.takes_lock()).unwrap_or(false)
            && (overlap(q, d) || (q.end <= d.start && q.created_left.contains(&lock) && legit(q)))
    })
}

fn what(c: &Cmd, d: &Done) -> String {
    let mut a = crate::model::command_line(c).0.join(" ");
    if !c.op.is_bin() {
        a = format!("{:?}", c.op);
    }
    if a.len() > 160 {
        let mut n = 160;
        while !a.is_char_boundary(n) {
            n -= 1;
        }
        a.truncate(n);
        a.push_str("...");
    }
    let f: Vec<String> = d.fired.iter().map(|f| format!("{} at call {}", f.1.name(), f.0)).collect();
    format!(
        "process {} [{}..{}] `{}` {}{}",
        d.uid,
        d.start,
        d.end,
        a,
        if d.killed { "was killed".to_string() } else { format!("exit {}", d.exit) },
        if f.is_empty() { String::new() } else { format!(" ({})", f.join(", ")) }
    )
}

fn item<'a>(
    cmds: &BTreeMap<u32, &'a Cmd>,
    h: &'a History,
    d: &'a Done,
    dir: &str,
    o: &Opts,
) -> Result<Item<'a>, Wrong> {
    let cmd = cmds[&d.uid];
    let mut it = Item { cmd, done: d, subs: vec![], ordered: false, not_all: false, judged: o.subject.map(|f| f(&cmd.op)).unwrap_or(true) };
    let hard = d.hard_fault();
    let excuse = || lock_excuse(cmds, h, d, dir, o);
    let beside = |f: &dyn Fn(&Op) -> bool| {
        h.done.iter().any(|q| {
            q.uid != d.uid
                && q.phase == d.phase
                && overlap(q, d)
                && cmds.get(&q.uid).map(|c| c.dir == dir && f(&c.op)).unwrap_or(false)
        })
    };
    match &cmd.op {
        Op::Init => {
            if d.failed() && !hard && !beside(&|p| matches!(p, Op::Clean { .. } | Op::Random { .. })) {
                return Err(("gc-init fails".into(), format!("{} failed for no reason", what(cmd, d))));
            }
            it.subs.push((Sub::Init, d.ok()));
        }
        Op::Add { .. } | Op::Delete { .. } | Op::One { .. } => {
            let bs = cmd.op.batches();
            let malformed = bs.iter().any(|b| b.is_none()) || !cmd.bad.is_empty();
            if d.ok() && malformed {
                return Err(("malformed".into(), format!("{} although an option was malformed", what(cmd, d))));
            }
            let mut must_see_absent = false;
            if d.failed() && !hard && !malformed {
                it.not_all = true;
                must_see_absent = !excuse();
            }
            // a failed command that changed no file but the lock file has had no effect
            let lock = format!("{}/lock", dir);
            let idle = !d.ok() && !h.mutations.iter().any(|m| m.actor == d.uid as usize && m.path != lock);
            if !idle {
                for b in bs.into_iter().flatten() {
                    it.subs.push((Sub::Apply(b), d.ok()));
                }
            }
            if must_see_absent {
                it.not_all = false;
                it.subs.push((Sub::SeeAbsent, true));
            }
        }
        Op::Build => {
            if d.ok() {
                it.subs.push((Sub::Query, true));
            } else if d.failed() && !hard && !excuse() {
                it.subs.push((Sub::SeeAbsent, true));
            }
        }
        Op::Random { .. } if !cmd.bad.is_empty() => {
            if d.ok() {
                return Err(("malformed".into(), format!("{} although an option was malformed", what(cmd, d))));
            }
        }
        Op::Clean { .. } | Op::Random { .. } => {
            let c = consent(cmd);
            let acted = match c {
                Some(x) => x,
                // either way is fine; the command says which way it took
                None => !d.out.contains("Aborting"),
            };
            if acted {
                let random = matches!(cmd.op, Op::Random { .. });
                it.ordered = true;
                let mut see = false;
                if d.failed() && !hard && !excuse() && !beside(&|p| matches!(p, Op::Init)) {
                    see = true;
                }
                it.subs.push((Sub::ToAbsent, d.ok()));
                if random {
                    match o.random.get(&d.uid) {
                        Some(g) => it.subs.push((Sub::SetAny(g.clone()), d.ok())),
                        None if d.ok() => return Err(("no reference".into(), format!("{}: no reference graph", what(cmd, d)))),
                        None => (),
                    }
                    if d.failed() && !hard {
                        it.not_all = true;
                    }
                }
                if see {
                    it.ordered = false;
                    it.not_all = false;
                    it.subs.push((Sub::SeeAbsent, true));
                }
            }
        }
        Op::Crit { .. } => {
            let (a, b) = (d.out.contains("aNONE"), d.out.contains("bNONE"));
            if d.ok() && hard && (a || b) {
                // its own reading was hit by a fault
            } else if d.ok() {
                // gc-init takes no lock, so a graph may appear meanwhile
                if a {
                    it.ordered = true;
                    it.subs.push((Sub::SeeAbsent, true));
                }
                if !a || !b {
                    it.subs.push((Sub::Query, true));
                }
            } else if d.failed() && !hard && !excuse() {
                return Err(("lock refused".into(), format!("{} failed although nobody held the lock", what(cmd, d))));
            }
        }
        Op::Lib(crate::model::Lib::TgfExport { .. }) | Op::Lib(crate::model::Lib::TgfImport { .. }) => (),
        Op::Desc | Op::Topo | Op::Cycle { .. } | Op::Short { .. } | Op::Csp { .. } | Op::Dump | Op::Lib(_) => {
            if cmd.op.is_malformed() {
                if d.ok() && it.judged {
                    return Err(("malformed".into(), format!("{} although an option was malformed", what(cmd, d))));
                }
            } else if d.ok() {
                it.subs.push((Sub::Query, true));
            } else if d.failed() && !hard {
                it.subs.push((Sub::SeeAbsent, true));
            }
        }
    }
    Ok(it)
}

/// States of one search by number; 0 is "no graph".
struct Pool {
    ids: HashMap<Rc<G>, u32>,
    all: Vec<State>,
}

impl Pool {
    fn id(&mut self, s: &State) -> u32 {
        match s {
            None => 0,
            Some(g) => {
                if let Some(i) = self.ids.get(g) {
                    return *i;
                }
                let i = self.all.len() as u32;
                self.ids.insert(g.clone(), i);
                self.all.push(s.clone());
                i
            }
        }
    }
}

struct Search<'a> {
    items: Vec<Item<'a>>,
    full: Vec<u32>,
    must: Vec<u32>,
    /// item that has to be complete before this one begins, and items that must not have begun
    before: Vec<Vec<usize>>,
    after: Vec<Vec<usize>>,
    pool: Pool,
    seen: HashSet<(Box<[u8]>, u32)>,
    ends: BTreeSet<u32>,
    memo: HashMap<(usize, usize, u32), Result<Vec<u32>, String>>,
    best: u32,
    stuck: Vec<String>,
    over: bool,
}

impl<'a> Search<'a> {
    fn apply(&mut self, i: usize, k: usize, st: u32) -> Result<Vec<u32>, String> {
        if let Some(r) = self.memo.get(&(i, k, st)) {
            return r.clone();
        }
        let it = &self.items[i];
        let s = self.pool.all[st as usize].clone();
        let r: Result<Vec<State>, String> = match &it.subs[k].0 {
            Sub::SetAny(gs) => Ok(gs.iter().map(|g| Some(g.clone())).collect()),
            _ => self.apply1(i, k, &s).map(|s| vec![s]),
        };
        let r = r.map(|v| v.iter().map(|s| self.pool.id(s)).collect::<Vec<u32>>());
        self.memo.insert((i, k, st), r.clone());
        r
    }

    fn apply1(&self, i: usize, k: usize, st: &State) -> Result<State, String> {
        let it = &self.items[i];
        match &it.subs[k].0 {
            Sub::Apply(b) => match st {
                None => Err("there was no graph to edit".into()),
                Some(g) => {
                    let mut n = (**g).clone();
                    n.apply(b);
                    Ok(Some(Rc::new(n)))
                }
            },
            Sub::Init => Ok(match st {
                None => Some(Rc::new(G::default())),
                s => s.clone(),
            }),
            Sub::ToAbsent => Ok(None),
            Sub::SetAny(_) => unreachable!(),
            Sub::SeeAbsent => match st {
                None => Ok(None),
                Some(g) => Err(format!("it failed although there was a graph ({})", g.brief())),
            },
            Sub::Query => match st {
                None => Err("it answered although there was no graph".into()),
                Some(_) if !it.judged => Ok(st.clone()),
                Some(g) => answer(it.cmd, &it.done.out, g).map(|_| st.clone()),
            },
        }
    }

    fn allowed(&self, mask: &[u8], i: usize) -> bool {
        self.before[i].iter().all(|j| self.must[*j] & !(mask[*j] as u32) == 0) && self.after[i].iter().all(|j| mask[*j] == 0)
    }

    fn prepare(&mut self) {
        let n = self.items.len();
        for i in 0..n {
            let p = self.items[i].done;
            let f = |c: &dyn Fn(&Done) -> bool| (0..n).filter(|j| *j != i && c(self.items[*j].done)).collect::<Vec<usize>>();
            let b = f(&|q| q.end < p.start);
            let a = f(&|q| q.start > p.end);
            self.before.push(b);
            self.after.push(a);
        }
    }

    fn go(&mut self, first: u32) {
        let n = self.items.len();
        let mut stack: Vec<(Box<[u8]>, u32)> = vec![(vec![0u8; n].into_boxed_slice(), first)];
        while let Some((mask, st)) = stack.pop() {
            if self.over || self.seen.contains(&(mask.clone(), st)) {
                continue;
            }
            self.seen.insert((mask.clone(), st));
            if self.seen.len() > 200_000 {
                self.over = true;
                return;
            }
            let complete = (0..n).all(|i| {
                let m = mask[i] as u32;
                self.must[i] & !m == 0 && !(self.items[i].not_all && self.full[i] != 0 && m == self.full[i])
            });
            if complete {
                self.ends.insert(st);
            }
            let depth: u32 = (0..n).map(|i| (mask[i] as u32 & self.must[i]).count_ones()).sum();
            if depth > self.best {
                self.best = depth;
                self.stuck.clear();
            }
            for i in 0..n {
                if mask[i] as u32 == self.full[i] || !self.allowed(&mask, i) {
                    continue;
                }
                for k in 0..self.items[i].subs.len() {
                    if mask[i] >> k & 1 == 1 {
                        continue;
                    }
                    if self.items[i].ordered && mask[i] as u32 != (1 << k) - 1 {
                        continue;
                    }
                    match self.apply(i, k, st) {
                        Ok(nss) => {
                            let mut m = mask.clone();
                            m[i] |= 1 << k;
                            for ns in nss {
                                stack.push((m.clone(), ns));
                            }
                        }
                        Err(e) => {
                            if depth == self.best && self.items[i].subs[k].1 && self.stuck.len() < 3 {
                                let it = &self.items[i];
                                let m = format!("{}: {}", what(it.cmd, it.done), e);
                                if !self.stuck.contains(&m) {
                                    self.stuck.push(m);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

/// the graph described by the lines of a commands file, None if there is a bad line
pub fn try_parse_commands(data: &[u8]) -> Option<G> {
    let mut g = G::default();
    for l in std::str::from_utf8(data).ok()?.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let w: Vec<&str> = l.split_whitespace().collect();
        let id = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok());
        g.apply(&match w[0] {
            "AddVertex" => Batch::AddV(vec![id(1)?]),
            "AddEdge" => Batch::AddE(vec![(id(1)?, id(2)?)]),
            "RemoveVertex" => Batch::DelV(vec![id(1)?]),
            "RemoveEdge" => Batch::DelE(vec![(id(1)?, id(2)?)]),
            _ => return None,
        });
    }
    Some(g)
}

pub fn parse_commands(data: &[u8]) -> G {
    try_parse_commands(data).expect("bad line in a plan")
}

/// Explains the part of the history that concerns the graph in `dir`.
pub fn explain(plan: &Plan, h: &History, dir: &str, o: &Opts) -> Result<Outcome, Wrong> {
    let cmds: BTreeMap<u32, &Cmd> = plan.cmds().map(|c| (c.uid, c)).collect();
    let file = format!("{}/.graph/commands", dir);
    let mut states: BTreeSet<State> = BTreeSet::new();
    states.insert(plan.files.iter().find(|f| f.0 == file).map(|f| Rc::new(parse_commands(f.1.bytes()))));
    let mut ever = states.clone();
    let mut explored = 0;
    for (pi, ph) in plan.phases.iter().enumerate() {
        for a in &ph.pre {
            match a {
                Pre::Put(f, d) if *f == file => {
                    states = vec![Some(Rc::new(parse_commands(d.bytes())))].into_iter().collect();
                }
                Pre::Remove(f) if *f == file => states = vec![None].into_iter().collect(),
                Pre::PowerLoss => states = ever.clone(),
                _ => (),
            }
            ever.extend(states.iter().cloned());
        }
        let ds: Vec<&Done> = h
            .done
            .iter()
            .filter(|d| d.phase == pi && cmds.get(&d.uid).map(|c| c.dir == dir).unwrap_or(false))
            .collect();
        // commands that ran alone are taken one by one, the others together
        let mut groups: Vec<Vec<&Done>> = vec![];
        let mut sorted = ds.clone();
        sorted.sort_by_key(|d| d.start);
        let mut reach = 0;
        for d in sorted {
            if groups.is_empty() || d.start > reach {
                groups.push(vec![d]);
            } else {
                groups.last_mut().unwrap().push(d);
            }
            reach = reach.max(d.end);
        }
        for grp in groups {
            let mut items = vec![];
            for d in &grp {
                let it = item(&cmds, h, d, dir, o)?;
                if !it.subs.is_empty() {
                    items.push(it);
                }
            }
            let full: Vec<u32> = items.iter().map(|i| (1u32 << i.subs.len()) - 1).collect();
            let must: Vec<u32> = items
                .iter()
                .map(|i| i.subs.iter().enumerate().filter(|s| (s.1).1).map(|s| 1u32 << s.0).sum())
                .collect();
            let mut s = Search {
                items,
                full,
                must,
                before: vec![],
                after: vec![],
                pool: Pool { ids: HashMap::new(), all: vec![None] },
                seen: HashSet::new(),
                ends: BTreeSet::new(),
                memo: HashMap::new(),
                best: 0,
                stuck: vec![],
                over: false,
            };
            s.prepare();
            for st in &states {
                let i = s.pool.id(st);
                s.go(i);
            }
            explored += s.seen.len() as u64;
            if s.over {
                return Ok(Outcome { states: explored, last: BTreeSet::new(), inconclusive: true });
            }
            ever.extend(s.seen.iter().map(|x| x.1).collect::<BTreeSet<u32>>().into_iter().map(|i| s.pool.all[i as usize].clone()));
            if s.ends.is_empty() {
                let from: Vec<String> =
                    states.iter().take(3).map(|s| s.as_ref().map(|g| g.brief()).unwrap_or_else(|| "no graph".into())).collect();
                let mut names: Vec<String> = s.items.iter().map(|i| what(i.cmd, i.done)).collect();
                names.truncate(12);
                return Err(if s.items.len() == 1 && s.stuck.len() == 1 {
                    let it = &s.items[0];
                    let kind = format!("{} {}", it.cmd.op.name(), if it.done.ok() { "answers wrongly" } else { "fails" });
                    (kind, format!("{} (graph before: {})", s.stuck[0], from.join(" or ")))
                } else {
                    ("order".into(), format!(
                        "no sequential order explains these commands, starting from {}: {}; e.g. {}",
                        from.join(" or "),
                        names.join("; "),
                        s.stuck.join(" / ")
                    ))
                });
            }
            states = s.ends.iter().map(|i| s.pool.all[*i as usize].clone()).collect();
        }
        if h.power_lost.contains(&pi) {
            states = ever.clone();
        }
    }
    Ok(Outcome { states: explored, last: states, inconclusive: false })
}

pub fn plain_answer(c: &Cmd, d: &Done, g: &G) -> Result<(), String> {
    answer(c, &d.out, g)
}
