//! Scenario generators: one seed makes one plan.
use crate::model::*;
use crate::oracle;
use crate::plan::*;
use crate::rng::{mix, Rng};
use std::collections::BTreeSet;

pub const DIR: &str = "/w/g";
pub const FILE: &str = "/w/g/.graph/commands";

const HARD: &[FaultKind] = &[FaultKind::Kill, FaultKind::Eio, FaultKind::Enospc, FaultKind::Emfile, FaultKind::Eacces];
const ERRS: &[FaultKind] = &[FaultKind::Eio, FaultKind::Enospc, FaultKind::Emfile, FaultKind::Eacces];
const TIME: &[FaultKind] = &[FaultKind::Stall, FaultKind::Clock];
const BENIGN: &[FaultKind] = &[FaultKind::Eintr, FaultKind::Short];

pub struct Gen {
    pub r: Rng,
    uid: u32,
    pub dir: String,
    ids: Vec<u64>,
    thorough: bool,
}

fn fc(kinds: &[FaultKind], permille: u32, max: u32) -> FaultCfg {
    FaultCfg { kinds: kinds.to_vec(), permille, max, only: None }
}

impl Gen {
    fn new(seed: u64, thorough: bool) -> Gen {
        let mut r = Rng::new(seed);
        // a small universe, so that commands meet on the same vertices
        let n = r.range(3, 8) as usize;
        let mut set = BTreeSet::new();
        while set.len() < n {
            let x = match r.below(10) {
                0 => *r.pick(&[0, u64::MAX, u64::MAX - 1, 1 << 32, (1 << 53) + 1, 1 << 63]),
                1 => *r.pick(&[10, 100, 1000, 12, 123, 1234]),
                2 => r.u64(),
                _ => r.below(12),
            };
            set.insert(x);
        }
        let mut ids: Vec<u64> = set.into_iter().collect();
        r.shuffle(&mut ids);
        Gen { r, uid: 0, dir: DIR.into(), ids, thorough }
    }

    fn cmd(&mut self, op: Op) -> Cmd {
        self.uid += 1;
        let style = if self.r.chance(1, 3) { 0 } else { self.r.below(256) as u8 };
        Cmd { uid: self.uid, op, dir: self.dir.clone(), style, hseed: self.r.u64(), stdin: vec![], out_fail: None, bad: vec![] }
    }
    fn cmds(&mut self, ops: Vec<Op>) -> Vec<Cmd> {
        ops.into_iter().map(|o| self.cmd(o)).collect()
    }
    fn id(&mut self) -> u64 {
        let i = self.r.idx(self.ids.len());
        self.ids[i]
    }
    fn distinct(&mut self, n: usize) -> Vec<u64> {
        let mut v = self.ids.clone();
        self.r.shuffle(&mut v);
        v.truncate(n.max(1));
        v
    }
    fn list(&mut self, lo: usize, hi: usize) -> Vec<u64> {
        let n = self.r.range(lo as u64, hi as u64) as usize;
        (0..n).map(|_| self.id()).collect()
    }

    fn part(&mut self, k: u64) -> Part {
        match k {
            0 => Part::Vertex(self.list(1, 3)),
            1 => {
                let mut v = self.list(2, 6);
                if v.len() % 2 == 1 {
                    v.pop();
                }
                Part::Edge(v)
            }
            2 => Part::Chain(self.list(2, 4)),
            3 => Part::Cycle(self.list(2, 4)),
            4 => Part::Star(self.list(2, 4)),
            _ => {
                let n = self.r.range(2, 3) as usize;
                Part::Clique(self.distinct(n))
            }
        }
    }
    /// options in the order in which the command applies them
    fn parts(&mut self, max: u64) -> Vec<Part> {
        let n = self.r.range(1, max);
        let mut kinds: Vec<u64> = (0..6).collect();
        self.r.shuffle(&mut kinds);
        kinds.truncate(n as usize);
        kinds.sort();
        let v: Vec<Part> = kinds.into_iter().map(|k| self.part(k)).collect();
        v.into_iter().filter(|p| p.ids().len() >= p.min_ids()).collect()
    }
    fn add(&mut self, max: u64) -> Op {
        let mut parts = self.parts(max);
        if parts.is_empty() {
            parts.push(Part::Vertex(vec![self.id()]));
        }
        Op::Add { parts, rev: self.r.chance(1, 4) }
    }
    /// a batch that needs several writes
    fn big(&mut self) -> Op {
        let n = if self.r.chance(1, 40) { self.r.range(2500, 6000) } else { self.r.range(200, 900) };
        let base = self.r.range(1000, 100_000_000);
        let v: Vec<u64> = (0..n).map(|i| base + i * 7).collect();
        let p = match self.r.below(4) {
            0 => Part::Vertex(v),
            1 => Part::Edge(if v.len() % 2 == 0 { v } else { v[1..].to_vec() }),
            2 => Part::Star(v),
            _ => Part::Chain(v),
        };
        Op::Add { parts: vec![p], rev: false }
    }
    fn delete(&mut self) -> Op {
        let mut parts = vec![];
        if self.r.chance(1, 2) {
            parts.push(Part::Vertex(self.list(1, 2)));
        }
        if parts.is_empty() || self.r.chance(1, 3) {
            let mut v = self.list(2, 4);
            if v.len() % 2 == 1 {
                v.pop();
            }
            parts.push(Part::Edge(v));
        }
        Op::Delete { parts }
    }
    /// adds an option that cannot be understood
    fn spoil(&mut self, c: &mut Cmd) {
        let junk = self.r.pick(&["x", "18446744073709551616", "1.5", "0x2", "99999999999999999999999", "1,2"]).to_string();
        match &mut c.op {
            Op::Random { n, e, .. } => {
                if self.r.chance(2, 3) {
                    *e = None;
                    c.bad = vec!["--edge-count".into(), junk];
                } else {
                    *n = None;
                    c.bad = vec!["--vertex-count".into(), junk];
                }
            }
            Op::Add { parts, .. } | Op::Delete { parts } => {
                let used: Vec<&str> = parts.iter().map(|p| p.opt().0).collect();
                let all: &[&str] = if c.op.name() == "gc-add" { &["--vertex", "--edge", "--chain", "--cycle", "--star", "--clique"] } else { &["--vertex", "--edge"] };
                let free: Vec<&&str> = all.iter().filter(|o| !used.contains(*o)).collect();
                if free.is_empty() {
                    return;
                }
                let o = free[self.r.idx(free.len())].to_string();
                let a = self.id().to_string();
                c.bad = if self.r.chance(1, 2) { vec![o, a, junk] } else { vec![o, junk, a] };
            }
            _ => (),
        }
    }
    /// one edit through the library
    fn one(&mut self) -> Op {
        Op::One { k: self.r.below(3) as u8, a: self.id(), b: self.id() }
    }
    fn edit(&mut self) -> Op {
        match self.r.below(12) {
            0..=5 => self.add(2),
            6..=8 => self.delete(),
            9 => self.one(),
            _ => Op::Build,
        }
    }
    /// a query whose answer pins the graph down as far as a command can
    fn query(&mut self) -> Op {
        match self.r.below(8) {
            0 | 1 => Op::Dump,
            2 => Op::Desc,
            3 => Op::Topo,
            4 => Op::Short { s: self.id(), t: self.id() },
            5 => {
                let act = self.act();
                Op::Cycle { act, cons: vec![] }
            }
            6 => {
                let n = self.r.range(2, 4);
                Op::Csp { s: self.id(), t: self.id(), cons: vec![Con::MaxLen(n)] }
            }
            _ => Op::Lib(Lib::Degrees),
        }
    }
    fn act(&mut self) -> Act {
        match self.r.below(8) {
            0 => Act::Girth,
            1 => Act::Hamiltonian,
            2 => Act::Count,
            3 => Act::Head,
            4 => Act::Take(self.r.below(5)),
            5 => Act::Shortest,
            6 => Act::Longest,
            _ => Act::All,
        }
    }
    fn sched(&mut self) -> Sched {
        if self.r.chance(1, 3) {
            Sched::Pct(self.r.range(1, 5) as u32)
        } else {
            Sched::Random(*self.r.pick(&[30, 100, 250, 500, 800]))
        }
    }
    fn plan(&mut self, prop: &str, scenario: &str, seed: u64) -> Plan {
        Plan {
            prop: prop.into(),
            scenario: scenario.into(),
            seed: mix(seed ^ 0x9a4),
            files: vec![],
            dirs: vec![DIR.into()],
            phases: vec![],
            sched: self.sched(),
            budget: 6_000_000,
            power: false,
        }
    }
    fn phase(&mut self, clients: Vec<Vec<Cmd>>) -> Phase {
        Phase { pre: vec![], clients, faults: FaultCfg::default() }
    }
    fn seq(&mut self, ops: Vec<Op>) -> Phase {
        let c = self.cmds(ops);
        self.phase(vec![c])
    }
    /// sometimes interrupts and cuts short calls that must be retried
    fn maybe_benign(&mut self, ph: &mut Phase) {
        if self.r.chance(1, 3) {
            let pm = *self.r.pick(&[50, 200, 500]);
            ph.faults = fc(BENIGN, pm, 40);
        }
    }

    // ---- graphs

    /// a graph of about n vertices, of some shape
    fn shape(&mut self, n: usize, dense_ok: bool) -> G {
        let n = n.max(1);
        let mut ids = BTreeSet::new();
        let wild = self.r.chance(1, 4);
        while ids.len() < n {
            let x = if wild && self.r.chance(1, 3) {
                match self.r.below(4) {
                    0 => *self.r.pick(&[0, u64::MAX, u64::MAX - 1, 1 << 32, 1 << 63, (1 << 53) + 1]),
                    _ => self.r.u64(),
                }
            } else {
                self.r.below(4 * n as u64 + 10)
            };
            ids.insert(x);
        }
        let mut ids: Vec<u64> = ids.into_iter().collect();
        self.r.shuffle(&mut ids);
        let mut g = G::default();
        let kind = self.r.below(12);
        let mut edges: Vec<(u64, u64)> = vec![];
        let pick2 = |r: &mut Rng| (ids[r.idx(n)], ids[r.idx(n)]);
        match kind {
            0 => {
                // chain
                edges.extend(ids.windows(2).map(|w| (w[0], w[1])));
            }
            1 => {
                // ring, sometimes with chords
                edges.extend((0..n).map(|i| (ids[i], ids[(i + 1) % n])));
                for _ in 0..self.r.below(3) {
                    edges.push(pick2(&mut self.r));
                }
            }
            2 => {
                // several components
                let cut = self.r.idx(n) + 1;
                for p in &[&ids[..cut], &ids[cut..]] {
                    if p.len() > 1 {
                        for _ in 0..p.len() {
                            edges.push((p[self.r.idx(p.len())], p[self.r.idx(p.len())]));
                        }
                    }
                }
            }
            3 | 4 => {
                // acyclic: edges go up in the list
                let m = n * if dense_ok { 3 } else { 2 };
                for _ in 0..m {
                    let (a, b) = (self.r.idx(n), self.r.idx(n));
                    if a != b {
                        edges.push((ids[a.min(b)], ids[a.max(b)]));
                    }
                }
            }
            5 if dense_ok && n <= 6 => {
                for a in &ids {
                    for b in &ids {
                        if a != b && self.r.chance(4, 5) {
                            edges.push((*a, *b));
                        }
                    }
                }
            }
            6 => {
                // tree away from the first vertex, or towards it
                let up = self.r.chance(1, 3);
                for i in 1..n {
                    let p = self.r.idx(i);
                    edges.push(if up { (ids[i], ids[p]) } else { (ids[p], ids[i]) });
                }
            }
            7 => {
                // a source in front of a ring
                if n >= 3 {
                    edges.push((ids[0], ids[1]));
                    edges.extend((1..n).map(|i| (ids[i], if i + 1 == n { ids[1] } else { ids[i + 1] })));
                }
            }
            8 => {
                // layers
                let w = self.r.range(1, 3) as usize;
                for i in 0..n {
                    for _ in 0..2 {
                        let l = i / w + 1;
                        if l * w < n {
                            let j = l * w + self.r.idx(w.min(n - l * w));
                            edges.push((ids[i], ids[j]));
                        }
                    }
                }
            }
            9 => {
                // a hub
                let dir = self.r.below(4);
                for i in 1..n {
                    match if dir == 3 { self.r.below(4) } else { dir } {
                        0 => edges.push((ids[0], ids[i])),
                        1 => edges.push((ids[i], ids[0])),
                        2 => edges.push(if i % 2 == 0 { (ids[0], ids[i]) } else { (ids[i], ids[0]) }),
                        _ => edges.extend(vec![(ids[0], ids[i]), (ids[i], ids[0])]),
                    }
                }
            }
            _ => {
                let m = self.r.below(2 * n as u64 + 2);
                for _ in 0..m {
                    edges.push(pick2(&mut self.r));
                }
            }
        }
        if self.r.chance(1, 5) {
            let x = ids[self.r.idx(n)];
            edges.push((x, x));
        }
        if self.r.chance(2, 3) {
            g.v.extend(ids.iter());
        }
        g.apply(&Batch::AddE(edges));
        if g.v.is_empty() && self.r.chance(9, 10) {
            g.v.insert(ids[0]);
        }
        g
    }

    /// lines that add up to the graph, in some order and with detours
    fn lines(&mut self, g: &G, odd: bool) -> String {
        let mut lines: Vec<String> = vec![];
        for v in &g.v {
            lines.push(format!("AddVertex {}", v));
        }
        for (a, b) in &g.e {
            lines.push(format!("AddEdge {} {}", a, b));
        }
        let implied: BTreeSet<u64> = g.e.iter().flat_map(|e| vec![e.0, e.1]).collect();
        if self.r.chance(1, 2) {
            lines.retain(|l| !(l.starts_with("AddVertex") && self.r.chance(1, 2) && implied.contains(&l[10..].parse().unwrap())));
        }
        self.r.shuffle(&mut lines);
        // repeat some
        for _ in 0..self.r.below(4) {
            if !lines.is_empty() {
                let l = lines[self.r.idx(lines.len())].clone();
                let at = self.r.idx(lines.len() + 1);
                lines.insert(at, l);
            }
        }
        let vs: Vec<u64> = g.v.iter().cloned().collect();
        // edges that come and go, between vertices that stay
        for _ in 0..self.r.below(3) {
            if vs.is_empty() {
                break;
            }
            let e = (vs[self.r.idx(vs.len())], vs[self.r.idx(vs.len())]);
            if g.e.contains(&e) {
                continue;
            }
            let i = self.r.idx(lines.len() + 1);
            lines.insert(i, format!("AddEdge {} {}", e.0, e.1));
            let j = i + 1 + self.r.idx(lines.len() - i);
            lines.insert(j, format!("RemoveEdge {} {}", e.0, e.1));
        }
        // a vertex that comes with edges and goes
        for _ in 0..self.r.below(3) {
            let x = self.r.below(1000) + 500_000;
            if g.v.contains(&x) {
                continue;
            }
            let i = self.r.idx(lines.len() + 1);
            lines.insert(i, format!("AddVertex {}", x));
            let mut k = i;
            for _ in 0..self.r.below(3) {
                if vs.is_empty() {
                    break;
                }
                let y = vs[self.r.idx(vs.len())];
                k += 1;
                let l = if self.r.chance(1, 2) { format!("AddEdge {} {}", x, y) } else { format!("AddEdge {} {}", y, x) };
                lines.insert(k, l);
            }
            let j = k + 1 + self.r.idx(lines.len() - k);
            lines.insert(j, format!("RemoveVertex {}", x));
        }
        let mut s = String::new();
        for mut l in lines {
            if odd {
                match self.r.below(8) {
                    0 => s.push_str("# a comment\n"),
                    1 => s.push_str("\n"),
                    2 => s.push_str("   # indented comment AddVertex 77\n"),
                    3 if l.starts_with("AddEdge") => l = l.replacen(' ', "\u{1}", 1).replace(' ', "   ").replace('\u{1}', " "),
                    4 => l.push('\r'),
                    _ => (),
                }
            }
            s.push_str(&l);
            s.push('\n');
        }
        if odd && self.r.chance(1, 4) {
            s.push_str("#last");
        } else if self.r.chance(1, if odd { 4 } else { 12 }) && s.ends_with('\n') && !s.ends_with("\r\n") {
            s.pop();
        }
        debug_assert_eq!(crate::lin::parse_commands(s.as_bytes()), *g);
        s
    }

    /// stalled processes, a clock that is set, and time that passes between the phases
    fn time(&mut self, p: &mut Plan) {
        let pm = *self.r.pick(&[15, 40, 120]);
        for ph in p.phases.iter_mut() {
            if self.r.chance(1, 2) {
                let unit = *self.r.pick(&[1, 60, 3600, 86_400, 864_000]);
                ph.pre.push(Pre::Pass(unit * self.r.range(1, 100)));
            }
            if ph.faults.permille == 0 {
                ph.faults = fc(TIME, pm, 6);
            } else if self.r.chance(1, 2) {
                ph.faults.kinds.extend(TIME);
                ph.faults.max += 2;
            }
        }
    }

    /// puts the graph into the plan: as a stored file or through commands
    /// left by a command that was killed, by an editor or by a backup: not the graph
    fn strays(&mut self, p: &mut Plan, g: &G) {
        if !self.r.chance(1, 3) {
            return;
        }
        for _ in 0..self.r.range(1, 2) {
            let name = *self.r.pick(&["commands.tmp", "commands.bak", "commands~", "commands.old", ".commands.tmp", "graph", "commands.new", "tmp"]);
            let s = self.lines(g, false);
            let name = format!("/w/g/.graph/{}", name);
            if p.files.iter().all(|f| f.0 != name) {
                p.files.push((name, FileData::Text(s)));
            }
        }
    }

    fn store(&mut self, p: &mut Plan, g: &G) {
        if self.r.chance(3, 5) {
            let odd = self.r.chance(1, 6);
            let s = self.lines(g, odd);
            p.files.push((FILE.into(), FileData::Text(s)));
            return;
        }
        let mut ops = vec![Op::Init];
        let mut es: Vec<(u64, u64)> = g.e.iter().cloned().collect();
        self.r.shuffle(&mut es);
        let mut vs: Vec<u64> = g.v.iter().cloned().collect();
        self.r.shuffle(&mut vs);
        let x = 600_000 + self.r.below(100);
        let detour = !g.v.contains(&x) && self.r.chance(1, 2);
        let chunks = self.r.range(1, 4) as usize;
        let mut i = 0;
        for c in 0..chunks {
            let to = if c + 1 == chunks { es.len() } else { (i + 1 + self.r.idx(es.len() + 1)).min(es.len()) };
            let mut ids: Vec<u64> = vec![];
            let rev = self.r.chance(1, 4);
            for e in &es[i.min(es.len())..to] {
                ids.extend(if rev { vec![e.1, e.0] } else { vec![e.0, e.1] });
            }
            i = to;
            let mut parts = vec![];
            if c == 0 && !vs.is_empty() {
                parts.push(Part::Vertex(vs.clone()));
            }
            if !ids.is_empty() {
                parts.push(Part::Edge(ids));
            }
            if !parts.is_empty() {
                ops.push(Op::Add { parts, rev });
            }
            if c == 0 && detour && !vs.is_empty() {
                ops.push(Op::Add { parts: vec![Part::Cycle(vec![x, vs[0]])], rev: false });
            }
            if self.r.chance(1, 3) {
                ops.push(Op::Build);
            }
        }
        if detour {
            ops.push(Op::Delete { parts: vec![Part::Vertex(vec![x])] });
        }
        let ph = self.seq(ops);
        p.phases.push(ph);
    }

    /// queries before, during and after rebuilds
    fn ask(&mut self, p: &mut Plan, qs: Vec<Op>) {
        let mut first = vec![];
        let mut beside = vec![];
        let mut last = vec![];
        for q in qs {
            match self.r.below(3) {
                0 => first.push(q),
                1 => beside.push(q),
                _ => last.push(q),
            }
        }
        if !first.is_empty() {
            let mut ph = self.seq(first);
            self.maybe_benign(&mut ph);
            p.phases.push(ph);
        }
        if !beside.is_empty() {
            let a = self.cmds(beside);
            let b = self.cmds(vec![Op::Build, Op::Build]);
            let mut ph = self.phase(vec![a, b]);
            self.maybe_benign(&mut ph);
            p.phases.push(ph);
        } else if !last.is_empty() && self.r.chance(1, 2) {
            last.insert(0, Op::Build);
        }
        if !last.is_empty() {
            let mut ph = self.seq(last);
            self.maybe_benign(&mut ph);
            p.phases.push(ph);
        }
    }
}

pub fn plan(prop: &str, seed: u64, thorough: bool) -> Plan {
    let mut g = Gen::new(mix(seed).wrapping_mul(0x2545_f491_4f6c_dd1d) ^ crate::prop_num(prop), thorough);
    let mut p = match prop {
        "C06" | "C07" | "C09" | "C10" | "C11" | "C13" | "C15" | "C17" | "C18" if g.r.chance(1, 4000) => huge(&mut g, prop, seed),
        "C01" => c01(&mut g, seed),
        "C02" => c02(&mut g, seed),
        "C03" => c03(&mut g, seed),
        "C04" => c04(&mut g, seed),
        "C05" => c05(&mut g, seed),
        "C06" => c06(&mut g, seed),
        "C07" => c07(&mut g, seed),
        "C08" => c08(&mut g, seed),
        "C09" => c09(&mut g, seed),
        "C10" => c10(&mut g, seed),
        "C11" => c11(&mut g, seed),
        "C12" => c12(&mut g, seed),
        "C13" => c13(&mut g, seed),
        "C14" => c14(&mut g, seed),
        "C15" => c15(&mut g, seed),
        "C16" => c16(&mut g, seed),
        "C17" => c17(&mut g, seed),
        "C18" => c18(&mut g, seed),
        _ => panic!("no such property: {}", prop),
    };
    if prop[1..].parse::<u32>().map_or(false, |n| n <= 10) && g.r.chance(1, 3) {
        g.time(&mut p);
    }
    if g.r.chance(1, 4) {
        // another name for the directory
        let to = if g.r.chance(1, 2) { "g" } else { DIR };
        p.files.push(("/w/lg".into(), FileData::Link(to.into())));
    }
    p
}

fn c01(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C01", "concurrent commands", seed);
    let create = g.r.chance(1, 12);
    match g.r.below(10) {
        _ if create => {
            // no graph yet, or one that is being removed
            if g.r.chance(1, 3) {
                p.dirs.push("/w/g/.graph".into());
            }
        }
        0 => (), // no graph yet
        1..=5 => {
            let mut ops = vec![Op::Init];
            for _ in 0..g.r.below(3) {
                ops.push(g.add(2));
            }
            let ph = g.seq(ops);
            p.phases.push(ph);
        }
        _ => {
            let n = g.r.range(1, 5) as usize;
            let mut ids = g.ids.clone();
            ids.truncate(n);
            let mut h = G::default();
            h.v.extend(ids.iter());
            for _ in 0..g.r.below(6) {
                h.e.insert((ids[g.r.idx(ids.len())], ids[g.r.idx(ids.len())]));
            }
            if g.r.chance(1, 6) {
                // several reads long
                let base = 5000;
                for i in 0..900 {
                    h.v.insert(base + i);
                }
            }
            let s = g.lines(&h, false);
            p.files.push((FILE.into(), FileData::Text(s)));
        }
    }
    let mix_kind = g.r.below(4);
    let nc = g.r.range(2, 4) as usize;
    let rounds = g.r.range(1, 2);
    for _ in 0..rounds {
        let mut clients = vec![];
        let mut cleans = 0;
        for _ in 0..nc {
            let mut ops = vec![];
            if create && g.r.chance(3, 4) {
                ops.push(Op::Init);
            }
            for _ in 0..g.r.range(1, 3) {
                let k = g.r.below(20);
                ops.push(match (mix_kind, k) {
                    (0, 0..=1) if cleans < 2 => {
                        cleans += 1;
                        Op::Clean { force: true, silent: g.r.chance(1, 2) }
                    }
                    (0, 2..=4) => Op::Init,
                    (1, 0..=8) => Op::Build,
                    (2, 0..=8) => g.query(),
                    (_, 9..=12) => g.query(),
                    (_, 13..=14) => Op::Build,
                    _ => g.edit(),
                });
            }
            clients.push(g.cmds(ops));
        }
        let mut ph = g.phase(clients);
        if g.r.chance(1, 4) {
            g.maybe_benign(&mut ph);
        }
        p.phases.push(ph);
    }
    let end = g.seq(vec![Op::Dump, Op::Desc]);
    p.phases.push(end);
    p
}

fn c02(g: &mut Gen, seed: u64) -> Plan {
    let power = g.r.chance(1, 4);
    let full = !power && g.r.chance(1, 8);
    let name = if power {
        "edits and a power cut"
    } else if full {
        "edits on a full disk"
    } else {
        "edits with crashes and failing calls"
    };
    let mut p = g.plan("C02", name, seed);
    p.power = power;
    if g.r.chance(2, 3) {
        let mut ops = vec![Op::Init];
        for _ in 0..g.r.below(3) {
            let o = if g.r.chance(1, 6) { g.big() } else { g.add(2) };
            ops.push(o);
        }
        let ph = g.seq(ops);
        p.phases.push(ph);
    } else if g.r.chance(1, 2) {
        let n = g.r.range(1, 6) as usize;
        let h = g.shape(n, false);
        let odd = g.r.chance(1, 3);
        let s = g.lines(&h, odd);
        p.files.push((FILE.into(), FileData::Text(s)));
    }
    for _ in 0..g.r.range(1, 4) {
        let mut ops = vec![];
        for _ in 0..g.r.range(1, 3) {
            ops.push(match g.r.below(21) {
                20 => g.one(),
                0..=7 => g.add(3),
                8..=10 => g.delete(),
                11..=13 => Op::Build,
                14..=15 => g.big(),
                16 => Op::Init,
                17 => Op::Clean { force: true, silent: false },
                18 => g.query(),
                _ => g.add(1),
            });
        }
        let mut ph = g.seq(ops);
        ph.pre.push(Pre::Unlock(DIR.into()));
        let pm = *g.r.pick(&[10, 25, 60, 150]);
        let mx = g.r.range(1, 3) as u32;
        ph.faults = if power {
            if g.r.chance(1, 2) {
                ph.pre.push(Pre::PowerLoss);
            }
            fc(&[FaultKind::Power], pm, 1)
        } else {
            match g.r.below(6) {
                0 => fc(&[FaultKind::Kill], pm, mx),
                1 => fc(ERRS, pm, mx),
                2 => fc(&[FaultKind::Enospc, FaultKind::Eio], pm, mx),
                3 => fc(BENIGN, pm * 4, 50),
                _ => {
                    let mut k = HARD.to_vec();
                    k.extend(BENIGN);
                    fc(&k, pm * 2, mx + 2)
                }
            }
        };
        if full {
            let room = g.r.below(600);
            ph.pre.push(Pre::DiskFree(Some(room)));
            ph.faults = FaultCfg::default();
        }
        if g.r.chance(1, 12) {
            let c = g.r.idx(ph.clients[0].len());
            let at = g.r.below(40) as u32;
            ph.clients[0][c].out_fail = Some((at, *g.r.pick(&[libc::ENOSPC, libc::EIO])));
        }
        p.phases.push(ph);
        let mut look = g.seq(vec![Op::Dump]);
        if full {
            look.pre.push(Pre::DiskFree(None));
        }
        p.phases.push(look);
    }
    let mut end = g.seq(vec![Op::Init]);
    let more = g.add(2);
    end.clients[0].push(g.cmd(more));
    let l = g.cmd(Op::Build);
    end.clients[0].push(l);
    let l = g.cmd(Op::Dump);
    end.clients[0].push(l);
    end.pre.push(Pre::Unlock(DIR.into()));
    p.phases.push(end);
    p
}

fn mutator(g: &mut Gen) -> Op {
    match g.r.below(11) {
        10 => g.one(),
        0..=3 => g.add(2),
        4..=5 => g.delete(),
        6..=7 => Op::Build,
        8 => Op::Clean { force: true, silent: g.r.chance(1, 2) },
        _ => Op::Random { n: Some(g.r.range(1, 12)), e: None, force: true },
    }
}

fn c03(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C03", "race for the lock", seed);
    let n = g.r.range(1, 6) as usize;
    let h = g.shape(n, false);
    let s = g.lines(&h, false);
    p.files.push((FILE.into(), FileData::Text(s)));
    match g.r.below(3) {
        0 => {
            p.scenario = "lock is taken".into();
            let mut ops = vec![];
            for _ in 0..g.r.range(1, 4) {
                ops.push(mutator(g));
            }
            let mut ph = if g.r.chance(1, 3) {
                let a = g.cmds(ops);
                let m = mutator(g);
                let b = g.cmds(vec![m]);
                g.phase(vec![a, b])
            } else {
                g.seq(ops)
            };
            ph.pre.push(Pre::Lock(DIR.into()));
            if g.r.chance(1, 4) {
                // what fails must not open the lock either
                let pm = *g.r.pick(&[100, 300, 600]);
                ph.faults = fc(&[FaultKind::Eio, FaultKind::Emfile, FaultKind::Eacces, FaultKind::Enospc], pm, 3);
            } else {
                g.maybe_benign(&mut ph);
            }
            p.phases.push(ph);
        }
        1 => {
            p.scenario = "holder is killed".into();
            let m = mutator(g);
            let mut ph = g.seq(vec![m]);
            ph.faults = fc(&[FaultKind::Kill], 150, 1);
            p.phases.push(ph);
            let mut ops = vec![];
            for _ in 0..g.r.range(1, 3) {
                ops.push(mutator(g));
            }
            let ph = g.seq(ops);
            p.phases.push(ph);
        }
        _ => {
            let mut clients = vec![];
            let remake = g.r.chance(1, 3);
            for _ in 0..g.r.range(2, 4) {
                let mut ops = vec![];
                for _ in 0..g.r.range(1, 2) {
                    ops.push(if g.r.chance(1, 3) {
                        Op::Crit { hold: g.r.below(8) as u32 }
                    } else {
                        match g.r.below(if remake { 16 } else { 12 }) {
                            0..=4 => g.add(2),
                            5..=6 => g.delete(),
                            7..=9 => Op::Build,
                            10 => Op::Clean { force: true, silent: true },
                            _ if remake => {
                                if g.r.chance(1, 2) {
                                    Op::Init
                                } else {
                                    Op::Random { n: Some(g.r.range(1, 12)), e: None, force: true }
                                }
                            }
                            _ => g.query(),
                        }
                    });
                }
                clients.push(g.cmds(ops));
            }
            let ph = g.phase(clients);
            p.phases.push(ph);
        }
    }
    let end = g.seq(vec![Op::Dump]);
    p.phases.push(end);
    p
}

/// a line that might pass for a command, a comment or an empty line in some reading of the format
fn might_be_valid(line: &[u8]) -> bool {
    let l = match std::str::from_utf8(line) {
        Ok(l) => l.trim(),
        Err(_) => return false,
    };
    if l.is_empty() || l.starts_with('#') {
        return true;
    }
    let w: Vec<&str> = l.split_whitespace().collect();
    let n = match w[0] {
        "AddVertex" | "RemoveVertex" => 2,
        "AddEdge" | "RemoveEdge" => 3,
        _ => return false,
    };
    w.len() == n && w[1..].iter().all(|x| x.bytes().all(|b| b.is_ascii_digit()) && x.parse::<u64>().is_ok())
}

/// a line that is neither a valid command nor a comment nor empty
fn bad_line(g: &mut Gen) -> Vec<u8> {
    if g.r.chance(1, 4) {
        return bad_classic(g);
    }
    for _ in 0..20 {
        let l = mutated(g);
        if !might_be_valid(&l) && !l.contains(&b'\n') {
            return l;
        }
    }
    bad_classic(g)
}

fn mutated(g: &mut Gen) -> Vec<u8> {
    let ids: Vec<u64> = g.ids.iter().cloned().chain(vec![1, 2, 3, 40, 555]).collect();
    let mut word = |g: &mut Gen| -> String {
        let a = ids[g.r.idx(ids.len())];
        let b = ids[g.r.idx(ids.len())];
        match g.r.below(4) {
            0 => format!("AddVertex {}", a),
            1 => format!("RemoveVertex {}", a),
            2 => format!("AddEdge {} {}", a, b),
            _ => format!("RemoveEdge {} {}", a, b),
        }
    };
    let line = word(g);
    let mut l = line.clone().into_bytes();
    match g.r.below(12) {
        0 => {
            let tail: &[u8] = *g.r.pick(&[
                &b"x"[..], b"#", b" # obsolete", b"# obsolete", b" 7", b" 7 8", b",", b";", b"\0", b"\0\0\0\0", b".0", b"-", b" x", b" label", b"\xff", b"\xc3\xa9",
            ]);
            l.extend_from_slice(tail);
        }
        1 => {
            let other = word(g);
            if g.r.chance(1, 3) {
                l.push(b' ');
            }
            l.extend_from_slice(other.as_bytes());
        }
        2 => {
            let head: &[u8] = *g.r.pick(&[&b"x"[..], b"\0", b"-", b"//", b"// ", b"; ", b"\xef\xbb\xbf", b"+", b"1 ", b"!", b"\xff", b"Add", b"-- "]);
            let mut x = head.to_vec();
            x.extend_from_slice(&l);
            l = x;
        }
        3 => l = if g.r.chance(1, 2) { line.to_lowercase().into_bytes() } else { line.to_uppercase().into_bytes() },
        4 => {
            let i = g.r.idx(l.len());
            l.remove(i);
        }
        5 => {
            let i = g.r.idx(l.len());
            let b = l[i];
            l.insert(i, b);
        }
        6 => {
            let i = g.r.idx(l.len());
            l[i] = *g.r.pick(&[0u8, 0xff, b'x', b'#', b'-', b'_', b'.', b',', 0x1b, 0x80]);
        }
        7 => {
            let i = 1 + g.r.idx(l.len() - 1);
            let b: &[u8] = *g.r.pick(&[&b"#"[..], b" #", b"\0", b"x", b"-", b"+", b"_", b","]);
            let rest = l.split_off(i);
            l.extend_from_slice(b);
            l.extend(rest);
        }
        8 => {
            let n = g.r.range(1, 40) as usize;
            let b = *g.r.pick(&[0u8, b'x', b'-', b'=', 0xff, 1, b'7']);
            l = vec![b; n];
        }
        9 => {
            // cut off, as by a torn write
            let n = g.r.idx(l.len());
            l.truncate(n);
        }
        10 => {
            let n: &str = *g.r.pick(&["0x10", "1e3", "1_000", "+5", "-5", "5.", "18446744073709551616", "99999999999999999999999", "\u{0663}", "one", "''", "5u64"]);
            let at = line.find(' ').unwrap() + 1;
            let rest = line[at..].find(' ').map(|i| line[at + i..].to_string()).unwrap_or_default();
            l = format!("{}{}{}", &line[..at], n, rest).into_bytes();
        }
        _ => {
            let k: &str = *g.r.pick(&["Add", "Remove", "DeleteVertex", "AddNode", "AddVertices", "Vertex", "Edge", "<<<<<<< HEAD", "=======", "AddEdges", "RemoveAll"]);
            let at = line.find(' ').unwrap();
            l = format!("{}{}", k, &line[at..]).into_bytes();
        }
    }
    l
}

fn bad_classic(g: &mut Gen) -> Vec<u8> {
    match g.r.below(14) {
        0 => b"AddVertex 18446744073709551616".to_vec(),
        1 => b"AddEdge 1 99999999999999999999".to_vec(),
        2 => b"AddEdge 99999999999999999999 1".to_vec(),
        3 => vec![b'A', b'd', b'd', 0xff, 0xfe, b' ', b'1'],
        4 => b"AddVertex".to_vec(),
        5 => b"AddEdge 1".to_vec(),
        6 => b"AddVertex -1".to_vec(),
        7 => b"AddVertex 1.5".to_vec(),
        8 => b"RemoveVertex x".to_vec(),
        9 => b"RemoveEdge 5".to_vec(),
        10 => b"AddEd".to_vec(),
        11 => b"AddVertex 1AddVertex 2".to_vec(),
        12 => b"RemoveEdge 1 18446744073709551616".to_vec(),
        _ => b"RemoveVertex 28446744073709551616".to_vec(),
    }
}

fn damaged(g: &mut Gen, h: &G) -> Vec<u8> {
    let base = g.lines(h, false);
    let mut lines: Vec<Vec<u8>> = base.lines().map(|l| l.as_bytes().to_vec()).collect();
    if g.r.chance(1, 4) {
        // damage behind the first read
        let many = if g.r.chance(1, 30) { 9000 } else { 700 };
        let extra: Vec<Vec<u8>> = (0..many).map(|i| format!("AddVertex {}", 7000 + i).into_bytes()).collect();
        if g.r.chance(1, 2) {
            lines.extend(extra);
        } else {
            let mut e = extra;
            e.extend(lines);
            lines = e;
        }
    }
    let at = match g.r.below(3) {
        0 => 0,
        1 => lines.len(),
        _ => g.r.idx(lines.len() + 1),
    };
    let bad = bad_line(g);
    lines.insert(at, bad);
    let mut out = lines.join(&b'\n');
    if g.r.chance(3, 4) {
        out.push(b'\n');
    }
    out
}

fn loader(g: &mut Gen) -> Op {
    match g.r.below(9) {
        0 | 1 => Op::Build,
        2 => Op::Desc,
        3 => Op::Topo,
        4 => {
            let act = g.act();
            Op::Cycle { act, cons: vec![] }
        }
        5 => Op::Short { s: g.id(), t: g.id() },
        6 => Op::Csp { s: g.id(), t: g.id(), cons: vec![Con::MaxLen(3)] },
        7 => Op::Dump,
        _ => Op::Lib(Lib::GcmdCommands),
    }
}

fn c04(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C04", "failures, then recovery", seed);
    let kind = g.r.below(8);
    if kind == 0 {
        p.scenario = "damaged graph".into();
        let n = g.r.range(1, 4) as usize;
        let h = g.shape(n, false);
        let d = damaged(g, &h);
        p.files.push((FILE.into(), FileData::of(d)));
        let mut ops = vec![];
        for _ in 0..g.r.range(1, 4) {
            ops.push(match g.r.below(6) {
                0..=2 => Op::Build,
                3 => g.add(1),
                4 => g.delete(),
                _ => Op::Desc,
            });
        }
        let ph = g.seq(ops);
        p.phases.push(ph);
        // the operator restores a good file
        let s = g.lines(&h, false);
        let mut ph = g.seq(vec![Op::Build, Op::Desc]);
        ph.pre.push(Pre::Put(FILE.into(), FileData::Text(s)));
        let a = g.add(2);
        let c = g.cmd(a);
        ph.clients[0].push(c);
        let c = g.cmd(Op::Dump);
        ph.clients[0].push(c);
        p.phases.push(ph);
        return p;
    }
    if kind == 1 {
        p.scenario = "missing graph".into();
        if g.r.chance(1, 2) {
            p.dirs = vec!["/w".into()];
        }
        let mut ops = vec![];
        for _ in 0..g.r.range(1, 4) {
            ops.push(match g.r.below(6) {
                0 | 1 => Op::Build,
                2 => Op::Clean { force: true, silent: false },
                3 => g.delete(),
                4 => Op::Random { n: Some(g.r.range(1, 12)), e: None, force: true },
                _ => g.add(1),
            });
        }
        let ph = g.seq(ops);
        p.phases.push(ph);
    } else {
        let n = g.r.range(1, 6) as usize;
        let h = g.shape(n, false);
        let s = g.lines(&h, false);
        p.files.push((FILE.into(), FileData::Text(s)));
        for _ in 0..g.r.range(1, 2) {
            let mut clients = vec![];
            for _ in 0..(if g.r.chance(1, 3) { 2 } else { 1 }) {
                let mut ops = vec![];
                for _ in 0..g.r.range(1, 3) {
                    let o = if g.r.chance(1, 10) { g.big() } else { mutator(g) };
                    ops.push(o);
                }
                clients.push(g.cmds(ops));
            }
            let mut ph = g.phase(clients);
            let pm = *g.r.pick(&[20, 60, 150]);
            let mx = g.r.range(1, 3) as u32;
            ph.faults = match g.r.below(4) {
                0 => fc(HARD, pm, mx),
                1 => fc(&[FaultKind::Kill], pm, mx),
                _ => fc(ERRS, pm, mx),
            };
            if g.r.chance(1, 6) {
                ph.pre.push(Pre::DiskFree(Some(g.r.below(300))));
            }
            if g.r.chance(1, 8) {
                let c = g.r.idx(ph.clients[0].len());
                ph.clients[0][c].out_fail = Some((g.r.below(30) as u32, libc::ENOSPC));
            }
            p.phases.push(ph);
        }
    }
    let a = g.add(2);
    let d = g.delete();
    let q = g.query();
    let mut ph = g.seq(vec![Op::Init, a, Op::Build, d, q, Op::Desc, Op::Dump]);
    ph.pre.push(Pre::Unlock(DIR.into()));
    ph.pre.push(Pre::DiskFree(None));
    p.phases.push(ph);
    p
}

fn c05(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C05", "queries beside edits", seed);
    let n = g.r.range(1, 6) as usize;
    let mut h = g.shape(n, true);
    g.ids = h.v.iter().cloned().take(6).collect();
    g.ids.push(3);
    let long = g.r.chance(1, 3);
    if long {
        let base = g.r.range(1_000_000, 1_000_000_000);
        let m = g.r.range(400, 1000);
        for i in 0..m {
            h.v.insert(base + i);
        }
        if g.r.chance(1, 2) {
            for i in 0..m - 1 {
                if g.r.chance(1, 3) {
                    h.e.insert((base + i, base + i + 1));
                }
            }
        }
    }
    let s = g.lines(&h, false);
    p.files.push((FILE.into(), FileData::Text(s)));
    let mut clients = vec![];
    for _ in 0..g.r.range(1, 2) {
        let mut ops = vec![];
        for _ in 0..g.r.range(1, 3) {
            let q = g.query();
            ops.push(match q {
                Op::Cycle { .. } if long => Op::Desc,
                q => q,
            });
        }
        clients.push(g.cmds(ops));
    }
    for _ in 0..g.r.range(1, 2) {
        let mut ops = vec![];
        for _ in 0..g.r.range(1, 3) {
            ops.push(match g.r.below(20) {
                0..=5 => Op::Build,
                6..=11 => g.add(2),
                12..=15 => g.delete(),
                16..=17 => g.big(),
                18 => Op::Clean { force: true, silent: true },
                _ => Op::Init,
            });
        }
        clients.push(g.cmds(ops));
    }
    let mut ph = g.phase(clients);
    match g.r.below(5) {
        0 => g.maybe_benign(&mut ph),
        1 => {
            let pm = *g.r.pick(&[10, 40]);
            ph.faults = fc(HARD, pm, 2)
        }
        _ => (),
    }
    p.phases.push(ph);
    let mut end = g.seq(vec![Op::Dump, Op::Topo]);
    end.pre.push(Pre::Unlock(DIR.into()));
    p.phases.push(end);
    p
}

fn c06(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C06", "damaged graph", seed);
    let n = g.r.range(1, 6) as usize;
    let mut h = g.shape(n, false);
    g.ids = h.v.iter().cloned().collect();
    g.ids.push(3);
    let mut ops = vec![];
    for _ in 0..g.r.range(2, 5) {
        ops.push(loader(g));
    }
    match g.r.below(5) {
        0 | 1 => {
            let d = damaged(g, &h);
            p.files.push((FILE.into(), FileData::of(d)));
            g.strays(&mut p, &h);
            let mut ph = g.seq(ops);
            g.maybe_benign(&mut ph);
            p.phases.push(ph);
        }
        2 => {
            p.scenario = "graph that cannot be read".into();
            if g.r.chance(1, 2) {
                let many = if g.r.chance(1, 30) { 9000 } else { 800 };
                for i in 0..many {
                    h.v.insert(100_000 + i);
                }
            }
            let s = g.lines(&h, false);
            p.files.push((FILE.into(), FileData::Text(s)));
            let ops = ops.into_iter().map(|o| if let Op::Cycle { .. } = o { Op::Desc } else { o }).collect();
            let mut ph = g.seq(ops);
            let pm = *g.r.pick(&[100, 300, 600]);
            ph.faults = fc(&[FaultKind::Eio, FaultKind::Emfile, FaultKind::Eacces], pm, 4);
            p.phases.push(ph);
        }
        3 => {
            p.scenario = "no graph".into();
            if g.r.chance(1, 2) {
                p.dirs.push("/w/g/.graph".into());
                g.strays(&mut p, &h);
            }
            let ph = g.seq(ops);
            p.phases.push(ph);
        }
        _ => {
            p.scenario = "odd but valid lines, interrupted reads".into();
            if g.r.chance(1, 4) {
                let many = if g.r.chance(1, 30) { 9000 } else { 800 };
                for i in 0..many {
                    h.v.insert(100_000 + i);
                }
                for o in ops.iter_mut() {
                    if let Op::Cycle { .. } = o {
                        *o = Op::Dump;
                    }
                }
            }
            let s = g.lines(&h, true);
            p.files.push((FILE.into(), FileData::Text(s)));
            let mut ph = g.seq(ops);
            let pm = *g.r.pick(&[100, 300, 600]);
            ph.faults = fc(BENIGN, pm, 200);
            p.phases.push(ph);
        }
    }
    p
}

fn c07(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C07", "rebuilds", seed);
    let n = g.r.range(1, 9) as usize;
    let mut h = g.shape(n, true);
    g.ids = h.v.iter().cloned().take(8).collect();
    g.ids.push(3);
    if g.r.chance(1, 5) {
        let base = g.r.range(1000, 1_000_000_000_000);
        let more = if g.r.chance(1, 20) { g.r.range(4000, 9000) } else { g.r.range(300, 900) };
        for i in 0..more {
            h.v.insert(base + i);
        }
    }
    if h.v.len() < 50 {
        g.store(&mut p, &h);
    } else {
        let odd = g.r.chance(1, 4);
        let s = g.lines(&h, odd);
        p.files.push((FILE.into(), FileData::Text(s)));
    }
    for _ in 0..g.r.range(1, 4) {
        let k = g.r.below(6);
        let mut ops = vec![];
        for _ in 0..g.r.range(1, 3) {
            ops.push(Op::Build);
            if g.r.chance(1, 4) {
                let e = g.edit();
                ops.push(e);
            }
        }
        let mut ph = match k {
            0 => {
                let a = g.cmds(ops);
                let mut qs = vec![Op::Dump];
                for _ in 0..g.r.below(3) {
                    let q = g.query();
                    qs.push(if h.v.len() > 50 && matches!(q, Op::Cycle { .. }) { Op::Desc } else { q });
                }
                let b = g.cmds(qs);
                g.phase(vec![a, b])
            }
            1 => {
                let a = g.cmds(ops);
                let b = g.cmds(vec![Op::Build]);
                g.phase(vec![a, b])
            }
            _ => g.seq(ops),
        };
        let pm = *g.r.pick(&[20, 60, 150]);
        match k {
            2 => ph.faults = fc(&[FaultKind::Kill], pm, 2),
            3 => ph.faults = fc(HARD, pm, 2),
            4 => ph.faults = fc(BENIGN, 300, 100),
            _ => (),
        }
        if k == 5 && g.r.chance(1, 3) {
            ph.pre.push(Pre::DiskFree(Some(g.r.below(200))));
        }
        ph.pre.push(Pre::Unlock(DIR.into()));
        p.phases.push(ph);
        let mut look = g.seq(vec![Op::Dump, Op::Desc]);
        look.pre.push(Pre::DiskFree(None));
        p.phases.push(look);
    }
    let mut end = g.seq(vec![Op::Build, Op::Build, Op::Dump, Op::Lib(Lib::GcmdCommands)]);
    end.pre.push(Pre::Unlock(DIR.into()));
    p.phases.push(end);
    p
}

fn answers(g: &mut Gen) -> Vec<StdinEv> {
    use StdinEv::*;
    let d = |s: &str| Data(s.to_string());
    match g.r.below(34) {
        0 => vec![d("yes\n")],
        1 => vec![d("y\n")],
        2 => vec![d("yes")],
        3 => vec![d("y"), d("es\n")],
        4 => vec![Eintr, d("yes\n")],
        5 => vec![d("no\n")],
        6 => vec![d("n\n")],
        7 => vec![],
        8 => vec![d("\n")],
        9 => vec![d("YES\n")],
        10 => vec![d("Yes\n")],
        11 => vec![d("yes please\n")],
        12 => vec![d("yy\n")],
        13 => vec![d("no\n"), d("yes\n")],
        14 => vec![d("\n"), d("yes\n")],
        15 => vec![d("ye")],
        16 => vec![Raw(vec![0xff, 0xfe, b'\n'])],
        17 => vec![Eio],
        18 => vec![d("ye"), Eio],
        19 => vec![d(" yes \n")],
        20 => vec![d("yes!\n")],
        21 => vec![d("not yes\n")],
        22 => vec![d("yes"), Eio],
        23 => vec![d("ok\n")],
        24 => vec![d("1\n")],
        25 => vec![d("Y\n")],
        26 => vec![d("yesno\n")],
        27 => vec![d("maybe\n"), d("yes\n")],
        28 => vec![d("what?\ny\n")],
        29 => vec![d("\n"), d("\n"), d("\n"), d("y\n")],
        30 => vec![d("# yes\n"), d("yes\n")],
        31 => vec![Raw(vec![0xff, b'\n']), d("yes\n")],
        32 => vec![Eio, d("yes\n")],
        _ => vec![Eintr, d("n"), d("o\n")],
    }
}

fn c08(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C08", "consent and containment", seed);
    let n = g.r.range(1, 5) as usize;
    let h = g.shape(n, false);
    // the graph may be stored elsewhere
    let linked = g.r.chance(1, 12);
    if linked {
        p.files.push(("/w/store/keep".into(), FileData::Text("x".into())));
        let to = if g.r.chance(1, 2) { "../store" } else { "/w/store" };
        p.files.push(("/w/g/.graph".into(), FileData::Link(to.into())));
    }
    if linked || g.r.chance(5, 6) {
        let s = g.lines(&h, false);
        p.files.push((FILE.into(), FileData::Text(s)));
    }
    // things that are none of the command's business
    for (f, c) in &[
        ("/w/lock", "other lock"),
        ("/w/.graph/commands", "AddVertex 1\n"),
        ("/w/g/notes.txt", "mine"),
        ("/w/g/graph", "x"),
        ("/w/g/commands", "AddVertex 5\n"),
        ("/w/g/sub/.graph/commands", "AddVertex 9\n"),
        ("/w/g/sub/lock", ""),
        ("/w/h/.graph/commands", "AddVertex 2\n"),
        ("/w/g2/.graph/commands", "AddEdge 2 3\n"),
        ("/.graph/commands", "AddVertex 4\n"),
        ("/lock", "top"),
        ("/w/g/.graph.old/commands", "AddVertex 6\n"),
        ("/w/g/.graphs", "mine too"),
        ("/w/g/.commands", "AddVertex 7\n"),
        ("/w/g/lock.old", "kept"),
        ("/w/g/locks/lock", "kept"),
    ] {
        if g.r.chance(1, 2) {
            p.files.push((f.to_string(), FileData::Text(c.to_string())));
        }
    }
    for to in &["/w", "../notes.txt", "/w/h", "nowhere"] {
        if !linked && g.r.chance(1, 8) {
            p.files.push((format!("/w/g/.graph/l{}", to.len()), FileData::Link(to.to_string())));
        }
    }
    if !linked && g.r.chance(1, 4) {
        p.files.push(("/w/g/.graph/extra".into(), FileData::Text("x".into())));
    }
    for _ in 0..g.r.range(1, 4) {
        let op = match g.r.below(14) {
            9..=11 if linked => g.query(),
            0..=4 => Op::Clean { force: g.r.chance(1, 5), silent: g.r.chance(1, 2) },
            5..=7 => Op::Random { n: Some(g.r.range(1, 14)), e: None, force: g.r.chance(1, 6) },
            8 => Op::Init,
            9 => Op::Build,
            10 => g.add(2),
            11 => g.delete(),
            _ => g.query(),
        };
        let asks = matches!(op, Op::Clean { .. } | Op::Random { .. });
        let mut ph = g.seq(vec![op]);
        if asks {
            ph.clients[0][0].stdin = answers(g);
            if g.r.chance(1, 8) {
                ph.clients[0][0].out_fail = Some((g.r.below(20) as u32, libc::EIO));
            }
        }
        if g.r.chance(1, 3) {
            let pm = *g.r.pick(&[40, 120]);
            ph.faults = fc(HARD, pm, 2);
        }
        ph.pre.push(Pre::Unlock(DIR.into()));
        p.phases.push(ph);
    }
    if !linked && g.r.chance(1, 4) {
        // the same beside each other
        let mut clients = vec![];
        for _ in 0..2 {
            let op = match g.r.below(5) {
                0 => Op::Clean { force: true, silent: true },
                1 => Op::Init,
                2 => Op::Build,
                3 => g.add(1),
                _ => g.query(),
            };
            clients.push(g.cmds(vec![op]));
        }
        let mut ph = g.phase(clients);
        ph.pre.push(Pre::Unlock(DIR.into()));
        p.phases.push(ph);
    }
    p
}

/// edits around a vertex with very many edges
fn hub(g: &mut Gen, mut p: Plan) -> Plan {
    p.scenario = "edits around a hub".into();
    let n = match g.r.below(3) {
        0 => (1 << g.r.range(5, 9)) + g.r.below(4) - 2,
        _ => g.r.range(20, 400),
    };
    let c = g.id();
    let base = g.r.range(1000, 1 << 40);
    let mut leaves: Vec<u64> = (0..n).map(|i| base + i).collect();
    g.r.shuffle(&mut leaves);
    let mut star = vec![c];
    star.extend(&leaves);
    let rev = g.r.chance(1, 2);
    let mut ops = vec![Op::Init, Op::Add { parts: vec![Part::Star(star)], rev }];
    for _ in 0..g.r.range(2, 6) {
        let some: Vec<u64> = (0..g.r.range(1, 4)).map(|_| leaves[g.r.idx(leaves.len())]).collect();
        let other = g.r.chance(1, 3);
        let mut ends = vec![];
        for l in &some {
            ends.extend(if other != rev { vec![*l, c] } else { vec![c, *l] });
        }
        ops.push(match g.r.below(9) {
            0..=2 => Op::Add { parts: vec![Part::Edge(ends)], rev: false },
            3 | 4 => Op::Delete { parts: vec![Part::Edge(ends)] },
            5 => Op::Delete { parts: vec![Part::Vertex(some)] },
            6 => Op::Build,
            7 => {
                let mut v = vec![c];
                v.extend(&leaves[..g.r.idx(leaves.len()) + 1]);
                Op::Add { parts: vec![Part::Star(v)], rev: g.r.chance(1, 2) }
            }
            _ if g.r.chance(1, 3) => Op::Delete { parts: vec![Part::Vertex(vec![c])] },
            _ => Op::Desc,
        });
    }
    ops.extend(vec![Op::Dump, Op::Desc, Op::Lib(Lib::Degrees)]);
    let mut ph = g.seq(ops);
    g.maybe_benign(&mut ph);
    p.phases.push(ph);
    p
}

fn c09(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C09", "history of edits", seed);
    if g.r.chance(1, 40) {
        return hub(g, p);
    }
    let mut ops = vec![Op::Init];
    if g.r.chance(1, 5) {
        // a file that others have written
        let n = g.r.range(1, 8) as usize;
        let mut h = g.shape(n, true);
        h.v.insert(g.ids[0]);
        let odd = g.r.chance(1, 2);
        let s = g.lines(&h, odd);
        p.files.push((FILE.into(), FileData::Text(s)));
        g.ids.extend(h.v.iter().take(4));
    }
    let n = if g.thorough { g.r.range(2, 24) } else { g.r.range(2, 12) };
    let style = g.r.below(4);
    for _ in 0..n {
        ops.push(match (style, g.r.below(24)) {
            (0, 0..=8) => g.delete(),
            (_, 0) => g.big(),
            (_, 1..=4) => g.delete(),
            (_, 5) => Op::Desc,
            (_, 6) => Op::Lib(Lib::Degrees),
            (_, 7) => Op::Build,
            (_, 8) => Op::Dump,
            (_, 9) => {
                // an odd number of edge ends
                let v = g.list(3, 3);
                let mut parts = vec![];
                if g.r.chance(1, 2) {
                    parts.push(Part::Vertex(vec![g.id()]));
                }
                parts.push(Part::Edge(v));
                if g.r.chance(1, 2) {
                    Op::Add { parts, rev: false }
                } else {
                    Op::Delete { parts }
                }
            }
            (_, 10) => {
                // a whole star around one vertex, then gone
                let c = g.id();
                let mut v = vec![c];
                v.extend(g.ids.clone());
                Op::Add { parts: vec![Part::Star(v)], rev: g.r.chance(1, 2) }
            }
            (_, 11) => Op::Add { parts: vec![Part::Clique(g.distinct(8))], rev: g.r.chance(1, 3) },
            (_, 12) => Op::Init,
            (_, 13) => g.one(),
            _ => g.add(4),
        });
    }
    ops.push(Op::Dump);
    ops.push(Op::Desc);
    ops.push(Op::Lib(Lib::Degrees));
    if g.r.chance(1, 3) {
        ops.push(Op::Build);
        ops.push(Op::Dump);
    }
    let mut ph = g.seq(ops);
    if g.r.chance(1, 6) {
        let i = g.r.idx(ph.clients[0].len());
        let mut c = ph.clients[0][i].clone();
        g.spoil(&mut c);
        ph.clients[0][i] = c;
    }
    g.maybe_benign(&mut ph);
    p.phases.push(ph);
    p
}

fn c10(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C10", "random graph", seed);
    let n0 = g.r.range(1, 4) as usize;
    let h = g.shape(n0, false);
    let s = g.lines(&h, false);
    p.files.push((FILE.into(), FileData::Text(s)));
    let random = |g: &mut Gen, small: bool| {
        let n = match g.r.below(8) {
            0 => g.r.range(0, 3),
            1 | 2 => g.r.range(4, 12),
            3 | 4 if !small => g.r.range(13, 40),
            5 if !small => {
                if g.r.chance(1, 12) {
                    if g.r.chance(1, 6) {
                        g.r.range(501, 3000)
                    } else {
                        g.r.range(121, 500)
                    }
                } else {
                    g.r.range(41, 120)
                }
            }
            _ => g.r.range(9, 14),
        };
        let e = match g.r.below(6) {
            0 | 1 => None,
            2 => Some(g.r.below(3 * n + 1)),
            3 => Some(3 * n),
            4 => Some(g.r.below(n + 2)),
            _ => Some(g.r.below((n * n).min(20000) + 2)),
        };
        Op::Random { n: Some(n), e, force: true }
    };
    let mut ph = match g.r.below(4) {
        0 | 1 => {
            let r = random(g, false);
            let q = *g.r.pick(&[0, 1, 2]);
            let mut ops = vec![r, Op::Dump, Op::Topo, Op::Desc];
            if q == 1 {
                let r = random(g, true);
                ops.push(r);
                ops.push(Op::Dump);
            } else if q == 2 {
                ops.push(Op::Build);
                ops.push(Op::Dump);
            }
            g.seq(ops)
        }
        _ => {
            p.scenario = "random graph beside other commands".into();
            let r = random(g, true);
            let a = g.cmds(vec![r]);
            let mut clients = vec![a];
            let remake = g.r.chance(1, 3);
            for _ in 0..g.r.range(1, 2) {
                let mut ops = vec![];
                if remake && g.r.chance(2, 3) {
                    ops.push(Op::Init);
                }
                for _ in 0..g.r.range(1, 3) {
                    ops.push(match g.r.below(if remake { 11 } else { 8 }) {
                        0..=1 => Op::Build,
                        8 => Op::Build,
                        9 => g.add(1),
                        10 => Op::Init,
                        2..=4 => Op::Dump,
                        5 => Op::Desc,
                        6 => g.add(1),
                        _ => Op::Topo,
                    });
                }
                clients.push(g.cmds(ops));
            }
            g.phase(clients)
        }
    };
    if g.r.chance(1, 30) {
        let mut c = ph.clients[0][0].clone();
        g.spoil(&mut c);
        ph.clients[0][0] = c;
    }
    if g.r.chance(1, 6) {
        let pm = *g.r.pick(&[20, 60]);
        ph.faults = fc(HARD, pm, 1);
    } else {
        g.maybe_benign(&mut ph);
    }
    p.phases.push(ph);
    let mut end = g.seq(vec![Op::Dump]);
    end.pre.push(Pre::Unlock(DIR.into()));
    p.phases.push(end);
    p
}

/// tens of thousands of vertices, around the widths of short integers more often than not
fn huge(g: &mut Gen, prop: &str, seed: u64) -> Plan {
    let mut p = g.plan(prop, "a graph with tens of thousands of vertices", seed);
    let star = prop == "C11" && g.r.chance(1, 3);
    let n = match g.r.below(6) {
        _ if star => 65_535 + g.r.below(4),
        0 => g.r.range(10_000, 70_000),
        1 => 32_766 + g.r.below(6),
        2 => 65_534 + g.r.below(3),
        _ => 65_536 + g.r.below(500),
    };
    if prop == "C10" {
        let e = g.r.below(n + n / 4);
        let mut ph = g.seq(vec![Op::Random { n: Some(n), e: Some(e), force: true }, Op::Dump, Op::Topo, Op::Desc]);
        p.files.push((FILE.into(), FileData::Text("AddVertex 1\n".into())));
        g.maybe_benign(&mut ph);
        p.phases.push(ph);
        return p;
    }
    let base = match g.r.below(3) {
        0 => 0,
        1 => (1 << 32) - g.r.below(n),
        _ => g.r.range(1, 1 << 50),
    };
    let mut ids: Vec<u64> = (0..n).map(|i| base + i).collect();
    g.r.shuffle(&mut ids);
    let mut h = G::default();
    h.v = ids.iter().cloned().collect();
    let at = |i: u64| ids[i as usize];
    h.e = match (prop, if star { 0 } else { g.r.below(5) }) {
        ("C13", 0) | ("C13", 1) | ("C11", 0) | ("C06", 0) | ("C07", 0) | ("C09", 0) | ("C17", 0) | ("C18", 0) => (1..n).map(|i| (at(i), at(0))).collect(),
        ("C13", _) | ("C15", _) | ("C17", _) | (_, 1) => (1..n).map(|i| (at((i - 1) / 2), at(i))).collect(),
        (_, 2) => (1..n).map(|i| (at(i - 1), at(i))).collect(),
        (_, 3) => (1..n / 2).map(|i| (at(2 * i), at(2 * i - 1))).collect(),
        _ => (0..20).map(|_| (at(g.r.below(n)), at(g.r.below(n)))).collect(),
    };
    let mut s = g.lines(&h, false);
    let some = |g: &mut Gen| ids[g.r.idx(ids.len())];
    let mut ops = match prop {
        "C06" => {
            if g.r.chance(1, 2) {
                p.scenario = "damaged graph".into();
                s.push_str(*g.r.pick(&["AddVertex 18446744073709551616\n", "AddEdge 5\n", "RemoveVertex -1\n", "AddVertex 7 8\n", "\u{e9}\n"]));
            }
            vec![Op::Desc, Op::Topo, Op::Dump]
        }
        "C07" => vec![Op::Dump, Op::Build, Op::Dump, Op::Build, Op::Desc],
        "C09" => {
            let (a, b) = (some(g), some(g));
            let end = if g.r.chance(1, 2) { at(0) } else { some(g) };
            vec![
                Op::Desc,
                Op::Add { parts: vec![Part::Vertex(vec![3]), Part::Edge(vec![a, b])], rev: false },
                Op::Lib(Lib::Degrees),
                Op::Delete { parts: vec![Part::Vertex(vec![end])] },
                Op::Desc,
                Op::Dump,
            ]
        }
        "C11" => vec![Op::Topo, Op::Lib(Lib::TopoLib), Op::Build, Op::Topo],
        "C13" => vec![Op::Short { s: at(0), t: some(g) }, Op::Short { s: some(g), t: at(0) }, Op::Short { s: at(0), t: at(n - 1) }],
        "C15" => {
            let (start, end, wseed) = (at(0), some(g), g.r.u64());
            let (lo, hi) = (-(g.r.below(4) as i64), g.r.range(1, 1000) as i64);
            vec![Op::Lib(match g.r.below(5) {
                0 => Lib::Spfa { start, wseed, lo, hi },
                1 => Lib::DagShortest { start, wseed, lo, hi },
                2 => Lib::AStar { start, end, wseed, lo: 0, hi, heur: 0 },
                _ => Lib::BestFirst { start, wseed, lo: 0, hi },
            })]
        }
        "C17" => vec![Op::Lib(Lib::Bfs { start: Some(at(0)) }), Op::Lib(Lib::Dfs { start: Some(at(0)) }), Op::Lib(Lib::Dfs { start: Some(some(g)) })],
        _ => {
            let file = "/w/out.tgf".to_string();
            vec![Op::Lib(Lib::TgfExport { file: file.clone() }), Op::Lib(Lib::TgfImport { file: file.clone(), commands: false }), Op::Lib(Lib::TgfImport { file, commands: true })]
        }
    };
    if prop == "C06" {
        ops.truncate(g.r.range(1, 3) as usize);
    }
    p.files.push((FILE.into(), FileData::Text(s)));
    let mut rest = vec![];
    if prop == "C18" {
        rest = ops.split_off(1);
    }
    let mut ph = g.seq(ops);
    match prop {
        "C06" if g.r.chance(1, 3) => ph.faults = fc(&[FaultKind::Eio], 5, 1),
        "C07" if g.r.chance(1, 3) => ph.faults = fc(HARD, 5, 1),
        "C18" if g.r.chance(1, 3) => ph.faults = fc(ERRS, 5, 1),
        _ => g.maybe_benign(&mut ph),
    }
    p.phases.push(ph);
    if !rest.is_empty() {
        let ph = g.seq(rest);
        p.phases.push(ph);
    }
    p
}

fn sizes(g: &mut Gen) -> usize {
    if g.r.chance(1, 60) {
        if g.r.chance(1, 2) {
            // around a power of two
            return (1usize << g.r.range(5, 9)) + g.r.idx(4) - 1;
        }
        return g.r.range(100, if g.thorough { 1500 } else { 600 }) as usize;
    }
    match g.r.below(6) {
        0 => g.r.range(1, 3) as usize,
        1..=3 => g.r.range(3, 8) as usize,
        4 => g.r.range(8, 20) as usize,
        _ => g.r.range(20, if g.thorough { 120 } else { 60 }) as usize,
    }
}

fn c11(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C11", "topological sort", seed);
    let n = sizes(g);
    let mut h = g.shape(n, true);
    if g.r.chance(1, 150) {
        // very many edges into one vertex, or out of it
        let k = [255, 256, 257, 512][g.r.idx(4)];
        let (c, base) = (g.r.below(1000), g.r.range(1000, 1 << 40));
        let towards = g.r.chance(2, 3);
        h.e = (0..k).map(|i| if towards { (base + i, c) } else { (c, base + i) }).collect();
        h.v = h.e.iter().flat_map(|e| vec![e.0, e.1]).collect();
    } else if g.r.chance(1, 3) {
        // remove the cycles, then maybe put one back
        let mut order: Vec<u64> = h.v.iter().cloned().collect();
        g.r.shuffle(&mut order);
        let pos = |v: u64| order.iter().position(|x| *x == v).unwrap();
        h.e = h.e.iter().cloned().filter(|(a, b)| pos(*a) < pos(*b)).collect();
        if g.r.chance(1, 3) && order.len() > 1 {
            let a = g.r.idx(order.len());
            let b = g.r.idx(order.len());
            h.e.insert((order[a.max(b)], order[a.min(b)]));
        }
    }
    g.store(&mut p, &h);
    let mut qs = vec![];
    for _ in 0..g.r.range(3, 6) {
        qs.push(if g.r.chance(1, 3) { Op::Lib(Lib::TopoLib) } else { Op::Topo });
    }
    g.ask(&mut p, qs);
    p
}

/// an option with values that are no numbers, out of range or too few
fn bad_con(g: &mut Gen, vs: &[u64], cycle: bool) -> Con {
    let o = g.r.below(10) as u8;
    let big = "18446744073709551616";
    if o >= 4 {
        let s: &[&str] = &["abc", "99999999999999999999999", "1.5", "", "1e2", "0x3", "two", "1,2", "9223372036854775808000"];
        return Con::Bad(o, vec![g.r.pick(s).to_string()]);
    }
    let mut v: Vec<String> = (0..g.r.range(1, 3)).map(|_| vs[g.r.idx(vs.len())].to_string()).collect();
    if cycle && o >= 2 && g.r.chance(1, 2) {
        // an odd number of ends
        v.truncate(1);
        v.push(vs[0].to_string());
        v.push(vs[g.r.idx(vs.len())].to_string());
    } else {
        let i = g.r.idx(v.len() + 1);
        v.insert(i, g.r.pick(&["x", big, "1.0", "", "99999999999999999999999", "2,3", "0x1"]).to_string());
        if v.len() % 2 == 1 {
            v.push(vs[0].to_string());
        }
    }
    Con::Bad(o, v)
}

/// a bound, now and then one that no path comes near
fn bound(g: &mut Gen, lo: u64, top: u64) -> u64 {
    if g.r.chance(1, 10) {
        *g.r.pick(&[127, 255, 256, 65_535, 65_537, 1 << 31, (1 << 32) - 1, (1 << 32) + 2, 1 << 40, i64::MAX as u64])
    } else {
        g.r.range(lo, top)
    }
}

fn cycle_cons(g: &mut Gen, h: &G) -> Vec<Con> {
    let vs: Vec<u64> = h.v.iter().cloned().collect();
    let es: Vec<(u64, u64)> = h.e.iter().cloned().collect();
    let mut cons = vec![];
    let top = if g.r.chance(1, 4) { vs.len() as u64 + 2 } else { 5 };
    for _ in 0..g.r.range(0, 2) {
        let k = g.r.below(10);
        let some = |g: &mut Gen, m: u64| -> Vec<u64> {
            let n = g.r.range(1, m);
            (0..n).map(|_| if g.r.chance(1, 12) { 424_242 } else { vs[g.r.idx(vs.len())] }).collect()
        };
        let edges = |g: &mut Gen| -> Vec<u64> {
            let n = g.r.range(1, 2);
            (0..n)
                .flat_map(|_| {
                    if es.is_empty() || g.r.chance(1, 8) {
                        vec![vs[g.r.idx(vs.len())], vs[g.r.idx(vs.len())]]
                    } else {
                        let e = es[g.r.idx(es.len())];
                        vec![e.0, e.1]
                    }
                })
                .collect()
        };
        let c = match k {
            0 | 1 => Con::Include(some(g, 3)),
            2 => Con::Exclude(some(g, 3)),
            3 | 4 => Con::IncludeEdges(edges(g)),
            5 => Con::ExcludeEdges(edges(g)),
            6 => Con::MinLen(bound(g, 1, top)),
            7 => Con::MaxLen(bound(g, 1, top)),
            8 => Con::ExactLen(bound(g, 1, top)),
            _ => match g.r.below(3) {
                0 => Con::MinScore(bound(g, 1, top) as i64),
                1 => Con::MaxScore(bound(g, 1, top) as i64),
                _ => Con::ExactScore(bound(g, 1, top) as i64),
            },
        };
        if !cons.iter().any(|x| std::mem::discriminant(x) == std::mem::discriminant(&c)) {
            cons.push(c);
        }
    }
    if g.r.chance(1, 30) {
        cons = vec![bad_con(g, &vs, true)];
    }
    cons
}

/// a graph whose simple paths can all be walked
fn walkable(g: &mut Gen, max: usize, cap: usize) -> G {
    loop {
        let n = if g.r.chance(1, 8) { g.r.range(8, 20) as usize } else { g.r.range(1, max as u64) as usize };
        let h = g.shape(n, true);
        if oracle::simple_path_count(&h, cap) <= cap {
            return h;
        }
    }
}

fn c12(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C12", "cycles", seed);
    let h = if g.r.chance(1, 25) {
        // one long cycle, a few chords, maybe a way in
        let n = if g.r.chance(1, 4) { g.r.range(61, 150) } else { g.r.range(15, 60) };
        let base = g.r.below(1 << 40);
        let mut h = G::default();
        let mut order: Vec<u64> = (0..n).collect();
        g.r.shuffle(&mut order);
        let at = |i: u64| base + order[i as usize];
        for i in 0..n {
            h.e.insert((at(i), at((i + 1) % n)));
        }
        for _ in 0..g.r.below(3) {
            let (a, b) = (g.r.below(n), g.r.below(n));
            h.e.insert((at(a), at(b)));
        }
        if g.r.chance(1, 2) {
            let i = g.r.below(n);
            h.e.insert((base + n + 5, at(i)));
        }
        h.v = h.e.iter().flat_map(|e| vec![e.0, e.1]).collect();
        h
    } else if g.r.chance(1, 40) {
        // so many cycles that whatever is kept of them is a lot
        let n = g.r.range(5, 7);
        let base = g.r.below(1 << 20);
        let mut h = G::default();
        for a in 0..n {
            for b in 0..n {
                if (a != b && g.r.chance(14, 15)) || (a == b && g.r.chance(1, 6)) {
                    h.e.insert((base + a, base + b));
                }
            }
        }
        if g.r.chance(1, 2) {
            let (a, b) = (base + g.r.below(n), base + n + 3);
            h.e.insert((a, b));
            h.e.insert((b, b + 1));
            h.e.insert((b + 1, b));
        }
        h.v = h.e.iter().flat_map(|e| vec![e.0, e.1]).collect();
        h
    } else {
        walkable(g, 7, 4000)
    };
    g.store(&mut p, &h);
    let mut qs = vec![];
    for _ in 0..g.r.range(3, 6) {
        qs.push(match g.r.below(8) {
            0 => Op::Lib(Lib::CycleLib),
            1 => Op::Cycle { act: Act::All, cons: vec![] },
            _ => {
                let act = g.act();
                let cons = if h.v.is_empty() { vec![] } else { cycle_cons(g, &h) };
                Op::Cycle { act, cons }
            }
        });
    }
    g.ask(&mut p, qs);
    p
}

fn two(g: &mut Gen, h: &G) -> (u64, u64) {
    let vs: Vec<u64> = h.v.iter().cloned().collect();
    let s = vs[g.r.idx(vs.len())];
    if g.r.chance(1, 2) {
        // something reachable
        let d: Vec<u64> = oracle::bfs(h, s).into_iter().map(|x| x.0).collect();
        let t = d[g.r.idx(d.len())];
        return (s, t);
    }
    (s, vs[g.r.idx(vs.len())])
}

fn c13(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C13", "shortest path", seed);
    let n = sizes(g);
    let mut h = g.shape(n, true);
    if h.v.is_empty() {
        h.v.insert(1);
    }
    if g.r.chance(1, 3) {
        // a long way and a short cut
        let vs: Vec<u64> = h.v.iter().cloned().collect();
        for w in vs.windows(2) {
            if g.r.chance(4, 5) {
                h.e.insert((w[0], w[1]));
            }
        }
        for _ in 0..g.r.range(1, 3) {
            let a = g.r.idx(vs.len());
            let b = g.r.idx(vs.len());
            h.e.insert((vs[a.min(b)], vs[a.max(b)]));
        }
    }
    g.store(&mut p, &h);
    let mut qs = vec![];
    for _ in 0..g.r.range(3, 7) {
        let (s, t) = two(g, &h);
        qs.push(Op::Short { s, t });
    }
    g.ask(&mut p, qs);
    p
}

fn csp_cons(g: &mut Gen, h: &G, lib: bool) -> Vec<Con> {
    let vs: Vec<u64> = h.v.iter().cloned().collect();
    let es: Vec<(u64, u64)> = h.e.iter().cloned().collect();
    let mut cons: Vec<Con> = vec![];
    let top = if g.r.chance(1, 4) { vs.len() as u64 + 2 } else { 6 };
    for _ in 0..g.r.range(0, 3) {
        let some = |g: &mut Gen, lo: u64, hi: u64| -> Vec<u64> {
            let n = g.r.range(lo, hi) as usize;
            let mut v = vs.clone();
            g.r.shuffle(&mut v);
            v.truncate(n);
            v
        };
        let c = match g.r.below(if lib { 14 } else { 12 }) {
            0 | 1 => {
                let m = g.r.range(1, 4);
                Con::Include(some(g, 1, m))
            }
            2 => {
                let m = g.r.range(1, 4);
                Con::Exclude(some(g, 1, m))
            }
            3 => {
                let m = g.r.range(2, 5);
                let v = some(g, 2, m);
                if v.len() < 2 {
                    continue;
                }
                Con::Ordered(v)
            }
            4 => Con::WithCycle,
            5 => Con::NoCycle,
            6 => Con::MinLen(bound(g, 1, top)),
            7 => Con::MaxLen(bound(g, 1, top + 1)),
            8 => Con::ExactLen(bound(g, 1, top)),
            9 => Con::MinScore(bound(g, 0, top) as i64),
            10 => Con::MaxScore(bound(g, 0, top + 1) as i64),
            11 => Con::ExactScore(bound(g, 0, top) as i64),
            12 if !es.is_empty() => {
                let e = es[g.r.idx(es.len())];
                Con::IncludeEdges(vec![e.0, e.1])
            }
            13 if !es.is_empty() => {
                let e = es[g.r.idx(es.len())];
                Con::ExcludeEdges(vec![e.0, e.1])
            }
            _ => continue,
        };
        if c == Con::WithCycle && cons.contains(&Con::NoCycle) || c == Con::NoCycle && cons.contains(&Con::WithCycle) {
            continue;
        }
        if !cons.iter().any(|x| std::mem::discriminant(x) == std::mem::discriminant(&c)) {
            cons.push(c);
        }
    }
    cons
}

/// Formulas over constraints, and a limit on the length so that there are finitely many walks.
fn combos(g: &mut Gen, h: &G) -> Vec<Con> {
    fn atom(g: &mut Gen, h: &G) -> Con {
        loop {
            if let Some(c) = csp_cons(g, h, true).pop() {
                return c;
            }
        }
    }
    fn form(g: &mut Gen, h: &G, deep: u64) -> Con {
        let two = |g: &mut Gen| (Box::new(form(g, h, deep - 1)), Box::new(form(g, h, deep - 1)));
        match if deep == 0 { 9 } else { g.r.below(7) } {
            0 | 1 => Con::Not(Box::new(form(g, h, deep - 1))),
            2 => {
                let (a, b) = two(g);
                Con::Both(a, b)
            }
            3 => {
                let (a, b) = two(g);
                Con::Either(a, b)
            }
            4 | 5 => {
                let (a, b) = two(g);
                Con::OneOf(a, b)
            }
            _ => atom(g, h),
        }
    }
    let mut cons = vec![Con::MaxLen(g.r.range(2, 7))];
    for _ in 0..g.r.range(1, 2) {
        let deep = g.r.range(1, 3);
        cons.push(form(g, h, deep));
    }
    if g.r.chance(1, 2) {
        cons.reverse();
    }
    cons
}

fn c14(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C14", "constrained path", seed);
    let n = if g.r.chance(1, 6) { g.r.range(8, 30) } else { g.r.range(1, 7) } as usize;
    let mut h = g.shape(n, n < 8);
    if h.v.is_empty() {
        h.v.insert(1);
    }
    g.store(&mut p, &h);
    let mut qs = vec![];
    let want = g.r.range(3, 6) as usize;
    for _ in 0..40 {
        if qs.len() == want {
            break;
        }
        let (s, t) = two(g, &h);
        let lib = g.r.chance(1, 4);
        let cons = if lib && g.r.chance(1, 2) { combos(g, &h) } else { csp_cons(g, &h, lib) };
        let (wseed, hi) = (g.r.u64(), g.r.range(1, 4) as i64);
        // searches that would go on for ever, or nearly so, are the known finding of this property
        let effort = if lib {
            oracle::csp_effort(&h, s, t, &cons, &|a, b| weight(wseed, a, b, 1, hi), 3000)
        } else {
            oracle::csp_effort(&h, s, t, &cons, &|_, _| 1, 3000)
        };
        if effort >= 3000 {
            continue;
        }
        if !lib && g.r.chance(1, 30) {
            let vs: Vec<u64> = h.v.iter().cloned().collect();
            let mut cons = cons;
            let c = bad_con(g, &vs, false);
            let bad = Op::Csp { s, t, cons: vec![c.clone()] };
            // beside constraints that stand for other options
            let (args, _) = crate::model::command_line(&g.cmd(bad));
            let opt = args.iter().find(|a| a.starts_with("--") && !a.starts_with("--path") && !a.starts_with("--start") && !a.starts_with("--end"));
            let taken = crate::model::command_line(&g.cmd(Op::Csp { s, t, cons: cons.clone() })).0;
            if opt.map(|o| taken.contains(o)).unwrap_or(true) {
                cons.clear();
            }
            cons.push(c);
            qs.push(Op::Csp { s, t, cons });
            continue;
        }
        qs.push(if lib {
            Op::Lib(Lib::CspLib { start: s, end: t, wseed, lo: 1, hi, heur: g.r.below(4) as u8, cons })
        } else {
            Op::Csp { s, t, cons }
        });
    }
    if qs.is_empty() {
        let s = *h.v.iter().next().unwrap();
        qs.push(Op::Csp { s, t: s, cons: vec![Con::MaxLen(2)] });
    }
    g.ask(&mut p, qs);
    p
}

fn c15(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C15", "weighted paths", seed);
    let n = match g.r.below(8) {
        0 | 1 => g.r.range(8, 16) as usize,
        2 if g.r.chance(1, 4) => g.r.range(17, 50) as usize,
        _ => g.r.range(1, 8) as usize,
    };
    // a long way in small steps beside short cuts that cost more
    let stairs = g.r.chance(1, 8);
    let mut h = if stairs { stairway(g) } else { g.shape(n, true) };
    if h.v.is_empty() {
        h.v.insert(1);
    }
    if !stairs && g.r.chance(1, 2) {
        let mut order: Vec<u64> = h.v.iter().cloned().collect();
        g.r.shuffle(&mut order);
        let pos = |v: u64| order.iter().position(|x| *x == v).unwrap();
        h.e = h.e.iter().cloned().map(|(a, b)| if pos(a) <= pos(b) { (a, b) } else { (b, a) }).filter(|(a, b)| a != b).collect();
    }
    let dag = oracle::acyclic(&h);
    g.store(&mut p, &h);
    let mut qs = vec![];
    for _ in 0..g.r.range(3, 6) {
        let (mut start, end) = two(g, &h);
        let mut wseed = g.r.u64();
        if stairs && g.r.chance(3, 4) {
            start = *h.v.iter().next().unwrap();
            wseed = (wseed & !15) | 5;
        }
        let (lo_neg, hi) = match g.r.below(12) {
            _ if stairs => (-(g.r.range(0, 4) as i64), g.r.range(100, 1000) as i64),
            0 => (-(g.r.range(0, 1 << 40) as i64), g.r.range(0, 1 << 50) as i64),
            1 => (-(g.r.range(0, 1 << 33) as i64), g.r.range(0, 1 << 34) as i64),
            2 => (-(g.r.range(0, 300) as i64), g.r.range(0, 300) as i64),
            _ => (-(g.r.range(0, 4) as i64), g.r.range(0, 9) as i64),
        };
        let heur = g.r.below(4) as u8;
        let op = match g.r.below(7) {
            0 => Lib::DagShortest { start, wseed, lo: lo_neg, hi },
            1 => Lib::DagLongest { start, wseed, lo: lo_neg, hi },
            2 => Lib::BellmanFord { start, wseed, lo: if g.r.chance(1, 2) { lo_neg } else { 0 }, hi },
            3 => Lib::Spfa { start, wseed, lo: if dag { lo_neg } else { 0 }, hi },
            4 | 5 => Lib::BestFirst { start, wseed, lo: 0, hi },
            _ => Lib::AStar { start, end, wseed, lo: 0, hi, heur },
        };
        qs.push(Op::Lib(op));
    }
    g.ask(&mut p, qs);
    p
}

/// A row of vertices, each with an edge to the next and the first with edges to most of the others.
fn stairway(g: &mut Gen) -> G {
    let mut h = G::default();
    let base = g.r.below(1 << 20);
    let n = g.r.range(6, 28);
    for i in 0..n {
        h.v.insert(base + i);
        if i + 1 < n {
            h.e.insert((base + i, base + i + 1));
        }
        if i > 1 && g.r.chance(9, 10) {
            h.e.insert((base, base + i));
        }
    }
    let mixed = g.r.below(4);
    for _ in 0..mixed * n / 4 {
        let (a, b) = (g.r.below(n), g.r.below(n));
        if a < b {
            h.e.insert((base + a, base + b));
        } else if mixed == 3 {
            // and now and then a way back
            h.e.insert((base + a, base + b));
        }
    }
    h
}

/// A network in layers, most of it leading from the first vertex to the last,
/// some of its edges running both ways: the greedy path is often the wrong one.
fn network(g: &mut Gen) -> (G, (u64, u64)) {
    let mut h = G::default();
    let base = g.r.below(1 << 20);
    let inner = g.r.range(2, 6);
    let mut names: Vec<u64> = (0..inner + 2).collect();
    if g.r.chance(1, 2) {
        g.r.shuffle(&mut names);
    }
    let at = |i: u64| base + names[i as usize];
    let layers = g.r.range(1, inner.min(3));
    let layer = |i: u64| 1 + (i - 1) % layers;
    for i in 1..=inner {
        if layer(i) == 1 {
            h.e.insert((at(0), at(i)));
        }
        if layer(i) == layers {
            h.e.insert((at(i), at(inner + 1)));
        }
        for j in 1..=inner {
            if i != j && (layer(j) == layer(i) + 1 || layer(j) == layer(i)) && g.r.chance(2, 3) {
                h.e.insert((at(i), at(j)));
            }
        }
    }
    let es: Vec<(u64, u64)> = h.e.iter().cloned().collect();
    for (a, b) in es {
        if g.r.chance(1, 4) {
            h.e.insert((b, a));
        }
    }
    h.v = h.e.iter().flat_map(|e| vec![e.0, e.1]).collect();
    (h, (at(0), at(inner + 1)))
}

fn c16(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C16", "maximum flow", seed);
    let n = if g.r.chance(1, 6) { g.r.range(7, 14) } else { g.r.range(2, 6) } as usize;
    let (mut h, ends) = if g.r.chance(1, 3) {
        let (h, ends) = network(g);
        (h, Some(ends))
    } else {
        (g.shape(n, true), None)
    };
    while h.v.len() < 2 {
        let x = g.r.below(100);
        h.v.insert(x);
    }
    if ends.is_none() && g.r.chance(1, 2) {
        let vs: Vec<u64> = h.v.iter().cloned().collect();
        for _ in 0..g.r.range(2, 9) {
            let (a, b) = (vs[g.r.idx(vs.len())], vs[g.r.idx(vs.len())]);
            h.e.insert((a, b));
        }
    }
    while h.e.len() > 16 {
        let v: Vec<(u64, u64)> = h.e.iter().cloned().collect();
        let e = v[g.r.idx(v.len())];
        h.e.remove(&e);
    }
    g.store(&mut p, &h);
    let vs: Vec<u64> = h.v.iter().cloned().collect();
    let mut qs = vec![];
    for _ in 0..g.r.range(2, 5) {
        let (mut s, mut t) = two(g, &h);
        if let (Some(ends), true) = (ends, g.r.chance(3, 4)) {
            s = ends.0;
            t = ends.1;
        }
        while s == t {
            s = vs[g.r.idx(vs.len())];
            t = vs[g.r.idx(vs.len())];
        }
        let cap = match g.r.below(12) {
            0 => g.r.range(1, 1 << 57),
            1 => u64::MAX,
            2 => g.r.range(1, 1 << 34),
            3 => g.r.range(1, 300),
            4 | 5 | 6 => g.r.range(1, 2),
            _ => g.r.range(1, 9),
        };
        qs.push(Op::Lib(Lib::MaxFlow { start: s, end: t, wseed: g.r.u64(), cap }));
    }
    g.ask(&mut p, qs);
    p
}

fn c17(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C17", "traversals", seed);
    let paths = g.r.chance(1, 2);
    let mut h = if paths {
        walkable(g, 6, 1500)
    } else {
        let n = sizes(g);
        g.shape(n, true)
    };
    if h.v.is_empty() && g.r.chance(3, 4) {
        h.v.insert(1);
    }
    g.store(&mut p, &h);
    let vs: Vec<u64> = h.v.iter().cloned().collect();
    let mut qs = vec![];
    for _ in 0..g.r.range(3, 6) {
        let s = if vs.is_empty() { None } else { Some(vs[g.r.idx(vs.len())]) };
        let k = g.r.below(if paths { 7 } else { 3 });
        qs.push(Op::Lib(match (k, s) {
            (0, _) => Lib::Bfs { start: if g.r.chance(1, 5) { None } else { s } },
            (1, _) => Lib::Dfs { start: if g.r.chance(1, 5) { None } else { s } },
            (3, Some(s)) => Lib::BfsPaths { start: s },
            (4, Some(s)) => Lib::DfsPaths { start: s },
            (5, _) | (6, _) => Lib::HamPaths,
            (_, Some(s)) => Lib::Dfs { start: Some(s) },
            _ => Lib::Bfs { start: None },
        }));
    }
    g.ask(&mut p, qs);
    p
}

fn tgf_noise(g: &mut Gen, h: &G) -> String {
    let mut lines: Vec<String> = h.v.iter().map(|v| v.to_string()).collect();
    lines.extend(h.e.iter().map(|(a, b)| format!("{} {}", a, b)));
    g.r.shuffle(&mut lines);
    let mut s = String::new();
    for l in lines {
        match g.r.below(8) {
            0 => s.push_str(*g.r.pick(&["# comment\n", "#77 78\n", "# 77 78\n", "## #\n"])),
            1 => s.push_str("\n"),
            2 => s.push_str("#\n"),
            3 => s.push_str(*g.r.pick(&["  # indented 77 78\n", "\t#\n", " #77\n"])),
            _ => (),
        }
        if g.r.chance(1, 6) {
            s.push_str(&l.replace(' ', *g.r.pick(&["  ", "\t", " \t "])));
        } else {
            s.push_str(&l);
        }
        if g.r.chance(1, 4) {
            s.push_str(*g.r.pick(&[" a label", " label with 12 numbers", " x9", "  \u{e9}t\u{e9}", " # 12", " #", "\tlabel", " -> 5", " (7)", " ", " label#"]));
        }
        s.push_str(if g.r.chance(1, 8) { "\r\n" } else { "\n" });
    }
    s
}

fn c18(g: &mut Gen, seed: u64) -> Plan {
    let mut p = g.plan("C18", "TGF export and import", seed);
    let n = sizes(g).min(30);
    let mut h = g.shape(n, true);
    if g.r.chance(1, 3) {
        let base = g.r.range(1000, 1_000_000_000_000);
        for i in 0..g.r.range(300, 1200) {
            h.v.insert(base + i);
        }
    }
    let s = g.lines(&h, false);
    p.files.push((FILE.into(), FileData::Text(s)));
    let file = "/w/out.tgf".to_string();
    let kind = g.r.below(4);
    if kind == 3 {
        p.scenario = "TGF import of foreign files".into();
        let t = tgf_noise(g, &h);
        p.files.push((file.clone(), FileData::Text(t)));
    } else {
        let mut ph = g.seq(vec![Op::Lib(Lib::TgfExport { file: file.clone() })]);
        let pm = *g.r.pick(&[50, 200, 500]);
        match g.r.below(5) {
            0 => ph.faults = fc(BENIGN, pm, 100),
            1 => ph.faults = fc(ERRS, pm, 2),
            2 => ph.pre.push(Pre::DiskFree(Some(g.r.below(3000)))),
            3 => ph.faults = fc(&[FaultKind::Kill], pm, 1),
            _ => (),
        }
        if g.r.chance(1, 4) {
            // an older, longer export is there already
            let t: String = (0..2000).map(|i| format!("{}\n", i)).collect();
            p.files.push((file.clone(), FileData::Text(t)));
        }
        p.phases.push(ph);
    }
    for _ in 0..g.r.range(1, 3) {
        let commands = g.r.chance(1, 2);
        let mut ph = g.seq(vec![Op::Lib(Lib::TgfImport { file: file.clone(), commands })]);
        ph.pre.push(Pre::DiskFree(None));
        let pm = *g.r.pick(&[100, 400]);
        match g.r.below(4) {
            0 => ph.faults = fc(BENIGN, pm, 200),
            1 => ph.faults = fc(&[FaultKind::Eio, FaultKind::Emfile, FaultKind::Eacces], pm, 2),
            _ => (),
        }
        p.phases.push(ph);
    }
    if g.r.chance(1, 4) {
        // damage the file: an import must not return a part of it
        let bad: &[u8] = *g.r.pick(&[
            &b"x1 2\n"[..],
            b"18446744073709551616\n",
            b"1 99999999999999999999\n",
            b"99999999999999999999 1\n",
            b"1 \xff\xfe\n",
            b"-4\n",
            b"+4\n",
            b"label\n",
            b"label 1\n",
            b"\0\0\0\0\n",
            b"// 1 2\n",
            b"AddVertex 1\n",
            b"a 1 2\n",
            b"\xff\n",
        ]);
        let mut t: Vec<u8> = tgf_noise(g, &h).into_bytes();
        if g.r.chance(1, 2) {
            t.extend_from_slice(bad);
        } else {
            let mut u = bad.to_vec();
            u.extend(t);
            t = u;
        }
        let commands = g.r.chance(1, 2);
        let mut ph = g.seq(vec![Op::Lib(Lib::TgfImport { file: file.clone(), commands })]);
        ph.pre.push(Pre::Put("/w/bad.tgf".into(), FileData::of(t)));
        if let Op::Lib(Lib::TgfImport { file, .. }) = &mut ph.clients[0][0].op {
            *file = "/w/bad.tgf".into();
        }
        p.phases.push(ph);
    }
    p
}
