//! Runs many simulations in worker processes, confirms and minimises what they find, and writes
//! the evidence.
use crate::judge::{judge, Verdict, Viol};
use crate::plan::*;
use crate::rng::mix;
use crate::sim::{self, History};
use crate::fork::isolated;
use crate::{gen, minimise, model};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

pub const PAD: &str = "~";
const PADS: usize = 8000;
pub const EXIT_BUDGET: i32 = 77;
const EXIT_FOUND: i32 = 3;
const EXIT_HARNESS: i32 = 2;
const EXIT_CRASH: i32 = 78;
const STALL: Duration = Duration::from_secs(25);

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub kind: String,
    pub message: String,
    /// seed of the simulated run that was found first
    pub found_by_seed: u64,
    pub plan: Plan,
    /// None: the plan's own seed decides
    pub decisions: Option<Decisions>,
    pub hash: String,
}

pub struct V {
    pub kind: String,
    pub msg: String,
}

pub fn run_replay(r: &Replay, trace: bool) -> (History, Result<Verdict, V>) {
    let h = sim::run(&r.plan, r.decisions.as_ref(), trace);
    let v = judged(&r.plan, &h);
    (h, v)
}

/// a violation seen in a run
#[derive(Serialize, Deserialize)]
pub struct Trial {
    pub kind: String,
    pub msg: String,
    pub decisions: Decisions,
    pub hash: String,
}

/// runs a replay in a process of its own
pub fn trial(r: &Replay) -> Option<Trial> {
    isolated(|| {
        let (h, v) = run_replay(r, false);
        v.err().map(|v| Trial { kind: v.kind, msg: v.msg, decisions: h.decisions, hash: format!("{:016x}", h.hash) })
    })
    .ok()
    .flatten()
}

fn judged(plan: &Plan, h: &History) -> Result<Verdict, V> {
    // a panic in here is a fault of the harness, but plans changed by the minimiser may not be valid
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| judge(plan, h)));
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(Viol { kind, msg })) => Err(V { kind, msg }),
        Err(_) => Err(V { kind: "harness".into(), msg: "the judge panicked".into() }),
    }
}

fn unsupported(h: &History) -> Option<String> {
    h.done.iter().find_map(|d| d.unsupported.clone())
}

#[derive(Serialize, Deserialize, Default, Clone)]
struct Stats {
    runs: u64,
    commands: u64,
    ok: u64,
    failed: u64,
    killed: u64,
    steps: u64,
    switches: u64,
    sim_s: f64,
    states: u64,
    inconclusive: u64,
    nontrivial: u64,
    max_allocs: u64,
    max_steps: u64,
    faults: BTreeMap<String, u64>,
    runs_with_fault: u64,
    runs_with_overlap: u64,
    scenarios: BTreeMap<String, u64>,
    ops: BTreeMap<String, u64>,
    /// seed and event hash of a few runs, to be done again in another process
    again: Vec<(u64, u64)>,
    samples: Vec<serde_json::Value>,
}

impl Stats {
    fn add(&mut self, o: Stats) {
        self.runs += o.runs;
        self.commands += o.commands;
        self.ok += o.ok;
        self.failed += o.failed;
        self.killed += o.killed;
        self.steps += o.steps;
        self.switches += o.switches;
        self.sim_s += o.sim_s;
        self.states += o.states;
        self.inconclusive += o.inconclusive;
        self.nontrivial += o.nontrivial;
        self.max_allocs = self.max_allocs.max(o.max_allocs);
        self.max_steps = self.max_steps.max(o.max_steps);
        self.runs_with_fault += o.runs_with_fault;
        self.runs_with_overlap += o.runs_with_overlap;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.scenarios {
            *self.scenarios.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.ops {
            *self.ops.entry(k).or_insert(0) += v;
        }
        self.again.extend(o.again);
        self.samples.extend(o.samples);
    }
}

/// shared with the parent: [seed now running, runs done, in judge?]
struct Progress(*mut u64);
impl Progress {
    fn open(path: &Path) -> Progress {
        use std::os::unix::io::AsRawFd;
        let f = fs::OpenOptions::new().read(true).write(true).create(true).open(path).unwrap();
        f.set_len(4096).unwrap();
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Progress(p as *mut u64)
    }
    fn set(&self, i: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.0.add(i), v) }
    }
    fn get(&self, i: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.0.add(i)) }
    }
}

fn write_json<T: Serialize>(path: &Path, v: &T) {
    let tmp = path.with_extension("part");
    fs::write(&tmp, serde_json::to_string_pretty(v).unwrap()).unwrap();
    fs::rename(&tmp, path).unwrap();
}

fn read_json<T: for<'a> Deserialize<'a>>(path: &Path) -> Option<T> {
    serde_json::from_slice(&fs::read(path).ok()?).ok()
}

fn describe(plan: &Plan, h: &History) -> serde_json::Value {
    let cmds: Vec<String> = h
        .done
        .iter()
        .take(12)
        .map(|d| {
            let c = plan.cmds().find(|c| c.uid == d.uid).unwrap();
            let mut s = model::show_cmd(c);
            if s.len() > 140 {
                let mut n = 140;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            format!(
                "phase {} steps {}-{}: {} -> {}{}",
                d.phase,
                d.start,
                d.end,
                s,
                if d.killed { "killed".to_string() } else { format!("exit {}", d.exit) },
                d.fired.iter().map(|f| format!(", {} at call {}", f.1.name(), f.0)).collect::<String>()
            )
        })
        .collect();
    serde_json::json!({
        "scenario": plan.scenario, "plan_seed": plan.seed, "commands": cmds, "switches": h.decisions.switches.len(),
        "event_hash": format!("{:016x}", h.hash),
    })
}

// ---- sub processes

pub fn sub(a: &[String]) -> i32 {
    match a[0].as_str() {
        "worker" => worker(a),
        "again" => again(a),
        "replay" => replay(Path::new(&a[1]), a.get(2).map(|s| s == "trace").unwrap_or(false)),
        "trace" => {
            for (i, s) in a[2..].iter().enumerate() {
                let plan = gen::plan(&a[1], s.parse().unwrap(), false);
                let h = sim::run(&plan, None, i + 3 == a.len());
                for l in &h.trace {
                    println!("{}", l);
                }
                println!("{} {:016x}", s, h.hash);
            }
            0
        }
        "one" => one(&a[1], a[2].parse().unwrap(), a[3] == "thorough", Path::new(&a[4])),
        "minimise" => {
            let r: Replay = read_json(Path::new(&a[1])).unwrap();
            let out = PathBuf::from(&a[2]);
            let o2 = out.clone();
            let m = minimise::minimise(r, a[3].parse().unwrap(), &move |r| write_json(&o2, r));
            write_json(&out, &m);
            0
        }
        x => {
            eprintln!("gcsim: no such mode: {}", x);
            EXIT_HARNESS
        }
    }
}

/// what one run tells its worker
#[derive(Serialize, Deserialize, Default)]
struct Outcome {
    stats: Stats,
    hash: u64,
    state_hash: u64,
    found: Option<Replay>,
    harness: Option<String>,
}

fn simulate(prop: &str, seed: u64, thorough: bool, sample: bool) -> Outcome {
    let plan = gen::plan(prop, seed, thorough);
    let h = sim::run(&plan, None, false);
    let mut out = Outcome { hash: h.hash, state_hash: h.state_hash, ..Outcome::default() };
    if let Some(u) = unsupported(&h) {
        out.harness = Some(format!("a command used something the simulator does not have: {}", u));
        return out;
    }
    let st = &mut out.stats;
    match judged(&plan, &h) {
        Err(v) if v.kind == "harness" => {
            out.harness = Some(v.msg);
            return out;
        }
        Err(v) => {
            out.found = Some(Replay {
                property: prop.into(),
                kind: v.kind,
                message: v.msg,
                found_by_seed: seed,
                plan,
                decisions: Some(h.decisions),
                hash: format!("{:016x}", h.hash),
            });
            return out;
        }
        Ok(v) => {
            st.states = v.states;
            st.inconclusive = v.inconclusive as u64;
            st.nontrivial = v.nontrivial as u64;
        }
    }
    let overlap = h.done.iter().any(|d| h.done.iter().any(|e| d.uid < e.uid && d.start < e.end && e.start < d.end));
    let fault = !h.faults.is_empty() || !h.extra_faults.is_empty();
    st.runs_with_overlap = overlap as u64;
    st.runs_with_fault = fault as u64;
    st.runs = 1;
    st.commands = h.done.len() as u64;
    for d in &h.done {
        if d.killed {
            st.killed += 1
        } else if d.exit == 0 {
            st.ok += 1
        } else {
            st.failed += 1
        }
        st.max_allocs = st.max_allocs.max(d.allocs);
        let c = plan.cmds().find(|c| c.uid == d.uid).unwrap();
        *st.ops.entry(c.op.name().to_string()).or_insert(0) += 1;
    }
    st.steps = h.steps;
    st.max_steps = h.steps;
    st.switches = h.switches;
    st.sim_s = h.sim_ns as f64 / 1e9;
    for (k, n) in &h.faults {
        *st.faults.entry(k.name().to_string()).or_insert(0) += n;
    }
    for (k, n) in &h.extra_faults {
        *st.faults.entry(k.to_string()).or_insert(0) += n;
    }
    *st.scenarios.entry(plan.scenario.clone()).or_insert(0) += 1;
    if sample {
        st.samples.push(describe(&plan, &h));
    }
    out
}

fn worker(a: &[String]) -> i32 {
    let (prop, thorough) = (a[1].clone(), a[2] == "thorough");
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (base, idx, step, count, secs) = (n(3), n(4), n(5), n(6), n(7));
    let dir = PathBuf::from(&a[8]);
    let prog = Progress::open(&dir.join(format!("{}.progress", idx)));
    let until = Instant::now() + Duration::from_secs(secs);
    let mut st = Stats::default();
    let mut hashes: Vec<u64> = vec![];
    let mut shashes: Vec<u64> = vec![];
    let slow = std::env::var("GCSIM_SLOW").is_ok();
    for i in 0..count {
        if Instant::now() > until {
            break;
        }
        let seed = base + i * step + idx;
        prog.set(0, seed);
        let t = Instant::now();
        let o = match isolated(|| simulate(&prop, seed, thorough, idx < 3 && i == 5 + idx)) {
            Ok(o) => o,
            Err(c @ EXIT_BUDGET) => return c,
            Err(-2) => return EXIT_CRASH,
            Err(c) => {
                eprintln!("gcsim: seed {}: a run ended with status {}", seed, c);
                return EXIT_HARNESS;
            }
        };
        if slow && t.elapsed().as_millis() > 500 {
            eprintln!("gcsim: seed {} took {} ms", seed, t.elapsed().as_millis());
        }
        if let Some(m) = o.harness {
            eprintln!("gcsim: seed {}: {}", seed, m);
            return EXIT_HARNESS;
        }
        if let Some(r) = o.found {
            write_json(&dir.join(format!("{}.found.json", idx)), &r);
            return EXIT_FOUND;
        }
        if o.stats.nontrivial > 0 {
            hashes.push(o.hash);
        }
        shashes.push(o.state_hash);
        st.add(o.stats);
        if (thorough && i % 500 == 0 && i < 20_000) || i % (count / 6 + 1) == 0 {
            st.again.push((seed, o.hash));
        }
        prog.set(1, i + 1);
    }
    let bin = |v: &[u64]| v.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect::<Vec<u8>>();
    fs::write(dir.join(format!("{}.hashes", idx)), bin(&hashes)).unwrap();
    fs::write(dir.join(format!("{}.states", idx)), bin(&shashes)).unwrap();
    write_json(&dir.join(format!("{}.stats.json", idx)), &st);
    0
}

/// runs seeds again and prints their event hashes
fn again(a: &[String]) -> i32 {
    for s in &a[3..] {
        let seed: u64 = s.parse().unwrap();
        let o = isolated(|| {
            let plan = gen::plan(&a[1], seed, a[2] == "thorough");
            sim::run(&plan, None, false).hash
        });
        println!("{} {}", seed, o.unwrap_or(0));
    }
    0
}

/// one seed in a process of its own
fn one(prop: &str, seed: u64, thorough: bool, out: &Path) -> i32 {
    let plan = gen::plan(prop, seed, thorough);
    let h = sim::run(&plan, None, false);
    let v = match judged(&plan, &h) {
        Err(v) => v,
        Ok(_) => return 0,
    };
    write_json(
        out,
        &Replay {
            property: prop.into(),
            kind: v.kind,
            message: v.msg,
            found_by_seed: seed,
            plan,
            decisions: Some(h.decisions.clone()),
            hash: format!("{:016x}", h.hash),
        },
    );
    EXIT_FOUND
}

fn replay(file: &Path, trace: bool) -> i32 {
    let r: Replay = match read_json(file) {
        Some(r) => r,
        None => {
            eprintln!("gcsim: cannot read {}", file.display());
            return EXIT_HARNESS;
        }
    };
    let (h, v) = run_replay(&r, trace);
    for l in &h.trace {
        println!("{}", l);
    }
    match v {
        Err(v) => {
            println!("{}: {}", v.kind, v.msg);
            println!("event hash {:016x}{}", h.hash, if format!("{:016x}", h.hash) == r.hash { ", as recorded" } else { ", NOT as recorded" });
            if v.kind == r.kind && format!("{:016x}", h.hash) == r.hash {
                EXIT_FOUND
            } else {
                4
            }
        }
        Ok(_) => {
            println!("no violation");
            0
        }
    }
}

// ---- the parent

fn sub_cmd(args: &[String]) -> Command {
    let mut c = Command::new("/proc/self/exe");
    c.arg("sub").args(args).args(std::iter::repeat(PAD).take(PADS));
    c
}

fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

/// exit status of a sub process within a time limit; None: it had to be stopped
fn wait_limit(mut c: Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let until = Instant::now() + limit;
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) if Instant::now() > until => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            _ => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

fn code(s: Option<std::process::ExitStatus>) -> i32 {
    match s {
        None => -1,                          // did not come to an end
        Some(s) => s.code().unwrap_or(-2), // died of a signal
    }
}

pub fn top(a: &[String]) -> i32 {
    match a.get(0).map(|s| s.as_str()) {
        Some("check") => check(&a[1]),
        Some("replay") => {
            let c = code(sub_cmd(&strs(&["replay", &a[1], "trace"])).status().ok());
            match c {
                EXIT_FOUND => 1,
                EXIT_BUDGET => {
                    println!("hang: a command does not come to an end within its budget of allocations");
                    1
                }
                -2 => {
                    println!("crash: the process died of a signal");
                    1
                }
                c => c,
            }
        }
        Some("trace") => code(sub_cmd(&[&strs(&["trace"])[..], &a[1..]].concat()).status().ok()),
        Some("seed") => {
            // gcsim seed C01 123 [thorough]: trace of one run
            let out = std::env::temp_dir().join(format!("gcsim-seed-{}.json", std::process::id()));
            let tier = a.get(3).cloned().unwrap_or_else(|| "quick".into());
            let c = code(sub_cmd(&strs(&["one", &a[1], &a[2], &tier, out.to_str().unwrap()])).status().ok());
            println!("exit {}", c);
            if c == EXIT_FOUND {
                let _ = sub_cmd(&strs(&["replay", out.to_str().unwrap(), "trace"])).status();
            }
            let _ = fs::remove_file(&out);
            c
        }
        _ => {
            eprintln!("usage: gcsim check <property> | replay <file> | seed <property> <seed>");
            EXIT_HARNESS
        }
    }
}

/// simulated runs per worker in the quick tier
fn quota(prop: &str) -> u64 {
    match prop {
        "C05" | "C14" => 6000,
        "C01" | "C02" | "C07" | "C09" => 8000,
        "C04" | "C10" => 10000,
        "C18" => 12000,
        "C08" => 18000,
        _ => 15000,
    }
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let tier = if thorough { "thorough" } else { "quick" };
    let workers: u64 = std::env::var("GCSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let secs: u64 = std::env::var("GCSIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 240 });
    let count = if thorough { u64::MAX / 1_000_000 } else { quota(prop) };
    let count = std::env::var("GCSIM_COUNT").ok().and_then(|s| s.parse().ok()).unwrap_or(count);
    let root = verif_dir();
    let dir = std::env::temp_dir().join(format!("gcsim-{}-{}", prop, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let base = mix(seed ^ crate::prop_num(prop) << 20) >> 20;
    let r = explore(prop, seed, base, tier, workers, count, secs, &dir, &root, t0);
    let _ = fs::remove_dir_all(&dir);
    r
}

#[allow(clippy::too_many_arguments)]
fn explore(prop: &str, seed: u64, base: u64, tier: &str, workers: u64, count: u64, secs: u64, dir: &Path, root: &Path, t0: Instant) -> i32 {
    let mut kids: Vec<(u64, Option<Child>, Progress, (u64, u64, Instant))> = vec![];
    let ts = Instant::now();
    for i in 0..workers {
        let args: Vec<String> = vec![
            "worker".into(), prop.into(), tier.into(), base.to_string(), i.to_string(), workers.to_string(), count.to_string(),
            secs.to_string(), dir.display().to_string(),
        ];
        let prog = Progress::open(&dir.join(format!("{}.progress", i)));
        let c = sub_cmd(&args).stdin(Stdio::null()).spawn().expect("worker");
        kids.push((i, Some(c), prog, (0, 0, Instant::now())));
    }
    // (worker, how it ended, seed)
    let mut ended: Vec<(u64, i32, u64)> = vec![];
    loop {
        let mut alive = 0;
        for (i, kid, prog, last) in kids.iter_mut() {
            let c = match kid {
                Some(c) => c,
                None => continue,
            };
            let now = (prog.get(1), prog.get(2));
            if now != (last.0, last.1) {
                *last = (now.0, now.1, Instant::now());
            }
            match c.try_wait() {
                Ok(Some(s)) => {
                    ended.push((*i, s.code().unwrap_or(-2), prog.get(0)));
                    *kid = None;
                }
                _ if last.2.elapsed() > STALL => {
                    let _ = c.kill();
                    let _ = c.wait();
                    ended.push((*i, -1, prog.get(0)));
                    *kid = None;
                }
                _ => alive += 1,
            }
        }
        if alive == 0 || ended.iter().any(|e| e.1 != 0) {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    for (_, kid, _, _) in kids.iter_mut() {
        if let Some(c) = kid {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    let search_s = ts.elapsed().as_secs_f64();
    let bad: Vec<&(u64, i32, u64)> = ended.iter().filter(|e| e.1 != 0).collect();
    if bad.iter().any(|e| e.1 == EXIT_HARNESS || (e.1 > 0 && e.1 != EXIT_FOUND && e.1 != EXIT_BUDGET && e.1 != EXIT_CRASH)) {
        eprintln!("gcsim: a worker failed: {:?}", bad);
        return EXIT_HARNESS;
    }
    if let Some((i, how, s)) = bad.first().cloned() {
        let out = root.join("replays");
        fs::create_dir_all(&out).unwrap();
        let file = out.join(format!("{}-{}.json", prop, s));
        let ok = if *how == EXIT_FOUND {
            confirm_found(&dir.join(format!("{}.found.json", i)), &file, dir, tier)
        } else {
            confirm_hang(prop, *s, tier, if *how == EXIT_CRASH { -2 } else { *how }, &file, dir)
        };
        if !ok {
            eprintln!("gcsim: the violation found by seed {} does not come back in another process", s);
            return EXIT_HARNESS;
        }
        let r: Replay = read_json(&file).unwrap();
        println!("property {} is violated (seed {}): {}: {}", prop, s, r.kind, r.message);
        println!("VIOLATION property={} replay={}", prop, file.display());
        let st = Stats { runs: kids.iter().map(|k| k.2.get(1)).sum::<u64>() + 1, ..Stats::default() };
        evidence(prop, seed, tier, &st, dir, root, workers, search_s, t0, 1, 0, 0, Some(&r));
        return 1;
    }
    // everything held: do some runs again in another process and compare
    let mut st = Stats::default();
    for i in 0..workers {
        match read_json::<Stats>(&dir.join(format!("{}.stats.json", i))) {
            Some(s) => st.add(s),
            None => {
                eprintln!("gcsim: worker {} left no result", i);
                return EXIT_HARNESS;
            }
        }
    }
    let mut args = strs(&["again", prop, tier]);
    args.extend(st.again.iter().map(|x| x.0.to_string()));
    let out = sub_cmd(&args).output().expect("again");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let got: BTreeMap<u64, u64> = text
        .lines()
        .filter_map(|l| l.split_once(' '))
        .filter_map(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)))
        .collect();
    let differ = st.again.iter().filter(|(s, h)| got.get(s) != Some(h)).count() as u64;
    if differ > 0 {
        eprintln!("{:?}", st.again.iter().filter(|(s, h)| got.get(s) != Some(h)).map(|x| x.0).collect::<Vec<_>>());
        eprintln!("gcsim: {} of {} runs differ when done again from the same seed", differ, st.again.len());
        evidence(prop, seed, tier, &st, dir, root, workers, search_s, t0, 0, st.again.len() as u64, differ, None);
        return EXIT_HARNESS;
    }
    for line in known(prop, root) {
        println!("{}", line);
    }
    evidence(prop, seed, tier, &st, dir, root, workers, search_s, t0, 0, st.again.len() as u64, 0, None);
    println!(
        "property {} held in {} simulated runs ({} commands, {} system calls, {} faults) in {:.1} s",
        prop,
        st.runs,
        st.commands,
        st.steps,
        st.faults.values().sum::<u64>(),
        t0.elapsed().as_secs_f64()
    );
    0
}

fn confirm_found(found: &Path, file: &Path, dir: &Path, tier: &str) -> bool {
    let first: Replay = match read_json(found) {
        Some(r) => r,
        None => return false,
    };
    let run = |f: &Path| code(wait_limit(sub_cmd(&strs(&["replay", f.to_str().unwrap()])).stdout(Stdio::null()).spawn().unwrap(), Duration::from_secs(60)));
    if run(found) != EXIT_FOUND {
        // the recorded decisions do not bring it back; the seed itself may
        let again = dir.join("again.json");
        let c = sub_cmd(&strs(&["one", &first.property, &first.found_by_seed.to_string(), tier, again.to_str().unwrap()])).spawn().unwrap();
        if code(wait_limit(c, Duration::from_secs(60))) != EXIT_FOUND {
            return false;
        }
        let mut r: Replay = read_json(&again).unwrap();
        r.decisions = None;
        write_json(file, &r);
        return run(file) == EXIT_FOUND;
    }
    let small = dir.join("small.json");
    let secs = if tier == "thorough" { 60 } else { 15 };
    let c = sub_cmd(&strs(&["minimise", found.to_str().unwrap(), small.to_str().unwrap(), &secs.to_string()]))
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let _ = wait_limit(c, Duration::from_secs(secs + 30));
    if small.exists() {
        fs::copy(&small, file).unwrap();
        if run(file) == EXIT_FOUND {
            return true;
        }
    }
    write_json(file, &first);
    true
}

/// A run that does not come to an end, or dies of a signal.
fn confirm_hang(prop: &str, seed: u64, tier: &str, how: i32, file: &Path, dir: &Path) -> bool {
    let thorough = tier == "thorough";
    let plan = gen::plan(prop, seed, thorough);
    let msg = match how {
        EXIT_BUDGET => "a command does not come to an end (its allocation budget is used up)",
        -1 => "a command does not come to an end (it computes without a system call or allocation)",
        _ => "a command dies of a signal",
    };
    let mut r = Replay {
        property: prop.into(),
        kind: if how == -2 { "crash".into() } else { "hang".into() },
        message: msg.into(),
        found_by_seed: seed,
        plan,
        decisions: None,
        hash: String::new(),
    };
    let tmp = dir.join("hang.json");
    let same = |r: &Replay| {
        write_json(&tmp, r);
        let c = sub_cmd(&strs(&["replay", tmp.to_str().unwrap()])).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        code(wait_limit(c, STALL)) == how
    };
    if !same(&r) {
        return false;
    }
    // drop commands and phases one by one, each tried in a process of its own
    let until = Instant::now() + Duration::from_secs(if how == -1 { 60 } else { 30 });
    let mut pi = r.plan.phases.len();
    while pi > 0 {
        pi -= 1;
        let mut q = r.clone();
        q.plan.phases.remove(pi);
        if Instant::now() < until && !q.plan.phases.is_empty() && same(&q) {
            r = q;
            continue;
        }
        for ci in (0..r.plan.phases[pi].clients.len()).rev() {
            for k in (0..r.plan.phases[pi].clients[ci].len()).rev() {
                let mut q = r.clone();
                q.plan.phases[pi].clients[ci].remove(k);
                if Instant::now() < until && same(&q) {
                    r = q;
                }
            }
        }
    }
    write_json(file, &r);
    true
}

// ---- known findings

#[derive(Deserialize)]
struct Known {
    property: String,
    /// how the recorded run ends: "hang" or the kind of a violation
    kind: String,
    what: String,
    file: String,
}

/// Known findings that (still) show, each brought back from its recorded run.
fn known(prop: &str, root: &Path) -> Vec<String> {
    let list: Vec<Known> = read_json(&root.join("known-findings.json"))
        .and_then(|v: serde_json::Value| serde_json::from_value(v["known"].clone()).ok())
        .unwrap_or_default();
    let mut out = vec![];
    for k in list.iter().filter(|k| k.property == prop) {
        let c = sub_cmd(&strs(&["replay", root.join(&k.file).to_str().unwrap()])).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        let how = code(wait_limit(c, Duration::from_secs(120)));
        let shows = if k.kind == "hang" { how == EXIT_BUDGET || how == -1 } else { how == EXIT_FOUND };
        if shows {
            out.push(format!("KNOWN-FINDING: property={} {}", prop, k.what));
        }
    }
    out
}

// ---- evidence

fn distinct(dir: &Path, workers: u64, ext: &str) -> u64 {
    let mut set: BTreeSet<u64> = BTreeSet::new();
    for i in 0..workers {
        if let Ok(b) = fs::read(dir.join(format!("{}.{}", i, ext))) {
            for c in b.chunks_exact(8) {
                let mut x = [0u8; 8];
                x.copy_from_slice(c);
                set.insert(u64::from_le_bytes(x));
            }
        }
    }
    set.len() as u64
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str, seed: u64, tier: &str, st: &Stats, dir: &Path, root: &Path, workers: u64, search_s: f64, t0: Instant, violations: u64,
    repeated: u64, differ: u64, viol: Option<&Replay>,
) {
    let d = distinct(dir, workers, "hashes");
    let states = distinct(dir, workers, "states");
    let per_hour = if search_s > 0.0 { (st.runs as f64 / search_s * 3600.0) as u64 } else { 0 };
    let mut samples = st.samples.clone();
    let runs = st.runs;
    if let Some(r) = viol {
        samples.push(serde_json::json!({"violation": r.message, "kind": r.kind, "found_by_seed": r.found_by_seed}));
    }
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": d,
            "rule": "One evaluation is one simulated run made from one seed: scenario, command lines, hash seeds, schedule and faults. It is non-trivial if at least one command came to its end and was judged. Distinct: by a hash over every system call with its result, every process start and end, fault, exit status and output, in order.",
            "samples": samples,
            "seeds_per_hour": per_hour,
            "simulated_seconds": st.sim_s,
            "commands_run": st.commands,
            "commands_by_kind": st.ops,
            "commands_ended": {"exit_0": st.ok, "exit_other": st.failed, "killed": st.killed},
            "system_calls_scheduled": st.steps,
            "process_switches": st.switches,
            "runs_with_overlapping_commands": st.runs_with_overlap,
            "runs_with_faults": st.runs_with_fault,
            "faults_injected": st.faults,
            "scenarios": st.scenarios,
            "distinct_final_file_systems": states,
            "states_of_the_reference_search": st.states,
            "inconclusive_reference_searches": st.inconclusive,
            "longest_run_steps": st.max_steps,
            "largest_allocation_count_of_a_command": st.max_allocs,
            "runs_repeated_in_another_process": repeated,
            "repeated_runs_that_differed": differ,
            "workers": workers,
            "real_code": ["main functions of all gc-* commands", "gc-command library (arguments, lock, load, save)", "gc-core library", "Rust std, clap, regex, rand"],
            "simulated": ["process scheduling", "file system and its durability", "standard input and output", "operating system randomness (hash seeds, rand)", "clock", "process exit and kill"]
        },
        "assumptions": [
            "the file system model in vfs.rs: rename and unlink are atomic, fsync makes a file and the names made so far durable, unsynced writes of a file reach the disk as a prefix of their order",
            "commands are separate processes that share nothing but the file system",
            "reference model and oracles in model.rs, oracle.rs and lin.rs"
        ]
    });
    let out = root.join("evidence");
    let _ = fs::create_dir_all(&out);
    write_json(&out.join(format!("{}.json", prop)), &ev);
    let _ = sim::BEAT.load(Ordering::Relaxed);
}
