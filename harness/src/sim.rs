//! The simulated machine: processes are threads that run one at a time, and every system call
//! (see interpose.rs) is a scheduling point decided by the seeded scheduler in here.
use crate::plan::*;
use crate::rng::{Hash64, Rng};
use crate::vfs::Vfs;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::convert::TryInto;
use std::ffi::CString;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

pub const CONTROLLER: Uid = u32::MAX;
pub const STEP_CAP: u64 = 60_000;

pub struct Ofd {
    pub ino: usize,
    pub pos: u64,
    pub flags: i32,
    pub path: String,
    pub special: u8, // 0 file, 1 random device, 2 null device
}

pub struct Proc {
    pub uid: Uid,
    pub cmd: Cmd,
    pub client: usize,
    pub argv: Vec<CString>,
    pub go: AtomicU32,
    pub thread: libc::pthread_t,
    pub cwd: usize,
    pub fds: BTreeMap<i32, usize>,
    pub ofds: Vec<Ofd>,
    pub rng: Rng,
    pub calls: u32,
    pub yields: u32,
    pub stdin: std::collections::VecDeque<StdinEv>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub exit: Option<i32>,
    pub killed: bool,
    pub zombie_calls: u32,
    pub done: bool,
    pub fired: Vec<(u32, FaultKind)>,
    pub start: u64,
    pub end: u64,
    pub panic: Option<String>,
    pub out_failed: bool,
    pub stdin_failed: bool,
    pub disk_full_hit: bool,
    pub unlink_faulted: Vec<String>,
    pub draining: bool,
    pub prio: u64,
    pub marks: Vec<(u64, String)>,
    pub unsupported: Option<String>,
    pub locks_left: Vec<String>,
    pub allocs: u64,
}

/// What is left of a process after it ended; the judges work on these.
#[derive(Clone, Debug)]
pub struct Done {
    pub uid: Uid,
    pub phase: usize,
    pub client: usize,
    pub start: u64,
    pub end: u64,
    pub exit: i32,
    pub killed: bool,
    pub out: String,
    pub err: String,
    pub panic: Option<String>,
    pub fired: Vec<(u32, FaultKind)>,
    pub out_failed: bool,
    pub stdin_failed: bool,
    pub disk_full_hit: bool,
    pub unlink_faulted: Vec<String>,
    pub marks: Vec<(u64, String)>,
    pub unsupported: Option<String>,
    /// paths that this process created with exclusive or plain create and that exist at its end
    pub created_left: Vec<String>,
    pub calls: u32,
    pub allocs: u64,
}

impl Done {
    pub fn ok(&self) -> bool {
        !self.killed && self.exit == 0
    }
    pub fn failed(&self) -> bool {
        !self.killed && self.exit != 0
    }
    /// a fault that may legitimately make the command fail hit this process
    pub fn hard_fault(&self) -> bool {
        self.killed
            || self.out_failed
            || self.stdin_failed
            || self.disk_full_hit
            || self.fired.iter().any(|(_, k)| !k.benign())
    }
}

pub struct History {
    pub done: Vec<Done>,
    /// tree before each phase and after the last one
    pub trees: Vec<BTreeMap<String, Vec<u8>>>,
    pub mutations: Vec<crate::vfs::Mutation>,
    pub decisions: Decisions,
    pub hash: u64,
    pub state_hash: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<FaultKind, u64>,
    pub extra_faults: BTreeMap<&'static str, u64>,
    pub switches: u64,
    pub trace: Vec<String>,
    pub step_cap_hit: bool,
    pub power_lost: Vec<usize>,
}

pub enum Mode {
    Search,
    Replay,
}

pub struct Sim {
    pub vfs: Vfs,
    pub procs: HashMap<Uid, Box<Proc>>,
    pub mode: Mode,
    pub rng: Rng,
    pub frng: Rng,
    pub sched: Sched,
    pub change_points: Vec<u64>,
    pub step: u64,
    pub phase_step: u64,
    pub clock_ns: u64,
    /// what setting the clock has added to the wall clock
    pub wall_ns: i64,
    /// stalled processes and the step up to which they are
    pub parked: BTreeMap<Uid, u64>,
    pub rec: Decisions,
    pub want_switch: HashMap<(Uid, u32), Uid>,
    pub want_fault: HashMap<(Uid, u32), (FaultKind, u32)>,
    pub rec_power_in: Vec<u64>,
    pub power_pos: usize,
    pub fault_cfg: FaultCfg,
    pub fault_left: u32,
    pub pending: Vec<std::collections::VecDeque<Cmd>>,
    pub running: Vec<Option<Uid>>, // per client
    pub client_prio: Vec<u64>,
    pub low_prio: u64,
    pub current: Uid,
    pub next_start: Option<usize>,
    pub hash: Hash64,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub same_run: u32,
    pub nswitch: u64,
    pub faults: BTreeMap<FaultKind, u64>,
    pub extra_faults: BTreeMap<&'static str, u64>,
    pub step_cap_hit: bool,
    pub power_lost: bool,
    pub ctl_events: u32,
    pub finished: Vec<Done>,
    pub phase: usize,
}

pub static mut SIM: *mut Sim = std::ptr::null_mut();
static CTL_GO: AtomicU32 = AtomicU32::new(0);
pub static BEAT: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static CUR: Cell<*mut Proc> = const { Cell::new(std::ptr::null_mut()) };
    pub static ALLOCS: Cell<u64> = const { Cell::new(0) };
    pub static ALLOC_CAP: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// the simulated process the calling thread belongs to, if any
#[inline]
pub fn me() -> Option<&'static mut Proc> {
    let p = CUR.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        unsafe { Some(&mut *p) }
    }
}

#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

// ---- raw system calls and the baton

pub unsafe fn raw6(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

fn wake(f: &AtomicU32) {
    f.store(1, Ordering::Release);
    unsafe {
        raw6(libc::SYS_futex, f as *const _ as u64, libc::FUTEX_WAKE as u64 | 128, 1, 0, 0, 0);
    }
}

fn wait(f: &AtomicU32) {
    let mut spins = 0;
    while f.swap(0, Ordering::Acquire) == 0 {
        spins += 1;
        if spins < 20 {
            std::hint::spin_loop();
            continue;
        }
        unsafe {
            raw6(libc::SYS_futex, f as *const _ as u64, libc::FUTEX_WAIT as u64 | 128, 0, 0, 0, 0);
        }
    }
}

// ---- argv of the simulated process that is running

pub static mut ARGV: *mut *const libc::c_char = std::ptr::null_mut();
pub static mut ARGC: usize = 0;
static mut ARGV_OWNER: Uid = CONTROLLER;

extern "C" fn grab_argv(argc: i32, argv: *mut *const libc::c_char, _e: *const *const libc::c_char) {
    unsafe {
        ARGV = argv;
        ARGC = argc as usize;
    }
}
#[used]
#[link_section = ".init_array.00098"]
static GRAB: extern "C" fn(i32, *mut *const libc::c_char, *const *const libc::c_char) = grab_argv;

fn install_argv(p: &Proc) {
    unsafe {
        if ARGV_OWNER == p.uid {
            return;
        }
        ARGV_OWNER = p.uid;
        assert!(p.argv.len() < ARGC, "command line too long for the simulator");
        for (i, a) in p.argv.iter().enumerate() {
            *ARGV.add(i) = a.as_ptr();
        }
        *ARGV.add(p.argv.len()) = std::ptr::null();
    }
}

// ---- std's guard against a second process::exit

static mut EXIT_GUARD: *mut usize = std::ptr::null_mut();

/// Finds the address of std's EXITING_THREAD_ID in this executable.
pub fn find_exit_guard() -> Result<(), String> {
    let data = std::fs::read("/proc/self/exe").map_err(|e| e.to_string())?;
    let u64at = |o: usize| u64::from_le_bytes(data[o..o + 8].try_into().unwrap());
    let u32at = |o: usize| u32::from_le_bytes(data[o..o + 4].try_into().unwrap());
    let u16at = |o: usize| u16::from_le_bytes(data[o..o + 2].try_into().unwrap());
    let shoff = u64at(0x28) as usize;
    let (shentsize, shnum) = (u16at(0x3a) as usize, u16at(0x3c) as usize);
    for s in 0..shnum {
        let h = shoff + s * shentsize;
        if u32at(h + 4) != 2 {
            continue;
        }
        let (off, size, link) = (u64at(h + 0x18) as usize, u64at(h + 0x20) as usize, u32at(h + 0x28) as usize);
        let stroff = u64at(shoff + link * shentsize + 0x18) as usize;
        for i in 0..size / 24 {
            let e = off + i * 24;
            let mut n = stroff + u32at(e) as usize;
            let start = n;
            while data[n] != 0 {
                n += 1;
            }
            let name = &data[start..n];
            if name.windows(17).any(|w| w == b"EXITING_THREAD_ID") {
                let value = u64at(e + 8);
                // load bias: address of a known symbol minus its value
                extern "C" {
                    static __ehdr_start: u8;
                }
                unsafe {
                    EXIT_GUARD = ((&__ehdr_start as *const u8 as u64) + value) as *mut usize;
                }
                return Ok(());
            }
        }
    }
    Err("std's exit guard not found".into())
}

pub fn reset_exit_guard() {
    unsafe {
        if !EXIT_GUARD.is_null() {
            std::ptr::write_volatile(EXIT_GUARD, 0);
        }
    }
}

// ---- processes

extern "C" fn thread_main(arg: *mut libc::c_void) -> *mut libc::c_void {
    let p = arg as *mut Proc;
    unsafe {
        wait(&(*p).go);
        CUR.with(|c| c.set(p));
        ALLOCS.with(|a| a.set(0));
        ALLOC_CAP.with(|a| a.set(BUDGET.load(Ordering::Relaxed)));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::run_cmd(&(*p).cmd)));
        ALLOC_CAP.with(|a| a.set(u64::MAX));
        let code = match r {
            Ok(c) => c,
            Err(_) => 101,
        };
        drain_stdin(&mut *p);
        finish(&mut *p, code);
    }
    std::ptr::null_mut()
}

pub static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);

fn drain_stdin(p: &mut Proc) {
    use std::io::BufRead;
    p.draining = true;
    let stdin = std::io::stdin();
    let mut l = stdin.lock();
    let n = l.fill_buf().map(|b| b.len()).unwrap_or(0);
    l.consume(n);
}

/// Called by the interposed exit().
pub fn exit_current(code: i32) -> ! {
    let p = me().unwrap();
    reset_exit_guard();
    ALLOC_CAP.with(|a| a.set(u64::MAX));
    drain_stdin(p);
    finish(p, code);
    unsafe {
        loop {
            raw6(libc::SYS_exit, 0, 0, 0, 0, 0, 0);
        }
    }
}

fn finish(p: &mut Proc, code: i32) {
    let s = sim();
    p.exit = Some(code);
    p.allocs = ALLOCS.with(|a| a.get());
    p.done = true;
    s.step += 1;
    p.end = s.step;
    // the kernel closes what is open
    let held: Vec<usize> = p.ofds.iter().map(|o| o.ino).collect();
    for i in held {
        if let Some((u, _)) = s.vfs.inodes[i].flock {
            if u == p.uid as usize {
                s.vfs.inodes[i].flock = None;
            }
        }
    }
    s.running[p.client] = None;
    if s.trace_on {
        let l = format!(
            "[{}] process {} ends: {}{}",
            s.step,
            p.uid,
            if p.killed { "killed".to_string() } else { format!("exit {}", code) },
            p.panic.as_ref().map(|m| format!(" (panic: {})", m)).unwrap_or_default()
        );
        s.trace.push(l);
    }
    s.hash.u64(0xe0d);
    s.hash.u64(p.uid as u64);
    s.hash.u64(if p.killed { 999 } else { code as u64 });
    s.hash.bytes(&p.out);
    CUR.with(|c| c.set(std::ptr::null_mut()));
    s.current = CONTROLLER;
    wake(&CTL_GO);
}

/// A scheduling point of the running process. Returns when it is its turn again.
/// faults that can hit any call
const TIME: &[FaultKind] = &[FaultKind::Stall, FaultKind::Clock];

pub fn yield_point(p: &mut Proc) {
    let s = sim();
    s.step += 1;
    s.phase_step += 1;
    let y = p.yields;
    p.yields += 1;
    BEAT.fetch_add(1, Ordering::Relaxed);
    if s.phase_step > STEP_CAP {
        // only a command that makes system calls without end gets here
        s.step_cap_hit = true;
        p.killed = true;
        return;
    }
    let target = s.choose(Some((p.uid, y)));
    match target {
        Target::Proc(u) if u == p.uid => {
            s.same_run += 1;
        }
        Target::Proc(u) => {
            s.same_run = 0;
            s.nswitch += 1;
            s.current = u;
            let q: *mut Proc = &mut **s.procs.get_mut(&u).unwrap();
            unsafe {
                install_argv(&*q);
                wake(&(*q).go);
            }
            wait(&p.go);
        }
        Target::Start(c) => {
            s.same_run = 0;
            s.nswitch += 1;
            s.next_start = Some(c);
            s.current = CONTROLLER;
            wake(&CTL_GO);
            wait(&p.go);
        }
        Target::None => {}
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Target {
    Proc(Uid),
    Start(usize),
    None,
}

impl Sim {
    fn candidates(&self) -> Vec<(Target, Uid, usize)> {
        let v = self.candidates_but(&self.parked);
        if v.is_empty() {
            return self.candidates_but(&BTreeMap::new());
        }
        v
    }

    fn candidates_but(&self, parked: &BTreeMap<Uid, u64>) -> Vec<(Target, Uid, usize)> {
        let mut v = vec![];
        for c in 0..self.running.len() {
            match self.running[c] {
                Some(u) if parked.get(&u).map_or(false, |t| *t > self.step) => {}
                Some(u) => v.push((Target::Proc(u), u, c)),
                None => {
                    if let Some(cmd) = self.pending[c].front() {
                        v.push((Target::Start(c), cmd.uid, c));
                    }
                }
            }
        }
        v
    }

    /// Decides who runs next. `at` is the running process and its scheduling point, None when the
    /// controller asks because a process has ended or a phase begins.
    fn choose(&mut self, at: Option<(Uid, u32)>) -> Target {
        let cands = self.candidates();
        if cands.is_empty() {
            return Target::None;
        }
        let key = match at {
            Some(k) => k,
            None => {
                self.ctl_events += 1;
                (CONTROLLER, self.ctl_events - 1)
            }
        };
        let default = match at {
            Some((u, _)) => cands.iter().position(|c| c.0 == Target::Proc(u)).unwrap_or(0),
            None => 0,
        };
        let pick = match self.mode {
            Mode::Replay => self
                .want_switch
                .get(&key)
                .and_then(|t| cands.iter().position(|c| c.1 == *t))
                .unwrap_or(default),
            Mode::Search => {
                if cands.len() == 1 {
                    0
                } else {
                    match self.sched {
                        Sched::Random(p) => {
                            let switch = at.is_none() || self.rng.chance(p as u64, 1000) || self.same_run > 400;
                            if switch {
                                self.rng.idx(cands.len())
                            } else {
                                default
                            }
                        }
                        Sched::Pct(_) => {
                            let st = self.phase_step;
                            if self.change_points.iter().any(|c| *c == st) || self.same_run > 400 {
                                if let Some((u, _)) = at {
                                    if let Some(c) = cands.iter().find(|c| c.1 == u) {
                                        self.low_prio -= 1;
                                        self.client_prio[c.2] = self.low_prio;
                                    }
                                }
                                self.same_run = 0;
                            }
                            let mut best = 0;
                            for i in 1..cands.len() {
                                if self.client_prio[cands[i].2] > self.client_prio[cands[best].2] {
                                    best = i;
                                }
                            }
                            best
                        }
                    }
                }
            }
        };
        if pick != default {
            self.rec.switches.push((key.0, key.1, cands[pick].1));
        }
        cands[pick].0
    }

    pub fn wall(&self) -> u64 {
        (self.clock_ns as i64 + self.wall_ns).max(1) as u64
    }

    pub fn sync_clock(&mut self) {
        self.vfs.now = self.wall();
    }

    pub fn power_choice(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let c = match self.mode {
            Mode::Search => {
                // the extremes are the interesting outcomes
                match self.frng.below(4) {
                    0 => 0,
                    1 => n - 1,
                    _ => self.frng.below(n),
                }
            }
            Mode::Replay => {
                let c = self.rec_power_in.get(self.power_pos).cloned().unwrap_or(0) % n;
                self.power_pos += 1;
                c
            }
        };
        self.rec.power.push(c);
        c
    }

    pub fn lose_power(&mut self) {
        let me: *mut Sim = self;
        unsafe {
            (*me).vfs.power_loss(&mut |n| (*me).power_choice(n));
        }
        for (_, p) in self.procs.iter_mut() {
            if !p.done {
                p.killed = true;
            }
        }
        for q in self.pending.iter_mut() {
            q.clear();
        }
        self.power_lost = true;
        self.hash.u64(0xdead);
        if self.trace_on {
            let l = format!("[{}] power loss", self.step);
            self.trace.push(l);
        }
    }

    /// Fault to inject into this call of `p`, if any. `ok` lists the kinds the call can have.
    pub fn fault(&mut self, p: &mut Proc, ok: &[FaultKind], len: usize) -> Option<(FaultKind, u32)> {
        let call = p.calls;
        let f = match self.mode {
            Mode::Replay => self.want_fault.get(&(p.uid, call)).cloned().filter(|f| ok.contains(&f.0) || TIME.contains(&f.0)),
            Mode::Search => {
                if self.fault_left == 0
                    || self.fault_cfg.permille == 0
                    || self.fault_cfg.only.map(|u| u != p.uid).unwrap_or(false)
                    || !self.frng.chance(self.fault_cfg.permille as u64, 1000)
                {
                    None
                } else {
                    let kinds: Vec<FaultKind> =
                        self.fault_cfg.kinds.iter().cloned().filter(|k| ok.contains(k) || TIME.contains(k)).collect();
                    if kinds.is_empty() {
                        None
                    } else {
                        let k = *self.frng.pick(&kinds);
                        let arg = match k {
                            FaultKind::Kill | FaultKind::Power | FaultKind::Enospc | FaultKind::Short => {
                                if len == 0 {
                                    0
                                } else {
                                    self.frng.below(len as u64 + 1) as u32
                                }
                            }
                            FaultKind::Stall | FaultKind::Clock => {
                                let unit = *self.frng.pick(&[1, 60, 3600, 86_400, 31_536_000 / 100]);
                                (unit * self.frng.range(1, 100)) as u32
                            }
                            _ => 0,
                        };
                        Some((k, arg))
                    }
                }
            }
        };
        if let Some((k, arg)) = f {
            if self.fault_left > 0 {
                self.fault_left -= 1;
            }
            self.rec.faults.push((p.uid, call, k, arg));
            p.fired.push((call, k));
            *self.faults.entry(k).or_insert(0) += 1;
            self.hash.u64(k as u64 + 77);
        }
        f
    }

    pub fn tr(&mut self, p: &Proc, what: &str, path: &str, res: i64) {
        self.hash.u64((p.uid as u64) << 32 | p.calls as u64);
        self.hash.bytes(what.as_bytes());
        self.hash.bytes(path.as_bytes());
        self.hash.u64(res as u64);
        if self.trace_on {
            let l = format!(
                "[{}] p{} #{} {}({}) = {}{}",
                self.step,
                p.uid,
                p.calls,
                what,
                path,
                res,
                p.fired.last().filter(|f| f.0 == p.calls).map(|f| format!("  <- {}", f.1.name())).unwrap_or_default()
            );
            self.trace.push(l);
        }
    }
}

fn spawn(mut cmd: Cmd, client: usize, start: u64) -> Box<Proc> {
    let s = sim();
    if cmd.style & (64 | 12) == 64 | 12 {
        let (parent, name) = cmd.dir.rsplit_once('/').unwrap_or(("", &cmd.dir));
        if s.vfs.lookup(&format!("{}/l{}", parent, name)) != s.vfs.lookup(&cmd.dir) || s.vfs.lookup(&cmd.dir).is_none() {
            // no such link
            cmd.style &= !64;
        }
    }
    let (mut argv, mut cwd) = crate::model::command_line(&cmd);
    if s.vfs.lookup(&cwd).is_none() {
        // no such directory to stand in: use the absolute path
        cmd.style &= !76;
        let c = crate::model::command_line(&cmd);
        argv = c.0;
        cwd = c.1;
    }
    let cwd_ino = s.vfs.lookup(&cwd).unwrap_or(crate::vfs::ROOT);
    let mut p = Box::new(Proc {
        uid: cmd.uid,
        client,
        argv: argv.into_iter().map(|a| CString::new(a).unwrap()).collect(),
        go: AtomicU32::new(0),
        thread: 0,
        cwd: cwd_ino,
        fds: BTreeMap::new(),
        ofds: vec![],
        rng: Rng::new(cmd.hseed),
        calls: 0,
        yields: 0,
        stdin: cmd.stdin.iter().cloned().collect(),
        out: vec![],
        err: vec![],
        exit: None,
        killed: false,
        zombie_calls: 0,
        done: false,
        fired: vec![],
        start,
        end: 0,
        panic: None,
        out_failed: false,
        stdin_failed: false,
        disk_full_hit: false,
        unlink_faulted: vec![],
        draining: false,
        prio: 0,
        marks: vec![],
        unsupported: None,
        locks_left: vec![],
        allocs: 0,
        cmd,
    });
    unsafe {
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 8 << 20);
        let mut t: libc::pthread_t = 0;
        let r = libc::pthread_create(&mut t, &attr, thread_main, &mut *p as *mut Proc as *mut libc::c_void);
        libc::pthread_attr_destroy(&mut attr);
        assert!(r == 0, "pthread_create failed: {}", r);
        p.thread = t;
    }
    p
}

/// Runs a plan. With decisions given, replays them; otherwise searches with the plan's seed.
#[allow(static_mut_refs)]
pub fn run(plan: &Plan, decisions: Option<&Decisions>, trace_on: bool) -> History {
    let root = Rng::new(plan.seed ^ 0x5eed);
    let mut rng = root.clone();
    let frng = Rng::new(rng.u64());
    let d = decisions.cloned().unwrap_or_default();
    let mut sim_box = Box::new(Sim {
        vfs: Vfs::new(),
        procs: HashMap::new(),
        mode: if decisions.is_some() { Mode::Replay } else { Mode::Search },
        rng,
        frng,
        sched: plan.sched.clone(),
        change_points: vec![],
        step: 0,
        phase_step: 0,
        clock_ns: 1_600_000_000_000_000_000,
        wall_ns: 0,
        parked: BTreeMap::new(),
        rec: Decisions::default(),
        want_switch: d.switches.iter().map(|x| ((x.0, x.1), x.2)).collect(),
        want_fault: d.faults.iter().map(|x| ((x.0, x.1), (x.2, x.3))).collect(),
        rec_power_in: d.power.clone(),
        power_pos: 0,
        fault_cfg: FaultCfg::default(),
        fault_left: 0,
        pending: vec![],
        running: vec![],
        client_prio: vec![],
        low_prio: 1 << 20,
        current: CONTROLLER,
        next_start: None,
        hash: Hash64::new(),
        trace_on,
        trace: vec![],
        same_run: 0,
        nswitch: 0,
        faults: BTreeMap::new(),
        extra_faults: BTreeMap::new(),
        step_cap_hit: false,
        power_lost: false,
        ctl_events: 0,
        finished: vec![],
        phase: 0,
    });
    let start_ns = sim_box.clock_ns;
    unsafe {
        SIM = &mut *sim_box;
        ARGV_OWNER = CONTROLLER;
    }
    BUDGET.store(plan.budget, Ordering::Relaxed);
    let s = sim();
    for dname in &plan.dirs {
        s.vfs.mkdirs(dname);
    }
    for (f, data) in &plan.files {
        match data {
            FileData::Link(to) => s.vfs.put_link(f, to),
            _ => s.vfs.put(f, data.bytes()),
        }
    }
    s.vfs.track = plan.power;
    s.vfs.sync_all();

    let mut trees = vec![];
    let mut power_lost = vec![];
    for (pi, phase) in plan.phases.iter().enumerate() {
        s.phase = pi;
        for a in &phase.pre {
            match a {
                Pre::Unlock(dir) => {
                    s.vfs.remove(&format!("{}/lock", dir));
                }
                Pre::Lock(dir) => s.vfs.put(&format!("{}/lock", dir), b""),
                Pre::DiskFree(n) => s.vfs.free = *n,
                Pre::Put(f, d) => s.vfs.put(f, d.bytes()),
                Pre::Remove(f) => {
                    s.vfs.remove(f);
                }
                Pre::Pass(n) => {
                    s.clock_ns += n * 1_000_000_000;
                    s.sync_clock();
                }
                Pre::PowerLoss => s.lose_power(),
            }
        }
        trees.push(s.vfs.tree());
        s.fault_cfg = phase.faults.clone();
        s.fault_left = phase.faults.max;
        s.power_lost = false;
        s.phase_step = 0;
        s.pending = phase.clients.iter().map(|c| c.iter().cloned().collect()).collect();
        s.running = vec![None; s.pending.len()];
        s.low_prio = 1 << 20;
        s.client_prio = (0..s.pending.len()).map(|_| (1 << 20) + s.rng.below(1 << 20)).collect();
        if let Sched::Pct(n) = s.sched {
            let len = 40 * s.pending.len() as u64;
            s.change_points = (0..n).map(|_| s.rng.range(1, len)).collect();
        }
        loop {
            // the controller has the baton
            let t = match s.next_start.take() {
                Some(c) => Target::Start(c),
                None => s.choose(None),
            };
            match t {
                Target::None => break,
                Target::Proc(u) => {
                    s.current = u;
                    let q: *mut Proc = &mut **s.procs.get_mut(&u).unwrap();
                    unsafe {
                        install_argv(&*q);
                        wake(&(*q).go);
                    }
                    wait(&CTL_GO);
                }
                Target::Start(c) => {
                    let cmd = s.pending[c].pop_front().unwrap();
                    let uid = cmd.uid;
                    s.step += 1;
                    if s.trace_on {
                        let l = format!("[{}] process {} starts: {}", s.step, uid, crate::model::show_cmd(&cmd));
                        s.trace.push(l);
                    }
                    s.hash.u64(0x57a7 + uid as u64);
                    let start = s.step;
                    let p = spawn(cmd, c, start);
                    s.procs.insert(uid, p);
                    s.running[c] = Some(uid);
                    s.current = uid;
                    let q: *mut Proc = &mut **s.procs.get_mut(&uid).unwrap();
                    unsafe {
                        install_argv(&*q);
                        wake(&(*q).go);
                    }
                    wait(&CTL_GO);
                }
            }
            // collect processes that have ended
            let ended: Vec<Uid> = s.procs.iter().filter(|(_, p)| p.done).map(|(u, _)| *u).collect();
            for u in ended {
                let p = s.procs.remove(&u).unwrap();
                unsafe {
                    libc::pthread_join(p.thread, std::ptr::null_mut());
                }
                let created_left = s
                    .vfs
                    .log
                    .iter()
                    .filter(|m| m.actor == u as usize && (m.what == "create"))
                    .map(|m| m.path.clone())
                    .filter(|path| {
                        s.vfs.lookup(path).map(|i| s.vfs.inodes[i].creator == u as usize).unwrap_or(false)
                    })
                    .collect();
                s.finished.push(Done {
                    uid: u,
                    phase: pi,
                    client: p.client,
                    start: p.start,
                    end: p.end,
                    exit: p.exit.unwrap_or(-1),
                    killed: p.killed,
                    out: String::from_utf8_lossy(&p.out).into_owned(),
                    err: String::from_utf8_lossy(&p.err).into_owned(),
                    panic: p.panic.clone(),
                    fired: p.fired.clone(),
                    out_failed: p.out_failed,
                    stdin_failed: p.stdin_failed,
                    disk_full_hit: p.disk_full_hit,
                    unlink_faulted: p.unlink_faulted.clone(),
                    marks: p.marks.clone(),
                    unsupported: p.unsupported.clone(),
                    created_left,
                    calls: p.calls,
                    allocs: p.allocs,
                });
            }
        }
        if s.power_lost {
            power_lost.push(pi);
        }
    }
    trees.push(s.vfs.tree());
    let mut sh = Hash64::new();
    s.vfs.used_hash(&mut sh);
    let hist = History {
        done: std::mem::take(&mut s.finished),
        trees,
        mutations: std::mem::take(&mut s.vfs.log),
        decisions: std::mem::take(&mut s.rec),
        hash: s.hash.0,
        state_hash: sh.0,
        steps: s.step,
        sim_ns: s.clock_ns - start_ns,
        faults: std::mem::take(&mut s.faults),
        extra_faults: std::mem::take(&mut s.extra_faults),
        switches: s.nswitch,
        trace: std::mem::take(&mut s.trace),
        step_cap_hit: s.step_cap_hit,
        power_lost,
    };
    unsafe {
        SIM = std::ptr::null_mut();
        ARGV_OWNER = CONTROLLER;
    }
    hist
}

