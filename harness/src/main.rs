#![allow(dead_code, static_mut_refs)]
//! gcsim: deterministic simulation of the gc-* commands with fault injection. See /verif/DESIGN.md.
mod drive;
mod fork;
mod gen;
mod interpose;
mod judge;
mod libs;
mod lin;
mod minimise;
mod model;
mod oracle;
mod plan;
mod rng;
mod sim;
mod vfs;

mod bins {
    pub fn finish<T: std::process::Termination>(t: T) -> i32 {
        let c = t.report();
        if c == std::process::ExitCode::SUCCESS {
            0
        } else {
            1
        }
    }
    include!(concat!(env!("OUT_DIR"), "/bins.rs"));
}

/// Counts allocations: the step measure that bounds a search that makes no system calls.
struct Counting;
#[inline]
unsafe fn count() {
    sim::ALLOCS.with(|a| {
        let n = a.get() + 1;
        a.set(n);
        if n > sim::ALLOC_CAP.with(|c| c.get()) {
            sim::raw6(libc::SYS_exit_group, drive::EXIT_BUDGET as u64, 0, 0, 0, 0, 0);
        }
    });
}
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count();
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count();
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

pub fn run_cmd(cmd: &plan::Cmd) -> i32 {
    if cmd.op.is_bin() {
        bins::run_bin(cmd.op.name())
    } else {
        libs::run(cmd)
    }
}

pub fn prop_num(p: &str) -> u64 {
    p.bytes().fold(0u64, |a, b| a * 131 + b as u64)
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let sub = args.get(1).map(|s| s == "sub").unwrap_or(false);
    if sub {
        // a process that simulates: its argv has room for the command lines of the simulated ones
        args.retain(|a| a != drive::PAD);
        std::panic::set_hook(Box::new(|info| {
            if let Some(p) = sim::me() {
                p.panic = Some(info.to_string());
            } else {
                eprintln!("gcsim: {}", info);
            }
        }));
        if let Err(e) = sim::find_exit_guard() {
            eprintln!("gcsim: {}", e);
            std::process::exit(2);
        }
        interpose::settle_std();
        std::process::exit(drive::sub(&args[2..]));
    }
    std::process::exit(drive::top(&args[1..]));
}
