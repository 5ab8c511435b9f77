//! The seam: the C library functions through which the commands (and the Rust standard library
//! under them) reach files, standard streams, time and randomness. A thread that belongs to a
//! simulated process gets the simulated machine, every other thread gets the real one.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, non_upper_case_globals)]
use crate::plan::FaultKind as F;
use crate::plan::StdinEv;
use crate::sim::*;
use crate::vfs::*;
use libc::*;
use std::sync::atomic::{AtomicUsize, Ordering};

macro_rules! real {
    ($name:ident, fn($($t:ty),*) -> $r:ty) => {{
        static PTR: AtomicUsize = AtomicUsize::new(0);
        let mut p = PTR.load(Ordering::Relaxed);
        if p == 0 {
            p = dlsym(RTLD_NEXT, concat!(stringify!($name), "\0").as_ptr() as *const c_char) as usize;
            if p == 0 { raw6(SYS_exit_group, 86, 0,0,0,0,0); }
            PTR.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, unsafe extern "C" fn($($t),*) -> $r>(p)
    }};
}

fn err(e: i32) -> i64 {
    unsafe { *__errno_location() = e };
    -1
}

unsafe fn s(p: *const c_char) -> String {
    std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned()
}

/// Outcome of the common entry into a call.
enum Go {
    Yes,
    Fail(i32),
    /// carry out only so many bytes, then fail with this errno (0: report the short count)
    Partial(usize, i32),
}

/// Every call of a simulated process that touches the file system or standard input starts here:
/// scheduling point, then fault decision.
fn enter(p: &mut Proc, ok: &[F], len: usize) -> Go {
    if p.killed {
        p.zombie_calls += 1;
        if p.zombie_calls > 2000 {
            exit_current(137);
        }
        return Go::Fail(EIO);
    }
    p.calls += 1;
    yield_point(p);
    let sm = sim();
    sm.clock_ns += 100_000;
    sm.sync_clock();
    if p.killed {
        return Go::Fail(EIO);
    }
    match sm.fault(p, ok, len) {
        None => Go::Yes,
        Some((k, arg)) => match k {
            F::Kill => {
                p.killed = true;
                if len > 0 && arg > 0 {
                    Go::Partial(arg as usize, EIO)
                } else {
                    Go::Fail(EIO)
                }
            }
            F::Power => {
                // the write is cut by the power loss; the caller applies `arg` bytes first
                if len > 0 && arg > 0 {
                    Go::Partial(arg as usize, -1)
                } else {
                    sm.lose_power();
                    Go::Fail(EIO)
                }
            }
            F::Stall => {
                sm.clock_ns += arg as u64 * 1_000_000_000;
                let until = sm.step + 1 + arg as u64 % 61;
                sm.parked.insert(p.uid, until);
                yield_point(p);
                sm.parked.remove(&p.uid);
                sm.sync_clock();
                if p.killed {
                    return Go::Fail(EIO);
                }
                Go::Yes
            }
            F::Clock => {
                let d = arg as i64 * 1_000_000_000;
                sm.wall_ns = (sm.wall_ns + if arg % 2 == 0 { d } else { -d }).max(-1_500_000_000_000_000_000);
                sm.sync_clock();
                Go::Yes
            }
            F::Eio => Go::Fail(EIO),
            F::Enospc => {
                if len > 0 && arg > 0 && (arg as usize) < len {
                    Go::Partial(arg as usize, ENOSPC)
                } else {
                    Go::Fail(ENOSPC)
                }
            }
            F::Emfile => Go::Fail(EMFILE),
            F::Eacces => Go::Fail(EACCES),
            F::Eintr => Go::Fail(EINTR),
            F::Short => Go::Partial((arg as usize).max(1).min(len.max(1)), 0),
        },
    }
}

const OPEN_RD: &[F] = &[F::Kill, F::Power, F::Eio, F::Emfile, F::Eacces, F::Eintr];
const OPEN_CR: &[F] = &[F::Kill, F::Power, F::Eio, F::Emfile, F::Eacces, F::Eintr, F::Enospc];
/// `opendir` is not retried by the standard library (nor does Linux interrupt it on a local disk).
const OPEN_DIR: &[F] = &[F::Kill, F::Power, F::Eio, F::Emfile, F::Eacces];
const READ: &[F] = &[F::Kill, F::Power, F::Eio, F::Eintr, F::Short];
const WRITE: &[F] = &[F::Kill, F::Power, F::Eio, F::Eintr, F::Short, F::Enospc];
const STAT: &[F] = &[F::Kill, F::Power, F::Eio, F::Eacces];
const NAME: &[F] = &[F::Kill, F::Power, F::Eio, F::Eacces];
const NAME_CR: &[F] = &[F::Kill, F::Power, F::Eio, F::Eacces, F::Enospc];
const SYNC: &[F] = &[F::Kill, F::Power, F::Eio, F::Eintr, F::Enospc];

fn base_of(p: &Proc, dirfd: i32) -> Result<usize, i32> {
    if dirfd == AT_FDCWD {
        return Ok(p.cwd);
    }
    match p.fds.get(&dirfd) {
        Some(&o) => {
            let i = p.ofds[o].ino;
            if sim().vfs.inodes[i].dir {
                Ok(i)
            } else {
                Err(ENOTDIR)
            }
        }
        None => Err(EBADF),
    }
}

fn new_fd(p: &mut Proc, ofd: Ofd) -> i32 {
    let mut fd = 3;
    while p.fds.contains_key(&fd) {
        fd += 1;
    }
    p.ofds.push(ofd);
    p.fds.insert(fd, p.ofds.len() - 1);
    fd
}

fn do_open(p: &mut Proc, dirfd: i32, path: &str, flags: i32, mode: u32) -> i64 {
    if path == "/dev/urandom" || path == "/dev/random" || path == "/dev/null" {
        let special = if path == "/dev/null" { 2 } else { 1 };
        return new_fd(p, Ofd { ino: 0, pos: 0, flags, path: path.to_string(), special }) as i64;
    }
    let creating = flags & O_CREAT != 0;
    let faults = if creating {
        OPEN_CR
    } else if flags & O_DIRECTORY != 0 {
        OPEN_DIR
    } else {
        OPEN_RD
    };
    if let Go::Fail(e) = enter(p, faults, 0) {
        let sm = sim();
        sm.tr(p, "open", path, -(e as i64));
        return err(e);
    }
    let sm = sim();
    let r = open_inner(sm, p, dirfd, path, flags, mode);
    sm.tr(p, "open", path, r.map(|x| x as i64).unwrap_or_else(|e| -(e as i64)));
    match r {
        Ok(fd) => fd as i64,
        Err(e) => err(e),
    }
}

fn open_inner(sm: &mut Sim, p: &mut Proc, dirfd: i32, path: &str, flags: i32, mode: u32) -> Result<i32, i32> {
    let base = base_of(p, dirfd)?;
    let acc = flags & O_ACCMODE;
    let nofollow = flags & O_NOFOLLOW != 0 || flags & (O_CREAT | O_EXCL) == O_CREAT | O_EXCL;
    let found = if nofollow { sm.vfs.resolve_nofollow(base, path) } else { sm.vfs.resolve(base, path) };
    let (ino, full) = match found {
        Res::Err(e) => return Err(e),
        Res::Found(d, i, n) => {
            if sm.vfs.inodes[i].link && flags & O_NOFOLLOW != 0 {
                return Err(if flags & O_DIRECTORY != 0 { ENOTDIR } else { ELOOP });
            }
            if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                return Err(EEXIST);
            }
            if sm.vfs.inodes[i].dir && (acc != O_RDONLY || flags & O_CREAT != 0) {
                return Err(EISDIR);
            }
            if !sm.vfs.inodes[i].dir && flags & O_DIRECTORY != 0 {
                return Err(ENOTDIR);
            }
            let full = if sm.vfs.inodes[i].dir { sm.vfs.path_of_dir(i) } else { sm.vfs.path_in(d, &n) };
            if flags & O_TRUNC != 0 && acc != O_RDONLY && !sm.vfs.inodes[i].dir {
                if !sm.vfs.inodes[i].data.is_empty() {
                    if let Some(f) = sm.vfs.free.as_mut() {
                        *f += sm.vfs.inodes[i].data.len() as u64;
                    }
                    sm.vfs.inodes[i].data.clear();
                    sm.vfs.data_changed(i);
                }
                sm.vfs.note(p.uid as usize, full.clone(), "truncate");
            }
            (i, full)
        }
        Res::Missing(d, n) => {
            if flags & O_CREAT == 0 {
                return Err(ENOENT);
            }
            if path.ends_with('/') {
                return Err(EISDIR);
            }
            let i = sm.vfs.new_inode(false, p.uid as usize, d);
            sm.vfs.inodes[i].mode = mode & 0o777;
            sm.vfs.inodes[d].ents.insert(n.clone(), i);
            sm.vfs.meta_changed();
            let full = sm.vfs.path_in(d, &n);
            sm.vfs.note(p.uid as usize, full.clone(), "create");
            (i, full)
        }
    };
    Ok(new_fd(p, Ofd { ino, pos: 0, flags, path: full, special: 0 }))
}

fn do_read(p: &mut Proc, fd: i32, buf: &mut [u8], at: Option<u64>) -> i64 {
    if fd == 0 {
        return read_stdin(p, buf);
    }
    let o = match p.fds.get(&fd) {
        Some(&o) => o,
        None => return err(EBADF),
    };
    match p.ofds[o].special {
        1 => {
            p.rng.bytes(buf);
            return buf.len() as i64;
        }
        2 => return 0,
        _ => (),
    }
    let go = enter(p, READ, buf.len());
    let sm = sim();
    let path = p.ofds[o].path.clone();
    let cap = match go {
        Go::Fail(e) => {
            sm.tr(p, "read", &path, -(e as i64));
            return err(e);
        }
        Go::Partial(_, e) if e != 0 => {
            if e == -1 {
                sm.lose_power();
            }
            return err(EIO);
        }
        Go::Partial(n, _) => n,
        Go::Yes => usize::MAX,
    };
    let of = &mut p.ofds[o];
    let ino = of.ino;
    if sm.vfs.inodes[ino].dir {
        return err(EISDIR);
    }
    if of.flags & O_ACCMODE == O_WRONLY {
        return err(EBADF);
    }
    let pos = at.unwrap_or(of.pos) as usize;
    let data = &sm.vfs.inodes[ino].data;
    let n = if pos >= data.len() { 0 } else { (data.len() - pos).min(buf.len()).min(cap) };
    if n > 0 {
        buf[..n].copy_from_slice(&data[pos..pos + n]);
    }
    if at.is_none() {
        of.pos += n as u64;
    }
    sm.tr(p, "read", &path, n as i64);
    n as i64
}

fn read_stdin(p: &mut Proc, buf: &mut [u8]) -> i64 {
    if p.draining || p.killed {
        return 0;
    }
    if let Go::Fail(_) = enter(p, &[F::Kill, F::Power], 0) {
        return err(EIO);
    }
    let sm = sim();
    let r = match p.stdin.pop_front() {
        None => 0,
        Some(StdinEv::Eintr) => {
            *sm.extra_faults.entry("stdin_eintr").or_insert(0) += 1;
            -(EINTR as i64)
        }
        Some(StdinEv::Eio) => {
            *sm.extra_faults.entry("stdin_eio").or_insert(0) += 1;
            p.stdin_failed = true;
            -(EIO as i64)
        }
        Some(StdinEv::Data(d)) => give(p, buf, d.into_bytes()),
        Some(StdinEv::Raw(d)) => give(p, buf, d),
    };
    sm.tr(p, "read", "stdin", r);
    if r < 0 {
        err(-r as i32)
    } else {
        r
    }
}

/// a terminal hands out at most one line per read
fn give(p: &mut Proc, buf: &mut [u8], d: Vec<u8>) -> i64 {
    let mut n = d.iter().position(|c| *c == b'\n').map(|i| i + 1).unwrap_or(d.len());
    n = n.min(buf.len());
    buf[..n].copy_from_slice(&d[..n]);
    if n < d.len() {
        p.stdin.push_front(StdinEv::Raw(d[n..].to_vec()));
    }
    n as i64
}

fn do_write(p: &mut Proc, fd: i32, buf: &[u8], at: Option<u64>) -> i64 {
    if fd == 1 {
        return write_stdout(p, buf);
    }
    if fd == 2 {
        if !p.killed && p.err.len() < 4000 {
            p.err.extend_from_slice(buf);
        }
        return buf.len() as i64;
    }
    let o = match p.fds.get(&fd) {
        Some(&o) => o,
        None => return err(EBADF),
    };
    if p.ofds[o].special != 0 {
        return buf.len() as i64;
    }
    if p.ofds[o].flags & O_ACCMODE == O_RDONLY {
        return err(EBADF);
    }
    if buf.is_empty() {
        return 0;
    }
    let go = enter(p, WRITE, buf.len());
    let sm = sim();
    let path = p.ofds[o].path.clone();
    let (mut n, mut e) = match go {
        Go::Fail(e) => {
            sm.tr(p, "write", &path, -(e as i64));
            return err(e);
        }
        Go::Partial(n, e) => (n.min(buf.len()), e),
        Go::Yes => (buf.len(), 0),
    };
    let of = &mut p.ofds[o];
    let ino = of.ino;
    let pos = if of.flags & O_APPEND != 0 {
        sm.vfs.inodes[ino].data.len()
    } else {
        at.unwrap_or(of.pos) as usize
    };
    // a full disk
    let old_len = sm.vfs.inodes[ino].data.len();
    let grow = (pos + n).saturating_sub(old_len) as u64;
    if let Some(free) = sm.vfs.free {
        if grow > free {
            n = n.saturating_sub((grow - free) as usize);
            p.disk_full_hit = true;
            *sm.extra_faults.entry("disk_full").or_insert(0) += 1;
            if n == 0 {
                e = ENOSPC;
            }
        }
    }
    if n > 0 {
        let data = &mut sm.vfs.inodes[ino].data;
        if data.len() < pos {
            data.resize(pos, 0);
        }
        let over = (data.len() - pos).min(n);
        data[pos..pos + over].copy_from_slice(&buf[..over]);
        data.extend_from_slice(&buf[over..n]);
        let grown = (sm.vfs.inodes[ino].data.len() - old_len) as u64;
        if let Some(f) = sm.vfs.free.as_mut() {
            *f = f.saturating_sub(grown);
        }
        if at.is_none() {
            of.pos = (pos + n) as u64;
        }
        sm.vfs.data_changed(ino);
        sm.vfs.note(p.uid as usize, path.clone(), "write");
    }
    if e == -1 {
        sm.lose_power();
        sm.tr(p, "write", &path, -(EIO as i64));
        return err(EIO);
    }
    // an error after some bytes is what the next call reports; the short count comes first
    if e == ENOSPC && n > 0 {
        e = 0;
    }
    if e != 0 {
        sm.tr(p, "write", &path, -(e as i64));
        return err(e);
    }
    sm.tr(p, "write", &path, n as i64);
    n as i64
}

fn write_stdout(p: &mut Proc, buf: &[u8]) -> i64 {
    if p.killed {
        return buf.len() as i64;
    }
    if let Some((limit, e)) = p.cmd.out_fail {
        let left = (limit as usize).saturating_sub(p.out.len());
        if left == 0 {
            if !p.out_failed {
                p.out_failed = true;
                *sim().extra_faults.entry("stdout_error").or_insert(0) += 1;
            }
            return err(e);
        }
        let n = left.min(buf.len());
        p.out.extend_from_slice(&buf[..n]);
        return n as i64;
    }
    if p.out.len() > 64 << 20 {
        return err(ENOSPC);
    }
    p.out.extend_from_slice(buf);
    buf.len() as i64
}

fn do_close(p: &mut Proc, fd: i32) -> i64 {
    if fd <= 2 {
        return 0;
    }
    match p.fds.remove(&fd) {
        Some(o) => {
            if !p.fds.values().any(|x| *x == o) && p.ofds[o].special == 0 {
                let ino = p.ofds[o].ino;
                if let Some((u, _)) = sim().vfs.inodes[ino].flock {
                    if u == p.uid as usize {
                        sim().vfs.inodes[ino].flock = None;
                    }
                }
            }
            0
        }
        None => err(EBADF),
    }
}

fn do_stat(p: &mut Proc, dirfd: i32, path: &str, flags: i32) -> Result<usize, i32> {
    if path.is_empty() && flags & AT_EMPTY_PATH != 0 {
        if dirfd <= 2 {
            return Err(EBADF);
        }
        return p.fds.get(&dirfd).map(|o| p.ofds[*o].ino).ok_or(EBADF);
    }
    if let Go::Fail(e) = enter(p, STAT, 0) {
        sim().tr(p, "stat", path, -(e as i64));
        return Err(e);
    }
    let sm = sim();
    let look = if flags & AT_SYMLINK_NOFOLLOW != 0 { Vfs::resolve_nofollow } else { Vfs::resolve };
    let r = base_of(p, dirfd).and_then(|b| match look(&sm.vfs, b, path) {
        Res::Found(_, i, _) => Ok(i),
        Res::Missing(..) => Err(ENOENT),
        Res::Err(e) => Err(e),
    });
    sm.tr(p, "stat", path, r.map(|x| x as i64).unwrap_or_else(|e| -(e as i64)));
    r
}

fn fill_stat(ino: usize, st: &mut stat64) {
    let n = &sim().vfs.inodes[ino];
    *st = unsafe { std::mem::zeroed() };
    st.st_dev = 1;
    st.st_ino = ino as u64 + 2;
    st.st_nlink = n.nlink as u64;
    st.st_mode = n.mode | if n.dir {
            S_IFDIR
        } else if n.link {
            S_IFLNK
        } else {
            S_IFREG
        };
    st.st_size = n.data.len() as i64;
    st.st_blksize = 4096;
    st.st_blocks = (n.data.len() as i64 + 511) / 512;
    st.st_mtime = (n.mtime / 1_000_000_000) as i64;
    st.st_mtime_nsec = (n.mtime % 1_000_000_000) as i64;
    st.st_ctime = st.st_mtime;
    st.st_ctime_nsec = st.st_mtime_nsec;
    st.st_atime = st.st_mtime;
    st.st_atime_nsec = st.st_mtime_nsec;
}

fn do_mkdir(p: &mut Proc, dirfd: i32, path: &str, mode: u32) -> i64 {
    if let Go::Fail(e) = enter(p, NAME_CR, 0) {
        sim().tr(p, "mkdir", path, -(e as i64));
        return err(e);
    }
    let sm = sim();
    let r = base_of(p, dirfd).and_then(|b| match sm.vfs.resolve_nofollow(b, path) {
        Res::Found(..) => Err(EEXIST),
        Res::Err(e) => Err(e),
        Res::Missing(d, n) => {
            let i = sm.vfs.new_inode(true, p.uid as usize, d);
            sm.vfs.inodes[i].mode = mode & 0o777;
            sm.vfs.inodes[d].ents.insert(n.clone(), i);
            sm.vfs.meta_changed();
            let full = sm.vfs.path_in(d, &n);
            sm.vfs.note(p.uid as usize, full, "mkdir");
            Ok(0)
        }
    });
    sm.tr(p, "mkdir", path, r.map(|x: i32| x as i64).unwrap_or_else(|e| -(e as i64)));
    match r {
        Ok(_) => 0,
        Err(e) => err(e),
    }
}

fn do_unlink(p: &mut Proc, dirfd: i32, path: &str, rmdir: bool) -> i64 {
    if let Go::Fail(e) = enter(p, NAME, 0) {
        let sm = sim();
        if let Ok(b) = base_of(p, dirfd) {
            if let Res::Found(d, _, n) = sm.vfs.resolve_nofollow(b, path) {
                let full = sm.vfs.path_in(d, &n);
                p.unlink_faulted.push(full);
            }
        }
        sm.tr(p, "unlink", path, -(e as i64));
        return err(e);
    }
    let sm = sim();
    let r = base_of(p, dirfd).and_then(|b| match sm.vfs.resolve_nofollow(b, path) {
        Res::Missing(..) => Err(ENOENT),
        Res::Err(e) => Err(e),
        Res::Found(d, i, n) => {
            let isdir = sm.vfs.inodes[i].dir;
            if n == "." {
                return Err(if rmdir { EINVAL } else { EISDIR });
            }
            if n == ".." {
                return Err(if rmdir { ENOTEMPTY } else { EISDIR });
            }
            if rmdir && !isdir {
                return Err(ENOTDIR);
            }
            if !rmdir && isdir {
                return Err(EISDIR);
            }
            if rmdir && !sm.vfs.inodes[i].ents.is_empty() {
                return Err(ENOTEMPTY);
            }
            let full = sm.vfs.path_in(d, &n);
            sm.vfs.inodes[d].ents.remove(&n);
            let gone = isdir || sm.vfs.inodes[i].nlink <= 1;
            sm.vfs.inodes[i].nlink = if gone { 0 } else { sm.vfs.inodes[i].nlink - 1 };
            if !isdir && gone {
                if let Some(f) = sm.vfs.free.as_mut() {
                    *f += sm.vfs.inodes[i].data.len() as u64;
                }
            }
            sm.vfs.meta_changed();
            sm.vfs.note(p.uid as usize, full, if rmdir { "rmdir" } else { "unlink" });
            Ok(0)
        }
    });
    sm.tr(p, if rmdir { "rmdir" } else { "unlink" }, path, r.map(|x: i32| x as i64).unwrap_or_else(|e| -(e as i64)));
    match r {
        Ok(_) => 0,
        Err(e) => err(e),
    }
}

fn do_rename(p: &mut Proc, ofd: i32, old: &str, nfd: i32, new: &str, noreplace: bool) -> i64 {
    if let Go::Fail(e) = enter(p, NAME_CR, 0) {
        sim().tr(p, "rename", old, -(e as i64));
        return err(e);
    }
    let sm = sim();
    let r = (|| -> Result<(), i32> {
        let b1 = base_of(p, ofd)?;
        let b2 = base_of(p, nfd)?;
        let (d1, i, n1) = match sm.vfs.resolve_nofollow(b1, old) {
            Res::Found(d, i, n) => (d, i, n),
            Res::Missing(..) => return Err(ENOENT),
            Res::Err(e) => return Err(e),
        };
        let (d2, n2) = match sm.vfs.resolve_nofollow(b2, new) {
            Res::Missing(d, n) => (d, n),
            Res::Err(e) => return Err(e),
            Res::Found(d, j, n) => {
                if noreplace {
                    return Err(EEXIST);
                }
                if i == j {
                    return Ok(());
                }
                let (di, dj) = (sm.vfs.inodes[i].dir, sm.vfs.inodes[j].dir);
                if di && !dj {
                    return Err(ENOTDIR);
                }
                if !di && dj {
                    return Err(EISDIR);
                }
                if dj && !sm.vfs.inodes[j].ents.is_empty() {
                    return Err(ENOTEMPTY);
                }
                let gone = dj || sm.vfs.inodes[j].nlink <= 1;
                sm.vfs.inodes[j].nlink = if gone { 0 } else { sm.vfs.inodes[j].nlink - 1 };
                if let (true, Some(f)) = (gone, sm.vfs.free.as_mut()) {
                    *f += sm.vfs.inodes[j].data.len() as u64;
                }
                (d, n)
            }
        };
        let f1 = sm.vfs.path_in(d1, &n1);
        sm.vfs.inodes[d1].ents.remove(&n1);
        sm.vfs.inodes[d2].ents.insert(n2.clone(), i);
        sm.vfs.inodes[i].parent = d2;
        sm.vfs.meta_changed();
        let f2 = sm.vfs.path_in(d2, &n2);
        sm.vfs.note(p.uid as usize, f1, "rename-from");
        sm.vfs.note(p.uid as usize, f2, "rename-to");
        Ok(())
    })();
    sm.tr(p, "rename", &format!("{} -> {}", old, new), r.map(|_| 0).unwrap_or_else(|e| -(e as i64)));
    match r {
        Ok(_) => 0,
        Err(e) => err(e),
    }
}

fn do_link(p: &mut Proc, ofd: i32, old: &str, nfd: i32, new: &str) -> i64 {
    if let Go::Fail(e) = enter(p, NAME_CR, 0) {
        return err(e);
    }
    let sm = sim();
    let r = (|| -> Result<(), i32> {
        let b1 = base_of(p, ofd)?;
        let b2 = base_of(p, nfd)?;
        let i = match sm.vfs.resolve_nofollow(b1, old) {
            Res::Found(_, i, _) => i,
            Res::Missing(..) => return Err(ENOENT),
            Res::Err(e) => return Err(e),
        };
        if sm.vfs.inodes[i].dir {
            return Err(EPERM);
        }
        match sm.vfs.resolve_nofollow(b2, new) {
            Res::Found(..) => Err(EEXIST),
            Res::Err(e) => Err(e),
            Res::Missing(d, n) => {
                sm.vfs.inodes[d].ents.insert(n.clone(), i);
                sm.vfs.inodes[i].nlink += 1;
                sm.vfs.meta_changed();
                let f = sm.vfs.path_in(d, &n);
                sm.vfs.note(p.uid as usize, f, "create");
                Ok(())
            }
        }
    })();
    sm.tr(p, "link", &format!("{} -> {}", old, new), r.map(|_| 0).unwrap_or_else(|e| -(e as i64)));
    match r {
        Ok(_) => 0,
        Err(e) => err(e),
    }
}

fn do_symlink(p: &mut Proc, to: &str, path: &str) -> i64 {
    if let Go::Fail(e) = enter(p, NAME_CR, 0) {
        return err(e);
    }
    let sm = sim();
    let r = match sm.vfs.resolve_nofollow(p.cwd, path) {
        Res::Found(..) => Err(EEXIST),
        Res::Err(e) => Err(e),
        Res::Missing(d, n) => {
            let i = sm.vfs.new_inode(false, p.uid as usize, d);
            let node = &mut sm.vfs.inodes[i];
            node.link = true;
            node.mode = 0o777;
            node.data = to.as_bytes().to_vec();
            node.synced = node.data.clone();
            sm.vfs.inodes[d].ents.insert(n.clone(), i);
            sm.vfs.meta_changed();
            let full = sm.vfs.path_in(d, &n);
            sm.vfs.note(p.uid as usize, full, "create");
            Ok(())
        }
    };
    sm.tr(p, "symlink", path, r.map(|_| 0).unwrap_or_else(|e| -(e as i64)));
    match r {
        Ok(_) => 0,
        Err(e) => err(e),
    }
}

fn do_truncate(p: &mut Proc, fd: i32, len: i64) -> i64 {
    let o = match p.fds.get(&fd) {
        Some(&o) => o,
        None => return err(EBADF),
    };
    if let Go::Fail(e) = enter(p, &[F::Kill, F::Power, F::Eio, F::Enospc], 0) {
        return err(e);
    }
    let sm = sim();
    let of = &p.ofds[o];
    if of.flags & O_ACCMODE == O_RDONLY {
        return err(EINVAL);
    }
    sm.vfs.inodes[of.ino].data.resize(len as usize, 0);
    sm.vfs.data_changed(of.ino);
    let path = of.path.clone();
    sm.vfs.note(p.uid as usize, path.clone(), "truncate");
    sm.tr(p, "ftruncate", &path, len);
    0
}

fn do_sync(p: &mut Proc, fd: i32) -> i64 {
    let o = match p.fds.get(&fd) {
        Some(&o) => o,
        None => return err(EBADF),
    };
    let path = p.ofds[o].path.clone();
    if let Go::Fail(e) = enter(p, SYNC, 0) {
        sim().tr(p, "fsync", &path, -(e as i64));
        return err(e);
    }
    let ino = p.ofds[o].ino;
    sim().vfs.fsync(ino);
    sim().tr(p, "fsync", &path, 0);
    0
}

fn unsupported(p: &mut Proc, name: &str) -> i64 {
    if p.unsupported.is_none() {
        p.unsupported = Some(name.to_string());
    }
    err(ENOSYS)
}

// ---------------------------------------------------------------- exported C functions

macro_rules! buf {
    ($p:expr, $n:expr) => {
        if $n == 0 { &mut [][..] } else { std::slice::from_raw_parts_mut($p as *mut u8, $n) }
    };
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match me() {
        Some(p) => do_open(p, AT_FDCWD, &s(path), flags, mode) as c_int,
        None => real!(open, fn(*const c_char, c_int, c_uint) -> c_int)(path, flags, mode),
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match me() {
        Some(p) => do_open(p, AT_FDCWD, &s(path), flags, mode) as c_int,
        None => real!(open64, fn(*const c_char, c_int, c_uint) -> c_int)(path, flags, mode),
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match me() {
        Some(p) => do_open(p, d, &s(path), flags, mode) as c_int,
        None => real!(openat, fn(c_int, *const c_char, c_int, c_uint) -> c_int)(d, path, flags, mode),
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match me() {
        Some(p) => do_open(p, d, &s(path), flags, mode) as c_int,
        None => real!(openat64, fn(c_int, *const c_char, c_int, c_uint) -> c_int)(d, path, flags, mode),
    }
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: c_uint) -> c_int {
    match me() {
        Some(p) => do_open(p, AT_FDCWD, &s(path), O_CREAT | O_WRONLY | O_TRUNC, mode) as c_int,
        None => real!(creat, fn(*const c_char, c_uint) -> c_int)(path, mode),
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    match me() {
        Some(p) => do_close(p, fd) as c_int,
        None => real!(close, fn(c_int) -> c_int)(fd),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    match me() {
        Some(p) => do_read(p, fd, buf!(b, n), None) as ssize_t,
        None => real!(read, fn(c_int, *mut c_void, size_t) -> ssize_t)(fd, b, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    match me() {
        Some(p) => do_write(p, fd, buf!(b, n), None) as ssize_t,
        None => real!(write, fn(c_int, *const c_void, size_t) -> ssize_t)(fd, b, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    match me() {
        Some(p) => do_read(p, fd, buf!(b, n), Some(o as u64)) as ssize_t,
        None => real!(pread64, fn(c_int, *mut c_void, size_t, off64_t) -> ssize_t)(fd, b, n, o),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    match me() {
        Some(p) => do_write(p, fd, buf!(b, n), Some(o as u64)) as ssize_t,
        None => real!(pwrite64, fn(c_int, *const c_void, size_t, off64_t) -> ssize_t)(fd, b, n, o),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    match me() {
        Some(p) => {
            for i in 0..n as usize {
                let io = *v.add(i);
                if io.iov_len > 0 {
                    return do_read(p, fd, buf!(io.iov_base, io.iov_len), None) as ssize_t;
                }
            }
            0
        }
        None => real!(readv, fn(c_int, *const iovec, c_int) -> ssize_t)(fd, v, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    match me() {
        Some(p) => {
            let mut all = vec![];
            for i in 0..n as usize {
                let io = *v.add(i);
                all.extend_from_slice(buf!(io.iov_base, io.iov_len));
            }
            do_write(p, fd, &all, None) as ssize_t
        }
        None => real!(writev, fn(c_int, *const iovec, c_int) -> ssize_t)(fd, v, n),
    }
}
unsafe fn sim_lseek(p: &mut Proc, fd: c_int, off: i64, wh: c_int) -> i64 {
    match p.fds.get(&fd) {
        None => err(if fd <= 2 { ESPIPE } else { EBADF }),
        Some(&o) => {
            let len = sim().vfs.inodes[p.ofds[o].ino].data.len() as i64;
            let n = match wh {
                SEEK_SET => off,
                SEEK_CUR => p.ofds[o].pos as i64 + off,
                SEEK_END => len + off,
                _ => return err(EINVAL),
            };
            if n < 0 {
                return err(EINVAL);
            }
            p.ofds[o].pos = n as u64;
            n
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    match me() {
        Some(p) => sim_lseek(p, fd, off, wh),
        None => real!(lseek64, fn(c_int, off64_t, c_int) -> off64_t)(fd, off, wh),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    match me() {
        Some(p) => sim_lseek(p, fd, off, wh),
        None => real!(lseek, fn(c_int, off64_t, c_int) -> off64_t)(fd, off, wh),
    }
}

unsafe fn stat_std(fd: c_int, st: *mut stat64) -> c_int {
    let mut z: stat64 = std::mem::zeroed();
    z.st_mode = S_IFIFO | 0o600;
    let _ = fd;
    *st = z;
    0
}
unsafe fn sim_fstat(p: &mut Proc, fd: c_int, st: *mut stat64) -> c_int {
    if fd <= 2 {
        return stat_std(fd, st);
    }
    match p.fds.get(&fd) {
        Some(&o) => {
            fill_stat(p.ofds[o].ino, &mut *st);
            0
        }
        None => err(EBADF) as c_int,
    }
}
unsafe fn sim_stat(p: &mut Proc, d: c_int, path: *const c_char, st: *mut stat64, fl: c_int) -> c_int {
    let pa = s(path);
    if pa.is_empty() && fl & AT_EMPTY_PATH != 0 {
        return sim_fstat(p, d, st);
    }
    match do_stat(p, d, &pa, fl) {
        Ok(i) => {
            fill_stat(i, &mut *st);
            0
        }
        Err(e) => err(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    match me() {
        Some(p) => sim_fstat(p, fd, st),
        None => real!(fstat64, fn(c_int, *mut stat64) -> c_int)(fd, st),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut stat64) -> c_int {
    match me() {
        Some(p) => sim_fstat(p, fd, st),
        None => real!(fstat, fn(c_int, *mut stat64) -> c_int)(fd, st),
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    match me() {
        Some(p) => sim_stat(p, AT_FDCWD, path, st, 0),
        None => real!(stat64, fn(*const c_char, *mut libc::stat64) -> c_int)(path, st),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    match me() {
        Some(p) => sim_stat(p, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW),
        None => real!(lstat64, fn(*const c_char, *mut libc::stat64) -> c_int)(path, st),
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    match me() {
        Some(p) => sim_stat(p, AT_FDCWD, path, st, 0),
        None => real!(stat, fn(*const c_char, *mut libc::stat64) -> c_int)(path, st),
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, st: *mut libc::stat64) -> c_int {
    match me() {
        Some(p) => sim_stat(p, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW),
        None => real!(lstat, fn(*const c_char, *mut libc::stat64) -> c_int)(path, st),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, path: *const c_char, st: *mut libc::stat64, fl: c_int) -> c_int {
    match me() {
        Some(p) => sim_stat(p, d, path, st, fl),
        None => real!(fstatat64, fn(c_int, *const c_char, *mut libc::stat64, c_int) -> c_int)(d, path, st, fl),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, path: *const c_char, st: *mut libc::stat64, fl: c_int) -> c_int {
    match me() {
        Some(p) => sim_stat(p, d, path, st, fl),
        None => real!(fstatat, fn(c_int, *const c_char, *mut libc::stat64, c_int) -> c_int)(d, path, st, fl),
    }
}

/// the part of struct statx that is filled in
#[repr(C)]
pub struct Statx {
    mask: u32,
    blksize: u32,
    attributes: u64,
    nlink: u32,
    uid: u32,
    gid: u32,
    mode: u16,
    pad: u16,
    ino: u64,
    size: u64,
    blocks: u64,
    rest: [u64; 26],
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, fl: c_int, mask: c_uint, st: *mut Statx) -> c_int {
    match me() {
        Some(p) => {
            // std probes statx with null pointers first
            if path.is_null() || st.is_null() {
                return err(EFAULT) as c_int;
            }
            let mut b: libc::stat64 = std::mem::zeroed();
            let r = sim_stat(p, d, path, &mut b, fl);
            if r == 0 {
                *st = std::mem::zeroed();
                (*st).mask = 0xfff;
                (*st).blksize = 4096;
                (*st).nlink = b.st_nlink as u32;
                (*st).mode = b.st_mode as u16;
                (*st).ino = b.st_ino;
                (*st).size = b.st_size as u64;
                (*st).blocks = b.st_blocks as u64;
                // access, birth, change and modification time
                for k in 0..4 {
                    (*st).rest[1 + 2 * k] = b.st_mtime as u64;
                    (*st).rest[2 + 2 * k] = b.st_mtime_nsec as u64;
                }
            }
            r
        }
        None => real!(statx, fn(c_int, *const c_char, c_int, c_uint, *mut Statx) -> c_int)(d, path, fl, mask, st),
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, m: c_int) -> c_int {
    match me() {
        Some(p) => match do_stat(p, AT_FDCWD, &s(path), 0) {
            Ok(_) => 0,
            Err(e) => err(e) as c_int,
        },
        None => real!(access, fn(*const c_char, c_int) -> c_int)(path, m),
    }
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, path: *const c_char, m: c_int, f: c_int) -> c_int {
    match me() {
        Some(p) => match do_stat(p, d, &s(path), 0) {
            Ok(_) => 0,
            Err(e) => err(e) as c_int,
        },
        None => real!(faccessat, fn(c_int, *const c_char, c_int, c_int) -> c_int)(d, path, m, f),
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_uint) -> c_int {
    match me() {
        Some(p) => do_mkdir(p, AT_FDCWD, &s(path), mode) as c_int,
        None => real!(mkdir, fn(*const c_char, c_uint) -> c_int)(path, mode),
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, path: *const c_char, mode: c_uint) -> c_int {
    match me() {
        Some(p) => do_mkdir(p, d, &s(path), mode) as c_int,
        None => real!(mkdirat, fn(c_int, *const c_char, c_uint) -> c_int)(d, path, mode),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    match me() {
        Some(p) => do_unlink(p, AT_FDCWD, &s(path), true) as c_int,
        None => real!(rmdir, fn(*const c_char) -> c_int)(path),
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    match me() {
        Some(p) => do_unlink(p, AT_FDCWD, &s(path), false) as c_int,
        None => real!(unlink, fn(*const c_char) -> c_int)(path),
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, fl: c_int) -> c_int {
    match me() {
        Some(p) => do_unlink(p, d, &s(path), fl & AT_REMOVEDIR != 0) as c_int,
        None => real!(unlinkat, fn(c_int, *const c_char, c_int) -> c_int)(d, path, fl),
    }
}
#[no_mangle]
pub unsafe extern "C" fn remove(path: *const c_char) -> c_int {
    match me() {
        Some(p) => {
            let r = do_unlink(p, AT_FDCWD, &s(path), false);
            if r != 0 && *__errno_location() == EISDIR {
                return do_unlink(p, AT_FDCWD, &s(path), true) as c_int;
            }
            r as c_int
        }
        None => real!(remove, fn(*const c_char) -> c_int)(path),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match me() {
        Some(p) => do_rename(p, AT_FDCWD, &s(a), AT_FDCWD, &s(b), false) as c_int,
        None => real!(rename, fn(*const c_char, *const c_char) -> c_int)(a, b),
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
    match me() {
        Some(p) => do_rename(p, d, &s(a), e, &s(b), false) as c_int,
        None => real!(renameat, fn(c_int, *const c_char, c_int, *const c_char) -> c_int)(d, a, e, b),
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, fl: c_uint) -> c_int {
    match me() {
        Some(p) => do_rename(p, d, &s(a), e, &s(b), fl & 1 != 0) as c_int,
        None => real!(renameat2, fn(c_int, *const c_char, c_int, *const c_char, c_uint) -> c_int)(d, a, e, b, fl),
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    match me() {
        Some(p) => do_link(p, AT_FDCWD, &s(a), AT_FDCWD, &s(b)) as c_int,
        None => real!(link, fn(*const c_char, *const c_char) -> c_int)(a, b),
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, fl: c_int) -> c_int {
    match me() {
        Some(p) => do_link(p, d, &s(a), e, &s(b)) as c_int,
        None => real!(linkat, fn(c_int, *const c_char, c_int, *const c_char, c_int) -> c_int)(d, a, e, b, fl),
    }
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    match me() {
        Some(p) => do_symlink(p, &s(a), &s(b)) as c_int,
        None => real!(symlink, fn(*const c_char, *const c_char) -> c_int)(a, b),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(a: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    match me() {
        Some(p) => match do_stat(p, AT_FDCWD, &s(a), AT_SYMLINK_NOFOLLOW) {
            Ok(i) if sim().vfs.inodes[i].link => {
                let to = &sim().vfs.inodes[i].data;
                let len = to.len().min(n);
                std::ptr::copy_nonoverlapping(to.as_ptr() as *const c_char, b, len);
                len as ssize_t
            }
            Ok(_) => err(EINVAL) as ssize_t,
            Err(e) => err(e) as ssize_t,
        },
        None => real!(readlink, fn(*const c_char, *mut c_char, size_t) -> ssize_t)(a, b, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn realpath(a: *const c_char, out: *mut c_char) -> *mut c_char {
    match me() {
        Some(p) => match do_stat(p, AT_FDCWD, &s(a), 0) {
            Ok(i) => {
                let sm = sim();
                let full = if sm.vfs.inodes[i].dir {
                    sm.vfs.path_of_dir(i)
                } else {
                    match sm.vfs.resolve(p.cwd, &s(a)) {
                        Res::Found(d, _, n) => sm.vfs.path_in(d, &n),
                        _ => s(a),
                    }
                };
                let dst = if out.is_null() { libc::malloc(4097) as *mut c_char } else { out };
                std::ptr::copy_nonoverlapping(full.as_ptr() as *const c_char, dst, full.len());
                *dst.add(full.len()) = 0;
                dst
            }
            Err(e) => {
                err(e);
                std::ptr::null_mut()
            }
        },
        None => real!(realpath, fn(*const c_char, *mut c_char) -> *mut c_char)(a, out),
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, m: c_uint) -> c_int {
    match me() {
        Some(p) => match do_stat(p, AT_FDCWD, &s(path), 0) {
            Ok(i) => {
                let sm = sim();
                sm.vfs.inodes[i].mode = m & 0o7777;
                sm.vfs.note(p.uid as usize, s(path), "chmod");
                0
            }
            Err(e) => err(e) as c_int,
        },
        None => real!(chmod, fn(*const c_char, c_uint) -> c_int)(path, m),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: c_uint) -> c_int {
    match me() {
        Some(p) => match p.fds.get(&fd) {
            Some(&o) => {
                let sm = sim();
                let i = p.ofds[o].ino;
                sm.vfs.inodes[i].mode = m & 0o7777;
                let path = p.ofds[o].path.clone();
                sm.vfs.note(p.uid as usize, path, "chmod");
                0
            }
            None => err(EBADF) as c_int,
        },
        None => real!(fchmod, fn(c_int, c_uint) -> c_int)(fd, m),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    match me() {
        Some(p) => do_sync(p, fd) as c_int,
        None => real!(fsync, fn(c_int) -> c_int)(fd),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    match me() {
        Some(p) => do_sync(p, fd) as c_int,
        None => real!(fdatasync, fn(c_int) -> c_int)(fd),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    match me() {
        Some(p) => {
            if let Go::Yes = enter(p, &[F::Kill, F::Power], 0) {
                sim().vfs.sync_all();
            }
        }
        None => real!(sync, fn() -> ())(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    match me() {
        Some(p) => do_truncate(p, fd, n) as c_int,
        None => real!(ftruncate64, fn(c_int, off64_t) -> c_int)(fd, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: off64_t) -> c_int {
    match me() {
        Some(p) => do_truncate(p, fd, n) as c_int,
        None => real!(ftruncate, fn(c_int, off64_t) -> c_int)(fd, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    match me() {
        Some(p) => {
            let o = match p.fds.get(&fd) {
                Some(&o) => o,
                None => return err(EBADF) as c_int,
            };
            let ino = p.ofds[o].ino;
            loop {
                if let Go::Fail(e) = enter(p, &[F::Kill, F::Power], 0) {
                    return err(e) as c_int;
                }
                let n = &mut sim().vfs.inodes[ino];
                let mine = p.uid as usize;
                match op & !LOCK_NB {
                    LOCK_UN => {
                        n.flock = None;
                        return 0;
                    }
                    _ => {
                        let free = match n.flock {
                            None => true,
                            Some((u, _)) => u == mine,
                        };
                        if free {
                            n.flock = Some((mine, true));
                            return 0;
                        }
                        if op & LOCK_NB != 0 {
                            return err(EWOULDBLOCK) as c_int;
                        }
                    }
                }
            }
        }
        None => real!(flock, fn(c_int, c_int) -> c_int)(fd, op),
    }
}
unsafe fn sim_fcntl(p: &mut Proc, fd: c_int, cmd: c_int) -> c_int {
    match cmd {
        F_DUPFD | F_DUPFD_CLOEXEC => match p.fds.get(&fd).cloned() {
            Some(o) => {
                let mut n = 3;
                while p.fds.contains_key(&n) {
                    n += 1;
                }
                p.fds.insert(n, o);
                n
            }
            None => err(EBADF) as c_int,
        },
        F_GETFD => {
            if fd <= 2 || p.fds.contains_key(&fd) {
                1
            } else {
                err(EBADF) as c_int
            }
        }
        F_GETFL => match p.fds.get(&fd) {
            Some(&o) => p.ofds[o].flags,
            None => {
                if fd <= 2 {
                    O_RDWR
                } else {
                    err(EBADF) as c_int
                }
            }
        },
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    match me() {
        Some(p) => sim_fcntl(p, fd, cmd),
        None => real!(fcntl, fn(c_int, c_int, c_long) -> c_int)(fd, cmd, arg),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    match me() {
        Some(p) => sim_fcntl(p, fd, cmd),
        None => real!(fcntl64, fn(c_int, c_int, c_long) -> c_int)(fd, cmd, arg),
    }
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: c_long) -> c_int {
    match me() {
        Some(_) => err(ENOTTY) as c_int,
        None => real!(ioctl, fn(c_int, c_ulong, c_long) -> c_int)(fd, req, arg),
    }
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    match me() {
        Some(_) => {
            err(ENOTTY);
            0
        }
        None => real!(isatty, fn(c_int) -> c_int)(fd),
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    match me() {
        Some(p) => {
            let d = sim().vfs.path_of_dir(p.cwd);
            if d.len() + 1 > n {
                err(ERANGE);
                return std::ptr::null_mut();
            }
            std::ptr::copy_nonoverlapping(d.as_ptr() as *const c_char, b, d.len());
            *b.add(d.len()) = 0;
            b
        }
        None => real!(getcwd, fn(*mut c_char, size_t) -> *mut c_char)(b, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    match me() {
        Some(p) => match do_stat(p, AT_FDCWD, &s(path), 0) {
            Ok(i) if sim().vfs.inodes[i].dir => {
                p.cwd = i;
                0
            }
            Ok(_) => err(ENOTDIR) as c_int,
            Err(e) => err(e) as c_int,
        },
        None => real!(chdir, fn(*const c_char) -> c_int)(path),
    }
}

// directories

pub struct SimDir {
    magic: u64,
    fd: c_int,
    ents: Option<Vec<(String, u64, u8)>>,
    pos: usize,
    cur: libc::dirent64,
}
const MAGIC: u64 = 0x51d3_d1e5_a11f_11e5;

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    match me() {
        Some(p) => {
            let fd = do_open(p, AT_FDCWD, &s(path), O_RDONLY | O_DIRECTORY, 0) as c_int;
            if fd < 0 {
                return std::ptr::null_mut();
            }
            fdopendir(fd)
        }
        None => real!(opendir, fn(*const c_char) -> *mut c_void)(path),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    match me() {
        Some(p) => {
            match p.fds.get(&fd) {
                Some(&o) if sim().vfs.inodes[p.ofds[o].ino].dir => {}
                Some(_) => {
                    err(ENOTDIR);
                    return std::ptr::null_mut();
                }
                None => {
                    err(EBADF);
                    return std::ptr::null_mut();
                }
            }
            Box::into_raw(Box::new(SimDir { magic: MAGIC, fd, ents: None, pos: 0, cur: std::mem::zeroed() }))
                as *mut c_void
        }
        None => real!(fdopendir, fn(c_int) -> *mut c_void)(fd),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    match me() {
        Some(p) => {
            let d = &mut *(d as *mut SimDir);
            assert!(d.magic == MAGIC);
            if d.ents.is_none() {
                if let Go::Fail(e) = enter(p, &[F::Kill, F::Power, F::Eio], 0) {
                    err(e);
                    return std::ptr::null_mut();
                }
                let sm = sim();
                let ino = p.ofds[p.fds[&d.fd]].ino;
                let mut v: Vec<(String, u64, u8)> = vec![(".".into(), 1, DT_DIR), ("..".into(), 1, DT_DIR)];
                for (n, i) in &sm.vfs.inodes[ino].ents {
                    let node = &sm.vfs.inodes[*i];
                    let kind = match (node.dir, node.link) {
                        (true, _) => DT_DIR,
                        (_, true) => DT_LNK,
                        _ => DT_REG,
                    };
                    v.push((n.clone(), *i as u64 + 2, kind));
                }
                // the order of a directory listing is anybody's guess
                let mut r = crate::rng::Rng::new(p.cmd.hseed ^ 0xd1d1);
                r.shuffle(&mut v);
                sm.tr(p, "readdir", "", v.len() as i64);
                d.ents = Some(v);
            }
            let ents = d.ents.as_ref().unwrap();
            if d.pos >= ents.len() {
                return std::ptr::null_mut();
            }
            let (n, i, kind) = &ents[d.pos];
            d.pos += 1;
            d.cur = std::mem::zeroed();
            d.cur.d_ino = *i;
            d.cur.d_type = *kind;
            d.cur.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
            for (k, c) in n.bytes().enumerate() {
                d.cur.d_name[k] = c as c_char;
            }
            &mut d.cur
        }
        None => real!(readdir64, fn(*mut c_void) -> *mut libc::dirent64)(d),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: *mut c_void) -> *mut libc::dirent64 {
    match me() {
        Some(_) => readdir64(d),
        None => real!(readdir, fn(*mut c_void) -> *mut libc::dirent64)(d),
    }
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    match me() {
        Some(p) => {
            let b = Box::from_raw(d as *mut SimDir);
            assert!(b.magic == MAGIC);
            do_close(p, b.fd) as c_int
        }
        None => real!(closedir, fn(*mut c_void) -> c_int)(d),
    }
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    match me() {
        Some(_) => (*(d as *mut SimDir)).fd,
        None => real!(dirfd, fn(*mut c_void) -> c_int)(d),
    }
}

// bulk copies: not there, std falls back to read and write
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: c_uint,
) -> ssize_t {
    match me() {
        Some(_) => err(ENOSYS) as ssize_t,
        None => real!(copy_file_range, fn(c_int, *mut off64_t, c_int, *mut off64_t, size_t, c_uint) -> ssize_t)(a, b, c, d, n, f),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t {
    match me() {
        Some(_) => err(ENOSYS) as ssize_t,
        None => real!(sendfile64, fn(c_int, c_int, *mut off64_t, size_t) -> ssize_t)(a, b, o, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn splice(
    a: c_int, b: *mut off64_t, c: c_int, d: *mut off64_t, n: size_t, f: c_uint,
) -> ssize_t {
    match me() {
        Some(_) => err(ENOSYS) as ssize_t,
        None => real!(splice, fn(c_int, *mut off64_t, c_int, *mut off64_t, size_t, c_uint) -> ssize_t)(a, b, c, d, n, f),
    }
}

// randomness, time, exit

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, f: c_uint) -> ssize_t {
    match me() {
        Some(p) => {
            p.rng.bytes(buf!(b, n));
            n as ssize_t
        }
        None => real!(getrandom, fn(*mut c_void, size_t, c_uint) -> ssize_t)(b, n, f),
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: clockid_t, t: *mut timespec) -> c_int {
    match me() {
        Some(_) => {
            let sm = sim();
            sm.clock_ns += 1_000;
            let ns = if c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE { sm.wall() } else { sm.clock_ns };
            (*t).tv_sec = (ns / 1_000_000_000) as i64;
            (*t).tv_nsec = (ns % 1_000_000_000) as i64;
            0
        }
        None => real!(clock_gettime, fn(clockid_t, *mut timespec) -> c_int)(c, t),
    }
}
unsafe fn sim_sleep(p: &mut Proc, ns: u64) -> c_int {
    // time passes; whoever else can run does so meanwhile
    sim().clock_ns += ns;
    if !p.killed {
        yield_point(p);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const timespec, b: *mut timespec) -> c_int {
    match me() {
        Some(p) => sim_sleep(p, (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64),
        None => real!(nanosleep, fn(*const timespec, *mut timespec) -> c_int)(a, b),
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: clockid_t, f: c_int, a: *const timespec, b: *mut timespec) -> c_int {
    match me() {
        Some(p) => {
            let mut ns = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
            if f & TIMER_ABSTIME != 0 {
                ns = ns.saturating_sub(sim().clock_ns);
            }
            sim_sleep(p, ns)
        }
        None => real!(clock_nanosleep, fn(clockid_t, c_int, *const timespec, *mut timespec) -> c_int)(c, f, a, b),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    match me() {
        Some(p) => {
            if !p.killed {
                yield_point(p);
            }
            0
        }
        None => real!(sched_yield, fn() -> c_int)(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    match me() {
        Some(p) => 1000 + p.uid as pid_t,
        None => raw6(SYS_getpid, 0, 0, 0, 0, 0, 0) as pid_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if me().is_some() {
        exit_current(code & 0xff)
    }
    if SETTLING.with(|s| s.get()) {
        reset_exit_guard();
        loop {
            raw6(SYS_exit, 0, 0, 0, 0, 0, 0);
        }
    }
    real!(exit, fn(c_int) -> !)(code)
}
#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    if me().is_some() {
        exit_current(code & 0xff)
    }
    loop {
        raw6(SYS_exit_group, code as u64, 0, 0, 0, 0, 0);
    }
}
thread_local! { static SETTLING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

extern "C" fn settle(_: *mut c_void) -> *mut c_void {
    SETTLING.with(|s| s.set(true));
    std::process::exit(0)
}
/// Lets std run its at-exit clean-up once: from then on its standard output is unbuffered, and no
/// simulated process can leave bytes behind in it.
pub fn settle_std() {
    unsafe {
        let mut t: pthread_t = 0;
        assert!(libc::pthread_create(&mut t, std::ptr::null(), settle, std::ptr::null_mut()) == 0);
        pthread_join(t, std::ptr::null_mut());
    }
    reset_exit_guard();
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> c_long {
    if let Some(p) = me() {
        match n {
            SYS_getrandom => {
                p.rng.bytes(buf!(a as *mut c_void, b as usize));
                return b as c_long;
            }
            SYS_statx => return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut Statx) as c_long,
            SYS_renameat2 => {
                return renameat2(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as c_uint) as c_long
            }
            SYS_copy_file_range | SYS_sendfile | SYS_splice => return err(ENOSYS),
            SYS_futex | SYS_gettid | SYS_membarrier | SYS_sched_getaffinity => (),
            _ => return unsupported(p, &format!("syscall {}", n)),
        }
    }
    let r = raw6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        err(-r as i32)
    } else {
        r
    }
}

// What a command has no business with: refused, and the run is given up as one that cannot be judged.
// Nothing of it may reach the real machine.
macro_rules! refuse {
    ($($name:ident($($a:ident: $t:ty),*) -> $r:ty, $e:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            match me() {
                Some(p) => {
                    unsupported(p, stringify!($name));
                    $e as $r
                }
                None => real!($name, fn($($t),*) -> $r)($($a),*),
            }
        }
    )*};
}
type P = *const c_void;
refuse! {
    pthread_create(a: P, b: P, c: P, d: P) -> c_int, EAGAIN;
    fork() -> pid_t, -1;
    vfork() -> pid_t, -1;
    posix_spawn(a: P, b: P, c: P, d: P, e: P, f: P) -> c_int, ENOSYS;
    posix_spawnp(a: P, b: P, c: P, d: P, e: P, f: P) -> c_int, ENOSYS;
    execve(a: P, b: P, c: P) -> c_int, -1;
    execvp(a: P, b: P) -> c_int, -1;
    kill(a: pid_t, b: c_int) -> c_int, -1;
    socket(a: c_int, b: c_int, c: c_int) -> c_int, -1;
    truncate64(a: P, b: i64) -> c_int, -1;
    truncate(a: P, b: i64) -> c_int, -1;
    symlinkat(a: P, b: c_int, c: P) -> c_int, -1;
    chown(a: P, b: c_uint, c: c_uint) -> c_int, -1;
    lchown(a: P, b: c_uint, c: c_uint) -> c_int, -1;
    fchown(a: c_int, b: c_uint, c: c_uint) -> c_int, -1;
    fchownat(a: c_int, b: P, c: c_uint, d: c_uint, e: c_int) -> c_int, -1;
    fchmodat(a: c_int, b: P, c: c_uint, d: c_int) -> c_int, -1;
    mknodat(a: c_int, b: P, c: c_uint, d: u64) -> c_int, -1;
    mkfifoat(a: c_int, b: P, c: c_uint) -> c_int, -1;
    utimensat(a: c_int, b: P, c: P, d: c_int) -> c_int, -1;
    futimens(a: c_int, b: P) -> c_int, -1;
    chroot(a: P) -> c_int, -1;
    fchdir(a: c_int) -> c_int, -1;
}
