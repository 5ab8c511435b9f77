//! Every simulated run takes place in a process of its own, forked from one that has never
//! simulated anything: whatever the libraries keep in static variables (compiled expressions,
//! caches per thread) is in its first state, so the run depends on its seed alone.
use serde::{de::DeserializeOwned, Serialize};
use std::io::Read;
use std::os::unix::io::FromRawFd;

/// Err: how the process ended instead of giving a result (exit status, or -2: signal)
pub fn isolated<T: Serialize + DeserializeOwned>(f: impl FnOnce() -> T) -> Result<T, i32> {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let parent = libc::getpid();
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if libc::getppid() != parent {
                libc::_exit(1);
            }
            let v = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(v) => v,
                Err(_) => libc::_exit(101),
            };
            let data = serde_json::to_vec(&v).unwrap();
            let mut at = 0;
            while at < data.len() {
                let n = libc::write(fds[1], data[at..].as_ptr() as *const libc::c_void, data.len() - at);
                if n <= 0 {
                    libc::_exit(102);
                }
                at += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut data = vec![];
        let mut file = std::fs::File::from_raw_fd(fds[0]);
        let read = file.read_to_end(&mut data);
        drop(file);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 && read.is_ok() {
            return serde_json::from_slice(&data).map_err(|_| 103);
        }
        Err(if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { -2 })
    }
}
