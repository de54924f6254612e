//! Process-level plumbing: fork, tokens, shared counters, result log.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn pipe(f: *mut i32) -> i32;
    fn read(f: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
    fn write(f: i32, b: *const std::ffi::c_void, n: usize) -> isize;
    fn open(p: *const std::ffi::c_char, fl: i32, ...) -> i32;
    fn fcntl(f: i32, c: i32, ...) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn getpid() -> i32;
}

#[repr(C)]
pub struct Shared {
    pub paths_ok: AtomicU64,
    pub paths_assume: AtomicU64,
    pub paths_panic_ok: AtomicU64,
    pub paths_violation: AtomicU64,
    pub paths_incomplete: AtomicU64,
    pub forks: AtomicU64,
    pub queries: AtomicU64,
    pub q_unsat: AtomicU64,
    pub q_sat: AtomicU64,
    pub q_unknown: AtomicU64,
    pub q_time_ns: AtomicU64,
    pub q_max_ns: AtomicU64,
    pub lira: AtomicU64,
    pub fpa: AtomicU64,
    pub checks_total: AtomicU64,
    pub checks_const: AtomicU64,
    pub checks_solver: AtomicU64,
    pub branches_dom: AtomicU64,
    pub branches_solver: AtomicU64,
    pub branches_known: AtomicU64,
    pub instrs: AtomicU64,
    pub violations: AtomicU64,
    pub stop: AtomicU64,
    /// milliseconds after the start at which the first violation was found (0: none yet)
    pub viol_at: AtomicU64,
    pub errors: AtomicU64,
    pub live: AtomicU64,
    pub max_vars: AtomicU64,
    pub leaves: AtomicU64,
    pub incomplete: AtomicU64,
    pub vhash: [AtomicU64; 256],
    pub fnbits: [AtomicU64; 512],
    pub reach: [AtomicU64; 1024],
}

pub struct Sys {
    pub sh: &'static Shared,
    tok_r: i32,
    tok_w: i32,
    log: i32,
    pub owns: bool,
    pub is_root: bool,
    pub rootpid: i32,
}

impl Sys {
    pub fn new(jobs: u32, log: &str) -> Sys {
        unsafe {
            let m = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
            assert!(m as isize != -1);
            let sh = &*(m as *const Shared);
            let mut f = [0i32; 2];
            assert!(pipe(f.as_mut_ptr()) == 0);
            fcntl(f[0], 4, 0o4000);
            for _ in 1..jobs {
                write(f[1], b"t".as_ptr() as *const _, 1);
            }
            let p = std::ffi::CString::new(log).unwrap();
            let fd = open(p.as_ptr(), 0o2 | 0o100 | 0o1000 | 0o2000, 0o644);
            assert!(fd >= 0);
            prctl(36, 1, 0, 0, 0);
            sh.live.fetch_add(1, SeqCst);
            Sys { sh, tok_r: f[0], tok_w: f[1], log: fd, owns: true, is_root: true, rootpid: getpid() }
        }
    }
    pub fn log(&self, s: &str) {
        let mut l = s.to_string();
        l.push('\n');
        unsafe {
            write(self.log, l.as_ptr() as *const _, l.len());
        }
    }
    fn try_token(&self) -> bool {
        let mut b = [0u8; 1];
        unsafe { read(self.tok_r, b.as_mut_ptr() as *mut _, 1) == 1 }
    }
    /// true in the child
    pub fn split(&mut self) -> bool {
        self.sh.forks.fetch_add(1, SeqCst);
        let par = self.try_token();
        self.sh.live.fetch_add(1, SeqCst);
        let p = unsafe { fork() };
        if p < 0 {
            // cannot fork: report and stop everything
            self.sh.errors.fetch_add(1, SeqCst);
            self.log("{\"kind\":\"engine_error\",\"msg\":\"fork failed\"}");
            self.sh.stop.store(1, SeqCst);
            return false;
        }
        if p == 0 {
            self.is_root = false;
            self.owns = par;
            return true;
        }
        if !par {
            let mut st = 0;
            unsafe {
                loop {
                    let r = waitpid(p, &mut st, 0);
                    if r == p || r < 0 {
                        break;
                    }
                }
            }
            if st != 0 {
                self.sh.errors.fetch_add(1, SeqCst);
                self.sh.live.fetch_sub(1, SeqCst);
                self.log(&format!("{{\"kind\":\"engine_error\",\"msg\":\"child status {}\"}}", st));
            }
        }
        false
    }
    pub fn finish(&self) -> ! {
        unsafe {
            if self.owns && !self.is_root {
                write(self.tok_w, b"t".as_ptr() as *const _, 1);
            }
            // a parallel child must outlive its parent: children are re-parented to the root
            self.sh.live.fetch_sub(1, SeqCst);
            _exit(0)
        }
    }
    /// root only: wait for every descendant; returns number of abnormal deaths
    pub fn wait_all(&self) -> u64 {
        let mut bad = 0;
        unsafe {
            // give our own slot away while waiting
            write(self.tok_w, b"t".as_ptr() as *const _, 1);
            loop {
                let mut st = 0;
                let p = waitpid(-1, &mut st, 0);
                if p < 0 {
                    break;
                }
                if st != 0 {
                    bad += 1;
                    // a dead process may have held a slot
                    write(self.tok_w, b"t".as_ptr() as *const _, 1);
                }
            }
        }
        bad
    }
}
