//! Mirror of simrt.h and the launcher of simulated processes.
use serde::{Deserialize, Serialize};
use std::ffi::CString;
use std::fs;
use std::os::unix::io::AsRawFd;
use std::path::{Path, PathBuf};

pub const MAGIC: u64 = 0x57494d4244534951;
pub const MAX_FAULTS: usize = 512;
pub const MAX_DEC: usize = 131072;
pub const MAX_LOG: usize = 131072;
pub const MAX_FLOG: usize = 4096;
pub const MAX_TRACE: usize = 8192;
pub const PATHLEN: usize = 88;
pub const NCTR: usize = 48;

pub const K_ATOMIC: u32 = 1;
pub const K_FUTEX_WAIT: u32 = 2;
pub const K_FUTEX_WAKE: u32 = 3;
pub const K_IO: u32 = 4;
pub const K_THREAD: u32 = 5;
pub const K_TIME: u32 = 6;
pub const K_EXIT: u32 = 8;

pub const F_OPEN: u32 = 1;
pub const F_READ: u32 = 2;
pub const F_WRITE: u32 = 3;
pub const F_CLOSE: u32 = 4;
pub const F_STAT: u32 = 5;
pub const F_READDIR: u32 = 6;
pub const F_OPENDIR: u32 = 7;
pub const F_THREAD: u32 = 8;
pub const F_MKDIR: u32 = 10;
pub const F_STEP: u32 = 11;

pub const A_ERR: u32 = 1;
pub const A_SHORT: u32 = 2;
pub const A_DELAY: u32 = 3;
pub const A_CRASH: u32 = 4;
pub const A_EOF: u32 = 5;
pub const A_FLIP: u32 = 6;
pub const A_FULL: u32 = 7;

pub const V_EXIT: u32 = 1;
pub const V_DEADLOCK: u32 = 2;
pub const V_STEPLIMIT: u32 = 3;
pub const V_TIMELIMIT: u32 = 4;
pub const V_CRASH: u32 = 5;
pub const V_INTERNAL: u32 = 6;

pub const CTR_NAMES: [(usize, &str); 23] = [
    (2, "clock_jump"),
    (3, "spurious_futex_wakeup"),
    (4, "timer_fired"),
    (6, "open_error"),
    (7, "read_error"),
    (8, "short_read"),
    (9, "truncated_read_eof"),
    (10, "bit_flip"),
    (11, "write_error"),
    (12, "short_write"),
    (13, "disk_full"),
    (14, "io_delay"),
    (15, "eintr"),
    (16, "crash_kill"),
    (17, "thread_create_failure"),
    (18, "alloc_failure"),
    (19, "stat_error"),
    (20, "directory_error"),
    (21, "forced_fair_switch"),
    (25, "close_error"),
    (28, "mkdir_error"),
    (1, "preemption"),
    (5, "futex_block"),
];

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CFault {
    pub cls: u32,
    pub nth: u32,
    pub action: u32,
    pub arg: i32,
    pub path: [u8; PATHLEN],
    pub fired: u32,
    pub tid: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CDec {
    pub kind: u16,
    pub tid: u16,
    pub lstep: u32,
    pub arg: u32,
    pub pc: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CTrace {
    pub step: u64,
    pub from: u16,
    pub to: u16,
    pub kind: u16,
    pub pad: u16,
    pub pc: u32,
    pub lstep: u32,
}
#[repr(C)]
pub struct CCfg {
    pub magic: u64,
    pub sched_seed: u64,
    pub io_seed: u64,
    pub sys_seed: u64,
    pub mode: u32,
    pub policy: u32,
    pub p_switch: u32,
    pub p_jump: u32,
    pub p_spur: u32,
    pub pct_depth: u32,
    pub pct_range: u64,
    pub burst_mean: u32,
    pub starve_tid: u32,
    pub starve_p: u32,
    pub kind_mask: u32,
    pub max_run: u32,
    pub p_short: u32,
    pub p_delay: u32,
    pub p_eintr: u32,
    pub short_max: u32,
    pub delay_max_ms: u32,
    pub max_steps: u64,
    pub max_sim_ns: u64,
    pub alloc_limit: u64,
    pub fs_capacity: u64,
    pub trace_on: u32,
    pub n_faults: u32,
    pub n_dec: u32,
    pub dup_errno: u32,
    // outputs
    pub verdict: u32,
    pub exit_seen: u32,
    pub msg: [u8; 256],
    pub steps: u64,
    pub sim_ns: u64,
    pub idle_ns: u64,
    pub ev_hash: u64,
    pub sched_hash: u64,
    pub nthreads: u32,
    pub log_over: u32,
    pub ctr: [u64; NCTR],
    pub n_log: u32,
    pub n_flog: u32,
    pub n_trace: u32,
    pub pad2: u32,
    pub faults: [CFault; MAX_FAULTS],
    pub flog: [CFault; MAX_FLOG],
    pub tr: [CTrace; MAX_TRACE],
    pub log: [CDec; MAX_LOG],
    pub decs: [CDec; MAX_DEC],
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub cls: u32,
    pub path: String,
    pub nth: u32,
    pub action: u32,
    pub arg: i32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Dec(pub u16, pub u16, pub u32, pub u32, pub u32); // kind tid lstep arg pc

/// Everything about the simulated world of one process execution.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sim {
    pub sched_seed: u64,
    pub io_seed: u64,
    pub sys_seed: u64,
    pub policy: u32,
    pub p_switch: u32,
    pub p_jump: u32,
    pub p_spur: u32,
    pub pct_depth: u32,
    pub pct_range: u64,
    pub burst_mean: u32,
    pub starve_tid: u32,
    pub starve_p: u32,
    pub kind_mask: u32,
    pub max_run: u32,
    pub p_short: u32,
    pub p_delay: u32,
    pub p_eintr: u32,
    pub short_max: u32,
    pub delay_max_ms: u32,
    pub max_steps: u64,
    pub max_idle_ns: u64,
    pub alloc_limit: u64,
    pub fs_capacity: u64,
    pub faults: Vec<Fault>,
    /// Some: replay exactly these scheduling decisions instead of drawing them.
    pub decisions: Option<Vec<Dec>>,
}

impl Sim {
    pub fn serial() -> Sim {
        Sim {
            sched_seed: 1,
            io_seed: 1,
            sys_seed: 1,
            policy: 5,
            p_switch: 0,
            p_jump: 0,
            p_spur: 0,
            pct_depth: 0,
            pct_range: 0,
            burst_mean: 0,
            starve_tid: 0,
            starve_p: 0,
            kind_mask: 0xffff_ffff,
            max_run: 20000,
            p_short: 0,
            p_delay: 0,
            p_eintr: 0,
            short_max: 0,
            delay_max_ms: 0,
            max_steps: 3_000_000,
            max_idle_ns: 900_000_000_000,
            alloc_limit: 0,
            fs_capacity: 0,
            faults: vec![],
            decisions: None,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub verdict: u32,
    pub code: i32, // exit code, or -signal
    pub hang: bool,
    pub msg: String,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub steps: u64,
    pub sim_ns: u64,
    pub ev_hash: u64,
    pub sched_hash: u64,
    pub nthreads: u32,
    pub log_over: bool,
    pub ctr: Vec<u64>,
    pub log: Vec<Dec>,
    pub flog: Vec<Fault>,
    pub trace: Vec<(u64, u16, u16, u16, u32)>,
}
impl Outcome {
    pub fn ok(&self) -> bool {
        self.verdict == V_EXIT && self.code == 0 && !self.hang
    }
    /// ended by itself with an ordinary exit status (no signal, no simulator stop)
    pub fn exited(&self) -> bool {
        self.verdict == V_EXIT && self.code >= 0 && !self.hang
    }
    pub fn describe(&self) -> String {
        if self.hang {
            return "hang: no scheduling point reached for too long".into();
        }
        match self.verdict {
            V_EXIT => format!("exit {}", self.code),
            V_DEADLOCK => "deadlock: no thread can run and no timer is pending".into(),
            V_STEPLIMIT => "no end within the step limit".into(),
            V_TIMELIMIT => "no end: the program only waits (simulated time limit)".into(),
            V_CRASH => "killed by the simulator".into(),
            _ => format!("ended abnormally (status {}, {})", self.code, self.msg),
        }
    }
    pub fn stdout_s(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn stderr_s(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
}

/// One scratch area with its shared configuration page, reused for many runs.
pub struct Slot {
    pub base: PathBuf,
    pub cwd: PathBuf,
    cfg: *mut CCfg,
    cpu: usize,
    pub spawned: u64,
}
unsafe impl Send for Slot {}

fn put(dst: &mut [u8; PATHLEN], s: &str) {
    *dst = [0; PATHLEN];
    let b = s.as_bytes();
    let n = b.len().min(PATHLEN - 1);
    dst[..n].copy_from_slice(&b[..n]);
}
fn get(src: &[u8]) -> String {
    let n = src.iter().position(|c| *c == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}

impl Slot {
    pub fn new(root: &Path, idx: usize, cpu: usize) -> Slot {
        let base = root.join(format!("w{idx:02}"));
        let _ = fs::remove_dir_all(&base);
        fs::create_dir_all(base.join("cwd")).expect("scratch");
        let f = fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .open(base.join("c"))
            .expect("cfg");
        let sz = std::mem::size_of::<CCfg>();
        f.set_len(sz as u64).expect("cfg size");
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                sz,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slot {
            cwd: base.join("cwd"),
            base,
            cfg: p as *mut CCfg,
            cpu,
            spawned: 0,
        }
    }
    pub fn clear(&self) {
        let _ = fs::remove_dir_all(&self.cwd);
        fs::create_dir_all(&self.cwd).expect("cwd");
    }

    pub fn run(
        &mut self,
        bin: &Path,
        argv: &[String],
        env: &[(String, String)],
        sim: &Sim,
        trace: bool,
    ) -> Outcome {
        let c = unsafe { &mut *self.cfg };
        // zero the header part and counters; the arrays are bounded by their counts
        unsafe {
            let p = self.cfg as *mut u8;
            let hdr = (&c.faults as *const _ as usize) - (self.cfg as usize);
            std::ptr::write_bytes(p, 0, hdr);
        }
        c.magic = MAGIC;
        c.sched_seed = sim.sched_seed;
        c.io_seed = sim.io_seed;
        c.sys_seed = sim.sys_seed;
        c.mode = if sim.decisions.is_some() { 1 } else { 0 };
        c.policy = sim.policy;
        c.p_switch = sim.p_switch;
        c.p_jump = sim.p_jump;
        c.p_spur = sim.p_spur;
        c.pct_depth = sim.pct_depth;
        c.pct_range = sim.pct_range;
        c.burst_mean = sim.burst_mean;
        c.starve_tid = sim.starve_tid;
        c.starve_p = sim.starve_p;
        c.kind_mask = sim.kind_mask;
        c.max_run = sim.max_run;
        c.p_short = sim.p_short;
        c.p_delay = sim.p_delay;
        c.p_eintr = sim.p_eintr;
        c.short_max = sim.short_max;
        c.delay_max_ms = sim.delay_max_ms;
        c.max_steps = sim.max_steps;
        c.max_sim_ns = sim.max_idle_ns;
        c.alloc_limit = sim.alloc_limit;
        c.fs_capacity = sim.fs_capacity;
        c.trace_on = trace as u32;
        c.n_faults = sim.faults.len().min(MAX_FAULTS) as u32;
        for (i, f) in sim.faults.iter().take(MAX_FAULTS).enumerate() {
            let g = &mut c.faults[i];
            g.cls = f.cls;
            g.nth = f.nth;
            g.action = f.action;
            g.arg = f.arg;
            g.fired = 0;
            g.tid = 0;
            put(&mut g.path, &f.path);
        }
        if let Some(d) = &sim.decisions {
            c.n_dec = d.len().min(MAX_DEC) as u32;
            for (i, d) in d.iter().take(MAX_DEC).enumerate() {
                c.decs[i] = CDec { kind: d.0, tid: d.1, lstep: d.2, arg: d.3, pc: d.4 };
            }
        }
        if let Ok(dir) = std::env::var("SIM_KEEP_CFG") {
            // debugging aid: leave the run's input behind, to be started by hand
            let d = Path::new(&dir);
            let _ = fs::create_dir_all(d);
            let _ = std::process::Command::new("cp").arg("-a").arg(&self.cwd).arg(self.base.join("c")).arg(d).status();
            let _ = fs::write(d.join("argv"), argv.join("\n"));
        }
        let outp = self.base.join("out");
        let errp = self.base.join("err");
        let (code, hang) = self.spawn(bin, argv, env, &outp, &errp);
        self.spawned += 1;
        let c = unsafe { &mut *self.cfg };
        let mut o = Outcome {
            verdict: c.verdict,
            code,
            hang,
            msg: get(&c.msg),
            stdout: fs::read(&outp).unwrap_or_default(),
            stderr: fs::read(&errp).unwrap_or_default(),
            steps: c.steps,
            sim_ns: c.sim_ns,
            ev_hash: c.ev_hash,
            sched_hash: c.sched_hash,
            nthreads: c.nthreads,
            log_over: c.log_over != 0,
            ctr: c.ctr.to_vec(),
            log: c.log[..(c.n_log as usize).min(MAX_LOG)]
                .iter()
                .map(|d| Dec(d.kind, d.tid, d.lstep, d.arg, d.pc))
                .collect(),
            flog: c.flog[..(c.n_flog as usize).min(MAX_FLOG)]
                .iter()
                .map(|f| Fault { cls: f.cls, path: get(&f.path), nth: f.nth, action: f.action, arg: f.arg })
                .collect(),
            trace: vec![],
        };
        if trace {
            o.trace = c.tr[..(c.n_trace as usize).min(MAX_TRACE)]
                .iter()
                .map(|t| (t.step, t.from, t.to, t.kind, t.pc))
                .collect();
        }
        unsafe {
            for i in 0..(c.n_flog as usize).min(MAX_FLOG) {
                std::ptr::write_bytes(&mut c.flog[i] as *mut CFault, 0, 1);
            }
        }
        o
    }

    fn spawn(
        &self,
        bin: &Path,
        argv: &[String],
        env: &[(String, String)],
        outp: &Path,
        errp: &Path,
    ) -> (i32, bool) {
        let binc = CString::new(bin.to_str().unwrap()).unwrap();
        let args: Vec<CString> = std::iter::once("wimbd".to_string())
            .chain(argv.iter().cloned())
            .map(|s| CString::new(s).unwrap())
            .collect();
        let mut argp: Vec<*const libc::c_char> = args.iter().map(|s| s.as_ptr()).collect();
        argp.push(std::ptr::null());
        let mut envs: Vec<CString> = vec![CString::new("SIMRT_CFG=../c").unwrap()];
        for (k, v) in env {
            envs.push(CString::new(format!("{k}={v}")).unwrap());
        }
        let mut envp: Vec<*const libc::c_char> = envs.iter().map(|s| s.as_ptr()).collect();
        envp.push(std::ptr::null());
        let cwd = CString::new(self.cwd.to_str().unwrap()).unwrap();
        let outc = CString::new(outp.to_str().unwrap()).unwrap();
        let errc = CString::new(errp.to_str().unwrap()).unwrap();
        let devnull = CString::new("/dev/null").unwrap();
        unsafe {
            let mut set: libc::cpu_set_t = std::mem::zeroed();
            libc::CPU_SET(self.cpu, &mut set);
            let pid = libc::fork();
            if pid == 0 {
                libc::personality(0x0040000);
                libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
                let lim = libc::rlimit { rlim_cur: 30, rlim_max: 30 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
                let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &nocore);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if libc::chdir(cwd.as_ptr()) != 0 {
                    libc::_exit(95);
                }
                let i = libc::open(devnull.as_ptr(), libc::O_RDONLY);
                libc::dup2(i, 0);
                let fl = libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC;
                let o = libc::open(outc.as_ptr(), fl, 0o644);
                libc::dup2(o, 1);
                let e = libc::open(errc.as_ptr(), fl, 0o644);
                libc::dup2(e, 2);
                for fd in 3..20 {
                    libc::close(fd);
                }
                libc::execve(binc.as_ptr(), argp.as_ptr(), envp.as_ptr());
                libc::_exit(95);
            }
            if pid < 0 {
                return (-95, false);
            }
            // wait, with a wall-clock limit that only a real hang can reach
            let t0 = std::time::Instant::now();
            let mut st = 0;
            let mut spins = 0u32;
            let pfd = libc::syscall(libc::SYS_pidfd_open, pid, 0) as i32;
            loop {
                let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
                if r == pid {
                    break;
                }
                spins += 1;
                if pfd >= 0 {
                    let mut p = libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 };
                    libc::poll(&mut p, 1, 1000);
                } else {
                    std::thread::sleep(std::time::Duration::from_micros(if spins < 50 { 200 } else { 2000 }));
                }
                if t0.elapsed().as_secs() > 60 {
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                    if pfd >= 0 {
                        libc::close(pfd);
                    }
                    return (-9, true);
                }
            }
            if pfd >= 0 {
                libc::close(pfd);
            }
            if libc::WIFEXITED(st) {
                (libc::WEXITSTATUS(st), false)
            } else {
                let sig = libc::WTERMSIG(st);
                (-sig, sig == libc::SIGXCPU)
            }
        }
    }
}
