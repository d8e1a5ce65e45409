//! A simulated run lives in a forked child; the parent only sees the report.

use crate::raw;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI32, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    /// None: the property held
    pub violation: Option<Violation>,
    pub log_hash: u64,
    pub sim_ns: u64,
    pub ops: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    /// hashes of states / interleavings visited
    pub states: Vec<u64>,
    pub nontrivial: bool,
    pub sched_steps: u64,
    pub switches: u64,
    /// pre-emptions made, to turn a random schedule into an explicit one
    pub made: Vec<Vec<(u64, usize)>>,
    pub log: Vec<String>,
    pub note: String,
}
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    /// coarse class: minimisation keeps it
    pub class: String,
    pub msg: String,
}

static FD: AtomicI32 = AtomicI32::new(-1);
static PANIC: Mutex<String> = Mutex::new(String::new());
pub static CURRENT_OP: Mutex<String> = Mutex::new(String::new());
pub static PARTIAL: Mutex<Option<Report>> = Mutex::new(None);

pub fn last_panic() -> String {
    crate::sched::quiet(|| PANIC.lock().map_or_else(|e| e.into_inner().clone(), |g| g.clone()))
}
pub fn set_op(s: &str) {
    crate::sched::quiet(|| {
        if let Ok(mut g) = CURRENT_OP.lock() {
            *g = s.to_string();
        }
    });
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        crate::sched::quiet(|| {
            let loc = info
                .location()
                .map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
            let m = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| (*s).to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            if std::env::var_os("VPSIM_STDERR").is_some() {
                eprintln!("panic at {loc}: {m}");
            }
            if let Ok(mut g) = PANIC.lock() {
                *g = format!("panic at {loc}: {m}");
            }
        });
    }));
}

pub fn send(r: &Report) -> ! {
    let s = serde_json::to_vec(r).unwrap_or_default();
    raw::write_all(FD.load(Ordering::SeqCst), &s);
    raw::exit(0)
}

/// Unrecoverable end of a run: report it from whatever thread we are on.
pub fn fatal(class: &str, msg: &str) -> ! {
    let _ = crate::sched::QUIET.try_with(|q| q.set(q.get() + 1000));
    let op = CURRENT_OP.lock().map(|g| g.clone()).unwrap_or_default();
    let r = Report {
        violation: Some(Violation {
            class: class.to_string(),
            msg: format!("{op}: {msg}"),
        }),
        nontrivial: true,
        ..Report::default()
    };
    send(&r)
}

pub enum Outcome {
    Report(Box<Report>),
    /// killed by a signal or died without a report
    Died(String),
}

/// Fork, run `f` in the child with the real-time safety net, collect the report.
pub fn run_forked(f: impl FnOnce() -> Report, cpu_s: u64) -> Outcome {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe(p.as_mut_ptr()) != 0 {
            return Outcome::Died("harness: pipe".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            libc::close(p[0]);
            libc::close(p[1]);
            return Outcome::Died("harness: fork".into());
        }
        if pid == 0 {
            libc::close(p[0]);
            // threads do not come along
            crate::sched::forget();
            FD.store(p[1], Ordering::SeqCst);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // allocator and abort messages are noise: the parent reports
            let nul = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if nul >= 0 && std::env::var_os("VPSIM_STDERR").is_none() {
                libc::dup2(nul, 2);
                // what the code prints is recorded and must not mix with the results
                libc::dup2(nul, 1);
            }
            let rl = libc::rlimit {
                rlim_cur: cpu_s,
                rlim_max: cpu_s + 2,
            };
            libc::setrlimit(libc::RLIMIT_CPU, &rl);
            let rl = libc::rlimit {
                rlim_cur: 6 << 30,
                rlim_max: 6 << 30,
            };
            libc::setrlimit(libc::RLIMIT_AS, &rl);
            let rl = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            match r {
                Ok(r) => send(&r),
                Err(_) => fatal("harness", &format!("harness panic: {}", last_panic())),
            }
        }
        libc::close(p[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 65536];
        loop {
            let n = libc::read(p[0], buf.as_mut_ptr().cast(), buf.len());
            if n < 0 {
                if *libc::__errno_location() == libc::EINTR {
                    continue;
                }
                break;
            }
            if n == 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {
            if *libc::__errno_location() != libc::EINTR {
                break;
            }
        }
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            let n = match s {
                libc::SIGABRT => "abort (SIGABRT)".to_string(),
                libc::SIGSEGV | libc::SIGBUS => "stack overflow or invalid access (SIGSEGV)".into(),
                libc::SIGXCPU | libc::SIGKILL => "hang: CPU limit exceeded".into(),
                s => format!("signal {s}"),
            };
            return Outcome::Died(n);
        }
        match serde_json::from_slice::<Report>(&out) {
            Ok(r) => Outcome::Report(Box::new(r)),
            Err(e) => Outcome::Died(format!("no report: {e}")),
        }
    }
}
