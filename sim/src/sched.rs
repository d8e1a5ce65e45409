//! Cooperative scheduler for real threads: exactly one task runs at a time, and
//! which one runs next is decided here, at the intercepted points (simulated
//! system calls, futex operations, allocations, sched_yield, task end).

use crate::raw;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Policy {
    /// random pre-emptions: mean gap between them in yield points
    Random { seed: u64, gap: u32 },
    /// replay: at yield point `step` switch to `task`
    Explicit(Vec<(u64, usize)>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked { addr: usize, deadline: Option<u64> },
    Done,
}

struct Task {
    word: AtomicU32,
    st: St,
    timed_out: bool,
    /// the task of the scenario on whose behalf this one runs
    root: usize,
    /// of a thread the code under test started
    thread: Option<libc::pthread_t>,
}
impl Task {
    fn new(root: usize) -> Box<Task> {
        Box::new(Task { word: AtomicU32::new(0), st: St::Ready, timed_out: false, root, thread: None })
    }
}

pub struct Sched {
    tasks: Vec<Box<Task>>,
    current: usize,
    pub steps: u64,
    policy: Policy,
    rng: Rng,
    next_preempt: u64,
    pub made: Vec<(u64, usize)>,
    pub switches: u64,
    pub futex_waits: u64,
    done: AtomicU32,
}

struct Cellx(UnsafeCell<Option<Sched>>);
unsafe impl Sync for Cellx {}
static SCHED: Cellx = Cellx(UnsafeCell::new(None));
static ON: AtomicBool = AtomicBool::new(false);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    /// depth of harness-internal sections in which no yield may happen
    pub static QUIET: Cell<u32> = const { Cell::new(0) };
}

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { (*SCHED.0.get()).as_mut().unwrap() }
}
pub fn on() -> bool {
    ON.load(Ordering::Relaxed)
}
pub fn is_task() -> bool {
    on() && ME.try_with(|m| m.get()).unwrap_or(usize::MAX) != usize::MAX
}
pub fn me() -> usize {
    ME.try_with(|m| m.get()).unwrap_or(usize::MAX)
}
/// the task of the scenario this thread belongs to
pub fn root() -> usize {
    let m = me();
    if m == usize::MAX {
        m
    } else {
        s().tasks[m].root
    }
}
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let _ = QUIET.try_with(|q| q.set(q.get() + 1));
    let r = f();
    let _ = QUIET.try_with(|q| q.set(q.get() - 1));
    r
}
fn is_quiet() -> bool {
    QUIET.try_with(|q| q.get() > 0).unwrap_or(true)
}

fn geometric(rng: &mut Rng, mean: u32) -> u64 {
    let u = rng.f().max(1e-12);
    (-(u.ln()) * f64::from(mean)) as u64 + 1
}

impl Sched {
    fn ready(&self) -> Vec<usize> {
        (0..self.tasks.len())
            .filter(|i| self.tasks[*i].st == St::Ready)
            .collect()
    }
    /// Pick a successor because the current task cannot go on.
    fn pick_forced(&mut self) -> Option<usize> {
        let r = self.ready();
        if r.is_empty() {
            return None;
        }
        let t = match &self.policy {
            Policy::Random { .. } => r[self.rng.idx(r.len())],
            Policy::Explicit(v) => match v.iter().find(|(st, _)| *st == self.steps) {
                Some((_, t)) if r.contains(t) => *t,
                _ => r[0],
            },
        };
        self.made.push((self.steps, t));
        Some(t)
    }
    fn pick_preempt(&mut self) -> Option<usize> {
        let t = match &self.policy {
            Policy::Random { gap, .. } => {
                if self.steps < self.next_preempt {
                    return None;
                }
                let gap = *gap;
                self.next_preempt = self.steps + geometric(&mut self.rng, gap);
                let r = self.ready();
                r[self.rng.idx(r.len())]
            }
            Policy::Explicit(v) => {
                // sorted by step: binary search keeps replay fast
                match v.binary_search_by_key(&self.steps, |x| x.0) {
                    Ok(i) => v[i].1,
                    Err(_) => return None,
                }
            }
        };
        if t == self.current || t >= self.tasks.len() || self.tasks[t].st != St::Ready {
            return None;
        }
        self.made.push((self.steps, t));
        Some(t)
    }
    fn switch_to(&mut self, t: usize, wait: bool) {
        let me = self.current;
        self.current = t;
        self.switches += 1;
        if t == me {
            return;
        }
        self.tasks[t].word.store(1, Ordering::SeqCst);
        raw::futex_wake(&self.tasks[t].word);
        if wait {
            park(me);
        }
    }
}

fn park(me: usize) {
    let w: *const AtomicU32 = &s().tasks[me].word;
    let w = unsafe { &*w };
    while w.load(Ordering::SeqCst) == 0 {
        raw::futex_wait(w, 0);
    }
    w.store(0, Ordering::SeqCst);
}

/// A point at which the scheduler may pre-empt the running task.
#[inline]
pub fn yield_point() {
    if !ON.load(Ordering::Relaxed) || is_quiet() || !is_task() {
        return;
    }
    quiet(|| {
        let sc = s();
        sc.steps += 1;
        if sc.steps > 400_000_000 {
            crate::child::fatal("livelock", "scheduler step limit");
        }
        if let Some(t) = sc.pick_preempt() {
            sc.switch_to(t, true);
        }
    });
}

/// sched_yield / sleep: let somebody else run if anybody can.
pub fn force_yield() {
    if !is_task() || is_quiet() {
        return;
    }
    quiet(|| {
        let sc = s();
        sc.steps += 1;
        let r: Vec<usize> = sc.ready().into_iter().filter(|t| *t != sc.current).collect();
        if r.is_empty() {
            return;
        }
        let t = match &sc.policy {
            Policy::Random { .. } => r[sc.rng.idx(r.len())],
            Policy::Explicit(v) => match v.iter().find(|(st, _)| *st == sc.steps) {
                Some((_, t)) if r.contains(t) => *t,
                _ => r[0],
            },
        };
        sc.made.push((sc.steps, t));
        sc.switch_to(t, true);
    });
}

/// FUTEX_WAIT by a task. Returns 0 or -errno.
pub fn futex_wait(addr: usize, val: u32, timeout_ns: Option<u64>) -> i64 {
    quiet(|| {
        let sc = s();
        sc.steps += 1;
        let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
        if cur != val {
            return -i64::from(libc::EAGAIN);
        }
        sc.futex_waits += 1;
        block(addr, timeout_ns)
    })
}
/// The current task waits until somebody wakes it. Returns 0 or -ETIMEDOUT.
fn block(addr: usize, timeout_ns: Option<u64>) -> i64 {
        let sc = s();
        let me = sc.current;
        let now = crate::interpose::with(|o| o.now_ns);
        sc.tasks[me].st = St::Blocked {
            addr,
            deadline: timeout_ns.map(|t| now + t),
        };
        sc.tasks[me].timed_out = false;
        let t = match sc.pick_forced() {
            Some(t) => t,
            None => {
                // earliest deadline fires, else everything is stuck
                let mut best: Option<(u64, usize)> = None;
                for (i, t) in sc.tasks.iter().enumerate() {
                    if let St::Blocked {
                        deadline: Some(d), ..
                    } = t.st
                    {
                        if best.is_none_or(|b| d < b.0) {
                            best = Some((d, i));
                        }
                    }
                }
                match best {
                    Some((d, i)) => {
                        crate::interpose::with(|o| o.now_ns = o.now_ns.max(d));
                        sc.tasks[i].st = St::Ready;
                        sc.tasks[i].timed_out = true;
                        i
                    }
                    None => crate::child::fatal("deadlock", "all simulated tasks are blocked"),
                }
            }
        };
        if t == me {
            sc.current = me;
        } else {
            sc.switch_to(t, true);
        }
        if s().tasks[me].timed_out {
            -i64::from(libc::ETIMEDOUT)
        } else {
            0
        }
}

pub fn futex_wake(addr: usize, n: u64) -> i64 {
    quiet(|| {
        let sc = s();
        let mut w: Vec<usize> = (0..sc.tasks.len())
            .filter(|i| matches!(sc.tasks[*i].st, St::Blocked { addr: a, .. } if a == addr))
            .collect();
        let mut k = 0;
        while k < n && !w.is_empty() {
            let i = w.remove(0);
            sc.tasks[i].st = St::Ready;
            k += 1;
        }
        k as i64
    })
}

pub struct RunStats {
    pub steps: u64,
    pub switches: u64,
    pub futex_waits: u64,
    pub made: Vec<(u64, usize)>,
}

/// The current task is over: somebody else goes on.
fn finish(i: usize) {
    quiet(|| {
        ME.with(|m| m.set(usize::MAX));
        let sc = s();
        sc.steps += 1;
        sc.tasks[i].st = St::Done;
        let gone = joiners(sc, i);
        for t in &mut sc.tasks {
            if matches!(t.st, St::Blocked { addr, .. } if addr == gone) {
                t.st = St::Ready;
            }
        }
        if let Some(t) = sc.pick_forced() {
            sc.switch_to(t, false);
        } else if sc.tasks.iter().all(|t| t.st == St::Done) {
            ON.store(false, Ordering::SeqCst);
            sc.done.store(1, Ordering::SeqCst);
            raw::futex_wake(&sc.done);
        } else {
            crate::child::fatal("deadlock", "remaining tasks are blocked for ever");
        }
    });
}
/// what those wait for who wait for the end of a task
fn joiners(sc: &Sched, i: usize) -> usize {
    std::ptr::from_ref::<Task>(&sc.tasks[i]) as usize
}

/// A task starts a thread: it becomes one more task of this run.
pub fn adopt() -> Option<usize> {
    if !is_task() || is_quiet() {
        return None;
    }
    quiet(|| {
        let sc = s();
        let root = sc.tasks[me()].root;
        sc.tasks.push(Task::new(root));
        Some(sc.tasks.len() - 1)
    })
}
/// ... or could not be started after all
pub fn adopted(i: usize, thread: Option<libc::pthread_t>) {
    quiet(|| match thread {
        Some(t) => s().tasks[i].thread = Some(t),
        None => s().tasks[i].st = St::Done,
    });
    yield_point();
}
/// The whole life of an adopted thread.
pub fn live<T>(i: usize, f: impl FnOnce() -> T) -> T {
    quiet(|| park(i));
    ME.with(|m| m.set(i));
    let r = f();
    finish(i);
    r
}
/// A task waits for a thread to end.
pub fn join(thread: libc::pthread_t) {
    if !is_task() || is_quiet() {
        return;
    }
    loop {
        let sc = s();
        let Some(i) = sc.tasks.iter().rposition(|t| t.thread == Some(thread)) else { return };
        if sc.tasks[i].st == St::Done {
            sc.tasks[i].thread = None;
            return;
        }
        let addr = joiners(sc, i);
        quiet(|| block(addr, None));
    }
}

/// Threads that live on after their task: those of clients that come back.
struct Slot {
    /// 0 idle, 1 a job is waiting or running, 2 end
    word: AtomicU32,
    job: UnsafeCell<Option<Box<dyn FnOnce() + Send>>>,
    thread: UnsafeCell<Option<std::thread::JoinHandle<()>>>,
}
unsafe impl Sync for Slot {}
struct Pool(UnsafeCell<Vec<&'static Slot>>);
unsafe impl Sync for Pool {}
/// only the main thread of the child touches it
static POOL: Pool = Pool(UnsafeCell::new(vec![]));
static REUSE: AtomicBool = AtomicBool::new(true);

/// whether client i of one operation is client i of the next
pub fn set_reuse(on: bool) {
    REUSE.store(on, Ordering::SeqCst);
}
/// The process restarts: its threads are gone.
pub fn restart() {
    let pool = std::mem::take(unsafe { &mut *POOL.0.get() });
    for slot in pool {
        slot.word.store(2, Ordering::SeqCst);
        raw::futex_wake(&slot.word);
        if let Some(t) = unsafe { (*slot.thread.get()).take() } {
            let _ = t.join();
        }
    }
}
/// A forked process starts without them.
pub fn forget() {
    std::mem::forget(std::mem::take(unsafe { &mut *POOL.0.get() }));
}
fn slot(i: usize) -> &'static Slot {
    let pool = unsafe { &mut *POOL.0.get() };
    while pool.len() <= i {
        let slot: &'static Slot = Box::leak(Box::new(Slot { word: AtomicU32::new(0), job: UnsafeCell::new(None), thread: UnsafeCell::new(None) }));
        let t = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || loop {
                match slot.word.load(Ordering::SeqCst) {
                    0 => raw::futex_wait(&slot.word, 0),
                    1 => {
                        if let Some(f) = unsafe { (*slot.job.get()).take() } {
                            f();
                        }
                        slot.word.store(0, Ordering::SeqCst);
                        raw::futex_wake(&slot.word);
                    }
                    _ => return,
                }
            })
            .expect("spawn");
        unsafe { *slot.thread.get() = Some(t) };
        pool.push(slot);
    }
    pool[i]
}

/// Run the tasks to completion under the policy.
pub fn run<'a>(policy: &Policy, fs: Vec<Box<dyn FnOnce() + Send + 'a>>) -> RunStats {
    let n = fs.len();
    let mut rng = Rng::new(match policy {
        Policy::Random { seed, .. } => *seed,
        Policy::Explicit(_) => 0,
    });
    let np = match policy {
        Policy::Random { gap, .. } => geometric(&mut rng, *gap),
        Policy::Explicit(_) => 0,
    };
    unsafe {
        *SCHED.0.get() = Some(Sched {
            tasks: (0..n)
                .map(Task::new)
                .collect(),
            current: usize::MAX,
            steps: 0,
            policy: policy.clone(),
            rng,
            next_preempt: np,
            made: vec![],
            switches: 0,
            futex_waits: 0,
            done: AtomicU32::new(0),
        });
    }
    if !REUSE.load(Ordering::SeqCst) {
        restart();
    }
    for (i, f) in fs.into_iter().enumerate() {
        let job: Box<dyn FnOnce() + Send + 'a> = Box::new(move || {
            park(i);
            ME.with(|m| m.set(i));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if r.is_err() {
                crate::child::fatal("panic", &crate::child::last_panic());
            }
            finish(i);
        });
        // every job is over before this returns
        let job: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(job) };
        let s = slot(i);
        unsafe { *s.job.get() = Some(job) };
        s.word.store(1, Ordering::SeqCst);
        raw::futex_wake(&s.word);
    }
    {
        ON.store(true, Ordering::SeqCst);
        if n > 0 {
            let sc = s();
            let t = sc.pick_forced().unwrap();
            sc.current = t;
            sc.tasks[t].word.store(1, Ordering::SeqCst);
            raw::futex_wake(&sc.tasks[t].word);
            while sc.done.load(Ordering::SeqCst) == 0 {
                raw::futex_wait(&sc.done, 0);
            }
        }
    }
    for i in 0..n {
        let s = slot(i);
        while s.word.load(Ordering::SeqCst) == 1 {
            raw::futex_wait(&s.word, 1);
        }
    }
    let sc = unsafe { (*SCHED.0.get()).take().unwrap() };
    RunStats {
        steps: sc.steps,
        switches: sc.switches,
        futex_waits: sc.futex_waits,
        made: sc.made,
    }
}
