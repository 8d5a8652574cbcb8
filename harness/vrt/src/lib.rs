//! A deterministic scheduler for real threads.
//!
//! Registered threads run one at a time; they give up control at `point()` and `block()`.  The
//! controller picks, at every step, which ready thread (or environment action) goes next, so one
//! execution is determined by the sequence of choices and all executions can be enumerated.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

pub type Tid = usize;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Ready,
    Running,
    Blocked(u64),
    Done,
}
#[derive(Debug)]
struct Th {
    st: St,
    kill: bool,
    name: String,
    daemon: bool,
    steps: usize,
    /// last point label
    at: String,
}
#[derive(Default)]
struct State {
    gen: u64,
    threads: Vec<Th>,
    turn: Option<Tid>,
    log: Vec<String>,
    next_id: u64,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
thread_local! { static ME: Cell<Option<(u64, Tid)>> = const { Cell::new(None) } }

fn lock() -> MutexGuard<'static, Option<State>> {
    STATE.lock().unwrap_or_else(|e| e.into_inner())
}
pub struct Killed;

/// Start a fresh execution; threads of earlier ones are told to unwind.
pub fn reset() {
    let mut g = lock();
    let gen = g.as_ref().map(|s| s.gen).unwrap_or(0) + 1;
    *g = Some(State { gen, ..Default::default() });
    CV.notify_all();
}
pub fn me() -> Option<Tid> {
    let (gen, t) = ME.with(|m| m.get())?;
    let g = lock();
    (g.as_ref()?.gen == gen).then_some(t)
}
pub fn fresh_id() -> u64 {
    let mut g = lock();
    let s = g.get_or_insert_with(State::default);
    s.next_id += 1;
    s.next_id
}
/// Called before a line is logged (without the scheduler's lock held).
pub static PRELOG: std::sync::OnceLock<fn()> = std::sync::OnceLock::new();
pub fn log(line: String) {
    if let Some(f) = PRELOG.get() {
        f()
    }
    log_raw(line)
}
pub fn log_raw(line: String) {
    if let Some(s) = lock().as_mut() {
        s.log.push(line)
    }
}
pub fn take_log() -> Vec<String> {
    lock().as_mut().map(|s| std::mem::take(&mut s.log)).unwrap_or_default()
}
fn register(name: &str, daemon: bool, st: St) -> (u64, Tid) {
    let mut g = lock();
    let s = g.get_or_insert_with(State::default);
    s.threads.push(Th { st, kill: false, name: name.into(), daemon, steps: 0, at: "start".into() });
    let r = (s.gen, s.threads.len() - 1);
    CV.notify_all();
    r
}
/// Register the calling thread (one the code under test spawned itself) as a daemon and wait for
/// its first turn.
pub fn adopt(name: &str) {
    if ME.with(|m| m.get()).is_some() {
        return;
    }
    let r = register(name, true, St::Ready);
    ME.with(|m| m.set(Some(r)));
    EXIT.with(|e| e.set(Some(AtExit(r))));
    wait_turn(r);
}
/// An adopted thread that ends (returns or panics) gives its turn back.
struct AtExit((u64, Tid));
impl Drop for AtExit {
    fn drop(&mut self) {
        let mut g = lock();
        let Some(s) = g.as_mut().filter(|s| s.gen == self.0 .0) else { return };
        s.log.push(format!("{{\"e\":\"dead\",\"t\":{}}}", self.0 .1 + 1));
        s.threads[self.0 .1].st = St::Done;
        s.turn = None;
        CV.notify_all();
    }
}
thread_local! { static EXIT: Cell<Option<AtExit>> = const { Cell::new(None) } }
/// Spawn a controlled thread.
pub fn spawn(name: &str, f: impl FnOnce() + Send + 'static) -> Tid {
    let r = register(name, false, St::Ready);
    std::thread::Builder::new()
        .stack_size(512 * 1024)
        .spawn(move || {
            ME.with(|m| m.set(Some(r)));
            let out = catch_unwind(AssertUnwindSafe(|| {
                wait_turn(r);
                f()
            }));
            let mut g = lock();
            let Some(s) = g.as_mut().filter(|s| s.gen == r.0) else { return };
            if let Err(p) = out {
                if !p.is::<Killed>() {
                    let m = p
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    s.log.push(format!("{{\"e\":\"panic\",\"t\":{},\"msg\":{:?}}}", r.1 + 1, m));
                }
            }
            s.threads[r.1].st = St::Done;
            s.turn = None;
            CV.notify_all();
        })
        .unwrap();
    r.1
}
fn die() -> ! {
    std::panic::resume_unwind(Box::new(Killed))
}
fn wait_turn((gen, t): (u64, Tid)) {
    let mut g = lock();
    loop {
        match g.as_mut() {
            Some(s) if s.gen == gen => {
                if s.turn == Some(t) {
                    if s.threads[t].kill {
                        s.threads[t].kill = false;
                        drop(g);
                        die();
                    }
                    s.threads[t].st = St::Running;
                    return;
                }
            }
            _ => {
                drop(g);
                die();
            }
        }
        g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}
fn give_up(st: St, at: &str) {
    let Some(r) = ME.with(|m| m.get()) else { return };
    // a thread that is unwinding (killed or panicked) runs its destructors without stopping
    if std::thread::panicking() {
        return;
    }
    {
        let mut g = lock();
        match g.as_mut() {
            Some(s) if s.gen == r.0 => {
                s.threads[r.1].st = st;
                s.threads[r.1].at = at.to_string();
                s.turn = None;
                CV.notify_all();
            }
            _ => {
                drop(g);
                die();
            }
        }
    }
    wait_turn(r);
}
/// A scheduling point.
pub fn point(label: &str) {
    give_up(St::Ready, label)
}
/// Wait until someone calls `wake(id)`; unregistered threads just sleep.
pub fn block(id: u64, label: &str) {
    if ME.with(|m| m.get()).is_none() {
        std::thread::sleep(Duration::from_millis(1));
        return;
    }
    give_up(St::Blocked(id), label)
}
pub fn wake(id: u64) {
    if let Some(s) = lock().as_mut() {
        for t in s.threads.iter_mut() {
            if t.st == St::Blocked(id) {
                t.st = St::Ready
            }
        }
    }
}
#[derive(Debug, Clone)]
pub struct Info {
    pub st: St,
    pub name: String,
    pub daemon: bool,
    pub steps: usize,
    pub at: String,
}
/// controller side --------------------------------------------------------------------------
pub fn threads() -> Vec<Info> {
    lock()
        .as_ref()
        .map(|s| {
            s.threads
                .iter()
                .map(|t| Info { st: t.st, name: t.name.clone(), daemon: t.daemon, steps: t.steps, at: t.at.clone() })
                .collect()
        })
        .unwrap_or_default()
}
/// wait until `n` threads are registered
pub fn await_threads(n: usize) -> bool {
    let end = Instant::now() + Duration::from_secs(10);
    let mut g = lock();
    loop {
        if g.as_ref().map(|s| s.threads.len()).unwrap_or(0) >= n {
            return true;
        }
        let left = end.saturating_duration_since(Instant::now());
        if left.is_zero() {
            return false;
        }
        g = CV.wait_timeout(g, left).unwrap_or_else(|e| e.into_inner()).0;
    }
}
/// Let thread `t` run until its next scheduling point. Returns false if it did not come back.
pub fn step(t: Tid) -> bool {
    run(t, false)
}
/// Let thread `t` unwind from where it is ("the process dies here").
pub fn kill(t: Tid) -> bool {
    run(t, true)
}
fn run(t: Tid, kill: bool) -> bool {
    let end = Instant::now() + Duration::from_secs(20);
    let mut g = lock();
    {
        let s = g.as_mut().unwrap();
        s.threads[t].kill = kill;
        s.threads[t].steps += 1;
        s.turn = Some(t);
        CV.notify_all();
    }
    loop {
        if g.as_ref().unwrap().turn.is_none() {
            return true;
        }
        let left = end.saturating_duration_since(Instant::now());
        if left.is_zero() {
            return false;
        }
        g = CV.wait_timeout(g, left).unwrap_or_else(|e| e.into_inner()).0;
    }
}
/// Depth-first enumeration of choice sequences, with a bound on "preemptions" (choices other than
/// the default one), followed by seeded random sequences.
pub struct Explorer {
    pub max_dev: usize,
    path: Vec<(usize, usize)>, // (choice, number of options)
    pos: usize,
    dev: usize,
    pub exhausted: bool,
    rng: Option<u64>,
    pub taken: Vec<usize>,
    replay: Option<Vec<usize>>,
    seen: BTreeMap<usize, usize>,
}
impl Explorer {
    pub fn dfs(max_dev: usize) -> Self {
        Explorer { max_dev, path: vec![], pos: 0, dev: 0, exhausted: false, rng: None, taken: vec![], replay: None, seen: Default::default() }
    }
    pub fn random(seed: u64) -> Self {
        let mut e = Self::dfs(usize::MAX);
        e.rng = Some(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
        e
    }
    pub fn replay(v: Vec<usize>) -> Self {
        let mut e = Self::dfs(0);
        e.replay = Some(v);
        e
    }
    /// options are numbered with 0 the default ("keep running the same thread")
    pub fn choose(&mut self, n: usize) -> usize {
        let c = if let Some(r) = &self.replay {
            r.get(self.taken.len()).copied().unwrap_or(0).min(n - 1)
        } else if let Some(x) = &mut self.rng {
            *x ^= *x << 13;
            *x ^= *x >> 7;
            *x ^= *x << 17;
            let r = (*x >> 11) as usize;
            // biased towards continuing, so that deep executions are reached
            if r % 5 < 2 { 0 } else { (r / 7) % n }
        } else {
            if self.pos == self.path.len() {
                let opts = if self.dev >= self.max_dev { 1 } else { n };
                self.path.push((0, opts));
            }
            let c = self.path[self.pos].0;
            if c != 0 {
                self.dev += 1
            }
            c
        };
        self.pos += 1;
        self.taken.push(c);
        *self.seen.entry(n).or_default() += 1;
        c
    }
    pub fn next_execution(&mut self) {
        self.pos = 0;
        self.dev = 0;
        self.taken.clear();
        if self.rng.is_some() || self.replay.is_some() {
            return;
        }
        while let Some((c, n)) = self.path.pop() {
            if c + 1 < n {
                self.path.push((c + 1, n));
                return;
            }
        }
        self.exhausted = true;
    }
}
