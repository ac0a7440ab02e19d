//! Stateless bounded model checker: exhaustive enumeration of choice sequences.
//!
//! A family's body asks for every nondeterministic decision through [`Ch`]; the explorer enumerates
//! every choice sequence depth first, bounding the number of *deviations* (non-default answers of
//! `dev` points), on several workers that hand off unexplored subtrees to idle ones.

use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// One choice point of the current execution.
#[derive(Clone, Copy, Debug)]
pub struct Pt {
    pub choice: u32,
    /// exclusive upper bound of the alternatives this worker still owns at this point
    pub limit: u32,
    /// number of alternatives of the point
    pub n: u32,
    pub dev: bool,
}

pub struct Ch {
    trace: Vec<Pt>,
    pos: usize,
    dev_used: u32,
    pub dev_bound: u32,
    /// record inputs and notes (replay, samples)
    pub record: bool,
    pub input: Option<Vec<u8>>,
    pub notes: Vec<String>,
    frozen: bool,
}

pub const DIVERGED: &str = "explorer: divergence while replaying a choice prefix";

impl Ch {
    pub fn new(dev_bound: u32) -> Self {
        Ch {
            trace: Vec::new(),
            pos: 0,
            dev_used: 0,
            dev_bound,
            record: false,
            input: None,
            notes: Vec::new(),
            frozen: false,
        }
    }

    /// Chooser that follows `choices` and then takes alternative 0.
    pub fn replaying(choices: &[u32], dev_bound: u32) -> Self {
        let mut c = Ch::new(dev_bound);
        c.trace = choices.iter().map(|&x| Pt { choice: x, limit: x + 1, n: 0, dev: false }).collect();
        c.frozen = true;
        c.record = true;
        c
    }

    fn restart(&mut self) {
        self.pos = 0;
        self.dev_used = 0;
        self.input = None;
        self.notes.clear();
    }

    #[inline]
    fn point(&mut self, n: u32, dev: bool) -> u32 {
        assert!(n > 0, "choice point without alternatives");
        let p = self.pos;
        self.pos += 1;
        if p < self.trace.len() {
            let t = &mut self.trace[p];
            if t.n == 0 {
                // first visit of a handed-over or replayed prefix
                t.n = n;
                t.dev = dev;
                if t.choice >= n {
                    panic!("{}", DIVERGED);
                }
            } else if t.n != n || t.dev != dev {
                panic!("{}", DIVERGED);
            }
            t.choice
        } else {
            self.trace.push(Pt { choice: 0, limit: n, n, dev });
            0
        }
    }

    /// Any of `n` alternatives.
    #[inline]
    pub fn choose(&mut self, n: usize) -> usize {
        self.point(n as u32, false) as usize
    }

    /// Alternative 0 is the default; each other one costs a deviation.
    #[inline]
    pub fn dev(&mut self, n: usize) -> usize {
        let n = if self.dev_used >= self.dev_bound { 1 } else { n as u32 };
        let c = self.point(n, true);
        if c != 0 {
            self.dev_used += 1;
        }
        c as usize
    }

    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }

    /// One item of a slice.
    #[inline]
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.choose(items.len())]
    }

    /// One item of a slice, the first being the default.
    #[inline]
    pub fn vary<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.dev(items.len())]
    }

    /// Tells the explorer which bytes this execution gives to the code under test.
    #[inline]
    pub fn saw(&mut self, bytes: &[u8]) {
        if self.record {
            self.input = Some(bytes.to_vec());
        }
    }

    #[inline]
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.record {
            self.notes.push(f());
        }
    }

    pub fn deviations(&self) -> u32 {
        self.dev_used
    }

    fn choices(&self) -> Vec<u32> {
        self.trace.iter().take(self.pos).map(|p| p.choice).collect()
    }

    /// Moves to the next unexplored choice sequence; returns the depth of the changed point.
    fn advance(&mut self) -> Option<usize> {
        self.trace.truncate(self.pos);
        while let Some(t) = self.trace.last_mut() {
            if t.choice + 1 < t.limit {
                t.choice += 1;
                return Some(self.trace.len() - 1);
            }
            self.trace.pop();
        }
        None
    }

    /// Gives away the shallowest half of what is left to explore.
    fn split(&mut self) -> Option<Vec<Pt>> {
        let d = self.trace.iter().take(self.pos).position(|t| t.limit - t.choice > 1)?;
        let t = self.trace[d];
        let mid = t.choice + 1 + (t.limit - t.choice - 1) / 2;
        let mut task: Vec<Pt> = self.trace[..d].iter().map(|p| Pt { limit: p.choice + 1, ..*p }).collect();
        task.push(Pt { choice: mid, limit: t.limit, ..t });
        self.trace[d].limit = mid;
        Some(task)
    }
}

#[derive(Debug, Clone)]
pub enum Stop {
    /// the property is violated: (expected, actual)
    Bad(String, String),
    /// this combination is outside the family's space
    Prune,
}

pub fn bad<T>(expected: impl Into<String>, actual: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Bad(expected.into(), actual.into()))
}

pub type Step = Result<u64, Stop>;
pub type Body = Box<dyn FnMut(&mut Ch) -> Step>;

pub struct Family {
    pub name: String,
    /// what is enumerated and within which bounds
    pub what: String,
    pub dev_bound: u32,
    /// makes one worker's body with its own scratch space
    pub make: Box<dyn Fn() -> Body + Sync + Send>,
}

impl Family {
    pub fn new<B>(name: &str, what: &str, dev_bound: u32, make: impl Fn() -> B + Sync + Send + 'static) -> Family
    where
        B: FnMut(&mut Ch) -> Step + 'static,
    {
        Family {
            name: name.into(),
            what: what.into(),
            dev_bound,
            make: Box::new(move || Box::new(make()) as Body),
        }
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub family: String,
    pub dev_bound: u32,
    pub choices: Vec<u32>,
    pub expected: String,
    pub actual: String,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub execs: u64,
    pub pruned: u64,
    pub max_depth: usize,
    pub outcomes: usize,
    pub outcomes_capped: bool,
    pub dev_hist: Vec<u64>,
    pub sample_traces: Vec<Vec<u32>>,
    pub wall: f64,
}

// ---------------------------------------------------------------- crash slots

pub const SLOT_WORDS: usize = 8192;

/// Shared memory in which each worker leaves the choice prefix it is about to execute.
pub struct Slots {
    base: *mut u32,
    pub workers: usize,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

pub fn limit_memory(bytes: u64) {
    // RLIMIT_AS: a runaway allocation aborts this process instead of the sandbox
    unsafe {
        setrlimit(9, &[bytes, bytes]);
    }
}

pub const SIGXCPU: i32 = 24;

pub fn limit_processor_time(seconds: u64) {
    unsafe {
        setrlimit(0, &[seconds, seconds + 5]);
    }
}

pub fn no_core_dumps() {
    unsafe {
        setrlimit(4, &[0, 0]);
    }
}

impl Slots {
    pub fn open(path: &str, workers: usize) -> std::io::Result<Slots> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path)?;
        let len = workers * SLOT_WORDS * 4;
        f.set_len(len as u64)?;
        let base = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
        if base as isize == -1 {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Slots { base: base as *mut u32, workers })
    }

    #[inline]
    fn word(&self, w: usize, i: usize) -> *mut u32 {
        debug_assert!(w < self.workers && i < SLOT_WORDS);
        unsafe { self.base.add(w * SLOT_WORDS + i) }
    }

    /// layout: 0 family+1 (0 = idle), 1 number of choices, 2 dev bound, 3.. choices
    #[inline]
    fn publish(&self, w: usize, family: u32, dev: u32, trace: &[Pt], from: usize) {
        unsafe {
            let n = trace.len().min(SLOT_WORDS - 4);
            for (i, t) in trace.iter().enumerate().take(n).skip(from.min(n)) {
                self.word(w, 3 + i).write_volatile(t.choice);
            }
            self.word(w, 1).write_volatile(n as u32);
            self.word(w, 2).write_volatile(dev);
            self.word(w, 0).write_volatile(family + 1);
        }
    }

    fn idle(&self, w: usize) {
        unsafe { self.word(w, 0).write_volatile(0) }
    }

    pub fn read(&self, w: usize) -> Option<(usize, u32, Vec<u32>)> {
        unsafe {
            let f = self.word(w, 0).read_volatile();
            if f == 0 {
                return None;
            }
            let n = (self.word(w, 1).read_volatile() as usize).min(SLOT_WORDS - 4);
            let dev = self.word(w, 2).read_volatile();
            Some((f as usize - 1, dev, (0..n).map(|i| self.word(w, 3 + i).read_volatile()).collect()))
        }
    }
}

// ---------------------------------------------------------------- exploration

struct Pool {
    tasks: Mutex<(Vec<Vec<Pt>>, usize)>, // pending subtrees, workers waiting
    cv: Condvar,
    hungry: AtomicUsize,
    stop: AtomicBool,
}

pub struct Progress {
    /// executions started per worker, for the watchdog; u64::MAX while idle
    pub beat: Vec<AtomicU64>,
    /// the clock of each worker's processor time
    pub clock: Vec<AtomicU64>,
}

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

impl Progress {
    pub fn new(workers: usize) -> Progress {
        Progress {
            beat: (0..workers).map(|_| AtomicU64::new(u64::MAX)).collect(),
            clock: (0..workers).map(|_| AtomicU64::new(0)).collect(),
        }
    }

    /// Called by a worker before its first execution.
    fn mine(&self, w: usize) {
        let mut id = 0;
        if unsafe { pthread_getcpuclockid(pthread_self(), &mut id) } == 0 {
            self.clock[w].store(id as u32 as u64, SeqCst);
        }
    }

    /// Seconds of processor time a worker has used.
    fn used(&self, w: usize) -> f64 {
        let mut t = Timespec { s: 0, ns: 0 };
        match unsafe { clock_gettime(self.clock[w].load(SeqCst) as u32 as i32, &mut t) } {
            0 => t.s as f64 + t.ns as f64 / 1e9,
            _ => 0.0,
        }
    }
}

const OUTCOME_CAP: usize = 200_000;

pub fn explore(
    fam: &Family,
    fam_idx: usize,
    dev_bound: u32,
    workers: usize,
    slots: &Slots,
    prog: &Progress,
) -> Result<(Stats, Option<Violation>), String> {
    let t0 = Instant::now();
    let pool = Pool {
        tasks: Mutex::new((vec![vec![]], 0)),
        cv: Condvar::new(),
        hungry: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
    };
    let found: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let total: Mutex<(Stats, HashSet<u64>)> = Mutex::new((Stats::default(), HashSet::new()));
    std::thread::scope(|s| {
        for w in 0..workers {
            let (pool, found, broken, total) = (&pool, &found, &broken, &total);
            std::thread::Builder::new()
                .stack_size(2 << 20) // Rust's default for spawned threads
                .spawn_scoped(s, move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        worker(fam, fam_idx, dev_bound, workers, w, slots, prog, pool, found, total)
                    }));
                    slots.idle(w);
                    prog.beat[w].store(u64::MAX, Relaxed);
                    if let Err(e) = r {
                        let msg = panic_text(&*e);
                        broken.lock().unwrap().get_or_insert(format!("harness panic in family {}: {}", fam.name, msg));
                        pool.stop.store(true, SeqCst);
                        let _g = pool.tasks.lock();
                        pool.cv.notify_all();
                    }
                })
                .unwrap();
        }
    });
    if let Some(e) = broken.into_inner().unwrap() {
        return Err(e);
    }
    let (mut st, oc) = total.into_inner().unwrap();
    st.outcomes = oc.len();
    st.wall = t0.elapsed().as_secs_f64();
    let mut v = found.into_inner().unwrap();
    v.sort_by(|a, b| (a.choices.len(), &a.choices).cmp(&(b.choices.len(), &b.choices)));
    Ok((st, v.into_iter().next()))
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

#[allow(clippy::too_many_arguments)]
fn worker(
    fam: &Family,
    fam_idx: usize,
    dev_bound: u32,
    workers: usize,
    w: usize,
    slots: &Slots,
    prog: &Progress,
    pool: &Pool,
    found: &Mutex<Vec<Violation>>,
    total: &Mutex<(Stats, HashSet<u64>)>,
) {
    prog.mine(w);
    let mut body = (fam.make)();
    let mut st = Stats { dev_hist: vec![0; dev_bound as usize + 1], ..Default::default() };
    let mut outcomes: HashSet<u64> = HashSet::new();
    let mut last_outcome = u64::MAX;
    let mut beat = 0u64;
    'tasks: loop {
        // get a subtree
        let task = {
            let mut g = pool.tasks.lock().unwrap();
            loop {
                if pool.stop.load(Relaxed) {
                    break None;
                }
                if let Some(t) = g.0.pop() {
                    pool.hungry.store(g.1.saturating_sub(g.0.len()), Relaxed);
                    break Some(t);
                }
                g.1 += 1;
                if g.1 == workers {
                    pool.stop.store(true, SeqCst);
                    pool.cv.notify_all();
                    break None;
                }
                pool.hungry.store(g.1, Relaxed);
                prog.beat[w].store(u64::MAX, Relaxed);
                g = pool.cv.wait(g).unwrap();
                if pool.stop.load(Relaxed) {
                    break None;
                }
                g.1 -= 1;
            }
        };
        let Some(task) = task else { break };
        let mut ch = Ch::new(dev_bound);
        let mut changed = task.len().saturating_sub(1);
        ch.trace = task;
        let mut publish_from = 0;
        loop {
            ch.restart();
            slots.publish(w, fam_idx as u32, dev_bound, &ch.trace, publish_from);
            let published = ch.trace.len();
            beat = (beat + 1) & (u64::MAX >> 1);
            prog.beat[w].store(beat, Relaxed);
            let r = body(&mut ch);
            assert!(ch.pos >= ch.trace.len(), "{}", DIVERGED);
            st.states += (ch.pos - changed.min(ch.pos)) as u64;
            st.transitions += ch.pos as u64;
            st.max_depth = st.max_depth.max(ch.pos);
            match r {
                Ok(o) => {
                    st.execs += 1;
                    st.dev_hist[ch.dev_used as usize] += 1;
                    if o != last_outcome {
                        last_outcome = o;
                        if outcomes.len() < OUTCOME_CAP {
                            outcomes.insert(o);
                        } else {
                            st.outcomes_capped = true;
                        }
                    }
                    if matches!(st.execs, 7 | 1009 | 100_003) {
                        st.sample_traces.push(ch.choices());
                    }
                }
                Err(Stop::Prune) => st.pruned += 1,
                Err(Stop::Bad(expected, actual)) => {
                    found.lock().unwrap().push(Violation {
                        family: fam.name.clone(),
                        dev_bound,
                        choices: ch.choices(),
                        expected,
                        actual,
                    });
                    pool.stop.store(true, SeqCst);
                    let _g = pool.tasks.lock().unwrap();
                    pool.cv.notify_all();
                }
            }
            if pool.stop.load(Relaxed) {
                break 'tasks;
            }
            if pool.hungry.load(Relaxed) > 0 {
                if let Some(t) = ch.split() {
                    let mut g = pool.tasks.lock().unwrap();
                    g.0.push(t);
                    pool.hungry.store(g.1.saturating_sub(g.0.len()), Relaxed);
                    pool.cv.notify_one();
                }
            }
            match ch.advance() {
                Some(d) => {
                    changed = d;
                    publish_from = d.min(published);
                }
                None => break,
            }
        }
    }
    let mut g = total.lock().unwrap();
    let t = &mut g.0;
    t.states += st.states;
    t.transitions += st.transitions;
    t.execs += st.execs;
    t.pruned += st.pruned;
    t.max_depth = t.max_depth.max(st.max_depth);
    t.outcomes_capped |= st.outcomes_capped;
    if t.dev_hist.len() < st.dev_hist.len() {
        t.dev_hist.resize(st.dev_hist.len(), 0);
    }
    for (i, x) in st.dev_hist.iter().enumerate() {
        t.dev_hist[i] += x;
    }
    t.sample_traces.extend(st.sample_traces);
    g.1.extend(outcomes);
}

/// Executes exactly one choice sequence; also returns the chooser with recorded input and notes.
pub fn run_one(fam: &Family, dev_bound: u32, choices: &[u32]) -> (Step, Ch) {
    let mut ch = Ch::replaying(choices, dev_bound);
    let mut body = (fam.make)();
    let r = body(&mut ch);
    (r, ch)
}

impl Ch {
    pub fn executed(&self) -> Vec<u32> {
        self.choices()
    }
}

/// Ends the process when a worker has been inside one execution for too long:
/// `busy` seconds of its own processor time (so that a loaded machine makes no
/// difference), or `idle` seconds altogether.
pub fn watchdog(prog: std::sync::Arc<Progress>, busy: f64, idle: Duration, on_hang: impl Fn(usize) + Send + 'static) {
    std::thread::spawn(move || {
        let n = prog.beat.len();
        let mut seen: Vec<(u64, Instant, f64)> = vec![(u64::MAX, Instant::now(), 0.0); n];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for w in 0..n {
                let b = prog.beat[w].load(Relaxed);
                if b == u64::MAX || b != seen[w].0 {
                    seen[w] = (b, Instant::now(), if b == u64::MAX { 0.0 } else { prog.used(w) });
                } else if prog.used(w) - seen[w].2 > busy || seen[w].1.elapsed() > idle {
                    on_hang(w);
                    return;
                }
            }
        }
    });
}
