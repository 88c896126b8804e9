//! Exhaustive exploration of token sequences.
//!
//! A `World` is a transition system: a state is a sequence of tokens (rendered between a fixed
//! prefix and suffix), a transition appends one token of the world's alphabet. A state is expanded
//! while the reference grammar says that some continuation of it can be accepted (`viable`), or the
//! implementation accepts it or fails only at its end; every state, viable or not, is handed to the
//! visitor. Nothing is sampled; `depth` is the only bound.

use crate::imp::{self, Imp};
use crate::refjs::{self, Entry, Outcome};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
pub struct World {
    pub name: &'static str,
    pub module: bool,
    pub prefix: &'static str,
    pub suffix: &'static str,
    pub tokens: &'static [&'static str],
    pub quick: usize,
    pub thorough: usize,
    /// How many tokens a dead prefix is still extended by.
    pub dead: usize,
}

impl World {
    pub fn entry(&self) -> Entry {
        if self.module {
            Entry::Module
        } else {
            Entry::Script
        }
    }
}

#[derive(Default, Clone)]
pub struct Counts {
    /// Distinct states reached (token sequences handed to the visitor).
    pub states: u64,
    pub transitions: u64,
    pub viable: u64,
    /// Executions of the implementation compared with the model.
    pub replays: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub unclaimed: u64,
    pub known: BTreeMap<String, (u64, String)>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

impl Counts {
    pub fn add(&mut self, o: &Counts) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.viable += o.viable;
        self.replays += o.replays;
        self.accepted += o.accepted;
        self.rejected += o.rejected;
        self.unclaimed += o.unclaimed;
        for (k, (n, w)) in &o.known {
            let e = self.known.entry(k.clone()).or_insert((0, w.clone()));
            e.0 += n;
            if (w.len(), w) < (e.1.len(), &e.1) {
                e.1 = w.clone();
            }
        }
        for (k, n) in &o.outcomes {
            *self.outcomes.entry(k.clone()).or_default() += n;
        }
        for s in &o.samples {
            if self.samples.len() < 400 && !self.samples.contains(s) {
                self.samples.push(s.clone());
            }
        }
    }
    pub fn outcome(&mut self, k: &str) {
        match self.outcomes.get_mut(k) {
            Some(n) => *n += 1,
            None => {
                self.outcomes.insert(k.to_string(), 1);
            }
        }
    }
    pub fn known(&mut self, id: &str, witness: &str) {
        let e = self.known.entry(id.to_string()).or_insert((0, witness.to_string()));
        e.0 += 1;
        if (witness.len(), witness) < (e.1.len(), e.1.as_str()) {
            e.1 = witness.to_string();
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub world: String,
    pub entry: String,
    pub src: String,
    pub what: String,
}

/// What a visitor may do.
pub struct Obs {
    pub counts: Counts,
    pub violations: Vec<Violation>,
    pub world: String,
    max: usize,
    worker: usize,
}

pub const MAX_WORKERS: usize = 64;
static BUSY_SINCE: [AtomicU64; MAX_WORKERS] = [const { AtomicU64::new(0) }; MAX_WORKERS];
static BUSY_ON: [Mutex<String>; MAX_WORKERS] = [const { Mutex::new(String::new()) }; MAX_WORKERS];

/// Bytes per worker in the file that outlives the exploring process.
pub const SLOT: usize = 8192;

/// The shared mapping of that file (null when there is no supervisor).
fn slots() -> *mut u8 {
    extern "C" {
        fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    }
    static MAP: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *MAP.get_or_init(|| {
        use std::os::fd::AsRawFd;
        let Ok(path) = std::env::var("FAJTMC_SLOTS") else { return 0 };
        let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(path) else { return 0 };
        // PROT_READ|PROT_WRITE, MAP_SHARED
        let p = unsafe { mmap(std::ptr::null_mut(), SLOT * MAX_WORKERS, 3, 1, f.as_raw_fd(), 0) };
        if p as isize == -1 {
            0
        } else {
            p as usize
        }
    }) as *mut u8
}

/// Writes what worker `w` is busy with (nothing: empty) where the supervisor can read it.
fn slot_set(w: usize, entry: &str, src: &str) {
    let p = slots();
    if p.is_null() {
        return;
    }
    let n = entry.len() + 1 + src.len();
    let n = if entry.is_empty() && src.is_empty() || n > SLOT - 8 { 0 } else { n };
    unsafe {
        let base = p.add(w * SLOT);
        if n > 0 {
            std::ptr::copy_nonoverlapping(entry.as_ptr(), base.add(8), entry.len());
            *base.add(8 + entry.len()) = 0;
            std::ptr::copy_nonoverlapping(src.as_ptr(), base.add(9 + entry.len()), src.len());
        }
        std::ptr::write_volatile(base as *mut u64, n as u64);
    }
}

pub fn read_slots(data: &[u8]) -> Vec<String> {
    let mut v = vec![];
    for s in data.chunks(SLOT) {
        let n = u64::from_le_bytes(s[..8].try_into().unwrap()) as usize;
        if n > 0 && n <= SLOT - 8 {
            v.push(String::from_utf8_lossy(&s[8..8 + n]).into_owned());
        }
    }
    v
}

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

impl Obs {
    pub fn new(worker: usize, world: &str) -> Obs {
        Obs { counts: Counts::default(), violations: vec![], world: world.into(), max: 200, worker }
    }
    pub fn violation(&mut self, entry: impl Into<String>, src: impl Into<String>, what: impl Into<String>) {
        let v = Violation { world: self.world.clone(), entry: entry.into(), src: src.into(), what: what.into() };
        self.violations.push(v);
        if self.violations.len() > self.max * 4 {
            self.violations.sort_by_key(|v| (v.src.len(), v.src.clone()));
            self.violations.truncate(self.max);
        }
    }
    /// Keeps a few of the inputs seen, the last ones being the longest.
    pub fn sample(&mut self, src: &str) {
        let s = &mut self.counts.samples;
        if s.len() < 2 {
            s.push(src.to_string());
        } else if src.len() > s[1].len() {
            s[1] = src.to_string();
        }
    }
    /// Marks the start of a call that must return; `src` is named when it does not.
    pub fn start(&self, entry: &str, src: &str) {
        {
            let mut g = BUSY_ON[self.worker].lock().unwrap();
            g.clear();
            g.push_str(entry);
            g.push('\0');
            g.push_str(src);
        }
        slot_set(self.worker, entry, src);
        BUSY_SINCE[self.worker].store(now_ms(), Ordering::Relaxed);
    }
    pub fn done(&self) {
        slot_set(self.worker, "", "");
        BUSY_SINCE[self.worker].store(0, Ordering::Relaxed);
    }
}

pub fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, MAX_WORKERS)
}

/// Calls `hang` when one input keeps a worker busy for `secs` seconds.
pub fn watchdog(secs: u64, hang: impl Fn(&str) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        for w in 0..MAX_WORKERS {
            let t = BUSY_SINCE[w].load(Ordering::Relaxed);
            if t != 0 && now_ms() > t + secs * 1000 {
                let src = BUSY_ON[w].lock().unwrap().clone();
                hang(&src);
            }
        }
    });
}

pub fn render(w: &World, path: &[u8], with_suffix: bool, buf: &mut String) {
    buf.clear();
    buf.push_str(w.prefix);
    for (i, &t) in path.iter().enumerate() {
        let t = w.tokens[t as usize];
        if i > 0 && t != "\n" && !buf.ends_with('\n') {
            buf.push(' ');
        }
        buf.push_str(t);
    }
    if with_suffix {
        buf.push_str(w.suffix);
    }
}

/// Runs `f(worker, item)` for every item, in parallel, on big stacks.
pub fn parallel<T: Sync, R: Send>(items: &[T], f: impl Fn(usize, usize, &T) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, R)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for w in 0..workers() {
            let (next, out, f) = (&next, &out, &f);
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, move || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= items.len() {
                        return;
                    }
                    let r = f(w, i, &items[i]);
                    out.lock().unwrap().push((i, r));
                })
                .expect("thread");
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

pub type Visit<'a> = dyn Fn(&mut Obs, &World, &str, &Outcome) + Sync + 'a;

struct Walk<'a> {
    w: &'a World,
    depth: usize,
    /// Depth at which the main thread hands the subtree to a worker.
    split: usize,
    visit: &'a Visit<'a>,
}

type Item = (Vec<u8>, usize);

impl Walk<'_> {
    /// `dead`: how many more tokens a dead sequence may be extended by (`w.dead` while alive).
    fn walk(&self, path: &mut Vec<u8>, alive: bool, dead: usize, buf: &mut String, o: &mut Obs, items: &mut Vec<Item>) {
        let w = self.w;
        render(w, path, false, buf);
        let mut r = refjs::parse(buf, w.entry());
        let alive = alive && (r.viable || self.implementation_goes_on(o, buf));
        o.counts.states += 1;
        o.counts.transitions += !path.is_empty() as u64;
        o.counts.viable += alive as u64;
        if !w.suffix.is_empty() {
            buf.push_str(w.suffix);
            r = refjs::parse(buf, w.entry());
        }
        (self.visit)(o, w, buf, &r);
        if path.len() >= self.depth || (!alive && dead == 0) {
            return;
        }
        let dead = if alive { dead } else { dead - 1 };
        for t in 0..w.tokens.len() {
            path.push(t as u8);
            if renderable(w, path) {
                if path.len() == self.split {
                    items.push((path.clone(), if alive { usize::MAX } else { dead }));
                } else {
                    self.walk(path, alive, dead, buf, o, items);
                }
            }
            path.pop();
        }
    }
}

impl Walk<'_> {
    fn implementation_goes_on(&self, o: &Obs, src: &str) -> bool {
        o.start(crate::grammar::entry_name(self.w.entry()), src);
        let r = imp::parse(src, self.w.entry(), self.w.module);
        o.done();
        match r {
            Imp::Tree(_) => true,
            Imp::Rejected(e) => imp::at_end(&e),
            Imp::Panicked(_) => false,
        }
    }
}

/// Two line breaks in a row render the same as one for every property explored with worlds, and a
/// leading one is the state without it.
fn renderable(w: &World, path: &[u8]) -> bool {
    let nl = |i: usize| w.tokens[path[i] as usize] == "\n";
    let n = path.len();
    !(nl(n - 1) && (n == 1 || nl(n - 2)))
}

pub fn explore(w: &World, depth: usize, visit: &Visit) -> (Counts, Vec<Violation>) {
    let split = if depth >= 3 { 2 } else { usize::MAX };
    let top = Walk { w, depth, split, visit };
    let mut o = Obs::new(MAX_WORKERS - 1, w.name);
    let mut items = vec![];
    top.walk(&mut vec![], true, w.dead, &mut String::new(), &mut o, &mut items);
    let res = parallel(&items, |wk, _, (path, dead)| {
        let mut o = Obs::new(wk, w.name);
        let inner = Walk { w, depth, split: usize::MAX, visit };
        let alive = *dead == usize::MAX;
        let dead = if alive { w.dead } else { *dead };
        inner.walk(&mut path.clone(), alive, dead, &mut String::new(), &mut o, &mut vec![]);
        o
    });
    let mut c = o.counts;
    let mut v = o.violations;
    for o in res {
        c.add(&o.counts);
        v.extend(o.violations);
    }
    v.sort_by_key(|v| (v.src.len(), v.src.clone()));
    (c, v)
}
