//! A small stateless model checker: exhaustive, parallel depth-first exploration
//! of all choice sequences of a deterministic closure that runs real code.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- hashing

#[derive(Default, Clone)]
pub struct Fx(u64);

impl Hasher for Fx {
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(b) ^ ((c.len() as u64) << 56));
        }
    }
    fn write_u64(&mut self, v: u64) {
        let x = (self.0.rotate_left(23) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 = x ^ (x >> 29);
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = Fx::default();
    v.hash(&mut h);
    h.finish()
}

// --------------------------------------------------------- counting allocator

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
}

/// Counts live allocations of the current thread.
pub struct CountingAlloc;

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            let _ = LIVE.try_with(|c| c.set(c.get() + 1));
            let _ = LIVE_BYTES.try_with(|c| c.set(c.get() + l.size() as i64));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        let _ = LIVE.try_with(|c| c.set(c.get() - 1));
        let _ = LIVE_BYTES.try_with(|c| c.set(c.get() - l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            let _ = LIVE_BYTES.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
        }
        q
    }
}

/// (live blocks, live bytes) of this thread.
pub fn live() -> (i64, i64) {
    (LIVE.with(|c| c.get()), LIVE_BYTES.with(|c| c.get()))
}

// ------------------------------------------------------------------ choices

/// The source of all nondeterminism of an execution.
pub struct Ch<'a> {
    forced: &'a [u32],
    trail: Vec<(u32, u32)>,
}

impl<'a> Ch<'a> {
    fn new(forced: &'a [u32]) -> Ch<'a> {
        Ch {
            forced,
            trail: Vec::with_capacity(64),
        }
    }
    /// Chooses one of `n` alternatives, `0` first.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0 && n <= u32::MAX as usize);
        let i = self.trail.len();
        let c = if i < self.forced.len() {
            let c = self.forced[i];
            if c as usize >= n {
                panic!("replay divergence: choice {} of {} at {}", c, n, i);
            }
            c
        } else {
            0
        };
        self.trail.push((c, n as u32));
        c as usize
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn of<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.pick(xs.len())].clone()
    }
}

pub struct Fail {
    pub key: String,
    pub msg: String,
}

impl From<String> for Fail {
    fn from(msg: String) -> Fail {
        Fail {
            key: String::new(),
            msg,
        }
    }
}

impl From<&str> for Fail {
    fn from(msg: &str) -> Fail {
        Fail::from(msg.to_string())
    }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::Fail::from(format!($($t)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::Fail::from(format!($($t)*))) } };
}

type Set = HashSet<u64, BuildHasherDefault<Fx>>;

/// What an execution observed; accumulated per thread.
#[derive(Default)]
pub struct Obs {
    states: Set,
    transitions: u64,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    nth: u64,
}

impl Obs {
    /// One transition of the system into the (canonically hashed) state.
    pub fn step<T: Hash + ?Sized>(&mut self, state: &T) {
        self.transitions += 1;
        self.states.insert(hash(state));
    }
    /// One transition, already hashed.
    pub fn step_h(&mut self, h: u64) {
        self.transitions += 1;
        self.states.insert(h);
    }
    /// Counts the outcome of an execution.
    pub fn class(&mut self, c: &str) {
        if let Some(x) = self.classes.get_mut(c) {
            *x += 1;
        } else {
            self.classes.insert(c.to_string(), 1);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        // keep the 1st, 10th, 100th, ... execution of each thread
        self.nth += 1;
        let mut p = 1;
        while p < self.nth {
            p *= 10;
        }
        if p == self.nth && self.samples.len() < 8 {
            let mut s = f();
            if s.len() > 400 {
                let mut k = 400;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}

// ------------------------------------------------------------------- panics

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
        } else {
            old(info);
        }
    }));
}

/// Runs code under test; `Err` carries the panic message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|e| {
        drop(e);
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

// ------------------------------------------------------------------ explorer

const SLOT: usize = 4096;
const MAXT: usize = 64;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

struct Slots {
    base: *mut u8,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

impl Slots {
    fn open(path: &str) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .expect("slot file");
        f.set_len((SLOT * MAXT) as u64).unwrap();
        let base = unsafe { mmap(std::ptr::null_mut(), SLOT * MAXT, 3, 1, f.as_raw_fd(), 0) };
        assert!(!base.is_null() && base as isize != -1);
        Slots { base }
    }
    // layout: u32 active, u32 section, u32 len, len * u32
    fn set(&self, t: usize, section: u32, forced: &[u32]) {
        let n = forced.len().min((SLOT - 12) / 4);
        unsafe {
            let p = self.base.add(t * SLOT) as *mut u32;
            p.write_volatile(0);
            p.add(1).write_volatile(section);
            p.add(2).write_volatile(n as u32);
            std::ptr::copy_nonoverlapping(forced.as_ptr(), p.add(3), n);
            p.write_volatile(1);
        }
    }
    fn clear(&self, t: usize) {
        unsafe { (self.base.add(t * SLOT) as *mut u32).write_volatile(0) }
    }
}

struct Violation {
    section: String,
    choices: Vec<u32>,
    key: String,
    msg: String,
}

struct Section {
    name: String,
    bounds: String,
    execs: u64,
    states: u64,
    transitions: u64,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    capped: bool,
    wall: f64,
}

pub struct Runner {
    pub thorough: bool,
    pub seed: u64,
    threads: usize,
    slots: Option<Slots>,
    names_file: Option<String>,
    replay: Option<(String, Vec<u32>)>,
    replayed: bool,
    only: Option<String>,
    sections: Vec<Section>,
    violations: Vec<Violation>,
    all_states: Set,
    started: Instant,
    notes: Vec<String>,
}

struct Watch {
    start: [AtomicU64; MAXT],
}

const HANG_MS: u64 = 30_000;

impl Runner {
    /// Picks a bound by tier.
    pub fn b<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn note(&mut self, s: &str) {
        self.notes.push(s.to_string());
    }

    /// Explores all executions of `f`.
    pub fn section<F>(&mut self, name: &str, bounds: &str, f: F)
    where
        F: Fn(&mut Ch, &mut Obs) -> Res + Sync,
    {
        if let Some((sec, choices)) = &self.replay {
            if sec != name {
                return;
            }
            self.replayed = true;
            let choices = choices.clone();
            let mut obs = Obs::default();
            let mut ch = Ch::new(&choices);
            let r = run_one(&f, &mut ch, &mut obs);
            let trail: Vec<u32> = ch.trail.iter().map(|x| x.0).collect();
            println!("section {} choices {:?}", name, trail);
            for s in &obs.samples {
                println!("case: {}", s);
            }
            match r {
                Ok(()) => println!("REPLAY-OK"),
                Err(e) => {
                    println!("REPLAY-FAIL {}", e.msg);
                    self.violations.push(Violation {
                        section: name.into(),
                        choices: trail,
                        key: e.key,
                        msg: e.msg,
                    });
                }
            }
            return;
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        if let Some(p) = &self.names_file {
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new()
                .create(true)
                .append(true)
                .open(p)
                .expect("names file");
            let _ = writeln!(f, "{}", name);
        }
        let t0 = Instant::now();
        let section_id = self.sections.len() as u32;
        let cap = Duration::from_secs(self.b(150, 600));
        // what is left for the whole run, as told by check.py
        let total = std::env::var("VERIF_BUDGET").ok().and_then(|x| x.parse().ok()).unwrap_or(self.b(600, 2400));
        let deadline = (t0 + cap).min(self.started + Duration::from_secs(total));
        let threads = self.threads;
        let slots = self.slots.as_ref();
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let viols: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
        let base = Instant::now();
        let watch = Watch {
            start: std::array::from_fn(|_| AtomicU64::new(0)),
        };
        let done = AtomicBool::new(false);
        let merged: Mutex<(Obs, u64)> = Mutex::new((Obs::default(), 0));

        let record = |trail: Vec<u32>, e: Fail| {
            let mut v = viols.lock().unwrap();
            v.push(Violation {
                section: name.to_string(),
                choices: trail,
                key: e.key,
                msg: e.msg,
            });
            if v.len() >= 20 {
                stop.store(true, Ordering::Relaxed);
            }
        };

        // watchdog
        let name_s = name.to_string();
        std::thread::scope(|s| {
            let watch = &watch;
            let done = &done;
            s.spawn(move || {
                let mut n = 0;
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(5));
                    n += 1;
                    if n % 50 != 0 {
                        continue;
                    }
                    let now = base.elapsed().as_millis() as u64;
                    for (i, st) in watch.start.iter().enumerate() {
                        let v = st.load(Ordering::Relaxed);
                        if v != 0 && now > v + HANG_MS {
                            eprintln!("HANG thread {} section {}", i, name_s);
                            std::process::exit(77);
                        }
                    }
                }
            });

            // phase 1: split the tree
            let mut prefixes: Vec<Vec<u32>> = vec![vec![]];
            let mut leaves: Vec<Vec<u32>> = vec![];
            {
                let mut scratch = Obs::default();
                let target = threads * 48;
                let mut rounds = 0;
                while prefixes.len() < target && !prefixes.is_empty() && rounds < 24 {
                    rounds += 1;
                    let mut next = vec![];
                    for p in prefixes.drain(..) {
                        if let Some(s) = slots {
                            s.set(0, section_id, &p);
                        }
                        watch.start[0]
                            .store(base.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let mut ch = Ch::new(&p);
                        let _ = run_one(&f, &mut ch, &mut scratch);
                        if ch.trail.len() > p.len() {
                            for c in 0..ch.trail[p.len()].1 {
                                let mut q = p.clone();
                                q.push(c);
                                next.push(q);
                            }
                        } else {
                            leaves.push(p);
                        }
                    }
                    prefixes = next;
                }
                watch.start[0].store(0, Ordering::Relaxed);
                if let Some(s) = slots {
                    s.clear(0);
                }
            }
            leaves.append(&mut prefixes);
            let work = leaves;
            // remaining subtrees, and the number of workers without one
            let next = Mutex::new(work.into_iter().rev().collect::<Vec<_>>());
            let idle = AtomicUsize::new(0);

            std::thread::scope(|s2| {
                for t in 0..threads {
                    let f = &f;
                    let next = &next;
                    let idle = &idle;
                    let stop = &stop;
                    let capped = &capped;
                    let record = &record;
                    let merged = &merged;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s2, move || {
                            let mut obs = Obs::default();
                            let mut execs = 0u64;
                            'outer: loop {
                                let mut waiting = false;
                                let mut cur = loop {
                                    let w = next.lock().unwrap().pop();
                                    if let Some(w) = w {
                                        if waiting {
                                            idle.fetch_sub(1, Ordering::SeqCst);
                                        }
                                        break w;
                                    }
                                    if !waiting {
                                        waiting = true;
                                        idle.fetch_add(1, Ordering::SeqCst);
                                    }
                                    if idle.load(Ordering::SeqCst) == threads || stop.load(Ordering::Relaxed) || capped.load(Ordering::Relaxed) {
                                        break 'outer;
                                    }
                                    std::thread::sleep(Duration::from_micros(200));
                                };
                                let mut fixed = cur.len();
                                loop {
                                    if stop.load(Ordering::Relaxed) {
                                        break 'outer;
                                    }
                                    if execs & 63 == 0 && Instant::now() > deadline {
                                        capped.store(true, Ordering::Relaxed);
                                        break 'outer;
                                    }
                                    if let Some(s) = slots {
                                        s.set(t, section_id, &cur);
                                    }
                                    watch.start[t].store(
                                        base.elapsed().as_millis() as u64 + 1,
                                        Ordering::Relaxed,
                                    );
                                    let mut ch = Ch::new(&cur);
                                    let r = run_one(f, &mut ch, &mut obs);
                                    execs += 1;
                                    let mut trail = std::mem::take(&mut ch.trail);
                                    if let Err(e) = r {
                                        record(trail.iter().map(|x| x.0).collect(), e);
                                    }
                                    // leave the alternatives of the first open choice to others
                                    if idle.load(Ordering::Relaxed) > 0 {
                                        if let Some(l) = (fixed..trail.len()).find(|l| trail[*l].0 + 1 < trail[*l].1) {
                                            let (c, n) = trail[l];
                                            let mut q = next.lock().unwrap();
                                            if q.len() < threads {
                                                for d in (c + 1..n).rev() {
                                                    let mut w: Vec<u32> = trail[..l].iter().map(|x| x.0).collect();
                                                    w.push(d);
                                                    q.push(w);
                                                }
                                                fixed = l + 1;
                                            }
                                        }
                                    }
                                    // next in lexicographic order
                                    loop {
                                        if trail.len() <= fixed {
                                            trail.clear();
                                            break;
                                        }
                                        let (c, n) = *trail.last().unwrap();
                                        if c + 1 < n {
                                            trail.last_mut().unwrap().0 += 1;
                                            break;
                                        }
                                        trail.pop();
                                    }
                                    if trail.is_empty() {
                                        break;
                                    }
                                    cur.clear();
                                    cur.extend(trail.iter().map(|x| x.0));
                                }
                            }
                            watch.start[t].store(0, Ordering::Relaxed);
                            if let Some(s) = slots {
                                s.clear(t);
                            }
                            let mut m = merged.lock().unwrap();
                            m.1 += execs;
                            m.0.transitions += obs.transitions;
                            if m.0.states.is_empty() {
                                m.0.states = obs.states;
                            } else {
                                m.0.states.extend(obs.states);
                            }
                            for (k, v) in obs.classes {
                                *m.0.classes.entry(k).or_insert(0) += v;
                            }
                            if m.0.samples.len() < 6 {
                                m.0.samples.extend(obs.samples.into_iter().rev().take(2));
                            }
                        })
                        .unwrap();
                }
            });
            done.store(true, Ordering::Relaxed);
        });
        let (obs, execs) = merged.into_inner().unwrap();
        let tag = hash(name);
        let nstates = obs.states.len() as u64;
        for h in obs.states {
            self.all_states.insert(h ^ tag);
        }
        let sec = Section {
            name: name.into(),
            bounds: bounds.into(),
            execs,
            states: nstates,
            transitions: obs.transitions,
            classes: obs.classes,
            samples: obs.samples,
            capped: capped.load(Ordering::Relaxed),
            wall: t0.elapsed().as_secs_f64(),
        };
        eprintln!(
            "  {:<28} {:>9} executions {:>9} states {:>10} transitions {:>6.1}s{} {:?}",
            sec.name,
            sec.execs,
            sec.states,
            sec.transitions,
            sec.wall,
            if sec.capped { " CAPPED" } else { "" },
            sec.classes
        );
        self.sections.push(sec);
        let mut v = viols.into_inner().unwrap();
        v.sort_by(|a, b| (a.choices.len(), &a.choices).cmp(&(b.choices.len(), &b.choices)));
        // Confirm: a violation has to be reproducible.
        let mut unstable = 0;
        for mut x in v {
            let mut ok = false;
            for _ in 0..10 {
                let mut ch = Ch::new(&x.choices);
                if let Err(e) = run_one(&f, &mut ch, &mut Obs::default()) {
                    x.msg = e.msg;
                    ok = true;
                    break;
                }
            }
            if !ok {
                unstable += 1;
                self.notes.push(format!(
                    "failure that did not reproduce in {}: {:?} {}",
                    x.section, x.choices, x.msg
                ));
                eprintln!("NOT REPRODUCED {} {:?} {}", x.section, x.choices, x.msg);
                if unstable < 3 {
                    continue;
                }
                x.msg = format!("(unstable) {}", x.msg);
            }
            self.violations.push(x);
        }
    }
}

fn run_one<F>(f: &F, ch: &mut Ch, obs: &mut Obs) -> Res
where
    F: Fn(&mut Ch, &mut Obs) -> Res,
{
    match guard(|| f(ch, obs)) {
        Ok(r) => r,
        Err(p) => Err(Fail::from(format!("panic: {}", p))),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn parse_choices(s: &str) -> Vec<u32> {
    s.split(',')
        .filter(|x| !x.trim().is_empty())
        .map(|x| x.trim().parse().unwrap())
        .collect()
}

pub type Check = fn(&mut Runner);

/// Entry point: `<bin> <ID> <out.json> [--replay SECTION CHOICES] [--slots FILE] [--only X]`
pub fn main(checks: &[(&str, Check)]) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).expect("check id").clone();
    let out = args.get(2).expect("output file").clone();
    let mut replay = None;
    let mut slots = None;
    let mut only = None;
    let mut i = 3;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                replay = Some((args[i + 1].clone(), parse_choices(&args[i + 2])));
                i += 3;
            }
            "--slots" => {
                slots = Some(args[i + 1].clone());
                i += 2;
            }
            "--only" => {
                only = Some(args[i + 1].clone());
                i += 2;
            }
            x => panic!("argument {}", x),
        }
    }
    if std::env::var("MC_NO_RLIMIT").is_err() {
        // address space: runaway allocation becomes an allocation failure
        unsafe { setrlimit(9, &[20u64 << 30, 20u64 << 30]) };
    }
    let thorough = std::env::var("VERIF_TIER").map_or(false, |x| x == "thorough");
    let threads = std::env::var("MC_THREADS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism()
                .map(|x| x.get())
                .unwrap_or(4)
        })
        .clamp(1, 16);
    let f = checks
        .iter()
        .find(|x| x.0 == id)
        .unwrap_or_else(|| panic!("no check {}", id))
        .1;
    let mut r = Runner {
        thorough,
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|x| x.parse().ok())
            .unwrap_or(1),
        threads,
        names_file: slots.as_ref().map(|p| format!("{}.names", p)),
        slots: slots.map(|p| Slots::open(&p)),
        replayed: false,
        replay,
        only,
        sections: vec![],
        violations: vec![],
        all_states: Set::default(),
        started: Instant::now(),
        notes: vec![],
    };
    f(&mut r);
    if r.replay.is_some() {
        if !r.replayed {
            eprintln!("no such section");
            std::process::exit(2);
        }
        std::process::exit(if r.violations.is_empty() { 0 } else { 1 });
    }
    let mut o = String::new();
    o.push_str("{\n");
    let _ = writeln!(o, " \"id\": {},", esc(&id));
    let _ = writeln!(o, " \"states\": {},", r.all_states.len());
    let _ = writeln!(
        o,
        " \"transitions\": {},",
        r.sections.iter().map(|x| x.transitions).sum::<u64>()
    );
    let _ = writeln!(
        o,
        " \"executions\": {},",
        r.sections.iter().map(|x| x.execs).sum::<u64>()
    );
    let _ = writeln!(
        o,
        " \"capped\": {},",
        r.sections.iter().any(|x| x.capped)
    );
    let _ = writeln!(o, " \"wall\": {:.3},", r.started.elapsed().as_secs_f64());
    let _ = writeln!(
        o,
        " \"notes\": [{}],",
        r.notes.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", ")
    );
    o.push_str(" \"sections\": [\n");
    for (i, s) in r.sections.iter().enumerate() {
        let _ = writeln!(
            o,
            "  {{\"name\": {}, \"bounds\": {}, \"executions\": {}, \"states\": {}, \"transitions\": {}, \"capped\": {}, \"wall\": {:.3}, \"outcomes\": {{{}}}, \"samples\": [{}]}}{}",
            esc(&s.name),
            esc(&s.bounds),
            s.execs,
            s.states,
            s.transitions,
            s.capped,
            s.wall,
            s.classes
                .iter()
                .map(|(k, v)| format!("{}: {}", esc(k), v))
                .collect::<Vec<_>>()
                .join(", "),
            s.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", "),
            if i + 1 < r.sections.len() { "," } else { "" }
        );
    }
    o.push_str(" ],\n \"violations\": [\n");
    for (i, v) in r.violations.iter().enumerate() {
        let _ = writeln!(
            o,
            "  {{\"section\": {}, \"choices\": [{}], \"key\": {}, \"msg\": {}}}{}",
            esc(&v.section),
            v.choices
                .iter()
                .map(|x| x.to_string())
                .collect::<Vec<_>>()
                .join(","),
            esc(&v.key),
            esc(&v.msg),
            if i + 1 < r.violations.len() { "," } else { "" }
        );
    }
    o.push_str(" ]\n}\n");
    std::fs::write(&out, o).expect("write result");
    std::process::exit(if r.violations.is_empty() { 0 } else { 1 });
}
