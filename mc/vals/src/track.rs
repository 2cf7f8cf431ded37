//! Bookkeeping for instrumented user code: which objects are alive, what they
//! borrow from, which callbacks were made, and fault injection.
use deser::{Error, ErrorKind};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::hash::BuildHasherDefault;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    // serialization
    Serialize,
    Finish,
    Next,
    NextKey,
    NextValue,
    // deserialization
    Atom,
    Map,
    Seq,
    KeySink,
    ValueSink,
    Done,
}

pub const KINDS: [ErrorKind; 6] = [
    ErrorKind::UnsupportedType,
    ErrorKind::Unexpected,
    ErrorKind::MissingField,
    ErrorKind::OutOfRange,
    ErrorKind::WrongLength,
    ErrorKind::EndOfFile,
];

#[derive(Default)]
pub struct Track {
    live: HashMap<u64, (u64, &'static str), BuildHasherDefault<mc_core::Fx>>,
    kids: HashMap<u64, u32, BuildHasherDefault<mc_core::Fx>>,
    next: u64,
    bad: Vec<String>,
    pub log: Vec<(Op, u64)>,
    calls: u32,
    faults: Vec<u32>,
    panic_at: Option<u32>,
    pub fired: Vec<u32>,
    pub max_live: usize,
}

thread_local! {
    static T: RefCell<Track> = RefCell::new(Track::default());
}

pub fn with<R>(f: impl FnOnce(&mut Track) -> R) -> R {
    T.with(|t| f(&mut t.borrow_mut()))
}

/// Starts a new execution; callbacks number `faults` (from 0) will fail.
pub fn reset(faults: &[u32]) {
    with(|t| {
        t.live.clear();
        t.kids.clear();
        t.bad.clear();
        t.log.clear();
        t.calls = 0;
        t.fired.clear();
        t.max_live = 0;
        t.faults.clear();
        t.faults.extend_from_slice(faults);
        t.panic_at = None;
        // identities are never reused
    });
}

/// Starts counting callbacks again, without forgetting what is alive.
pub fn rearm(faults: &[u32]) {
    with(|t| {
        t.log.clear();
        t.calls = 0;
        t.fired.clear();
        t.faults.clear();
        t.faults.extend_from_slice(faults);
        t.panic_at = None;
    });
}

/// Frees everything so that allocation balances can be taken.
pub fn release() {
    with(|t| {
        let n = t.next;
        *t = Track::default();
        t.next = n;
    });
}

pub fn bad(s: String) {
    with(|t| {
        if t.bad.len() < 8 {
            t.bad.push(s)
        }
    });
}

/// What went wrong so far.
pub fn badness() -> Option<String> {
    with(|t| {
        if t.bad.is_empty() {
            None
        } else {
            Some(t.bad.join("; "))
        }
    })
}

pub fn alive() -> usize {
    with(|t| t.live.len())
}

pub fn alive_text() -> String {
    with(|t| {
        let mut v: Vec<_> = t.live.iter().map(|(k, v)| format!("{} #{}", v.1, k)).collect();
        v.sort();
        v.truncate(5);
        v.join(", ")
    })
}

/// A new object that borrows from `parent` (0 for nothing).
pub fn born(what: &'static str, parent: u64) -> u64 {
    with(|t| {
        t.next += 1;
        let id = t.next;
        if parent != 0 {
            if !t.live.contains_key(&parent) {
                t.bad.push(format!("{} created from a dead object", what));
            }
            *t.kids.entry(parent).or_insert(0) += 1;
        }
        t.live.insert(id, (parent, what));
        t.max_live = t.max_live.max(t.live.len());
        id
    })
}

pub fn died(id: u64) {
    with(|t| match t.live.remove(&id) {
        None => t.bad.push(format!("object #{} dropped twice or never created", id)),
        Some((parent, what)) => {
            if let Some(n) = t.kids.get_mut(&parent) {
                *n -= 1;
                if *n == 0 {
                    t.kids.remove(&parent);
                }
            }
            if t.kids.contains_key(&id) {
                t.bad
                    .push(format!("{} dropped before what borrows from it", what));
            }
        }
    })
}

/// The object is used exclusively: nothing may borrow from it now.
pub fn used_mut(id: u64) {
    with(|t| {
        if !t.live.contains_key(&id) {
            t.bad.push(format!("object #{} used after drop", id));
        } else if t.kids.contains_key(&id) {
            let w = t.live[&id].1;
            t.bad
                .push(format!("{} used while something borrows from it", w));
        }
    })
}

pub fn used(id: u64) {
    with(|t| {
        if !t.live.contains_key(&id) {
            t.bad.push(format!("object #{} used after drop", id));
        }
    })
}

#[derive(Debug)]
pub struct Source(pub u32);

impl fmt::Display for Source {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "source {}", self.0)
    }
}

impl std::error::Error for Source {}

pub fn fault_error(n: u32) -> Error {
    let e = Error::new(KINDS[n as usize % 6], format!("fault {}", n));
    if n % 2 == 0 {
        e.with_source(Source(n))
    } else {
        e
    }
}

/// Whether `e` is exactly the error of fault `n`.
pub fn is_fault(e: &Error, n: u32) -> bool {
    use std::error::Error as _;
    e.kind() == KINDS[n as usize % 6]
        && e.to_string() == fault_error(n).to_string()
        && match e.source() {
            None => n % 2 == 1,
            Some(s) => n % 2 == 0 && s.downcast_ref::<Source>().map_or(false, |s| s.0 == n),
        }
}

/// Callback number `n` will panic.
pub fn panic_at(n: u32) {
    with(|t| t.panic_at = Some(n));
}

/// Logs a callback, and fails if a fault is scheduled.
pub fn call(op: Op, id: u64) -> Result<(), Error> {
    if with(|t| {
        let hit = t.panic_at == Some(t.calls);
        if hit {
            t.panic_at = None;
        }
        hit
    }) {
        panic!("injected panic");
    }
    with(|t| {
        t.log.push((op, id));
        let n = t.calls;
        t.calls += 1;
        if t.faults.contains(&n) {
            t.fired.push(n);
            Err(fault_error(n))
        } else {
            Ok(())
        }
    })
}

pub fn calls() -> u32 {
    with(|t| t.calls)
}

pub fn take_log() -> Vec<(Op, u64)> {
    with(|t| std::mem::take(&mut t.log))
}

pub fn fired() -> Vec<u32> {
    with(|t| t.fired.clone())
}

/// Number of logged callbacks.
pub fn logged() -> usize {
    with(|t| t.log.len())
}

pub fn log_copy() -> Vec<(Op, u64)> {
    with(|t| t.log.clone())
}
