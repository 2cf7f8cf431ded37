//! C12, C13 and the deserialization half of C14, C15 and C16.
use crate::ser::{balanced, SMALL};
use deser::de::{Deserialize, DeserializeDriver, OwnedSink, Sink, SinkHandle};
use deser::{Atom, Event};
use mc_core::{ensure, fail, guard, hash, Ch, Obs, Res, Runner};
use mc_vals::dty::*;
use mc_vals::gen::HMap;
use mc_vals::ide::{self, de_tree, expect_de, ladder, pattern, set_styles, wide, DStyle, ExpDe, Pda, TSink, Tr, DSTYLES};
use mc_vals::track::{self, Op};
use mc_vals::{Ev, Leaf, Val};
use std::collections::{BTreeMap, BTreeSet, HashSet};

fn badness() -> Res {
    match track::badness() {
        Some(b) => fail!("{}", b),
        None => Ok(()),
    }
}

/// The slot or sink that receives the root value.
pub enum Target {
    Handle(TSink<'static>),
    Borrowed(TSink<'static>),
    Slot(Option<Tr>),
    Opt(Option<Option<Tr>>),
    Boxed(Option<Box<Tr>>),
    OptBoxed(Option<Option<Box<Tr>>>),
    Null,
}

pub const TARGETS: usize = 7;

impl Target {
    pub fn new(k: usize) -> Target {
        match k {
            0 => Target::Handle(TSink::root()),
            1 => Target::Borrowed(TSink::root()),
            2 => Target::Slot(None),
            3 => Target::Opt(None),
            4 => Target::Boxed(None),
            5 => Target::OptBoxed(None),
            _ => Target::Null,
        }
    }
    pub fn style(k: usize) -> DStyle {
        match k {
            0..=2 => DStyle::Owned,
            3 => DStyle::Opt,
            4 => DStyle::Boxed,
            5 => DStyle::OptBoxed,
            _ => DStyle::Null,
        }
    }
    /// Runs `f` with a driver for the target, and drops the driver.
    pub fn drive<R>(&mut self, f: impl FnOnce(&mut DeserializeDriver) -> R) -> R {
        ide::root_next();
        match self {
            Target::Handle(x) => {
                let sink = std::mem::replace(x, TSink::root());
                let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(sink));
                f(&mut d)
            }
            Target::Borrowed(x) => {
                let mut d = DeserializeDriver::from_sink(SinkHandle::to(x));
                f(&mut d)
            }
            Target::Slot(x) => f(&mut DeserializeDriver::new(x)),
            Target::Opt(x) => f(&mut DeserializeDriver::new(x)),
            Target::Boxed(x) => f(&mut DeserializeDriver::new(x)),
            Target::OptBoxed(x) => f(&mut DeserializeDriver::new(x)),
            Target::Null => f(&mut DeserializeDriver::from_sink(SinkHandle::null())),
        }
    }
    /// Whether the slot was filled (if there is one).
    pub fn filled(&self) -> Option<bool> {
        match self {
            Target::Slot(x) => Some(x.is_some()),
            Target::Boxed(x) => Some(x.is_some()),
            _ => None,
        }
    }
}

fn one_leaf(_: &mut Ch) -> Leaf {
    Leaf::U64(7)
}

fn null_leaf(ch: &mut Ch) -> Leaf {
    if ch.flag() {
        Leaf::Null
    } else {
        Leaf::U64(7)
    }
}

fn rotate(ch: &mut Ch) -> Vec<DStyle> {
    let base = ch.pick(DSTYLES.len());
    let step = ch.pick(3);
    // the null sink only in one rotation, as it hides its contents
    let n = if step == 0 { DSTYLES.len() } else { DSTYLES.len() - 1 };
    (0..3000).map(|i| DSTYLES[(base + i * step) % n]).collect()
}

/// Sends a whole value and compares all callbacks and visible state.
fn full(v: &Val, k: usize, styles: &[DStyle], what: &dyn Fn() -> String, o: &mut Obs) -> Res {
    let exp = expect_de(v, Target::style(k), styles);
    let evs = v.evs();
    track::reset(&[]);
    set_styles(styles);
    let mut t = Target::new(k);
    t.drive(|d| -> Res {
        ensure!(d.state().depth() == 0 && d.state().top_descriptor().is_none(), "visible state before the start");
        for (i, e) in evs.iter().enumerate() {
            if let Err(x) = d.emit(e.event()) {
                fail!("{}: event {} gives unprovoked error {}", what(), i, x);
            }
            let (calls, depth, ref top) = exp.after[i];
            let got = track::logged();
            if got != calls {
                let log = track::take_log();
                fail!(
                    "{}: after event {}: callbacks {:?}, expected {:?}",
                    what(),
                    i,
                    &log[got.min(calls).saturating_sub(1)..],
                    &exp.calls[got.min(calls).saturating_sub(1)..calls]
                );
            }
            ensure!(
                d.state().depth() == depth,
                "{}: depth {} after event {}, expected {}",
                what(),
                d.state().depth(),
                i,
                depth
            );
            let n = d.state().top_descriptor().map(|x| x.name().map(|x| x.to_string()));
            let want = if depth == 0 { None } else { Some(top.clone()) };
            ensure!(
                n == want,
                "{}: innermost descriptor {:?} after event {}, expected {:?}",
                what(),
                n,
                i,
                want
            );
            o.step_h(hash(&(i, calls, depth, top)));
        }
        Ok(())
    })?;
    let log = track::take_log();
    if log != exp.calls {
        let i = log.iter().zip(&exp.calls).take_while(|(a, b)| a == b).count();
        fail!("{}: callback {} is {:?}, expected {:?}", what(), i, log.get(i), exp.calls.get(i));
    }
    let atoms = ide::take_atoms();
    ensure!(
        atoms == exp.atoms,
        "{}: sinks received {:?}, expected {:?}",
        what(),
        atoms,
        exp.atoms
    );
    if let Some(f) = t.filled() {
        ensure!(f, "{}: nothing in the slot", what());
    }
    drop(t);
    badness()?;
    ensure!(track::alive() == 0, "{}: left over: {}", what(), track::alive_text());
    Ok(())
}

pub fn c12(r: &mut Runner) {
    let n = r.b(4, 6);
    r.section(
        "trees",
        &format!("all trees of <= {} nested values (containers as keys included), nesting <= 3, null and non-null leaves, 7 kinds of root, sink kinds in rotation", n),
        |ch, o| {
            let mut b = n;
            let v = de_tree(ch, &mut b, 3, &mut null_leaf);
            let k = ch.pick(TARGETS);
            let st = rotate(ch);
            o.sample(|| v.show());
            full(&v, k, &st, &|| v.show(), o)
        },
    );
    let m = r.b(4, 5);
    r.section(
        "styles",
        &format!("all trees of <= {} nested values, one leaf, every assignment of 6 sink kinds", m),
        |ch, o| {
            let mut b = m;
            let v = de_tree(ch, &mut b, 3, &mut one_leaf);
            let st: Vec<DStyle> = (0..ide::size(&v)).map(|_| ch.of(&DSTYLES)).collect();
            let k = ch.of(&[0, 2, 5]);
            full(&v, k, &st, &|| format!("{} {:?}", v.show(), st), o)
        },
    );
    r.section("leaves", "all trees of <= 2 nested values, 8 kinds of leaf, all roots", |ch, o| {
        let mut b = 2;
        let v = de_tree(ch, &mut b, 2, &mut crate::ser::any_leaf);
        let k = ch.pick(TARGETS);
        let st = ch.of(&DSTYLES);
        full(&v, k, &[st; 2], &|| v.show(), o)
    });
    let ds: Vec<usize> = r.b(
        vec![1, 2, 8, 63, 64, 65, 126, 127, 128, 129, 130, 256, 257, 1000],
        vec![1, 2, 8, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1000, 2000],
    );
    r.section(
        "deep",
        &format!("nesting patterns of period <= 2, depths {:?}, all sink kinds", ds),
        |ch, o| {
            let p = pattern(ch);
            let v = ladder(&p, ch.of(&ds));
            let st = if ch.flag() { rotate(ch) } else { vec![ch.of(&DSTYLES); 6000] };
            let k = ch.of(&[0, 2, 4]);
            full(&v, k, &st, &|| format!("pattern {:?}", p), o)
        },
    );
    let m = r.b(5, 6);
    r.section("derived", &format!("{} types of derived structs, newtypes and flattened fields: all streams of their shape with <= {} members and elements in all, nested ones included: known names, aliases and an unknown one in any order and mixture", SHAPED.len(), m), |ch, o| {
        SHAPED[ch.pick(SHAPED.len())](ch, m, o)
    });
    r.section("derived deep", "the same types, complete values in 8 orders, every member holding values nested 0, 1, 2, 60, 126..128 or 300 deep in 5 ways", |ch, o| {
        SHAPED[ch.pick(SHAPED.len())](ch, 0, o)
    });
    r.section("wide", "n elements for n < 70, 127..129, 1000, 4097, 65537; 3 kinds, all sink kinds", |ch, o| {
        let k = ch.pick(3);
        let n = ch.pick(if SMALL { 74 } else { 76 });
        let n = if n < 70 { n } else { [127, 128, 129, 1000, 4097, 65537][n - 70] };
        let v = wide(k, n);
        let st = vec![ch.of(&DSTYLES); 3 * n + 10];
        let root = ch.of(&[0, 2]);
        full(&v, root, &st, &|| format!("wide {} {}", k, n), o)
    });
}

// ------------------------------------------------------------------- C13

fn alphabet() -> Vec<Ev> {
    vec![
        Ev::A(Leaf::U64(7)),
        Ev::Ms,
        Ev::Me,
        Ev::Ss,
        Ev::Se,
        Ev::A(Leaf::Null),
        Ev::A(Leaf::s("k")),
    ]
}

/// Sends one event that the automaton accepts or refuses.
fn judge(d: &mut DeserializeDriver, p: &mut Pda, e: &Ev, o: &mut Obs) -> Result<bool, mc_core::Fail> {
    let before = track::logged();
    let depth = d.state().depth();
    let ok = p.accept(e);
    o.step(p);
    match guard(|| d.emit(e.event())) {
        Ok(Ok(())) => {
            ensure!(ok, "{:?} accepted, although it cannot occur here", e);
            Ok(true)
        }
        Ok(Err(x)) => fail!("{:?} gives error {}", e, x),
        Err(m) => {
            ensure!(!ok, "{:?} panics, although it can occur here: {}", e, m);
            ensure!(
                track::logged() == before,
                "callbacks {:?} for the refused event {:?}",
                &track::take_log()[before..],
                e
            );
            let _ = depth;
            o.class("refused");
            Ok(false)
        }
    }
}

pub fn c13(r: &mut Runner) {
    let len = r.b(7, 9);
    let n = r.b(5, 5);
    r.section(
        "sequences",
        &format!("all sequences of <= {} events over {} kinds up to the first refused one; 7 kinds of root, 3 assignments of sink kinds", len, n),
        |ch, o| {
            let al = alphabet();
            let k = ch.pick(TARGETS);
            let st = ch.of(&[DStyle::Owned, DStyle::Slot, DStyle::Null]);
            track::reset(&[]);
            set_styles(&vec![st; 16]);
            let mut t = Target::new(k);
            let mut p = Pda::new();
            let r = t.drive(|d| -> Res {
                let mut sent = vec![];
                for _ in 0..len {
                    let e = &al[ch.pick(n)];
                    sent.push(e.clone());
                    match judge(d, &mut p, e, o) {
                        Ok(true) => {}
                        Ok(false) => break,
                        Err(f) => fail!("after {}: {}", mc_vals::show(&sent[..sent.len() - 1]), f.msg),
                    }
                }
                Ok(())
            });
            r?;
            if p.done {
                o.class("complete");
            }
            drop(t);
            badness()
        },
    );
    r.section("kinds", "all sequences of <= 5 events over all 7 kinds of event, with all sink kinds", |ch, o| {
        let al = alphabet();
        track::reset(&[]);
        let st = ch.of(&DSTYLES);
        set_styles(&vec![st; 16]);
        let mut t = Target::new(ch.of(&[2, 3, 4]));
        let mut p = Pda::new();
        t.drive(|d| -> Res {
            for _ in 0..5 {
                if !judge(d, &mut p, &ch.of(&al), o)? {
                    break;
                }
            }
            Ok(())
        })?;
        drop(t);
        badness()
    });
    let ds = r.b(vec![1, 2, 63, 64, 127, 128, 129, 130, 257, 1000], vec![1, 2, 3, 4, 8, 16, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 1000, 5000]);
    r.section(
        "deep",
        &format!("every position of a nested value with a pattern of period <= 2 at depths {:?} (all positions up to 130, then the last 40), followed by every event", ds),
        |ch, o| {
            let p = pattern(ch);
            let evs = ladder(&p, ch.of(&ds)).evs();
            let n = evs.len();
            let at = if n < 260 { ch.pick(n + 1) } else { n - ch.pick(41) };
            let al = alphabet();
            track::reset(&[]);
            set_styles(&[]);
            let mut t = Target::new(0);
            t.drive(|d| -> Res {
                let mut p = Pda::new();
                for e in &evs[..at] {
                    ensure!(judge(d, &mut p, e, o)?, "refused a valid event");
                }
                judge(d, &mut p, &ch.of(&al), o)?;
                Ok(())
            })?;
            drop(t);
            badness()
        },
    );
    r.section("long", "every event after 0..400 elements of a sequence or members of a map", |ch, o| {
        let map = ch.flag();
        let n = ch.pick(401);
        let al = alphabet();
        track::reset(&[]);
        set_styles(&[]);
        let mut t = Target::new(0);
        t.drive(|d| -> Res {
            let mut p = Pda::new();
            judge(d, &mut p, if map { &Ev::Ms } else { &Ev::Ss }, o)?;
            for _ in 0..n {
                judge(d, &mut p, &al[0], o)?;
            }
            judge(d, &mut p, &ch.of(&al), o)?;
            Ok(())
        })?;
        badness()
    });
    r.section("typed", "standard containers as targets: all sequences of <= 5 events, refused exactly when they cannot occur (values of the wrong shape are errors)", |ch, o| {
        let f = ch.of(TYPED);
        f.1(ch, 5, true, &[], o)
    });
    let dl = r.b(6, 7);
    r.section("typed derived", &format!("{} types of derived structs, newtypes and flattened fields and 3 keys: all sequences of <= {} events", DERIVED.len(), dl), |ch, o| {
        let f = ch.of(DERIVED);
        f.1(ch, dl, true, KEYS, o)
    });
}

// ------------------------------------------------------------------- C14

fn faulty(ch: &mut Ch, v: &Val, k: usize, styles: &[DStyle], o: &mut Obs) -> Res {
    let exp: ExpDe = expect_de(v, Target::style(k), styles);
    if exp.calls.is_empty() {
        return Ok(());
    }
    let n = ch.pick(exp.calls.len());
    let what = || format!("{} with callback {} {:?} failing", v.show(), n, exp.calls[n].0);
    let evs = v.evs();
    track::reset(&[n as u32]);
    set_styles(styles);
    let mut t = Target::new(k);
    t.drive(|d| -> Res {
        for (i, e) in evs.iter().enumerate() {
            let r = match guard(|| d.emit(e.event())) {
                Ok(r) => r,
                Err(m) => fail!("{}: panic {}", what(), m),
            };
            let due = exp.after[i].0 > n;
            o.step_h(hash(&(i, exp.after[i].0, n)));
            match r {
                Ok(()) => ensure!(!due, "{}: event {} reports nothing", what(), i),
                Err(x) => {
                    ensure!(due, "{}: error {} before", what(), x);
                    ensure!(
                        track::is_fault(&x, n as u32),
                        "{}: expected {:?}, got {:?}",
                        what(),
                        track::fault_error(n as u32),
                        x
                    );
                    let log = track::log_copy();
                    ensure!(
                        log[..] == exp.calls[..n + 1],
                        "{}: callbacks after it: {:?}",
                        what(),
                        &log[log.len().min(n + 1)..]
                    );
                    return Ok(());
                }
            }
        }
        fail!("{}: nothing reported", what())
    })?;
    ensure!(track::logged() == n + 1, "{}: callbacks while dropping the driver", what());
    if t.filled() == Some(true) {
        fail!("{}: a value in the slot of a failed deserialization", what());
    }
    drop(t);
    badness()
}

pub fn json_text(v: &Val, out: &mut String) {
    match v {
        Val::L(Leaf::U64(x)) => out.push_str(&x.to_string()),
        Val::L(Leaf::Str(x)) => {
            out.push('"');
            out.push_str(x);
            out.push('"');
        }
        Val::L(_) => out.push_str("null"),
        Val::Seq(x) => {
            out.push('[');
            for (i, x) in x.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                json_text(x, out);
            }
            out.push(']');
        }
        Val::Map(x) => {
            out.push('{');
            for (i, (k, x)) in x.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                json_text(k, out);
                out.push(':');
                json_text(x, out);
            }
            out.push('}');
        }
    }
}

fn str_keys(v: &Val) -> bool {
    match v {
        Val::L(_) => true,
        Val::Seq(x) => x.iter().all(str_keys),
        Val::Map(x) => x.iter().all(|(k, x)| matches!(k, Val::L(Leaf::Str(_))) && str_keys(x)),
    }
}

fn read<T: Deserialize>(text: &str) -> Result<bool, deser::Error> {
    ide::root_next();
    deser_json::from_str::<T>(text).map(|_| true)
}

pub fn c14(r: &mut Runner) {
    let n = r.b(4, 5);
    r.section(
        "de trees",
        &format!("all trees of <= {} nested values, null and other leaves, 6 roots, sink kinds in rotation, every callback failing in turn", n),
        |ch, o| {
            let mut b = n;
            let v = de_tree(ch, &mut b, 3, &mut null_leaf);
            let k = ch.pick(TARGETS - 1);
            let st = rotate(ch);
            o.sample(|| v.show());
            faulty(ch, &v, k, &st, o)
        },
    );
    r.section("de styles", "all trees of <= 3 nested values, every assignment of 6 sink kinds, every callback failing in turn", |ch, o| {
        let mut b = 3;
        let v = de_tree(ch, &mut b, 3, &mut one_leaf);
        let st: Vec<DStyle> = (0..ide::size(&v)).map(|_| ch.of(&DSTYLES)).collect();
        let k = ch.of(&[0, 2, 5]);
        faulty(ch, &v, k, &st, o)
    });
    r.section("de json", "the JSON reader: all trees of <= 4 nested values with string keys, every callback failing in turn; the error comes back and no value", |ch, o| {
        let mut b = 4;
        let v = de_tree(ch, &mut b, 3, &mut |ch| ch.of(&[Leaf::s("k"), Leaf::U64(1)]));
        if !str_keys(&v) {
            return Ok(());
        }
        let mut text = String::new();
        json_text(&v, &mut text);
        let k = 2 + ch.pick(4);
        let st = rotate(ch);
        let exp = expect_de(&v, Target::style(k), &st);
        let n = ch.pick(exp.calls.len() + 1);
        track::reset(&[n as u32]);
        set_styles(&st);
        let r = match k {
            2 => read::<Tr>(&text),
            3 => read::<Option<Tr>>(&text),
            4 => read::<Box<Tr>>(&text),
            _ => read::<Option<Box<Tr>>>(&text),
        };
        o.step_h(hash(&(&text, n)));
        match r {
            Ok(_) => ensure!(n == exp.calls.len(), "{}: callback {} failed but a value is returned", text, n),
            Err(e) => {
                ensure!(n < exp.calls.len(), "{}: unprovoked error {}", text, e);
                ensure!(track::is_fault(&e, n as u32), "{}: expected {:?}, got {:?}", text, track::fault_error(n as u32), e);
                ensure!(track::logged() == n + 1, "{}: callbacks after the error", text);
                o.class("fault surfaced");
            }
        }
        badness()
    });
    let len = r.b(7, 8);
    r.section(
        "de typed",
        &format!("{} standard containers of instrumented values: all valid event sequences of <= {} events over 2 atoms, every callback failing in turn", TYPED.len(), len),
        |ch, o| {
            let f = ch.of(TYPED);
            f.1(ch, len, false, &[], o)
        },
    );
    let len = r.b(8, 9);
    r.section(
        "de derived",
        &format!("{} types with derived structs, newtypes and flattened fields: all valid event sequences of <= {} events over 3 keys and 2 other atoms, every callback failing in turn", DERIVED.len(), len),
        |ch, o| {
            let f = ch.of(DERIVED);
            f.1(ch, len, false, KEYS, o)
        },
    );
    r.section("de deep", "nesting depths 1, 127..129 and 300, 5 patterns, every callback failing in turn", |ch, o| {
        let v = ladder(&[ch.pick(5)], ch.of(&[1, 127, 128, 129, 300]));
        let st = vec![ch.of(&[DStyle::Owned, DStyle::Slot, DStyle::OptBoxed]); 2000];
        faulty(ch, &v, 0, &st, o)
    });
}

// ------------------------------------------------- typed containers (C13-C16)

type Typed = fn(&mut Ch, usize, bool, &[&str], &mut Obs) -> Res;

/// All event sequences into a standard container of tracked values. With
/// `refuse` also events that cannot occur, otherwise failing callbacks.
fn typed<T: Deserialize>(ch: &mut Ch, len: usize, refuse: bool, keys: &[&str], o: &mut Obs) -> Res {
    let fault = if refuse { u32::MAX } else { ch.pick(7) as u32 };
    let mut al = vec![
        Ev::A(Leaf::U64(1)),
        Ev::Ss,
        Ev::Ms,
        Ev::Se,
        Ev::Me,
        Ev::A(Leaf::Null),
    ];
    al.extend(keys.iter().map(|k| Ev::A(Leaf::s(k))));
    let mut sent = vec![];
    let mut kind = 0;
    track::reset(&[fault]);
    set_styles(&[]);
    let mut out: Option<T> = None;
    let mut p = Pda::new();
    let name = std::any::type_name::<T>();
    {
        let mut d = DeserializeDriver::new(&mut out);
        for _ in 0..len {
            if p.done && !refuse {
                break;
            }
            let e = if refuse {
                ch.of(&al)
            } else {
                let mut ok: Vec<&Ev> = al.iter().filter(|e| p.clone().accept(e)).collect();
                if sent.len() + p.stack.len() >= len {
                    // only what leads to the end
                    ok.retain(|e| matches!(e, Ev::Se | Ev::Me) || p.stack.last() == Some(&1) && matches!(e, Ev::A(_)));
                }
                if ok.is_empty() {
                    break;
                }
                ok[ch.pick(ok.len())].clone()
            };
            sent.push(e.clone());
            let fits = p.accept(&e);
            o.step_h(hash(&(&p, name)));
            let before = track::calls();
            match guard(|| d.emit(e.event())) {
                Ok(Ok(())) => {
                    ensure!(fits, "{}: {} accepted", name, mc_vals::show(&sent));
                    ensure!(track::fired().is_empty(), "{}: {}: callback {} failed but nothing is reported", name, mc_vals::show(&sent), fault);
                }
                Ok(Err(e)) => {
                    // a container may reject the shape before it matters
                    // whether the event could occur at all
                    kind = 1;
                    if let Some(&n) = track::fired().first() {
                        ensure!(track::is_fault(&e, n), "{}: {}: expected {:?}, got {:?}", name, mc_vals::show(&sent), track::fault_error(n), e);
                        ensure!(track::calls() == n + 1, "{}: {}: callbacks after the error", name, mc_vals::show(&sent));
                        kind = 2;
                    }
                    break;
                }
                Err(m) => {
                    ensure!(!fits, "{}: {} panics: {}", name, mc_vals::show(&sent), m);
                    ensure!(track::calls() == before, "{}: {}: callbacks for a refused event", name, mc_vals::show(&sent));
                    break;
                }
            }
        }
    }
    o.class(["accepted", "rejected", "fault surfaced"][kind]);
    o.sample(|| format!("{} {}", name, mc_vals::show(&sent)));
    drop(out);
    badness()
}

macro_rules! typed {
    ($m:ident) => { $m! {
        Tr, Vec<Tr>, [Tr; 0], [Tr; 1], [Tr; 2], [Tr; 3], (Tr,), (Tr, Tr), (Tr, Tr, Tr), BTreeMap<Tr, Tr>, HMap<Tr, Tr>, BTreeSet<Tr>, HashSet<Tr>,
        Option<Tr>, Box<Tr>, Vec<Option<Tr>>, Vec<Box<Tr>>, [Option<Tr>; 2], [Box<Tr>; 2], Option<[Tr; 2]>, Box<[Tr; 2]>, Vec<[Tr; 2]>, [Vec<Tr>; 2], [[Tr; 1]; 2], [[Tr; 2]; 1],
        Vec<Vec<Tr>>, Option<Vec<Tr>>, Box<Vec<Tr>>, Box<Option<Tr>>, Option<Box<Tr>>, Option<Option<Tr>>, Box<Box<Tr>>, (Option<Tr>, Vec<Tr>), (Vec<Tr>, Tr), [(Tr, Tr); 1],
        BTreeMap<Tr, Vec<Tr>>, BTreeMap<Vec<Tr>, Tr>, BTreeMap<Option<Tr>, [Tr; 1]>, HMap<Box<Tr>, Option<Tr>>, BTreeMap<Tr, BTreeMap<Tr, Tr>>, BTreeSet<Vec<Tr>>, HashSet<Option<Tr>>,
        Option<BTreeMap<Tr, Tr>>, Option<HMap<Tr, Tr>>, Box<BTreeMap<Tr, Tr>>, Vec<BTreeMap<Tr, Tr>>, [BTreeMap<Tr, Tr>; 1], Option<Box<Vec<Tr>>>, (Tr, (Tr, Box<Tr>)),
    } };
}

macro_rules! table { ($($t:ty),* $(,)?) => { &[$((stringify!($t), typed::<$t> as Typed)),*] }; }
const TYPED: &[(&str, Typed)] = typed!(table);

// -------------------------------------------------------------- C15 and C16

/// How an execution ends.
#[derive(Default, Debug)]
struct Plan {
    faults: Vec<u32>,
    panic: Option<u32>,
    more: usize,
}

fn plan(ch: &mut Ch, calls: usize) -> Plan {
    let mut p = Plan::default();
    match ch.pick(4) {
        0 => {}
        1 => {
            p.faults.push(ch.pick(calls) as u32);
            p.more = ch.pick(3);
        }
        2 => {
            let n = ch.pick(calls) as u32;
            p.faults = vec![n, n + 1 + ch.pick(2) as u32];
            p.more = 4;
        }
        _ => {
            p.panic = Some(ch.pick(calls) as u32);
            p.more = ch.pick(2);
        }
    }
    p
}

/// Sends events, ignoring what goes wrong, for as long as the plan says.
fn send(d: &mut DeserializeDriver, evs: &[Ev], mut more: usize) -> bool {
    let mut failed = false;
    for e in evs {
        match guard(|| d.emit(e.event()).map_err(drop)) {
            Ok(Ok(())) => {}
            _ => {
                failed = true;
                ide::probe(d.state());
                if more == 0 {
                    break;
                }
                more -= 1;
            }
        }
    }
    failed
}

fn lifetimes(ch: &mut Ch, v: &Val, k: usize, styles: &[DStyle], o: &mut Obs) -> Res {
    let exp = expect_de(v, Target::style(k), styles);
    let mut evs = v.evs();
    let p = if ch.flag() {
        // stop early
        evs.truncate(ch.pick(evs.len() + 1));
        Plan::default()
    } else {
        plan(ch, exp.calls.len().max(1))
    };
    let mut failed = false;
    ide::set_check(false);
    let r = balanced(&|| format!("{} {:?}", v.show(), p), || {
        track::reset(&p.faults);
        set_styles(styles);
        let mut t = Target::new(k);
        if let Some(n) = p.panic {
            track::panic_at(n);
        }
        t.drive(|d| failed = send(d, &evs, p.more));
        drop(t);
        Ok(())
    });
    ide::set_check(true);
    o.step_h(hash(&(evs.len(), failed, exp.calls.len())));
    o.class(if failed { "failed" } else { "stopped or completed" });
    r
}

pub fn c16(r: &mut Runner) {
    let n = if SMALL { 2 } else { r.b(3, 4) };
    r.section(
        "de styles",
        &format!("all trees of <= {} nested values x every assignment of 6 sink kinds x 7 roots x stop after every event, every callback failing (alone or with a later one) or panicking, then 0..4 further events", n),
        |ch, o| {
            let mut b = n;
            let v = de_tree(ch, &mut b, 3, &mut one_leaf);
            let st: Vec<DStyle> = (0..ide::size(&v)).map(|_| ch.of(&DSTYLES)).collect();
            let k = ch.pick(TARGETS);
            o.sample(|| format!("{} {:?}", v.show(), st));
            lifetimes(ch, &v, k, &st, o)
        },
    );
    let m = if SMALL { r.b(2, 3) } else { r.b(3, 5) };
    r.section(
        "de rotations",
        &format!("all trees of <= {} nested values x sink kinds in rotation x the same endings", m),
        |ch, o| {
            let mut b = m;
            let v = de_tree(ch, &mut b, 3, &mut one_leaf);
            let st = rotate(ch);
            let k = ch.of(&[0, 2, 5]);
            lifetimes(ch, &v, k, &st, o)
        },
    );
    let ds = if SMALL { vec![r.b(17, 130)] } else { r.b(vec![129], vec![63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 600]) };
    r.section("de deep", &format!("nesting depths {:?}, 5 patterns, 3 sink kinds, same endings", ds), |ch, o| {
        let v = ladder(&[ch.pick(5)], ch.of(&ds));
        let st = vec![ch.of(&[DStyle::Owned, DStyle::Slot, DStyle::OptBoxed]); 2000];
        lifetimes(ch, &v, 0, &st, o)
    });
    let len = if SMALL { r.b(5, 6) } else { r.b(6, 8) };
    r.section(
        "de typed",
        &format!("{} standard containers of instrumented values: all event sequences of <= {} events, stopped anywhere, with callbacks failing or panicking", DROPS.len(), len),
        |ch, o| {
            let f = ch.of(DROPS);
            f.1(ch, len, &[], o)
        },
    );
    more_drops(r);
    owned_sinks(r);
}

type Drops = fn(&mut Ch, usize, &[&str], &mut Obs) -> Res;

/// Any sequence of events, any ending; everything is accounted for.
fn drops<T: Deserialize>(ch: &mut Ch, len: usize, keys: &[&str], o: &mut Obs) -> Res {
    let name = std::any::type_name::<T>();
    let mut al = vec![
        Ev::A(Leaf::U64(1)),
        Ev::Ss,
        Ev::Ms,
        Ev::Se,
        Ev::Me,
        Ev::A(Leaf::U64(2)),
        Ev::A(Leaf::Null),
    ];
    if !keys.is_empty() {
        // one number is enough
        al.remove(5);
        al.extend(keys.iter().map(|k| Ev::A(Leaf::s(k))));
    }
    let mut p = Pda::new();
    // nothing outside may allocate while the balance is taken
    p.stack.reserve(64);
    let mut more = 0;
    let (fault, panic) = match ch.pick(3) {
        0 => (u32::MAX, None),
        1 => {
            more = ch.pick(2);
            (ch.pick(8) as u32, None)
        }
        _ => (u32::MAX, Some(ch.pick(8) as u32)),
    };
    // the run is decided while it goes, so that only sequences that can
    // continue are extended
    let mut sent: Vec<usize> = Vec::with_capacity(64);
    let mut end = 0;
    let mut kept = 0;
    let r = balanced(&|| format!("{}, callback {} fails, {:?} panics", name, fault, panic), || {
        track::reset(&[fault]);
        set_styles(&[]);
        if let Some(n) = panic {
            track::panic_at(n);
        }
        ide::keep_atoms(false);
        ide::set_check(false);
        let mut out: Option<T> = None;
        {
            let mut d = DeserializeDriver::new(&mut out);
            while sent.len() < len && !p.done {
                let ok: Vec<usize> = (0..al.len()).filter(|&i| p.clone().accept(&al[i])).collect();
                let c = ch.pick(ok.len() + 1);
                if c == 0 {
                    break;
                }
                let i = ok[c - 1];
                drop(ok);
                p.accept(&al[i]);
                sent.push(i);
                match guard(|| d.emit(al[i].event()).map_err(drop)) {
                    Ok(Ok(())) => {}
                    x => {
                        end = if x.is_ok() { 1 } else { 2 };
                        ide::probe(d.state());
                        if more == 0 {
                            break;
                        }
                        more -= 1;
                    }
                }
            }
        }
        kept = track::alive();
        drop(out);
        Ok(())
    });
    let sent: Vec<Ev> = sent.into_iter().map(|i| al[i].clone()).collect();
    ide::keep_atoms(true);
    ide::set_check(true);
    o.step_h(hash(&(&sent, name, end)));
    o.class(["stopped or completed", "rejected", "panicked"][end]);
    o.sample(|| format!("{} {} keeps {}", name, mc_vals::show(&sent), kept));
    match r {
        Ok(()) => Ok(()),
        Err(f) => fail!("{} after {}", f.msg, mc_vals::show(&sent)),
    }
}

macro_rules! dtable { ($($t:ty),* $(,)?) => { &[$((stringify!($t), drops::<$t> as Drops)),*] }; }
const DROPS: &[(&str, Drops)] = typed!(dtable);

macro_rules! derived {
    ($m:ident) => { $m! {
        P2, PO, PA, PF, PN, PB, PD, PM, NT, NP, NF, NO, G<Tr>, G<PF>, G<Option<Box<P2>>>, Option<PF>, Box<PN>, Vec<NP>, (NT, PO), BTreeMap<NT, PD>, [NF; 1], Option<NO>, Box<NO>,
    } };
}
const DERIVED: &[(&str, Typed)] = derived!(table);
const DDERIVED: &[(&str, Drops)] = derived!(dtable);
const KEYS: &[&str] = &["a", "b", "zz"];

/// C12: what derived sinks do with any value of their shape.
fn derived_value<T: Shape>(ch: &mut Ch, n: usize, o: &mut Obs) -> Res {
    let k = T::kind();
    let v = if n == 0 {
        let turn = ch.pick(8);
        let d = ch.of(&[0, 1, 2, 60, 126, 127, 128, 300]);
        let p = [ch.pick(5)];
        mc_vals::dty::full_val(&k, turn, &|| ladder(&p, d))
    } else {
        let mut n = n;
        mc_vals::dty::gen_val(ch, &k, &mut n, 2)
    };
    let name = std::any::type_name::<T>();
    let mut e = ExpDe::default();
    let want = mc_vals::dty::expect(&k, &v, 0, None, &mut e);
    let evs = v.evs();
    track::reset(&[]);
    set_styles(&[]);
    let mut out: Option<T> = None;
    let what = || format!("{} from {}", name, v.show());
    o.sample(what);
    let mut result = Ok(());
    {
        let mut d = DeserializeDriver::new(&mut out);
        for (i, ev) in evs.iter().enumerate() {
            match guard(|| d.emit(ev.event())) {
                Ok(Ok(())) => {}
                Ok(Err(x)) => {
                    result = Err((i, x));
                    break;
                }
                Err(m) => fail!("{}: panic {} at event {}", what(), m, i),
            }
            let (calls, depth, ref top) = match e.after.get(i) {
                Some(x) => x.clone(),
                None => fail!("{}: event {} accepted, expected {:?}", what(), i, want),
            };
            let got = track::logged();
            ensure!(got == calls, "{}: {} callbacks after event {}, expected {}", what(), got, i, calls);
            ensure!(d.state().depth() == depth, "{}: depth {} after event {}, expected {}", what(), d.state().depth(), i, depth);
            if top.as_deref() != Some(mc_vals::dty::ANY_NAME) && depth > 0 {
                let n = d.state().top_descriptor().and_then(|x| x.name().map(|x| x.to_string()));
                ensure!(n == *top, "{}: innermost descriptor {:?} after event {}, expected {:?}", what(), n, i, top);
            }
            o.step_h(hash(&(name, i, calls, depth, top)));
        }
    }
    let log = track::take_log();
    if log != e.calls {
        let i = log.iter().zip(&e.calls).take_while(|(a, b)| a == b).count();
        fail!("{}: callback {} is {:?}, expected {:?}", what(), i, log.get(i), e.calls.get(i));
    }
    match (&result, &want) {
        (Ok(()), Ok(())) => ensure!(out.is_some(), "{}: nothing in the slot", what()),
        (Err((i, x)), Err(k)) => {
            ensure!(*i == e.after.len(), "{}: error {} at event {}, expected at {}", what(), x, i, e.after.len());
            ensure!(x.kind() == *k, "{}: error {}, expected {:?}", what(), x, k);
        }
        (Ok(()), Err(k)) => fail!("{}: accepted, expected {:?}", what(), k),
        (Err((_, x)), Ok(())) => fail!("{}: unprovoked error {}", what(), x),
    }
    o.class(if want.is_ok() { "complete" } else { "missing" });
    drop(out);
    badness()?;
    ensure!(track::alive() == 0, "{}: left over: {}", what(), track::alive_text());
    Ok(())
}

type Shaped = fn(&mut Ch, usize, &mut Obs) -> Res;
macro_rules! shaped {
    ($($t:ty),* $(,)?) => { &[$(derived_value::<$t> as Shaped),*] };
}
const SHAPED: &[Shaped] = shaped!(
    P2, PO, PA, PF, PN, PB, PD, PM, NT, NP, NF, NO, G<Tr>, G<PF>, G<Option<Box<P2>>>, Option<PF>, Box<PN>, Vec<NP>, Vec<Option<PA>>, Option<NO>, Box<NO>, Vec<G<PF>>,
);

macro_rules! looks {
    ($m:ident) => { $m! {
        Look<0>, Look<1>, Look<2>, Option<Look<0>>, Option<Look<1>>, Option<Look<2>>, Box<Look<0>>, Box<Look<1>>, Box<Look<2>>, NL<0>, NL<1>, NL<2>,
        Box<Option<Look<0>>>, Box<Option<Look<1>>>, Box<Option<Look<2>>>, Option<Box<Look<1>>>, Option<Box<Option<Look<2>>>>, NOL<0>, NOL<1>, NOL<2>, Box<NOL<1>>, Box<Box<Option<Look<1>>>>,
        Vec<Look<0>>, Vec<Look<1>>, Vec<Look<2>>, Vec<Option<Look<1>>>, Vec<Box<Look<2>>>, [Look<0>; 2], [Look<1>; 2], [Look<2>; 2], [Option<Look<2>>; 2], [Box<Option<Look<1>>>; 1],
        (Look<0>, Look<1>), (Look<2>, Option<Look<1>>), BTreeMap<Look<1>, Look<2>>, BTreeMap<Look<2>, Box<Option<Look<1>>>>, HMap<Look<1>, Look<2>>, BTreeSet<Look<1>>, BTreeSet<Look<2>>, HashSet<Look<1>>, HashSet<Look<2>>,
        Box<Option<Vec<Look<1>>>>, Box<Option<[Look<2>; 1]>>, Box<Option<BTreeMap<Look<0>, Look<1>>>>,
        LS<0>, LS<1>, LS<2>, Box<LS<1>>, Option<LS<2>>,
    } };
}
const LOOKS: &[(&str, Drops)] = looks!(dtable);

/// Derived targets and ones that use their slots, for C15 and C16.
fn more_drops(r: &mut Runner) {
    let len = if SMALL { r.b(4, 5) } else { r.b(6, 7) };
    r.section(
        "de derived",
        &format!("{} types with derived structs, newtypes and flattened fields: all event sequences of <= {} events with 3 keys, stopped anywhere, rejected, with one of the first 8 callbacks failing or panicking", DDERIVED.len(), len),
        |ch, o| {
            let f = ch.of(DDERIVED);
            f.1(ch, len, KEYS, o)
        },
    );
    let len = if SMALL { r.b(4, 5) } else { r.b(6, 7) };
    r.section(
        "de slots",
        &format!("{} types of values whose sinks look at their slot, replace what is in it or work inside of it until they are dropped: all event sequences of <= {} events, the same endings", LOOKS.len(), len),
        |ch, o| {
            let f = ch.of(LOOKS);
            f.1(ch, len, if f.0.starts_with("LS") || f.0.contains("LS<") { &["a", "b"] } else { &[] }, o)
        },
    );
}

/// Histories of direct use of an `OwnedSink`.
fn owned<T: Deserialize>(ch: &mut Ch, len: usize, o: &mut Obs) -> Res {
    let mut ops = String::with_capacity(256);
    let r = balanced(&|| std::any::type_name::<T>().to_string(), || {
        track::reset(&[]);
        set_styles(&[]);
        // a state is needed for calls; borrow one from an unrelated driver
        let mut unit: Option<()> = None;
        let d = DeserializeDriver::new(&mut unit);
        let st = d.state();
        let mut s: Option<OwnedSink<T>> = Some(OwnedSink::deserialize());
        let mut got: Option<T> = None;
        for _ in 0..len {
            let c = ch.pick(8);
            if c == 0 {
                break;
            }
            ops.push((b'a' + c as u8) as char);
            let s1 = s.as_mut().unwrap();
            let _ = guard(|| match c {
                1 => drop(s1.borrow_mut().atom(Atom::U64(1), st)),
                2 => drop(s1.borrow_mut().finish(st)),
                3 => got = s1.take(),
                4 => drop(s1.borrow_mut().seq(st)),
                5 => {
                    if let Ok(mut x) = s1.borrow_mut().next_value(st) {
                        drop(x.atom(Atom::U64(2), st));
                        drop(x.finish(st));
                    }
                }
                6 => drop(s1.borrow().descriptor().name().map(|x| x.len())),
                _ => {
                    if let Ok(mut x) = s1.borrow_mut().next_value(st) {
                        drop(x.atom(Atom::U64(3), st));
                    }
                }
            });
        }
        drop(s);
        drop(got);
        drop(d);
        badness()
    });
    o.step_h(hash(&(&ops, std::any::type_name::<T>())));
    r
}

fn owned_sinks(r: &mut Runner) {
    let len = if SMALL { 5 } else { r.b(6, 7) };
    r.section(
        "owned sinks",
        &format!("all histories of <= {} direct calls (atom, seq, next value, finish, take, descriptor) on OwnedSink of 14 types", len),
        |ch, o| match ch.pick(14) {
            6 => owned::<Option<Vec<u8>>>(ch, len, o),
            7 => owned::<Look<0>>(ch, len, o),
            8 => owned::<Look<1>>(ch, len, o),
            9 => owned::<Look<2>>(ch, len, o),
            10 => owned::<Option<Look<1>>>(ch, len, o),
            11 => owned::<Box<Option<Look<2>>>>(ch, len, o),
            12 => owned::<NOL<1>>(ch, len, o),
            13 => owned::<NL<2>>(ch, len, o),
            0 => owned::<Option<u8>>(ch, len, o),
            1 => owned::<Vec<String>>(ch, len, o),
            2 => owned::<[Box<u8>; 2]>(ch, len, o),
            3 => owned::<Box<Vec<u8>>>(ch, len, o),
            4 => owned::<BTreeSet<Box<u8>>>(ch, len, o),
            _ => owned::<(Vec<u8>, Option<Box<u8>>)>(ch, len, o),
        },
    );
}

pub fn c15(r: &mut Runner) {
    let len = if SMALL { r.b(5, 6) } else { r.b(7, 8) };
    r.section(
        "de typed",
        &format!("{} standard containers of drop-tracked values: all event sequences of <= {} events over 3 atoms, stopped anywhere, rejected, with one of the first 8 callbacks failing or panicking; allocation balance", DROPS.len(), len),
        |ch, o| {
            let f = ch.of(DROPS);
            f.1(ch, len, &[], o)
        },
    );
    let n = if SMALL { 2 } else { r.b(3, 4) };
    r.section(
        "de sinks",
        &format!("all trees of <= {} nested values into instrumented sinks in rotation x all endings; allocation balance", n),
        |ch, o| {
            let mut b = n;
            let v = de_tree(ch, &mut b, 3, &mut one_leaf);
            let st = rotate(ch);
            let k = ch.pick(TARGETS);
            lifetimes(ch, &v, k, &st, o)
        },
    );
    let nmax = r.b(40, 130);
    r.section("de arrays", "arrays [T; 32] and [T; 3] and vectors of n elements for all n, stopped after each", |ch, o| {
        let n = ch.pick(nmax);
        let close = ch.flag();
        let k = ch.pick(4);
        let mut evs = vec![Ev::Ss];
        evs.extend((0..n).map(|x| Ev::A(Leaf::U64(x as u64))));
        if close {
            evs.push(Ev::Se);
        }
        o.step_h(hash(&(n, close, k)));
        fn run<T: Deserialize>(evs: &[Ev]) -> Res {
            balanced(&|| format!("{} of {} events", std::any::type_name::<T>(), evs.len()), || {
                track::reset(&[]);
                set_styles(&[]);
                let mut out: Option<T> = None;
                {
                    let mut d = DeserializeDriver::new(&mut out);
                    send(&mut d, evs, 0);
                }
                Ok(())
            })
        }
        match k {
            0 => run::<[Tr; 32]>(&evs),
            1 => run::<[Tr; 3]>(&evs),
            2 => run::<Vec<Tr>>(&evs),
            _ => run::<BTreeSet<Tr>>(&evs),
        }
    });
    more_drops(r);
    owned_sinks(r);
}
