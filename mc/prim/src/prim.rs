//! C05 and C28: primitive targets and error texts.
use mc_vals::judge::{feed, judge};
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::{Atom, Descriptor, Error, ErrorKind};
use mc_core::{ensure, fail, guard, hash, Ch, Obs, Res, Runner};
use mc_vals::gen::{Gen, HMap, HSet, Scope};
use mc_vals::model::{odd, Errs, Model};
use mc_vals::{Ev, Leaf, Val};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};

/// One atom into a fresh slot of the type, and of boxes and optionals of it.
fn atom<T: Model>(l: &Leaf, o: &mut Obs) -> Res {
    judge::<T>(&Val::L(l.clone()), o, None)
}

fn nested<T: Model>(l: &Leaf, o: &mut Obs) -> Res {
    let v = Val::L(l.clone());
    judge::<Vec<T>>(&Val::Seq(vec![v.clone()]), o, None)?;
    judge::<(T, T)>(&Val::Seq(vec![v.clone(), v.clone()]), o, None)?;
    judge::<BTreeMap<u8, T>>(&Val::Map(vec![(Val::L(Leaf::U64(1)), v.clone())]), o, None)?;
    judge::<Box<T>>(&v, o, None)?;
    judge::<Option<T>>(&v, o, None)
}

type One = fn(&Leaf, &mut Obs) -> Res;
macro_rules! ones { ($($t:ty),*) => { &[$(atom::<$t> as One),*] }; }
macro_rules! nesteds { ($($t:ty),*) => { &[$(nested::<$t> as One),*] }; }
const INTS: &[One] = ones!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
const FLOATS: &[One] = ones!(f32, f64);
const PRIMS: &[One] = ones!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, (), bool, char, String);
const PRIMS_IN: &[One] = nesteds!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, (), bool, char, String);

/// Powers of two and their neighbours, both signs.
fn boundary(ch: &mut Ch) -> i128 {
    let v = (1i128 << ch.pick(65)) + ch.pick(7) as i128 - 3;
    if ch.flag() {
        -v
    } else {
        v
    }
}

/// The ways in which a number can be sent.
fn forms(n: i128) -> Vec<Leaf> {
    let mut v = vec![];
    if let Ok(x) = u64::try_from(n) {
        v.push(Leaf::U64(x));
    }
    if let Ok(x) = i64::try_from(n) {
        v.push(Leaf::I64(x));
    }
    v
}

fn each(f: &[One], n: i128, o: &mut Obs) -> Res {
    for l in forms(n) {
        for g in f {
            g(&l, o)?;
        }
    }
    Ok(())
}

pub fn c05(r: &mut Runner) {
    r.section("boundary integers", "10 integer types x (+-(2^k + d), k <= 64, |d| <= 3) x signed and unsigned, alone and in 5 containers", |ch, o| {
        let n = boundary(ch);
        if ch.flag() {
            each(INTS, n, o)
        } else {
            each(PRIMS_IN, n, o)
        }
    });
    let m = r.b(70_000, 2_000_000);
    r.section("dense integers", &format!("10 integer types x every number of magnitude <= {} x signed and unsigned", m), |ch, o| {
        let b = ch.pick(m / 100 + 1) as i128;
        for i in 0..100 {
            each(INTS, b * 100 + i, o)?;
            each(INTS, -(b * 100 + i), o)?;
        }
        Ok(())
    });
    r.section("near the ends", "every number within 1000 of 2^16, 2^31, 2^32, 2^63, 2^64 and their negations", |ch, o| {
        let n = (1i128 << ch.of(&[16, 31, 32, 63, 64])) + ch.pick(2001) as i128 - 1000;
        each(INTS, if ch.flag() { -n } else { n }, o)
    });
    r.section("integers to floats", "float targets x (+-(2^k + 2^j + d), k <= 64, j <= k, |d| <= 3): all rounding positions", |ch, o| {
        let k = ch.pick(65);
        let j = ch.pick(k + 1);
        let n = (1i128 << k) + (1i128 << j) * ch.of(&[0, 1, 3]) + ch.pick(7) as i128 - 3;
        each(FLOATS, if ch.flag() { -n } else { n }, o)
    });
    r.section("floats to floats", "float targets x 12 mantissas for every exponent, all powers of ten and neighbours, both signs; doubles around every rounding position of singles", |ch, o| {
        let x = if ch.flag() {
            f64::gen(ch, Scope { w: 0, n: 1 })
        } else {
            // one single, halfway, and the next single, plus and minus one ulp
            let e = ch.pick(280) as u64 + 1023 - 152;
            let m = ch.of(&[0u64, 1, 2, 0x7fffff, 0x400000, 0x2aaaaa]) << 29 | ch.of(&[0u64, 1, 1 << 28, (1 << 28) - 1, (1 << 28) + 1, (1 << 29) - 1]);
            let x = f64::from_bits(e << 52 | m);
            if ch.flag() {
                -x
            } else {
                x
            }
        };
        let l = Leaf::F64(x);
        for f in FLOATS {
            f(&l, o)?;
        }
        Ok(())
    });
    r.section("floats to integers", "all 10 integer types and the other primitives reject every double of the set, integral ones included", |ch, o| {
        let x = match ch.pick(3) {
            0 => f64::gen(ch, Scope { w: 0, n: 1 }),
            1 => ch.pick(300) as f64 - 20.0,
            _ => ch.of(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 255.0, 256.0, 1e19]),
        };
        for f in PRIMS {
            f(&Leaf::F64(x), o)?;
        }
        Ok(())
    });
    r.section("characters", "every character, sent as character and as string, to all primitive targets", |ch, o| {
        let b = ch.pick(0x1100) as u32;
        for i in 0..256 {
            if let Some(c) = char::from_u32(b * 256 + i) {
                atom::<char>(&Leaf::Char(c), o)?;
                atom::<char>(&Leaf::Str(c.to_string()), o)?;
                if i % 16 == 0 || b < 2 {
                    for f in PRIMS {
                        f(&Leaf::Char(c), o)?;
                        f(&Leaf::Str(c.to_string()), o)?;
                    }
                }
            }
        }
        Ok(())
    });
    r.section("strings", "all strings of <= 4 characters over 8 characters of 1 to 4 bytes, to all primitive targets", |ch, o| {
        let n = ch.pick(5);
        let s: String = (0..n).map(|_| ch.of(&['a', '1', '\0', ' ', 'é', '\u{301}', '\u{ffff}', '\u{1f600}'])).collect();
        for f in PRIMS {
            f(&Leaf::Str(s.clone()), o)?;
        }
        Ok(())
    });
    r.section("two characters", "every character after or before each of 4 others, to char and String", |ch, o| {
        let b = ch.pick(0x1100) as u32;
        let d = ch.of(&['a', '\0', 'é', '\u{1f600}']);
        for i in 0..256 {
            if let Some(c) = char::from_u32(b * 256 + i) {
                for s in [[d, c], [c, d]] {
                    let s: String = s.iter().collect();
                    atom::<char>(&Leaf::Str(s.clone()), o)?;
                    atom::<String>(&Leaf::Str(s), o)?;
                }
            }
        }
        Ok(())
    });
    r.section("long strings", "strings of n <= 400 characters, and 4097, 65535..65537, 2^20 + 1", |ch, o| {
        let n = ch.pick(406);
        let n = if n <= 400 { n } else { [4097, 65535, 65536, 65537, (1 << 20) + 1][n - 401] };
        let s = ch.of(&["a", "é", "\u{1f600}"]).repeat(n);
        atom::<String>(&Leaf::Str(s.clone()), o)?;
        atom::<char>(&Leaf::Str(s), o)
    });
    r.section("other kinds", "all kinds of value to all primitive targets, alone and in 5 containers", |ch, o| {
        let v = odd(ch);
        let i = ch.pick(PRIMS.len());
        match v {
            Val::L(l) => {
                PRIMS[i](&l, o)?;
                PRIMS_IN[i](&l, o)
            }
            v => SHAPES[i](&v, o),
        }
    });
}

fn shape<T: Model>(v: &Val, o: &mut Obs) -> Res {
    judge::<T>(v, o, None)
}
macro_rules! shapes { ($($t:ty),*) => { &[$(shape::<$t> as fn(&Val, &mut Obs) -> Res),*] }; }
const SHAPES: &[fn(&Val, &mut Obs) -> Res] = shapes!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, (), bool, char, String);

// -------------------------------------------------------------------- C28

fn received(v: &Val) -> &'static str {
    match v {
        Val::L(l) => l.name(),
        Val::Seq(_) => "sequence",
        Val::Map(_) => "map",
    }
}

/// Whether the text contains these words, not just as part of longer ones.
fn mentions(text: &str, words: &str) -> bool {
    text.match_indices(words).any(|(i, _)| {
        let inside = |c: Option<char>| c.map_or(false, |c| c.is_alphanumeric());
        !(inside(text[..i].chars().next_back()) && inside(words.chars().next())) && !(inside(text[i + words.len()..].chars().next()) && inside(words.chars().next_back()))
    })
}

/// The error for `v` sent to the target.
fn text_check(e: &Error, v: &Val, expected: &[&str], what: &str) -> Res {
    ensure!(e.kind() == ErrorKind::Unexpected, "{} from {}: error {:?} {}", what, v.show(), e.kind(), e);
    let t = e.to_string();
    ensure!(mentions(&t, received(v)), "{} from {}: text {:?} does not name what was received ({})", what, v.show(), t, received(v));
    for x in expected {
        ensure!(mentions(&t, x), "{} from {}: text {:?} does not name what was expected ({})", what, v.show(), t, x);
    }
    // the received kind must not be the only thing mentioned
    let rest = t.replacen(received(v), "", 1);
    ensure!(rest.split(|c: char| !c.is_alphanumeric()).any(|w| !w.is_empty() && w != "unexpected" && w != "expected" && w != "Unexpected"), "{} from {}: text {:?} names nothing expected", what, v.show(), t);
    Ok(())
}

fn target<T: Model>(ch: &mut Ch, known: &[&str], o: &mut Obs) -> Res {
    let name = std::any::type_name::<T>();
    let v = odd(ch);
    let mut slot: Option<T> = None;
    let announced: Option<String> = T::deserialize_into(&mut slot).descriptor().name().map(|x| x.to_string());
    drop(slot);
    let mut errs: Errs = vec![];
    let head = match &v {
        Val::Seq(_) => Val::Seq(vec![]),
        Val::Map(_) => Val::Map(vec![]),
        x => x.clone(),
    };
    let _ = T::interp(&head, &mut errs);
    o.step_h(hash(&(name, &v)));
    if !errs.contains(&ErrorKind::Unexpected) {
        return Ok(());
    }
    let mut want: Vec<&str> = known.to_vec();
    want.extend(announced.as_deref());
    fn fails<X: Deserialize>(evs: &[Ev], what: &str) -> Result<Error, mc_core::Fail> {
        let mut out: Option<X> = None;
        match feed(evs, &mut out) {
            Err(m) => fail!("{} from {}: panic {}", what, mc_vals::show(evs), m),
            Ok(Ok(())) => fail!("{} from {}: accepted", what, mc_vals::show(evs)),
            Ok(Err(e)) => Ok(e),
        }
    }
    text_check(&fails::<T>(&v.evs(), name)?, &v, &want, name)?;
    text_check(&fails::<Box<T>>(&v.evs(), name)?, &v, &want, &format!("Box of {}", name))?;
    if v != Val::L(Leaf::Null) {
        text_check(&fails::<Option<T>>(&v.evs(), name)?, &v, &want, &format!("Option of {}", name))?;
    }
    let s = Val::Seq(vec![v.clone()]).evs();
    text_check(&fails::<Vec<T>>(&s, name)?, &v, &want, &format!("Vec of {}", name))?;
    text_check(&fails::<[T; 2]>(&s, name)?, &v, &want, &format!("array of {}", name))?;
    text_check(&fails::<(T,)>(&s, name)?, &v, &want, &format!("tuple of {}", name))?;
    let m = Val::Map(vec![(Val::L(Leaf::U64(1)), v.clone())]).evs();
    text_check(&fails::<BTreeMap<u8, T>>(&m, name)?, &v, &want, &format!("map value {}", name))?;
    text_check(&fails::<HMap<u8, T>>(&m, name)?, &v, &want, &format!("map value {}", name))?;
    o.class("rejected");
    Ok(())
}

type Case = fn(&mut Ch, &[&str], &mut Obs) -> Res;
macro_rules! cases { ($($t:ty),* $(,)?) => { &[$(target::<$t> as Case),*] }; }
const ALL: &[Case] = mc_vals::std_types!(cases);
macro_rules! named { ($($t:ty)*) => { &[$((stringify!($t), target::<$t> as Case)),*] }; }
const NAMED: &[(&str, Case)] = named!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64 bool char);

/// A sink that overrides nothing.
struct Bare;
impl Sink for Bare {}

struct Name(&'static str);
impl Descriptor for Name {
    fn name(&self) -> Option<&str> {
        Some(self.0)
    }
}

struct Named(Name);
impl Sink for Named {
    fn descriptor(&self) -> &dyn Descriptor {
        &self.0
    }
}

struct Expecting;
impl Sink for Expecting {
    fn expecting(&self) -> Cow<'_, str> {
        Cow::Borrowed("a blue thing")
    }
}

/// Only atoms of one kind.
struct Custom;
impl Sink for Custom {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        match atom {
            Atom::Bool(_) => Ok(()),
            other => self.unexpected_atom(other, state),
        }
    }
    fn descriptor(&self) -> &dyn Descriptor {
        &Name("Custom")
    }
}

pub fn c28(r: &mut Runner) {
    r.section("standard targets", &format!("{} types, alone and in 7 kinds of containers, x 19 kinds of value", ALL.len()), |ch, o| {
        ALL[ch.pick(ALL.len())](ch, &[], o)
    });
    r.section("named targets", "numbers, bool and char: the text contains the Rust name of the type", |ch, o| {
        let (n, f) = NAMED[ch.pick(NAMED.len())];
        f(ch, &[n], o)
    });
    r.section("user sinks", "sinks that override nothing, only the descriptor, only the expectation, or only some atoms, x 19 kinds of value, borrowed or boxed or under path tracking", |ch, o| {
        let v = odd(ch);
        let k = ch.pick(4);
        let want: &[&str] = match k {
            0 => &[],
            1 => &["Gadget"],
            2 => &["a blue thing"],
            _ => &["Custom"],
        };
        if k == 3 && matches!(v, Val::L(Leaf::Bool(_))) {
            return Ok(());
        }
        let how = ch.pick(3);
        let mut b: Box<dyn Sink> = match k {
            0 => Box::new(Bare),
            1 => Box::new(Named(Name("Gadget"))),
            2 => Box::new(Expecting),
            _ => Box::new(Custom),
        };
        o.step_h(hash(&(k, how, &v)));
        let e = guard(|| {
            let mut p;
            let h = match how {
                0 => SinkHandle::to(&mut *b),
                1 => SinkHandle::Owned(b),
                _ => {
                    p = deser_path::PathSink::wrap(&mut *b);
                    SinkHandle::to(&mut p)
                }
            };
            let mut d = DeserializeDriver::from_sink(h);
            for e in v.evs() {
                d.emit(e.event())?;
            }
            Ok(())
        });
        match e {
            Err(m) => fail!("sink {} from {}: panic {}", k, v.show(), m),
            Ok(Ok(())) => fail!("sink {} from {}: accepted", k, v.show()),
            Ok(Err(e)) => text_check(&e, &v, want, "user sink"),
        }
    });
    r.section("direct calls", "all sequences of <= 4 direct calls on a sink that overrides nothing: errors, never panics", |ch, o| {
        let mut unit: Option<()> = None;
        let d = DeserializeDriver::new(&mut unit);
        let st = d.state();
        let mut s = Bare;
        let n = ch.pick(5);
        let mut ops = vec![];
        for _ in 0..n {
            let c = ch.pick(9);
            ops.push(c);
            let r = guard(|| -> Result<bool, Error> {
                match c {
                    0 => s.atom(Atom::U64(1), st).map(|_| false),
                    1 => s.map(st).map(|_| false),
                    2 => s.seq(st).map(|_| false),
                    3 => {
                        s.next_key(st)?.atom(Atom::Bool(true), st)?;
                        Ok(true)
                    }
                    4 => {
                        s.next_value(st)?.atom(Atom::Bool(true), st)?;
                        Ok(true)
                    }
                    5 => s.value_for_key("x", st).map(|x| x.is_none()),
                    6 => s.finish(st).map(|_| true),
                    7 => Ok(s.descriptor().name().is_none()),
                    _ => Ok(!s.expecting().is_empty()),
                }
            });
            match (c, r) {
                (_, Err(m)) => fail!("calls {:?}: panic {}", ops, m),
                (0..=2, Ok(Ok(_))) => fail!("calls {:?}: accepted", ops),
                (0..=2, Ok(Err(e))) => ensure!(e.kind() == ErrorKind::Unexpected, "calls {:?}: {}", ops, e),
                (_, Ok(Ok(true))) => {}
                (_, Ok(x)) => fail!("calls {:?}: {:?}", ops, x),
            }
        }
        o.step_h(hash(&ops));
        Ok(())
    });
}
#[allow(unused)]
fn unused(_: HSet<u8>, _: BTreeSet<u8>) {}
