//! C23: wrappers are transparent.
use deser::ser::{Chunk, MapEmitter, SeqEmitter, Serialize, SerializeDriver, SerializeHandle, SerializerState, StructEmitter};
use deser::de::{Deserialize, DeserializeDriver};
use deser::{Atom, Descriptor, Error};
use mc_core::{ensure, fail, guard, hash, Ch, Obs, Res, Runner};
use mc_vals::direct::{calls, setup, It};
use mc_vals::gen::{HMap, HSet, Scope};
use mc_vals::model::{Model, D};
use mc_vals::track::{self, Op};
use mc_vals::{Ev, Leaf, Val};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};

/// Feeds all events into the slot. Panics are violations.
fn feed<T: Deserialize>(evs: &[Ev], out: &mut Option<T>) -> Result<Result<(), Error>, String> {
    guard(|| {
        let mut d = DeserializeDriver::new(out);
        for e in evs {
            d.emit(e.event())?;
        }
        Ok(())
    })
}

/// Equality that also holds between NaNs.
fn same<T: Model>(a: &T, b: &T) -> bool {
    a == b || a.events() == b.events()
}

/// What a traversal shows, up to and including an error.
#[derive(PartialEq, Debug)]
struct Trace {
    steps: Vec<(Ev, D, usize, Option<D>)>,
    calls: Vec<(Op, u64)>,
    error: Option<String>,
    root: D,
    optional: bool,
}

fn trace(v: &dyn Serialize, fault: Option<u32>) -> Trace {
    match fault {
        Some(n) => track::reset(&[n]),
        None => track::reset(&[]),
    }
    let mut t = Trace {
        steps: vec![],
        calls: vec![],
        error: None,
        root: D::of(v.descriptor()),
        optional: v.is_optional(),
    };
    let mut d = SerializeDriver::new(v);
    loop {
        match guard(|| d.next().map(|x| x.map(|(e, d, s)| (Ev::of(&e), D::of(d), s.depth(), s.top_descriptor().map(D::of))))) {
            Ok(Ok(Some(x))) => t.steps.push(x),
            Ok(Ok(None)) => break,
            Ok(Err(e)) => {
                t.error = Some(format!("{:?} {} {:?}", e.kind(), e, std::error::Error::source(&e).map(|x| x.to_string())));
                break;
            }
            Err(m) => {
                t.error = Some(format!("panic {}", m));
                break;
            }
        }
    }
    drop(d);
    t.calls = track::take_log();
    t
}

/// An instrumented value of any shape, descriptor and optionality.
struct Inst {
    id: u64,
    kind: usize,
    optional: bool,
    named: bool,
    kids: Vec<Inst>,
}

struct Desc(u64);
impl Descriptor for Desc {
    fn name(&self) -> Option<&str> {
        Some(["zero", "one", "two", "three", "four", "five", "six"][self.0 as usize % 7])
    }
    fn precision(&self) -> Option<usize> {
        Some(self.0 as usize + 3)
    }
    fn unordered(&self) -> bool {
        self.0 % 2 == 0
    }
}
static DESCS: [Desc; 7] = [Desc(0), Desc(1), Desc(2), Desc(3), Desc(4), Desc(5), Desc(6)];

impl Serialize for Inst {
    fn serialize(&self, s: &SerializerState) -> Result<Chunk<'_>, Error> {
        track::call(Op::Serialize, self.id)?;
        s.get_mut::<Vec<u64>>().push(self.id);
        let it = self.kids.iter();
        Ok(match self.kind {
            0 => Chunk::Atom(Atom::U64(self.id)),
            1 => Chunk::Seq(Box::new(Em(it, self.id))),
            2 => Chunk::Map(Box::new(Em(it, self.id))),
            3 => Chunk::Struct(Box::new(Em(it, self.id))),
            _ => Chunk::Atom(Atom::Str("x".into())),
        })
    }
    fn finish(&self, s: &SerializerState) -> Result<(), Error> {
        s.get_mut::<Vec<u64>>().pop();
        track::call(Op::Finish, self.id)
    }
    fn is_optional(&self) -> bool {
        self.optional
    }
    fn descriptor(&self) -> &dyn Descriptor {
        if self.named {
            &DESCS[self.id as usize % 7]
        } else {
            // the default of the trait
            struct Nothing;
            impl Descriptor for Nothing {}
            &Nothing
        }
    }
}

struct Em<'a>(std::slice::Iter<'a, Inst>, u64);
impl<'a> SeqEmitter for Em<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        track::call(Op::Next, self.1)?;
        Ok(self.0.next().map(SerializeHandle::to))
    }
}
impl<'a> MapEmitter for Em<'a> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        track::call(Op::NextKey, self.1)?;
        Ok(if self.0.len() == 0 { None } else { Some(SerializeHandle::boxed(Inst { id: self.1 + 100, kind: 0, optional: false, named: true, kids: vec![] })) })
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle<'_>, Error> {
        track::call(Op::NextValue, self.1)?;
        Ok(SerializeHandle::to(self.0.next().unwrap()))
    }
}
impl<'a> StructEmitter for Em<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error> {
        track::call(Op::Next, self.1)?;
        Ok(self.0.next().map(|x| (Cow::Borrowed("f"), SerializeHandle::to(x))))
    }
}

/// Passes everything on to a value known only at run time.
struct Dyn<'a>(&'a dyn Serialize);
impl<'a> Serialize for Dyn<'a> {
    fn serialize(&self, s: &SerializerState) -> Result<Chunk<'_>, Error> {
        self.0.serialize(s)
    }
    fn finish(&self, s: &SerializerState) -> Result<(), Error> {
        self.0.finish(s)
    }
    fn is_optional(&self) -> bool {
        self.0.is_optional()
    }
    fn descriptor(&self) -> &dyn Descriptor {
        self.0.descriptor()
    }
}

/// A derived newtype.
#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq)]
struct Nt<T>(T);

type Go<'a> = &'a mut dyn FnMut(&dyn Serialize, &[usize]) -> Res;

macro_rules! level {
    ($name:ident, $next:ident) => {
        fn $name<T: Serialize>(stack: &[usize], done: &mut Vec<usize>, mut v: T, f: Go) -> Res {
            match stack.split_first() {
                None => f(&v, done),
                Some((&k, rest)) => {
                    done.push(k);
                    match k {
                        0 => $next(rest, done, &v, f),
                        1 => $next(rest, done, &mut v, f),
                        2 => $next(rest, done, Box::new(v), f),
                        3 => $next(rest, done, Some(v), f),
                        _ => $next(rest, done, Nt(v), f),
                    }
                }
            }
        }
    };
}
level!(wrap4, wrap3);
level!(wrap3, wrap2);
level!(wrap2, wrap1);
level!(wrap1, wrap0);
fn wrap0<T: Serialize>(stack: &[usize], done: &mut Vec<usize>, v: T, f: Go) -> Res {
    assert!(stack.is_empty());
    f(&v, done)
}

fn show(stack: &[usize]) -> String {
    stack.iter().map(|k| ["&", "&mut", "Box", "Some", "Newtype"][*k]).collect::<Vec<_>>().join(" ")
}

/// Compares a wrapped value (outermost wrapper last) with the value itself.
fn compare(plain: &Trace, w: &dyn Serialize, stack: &[usize], fault: Option<u32>, what: &str, o: &mut Obs) -> Res {
    let t = trace(w, fault);
    let opt = stack.contains(&3);
    o.step_h(hash(&(stack, fault, t.calls.len(), plain.steps.len())));
    let w = || format!("{} in {}, fault {:?}", what, show(stack), fault);
    let (a, b): (Vec<_>, Vec<_>) = (plain.steps.iter().map(|x| &x.0).collect(), t.steps.iter().map(|x| &x.0).collect());
    ensure!(a == b, "{}: events {:?}, expected {:?}", w(), b, a);
    ensure!(t.calls == plain.calls, "{}: callbacks {:?}, expected {:?}", w(), t.calls, plain.calls);
    ensure!(t.error == plain.error, "{}: error {:?}, expected {:?}", w(), t.error, plain.error);
    for (i, (x, y)) in t.steps.iter().zip(&plain.steps).enumerate() {
        ensure!(x.2 == y.2, "{}: depth {} at event {}, expected {}", w(), x.2, i, y.2);
        if !opt {
            ensure!(x.1 == y.1, "{}: descriptor {:?} at event {}, expected {:?}", w(), x.1, i, y.1);
            ensure!(x.3 == y.3, "{}: innermost descriptor {:?} at event {}, expected {:?}", w(), x.3, i, y.3);
        } else if i > 0 && i + 1 < plain.steps.len() {
            // the contents are not affected by the optional around them
            ensure!(x.1 == y.1, "{}: descriptor {:?} at event {}, expected {:?}", w(), x.1, i, y.1);
        }
    }
    if !opt {
        ensure!(t.root == plain.root, "{}: announces {:?}, expected {:?}", w(), t.root, plain.root);
        ensure!(t.optional == plain.optional, "{}: optional: {}, expected {}", w(), t.optional, plain.optional);
    }
    Ok(())
}

fn stack(ch: &mut Ch, max: usize) -> Vec<usize> {
    let n = 1 + ch.pick(max);
    (0..n).map(|_| ch.pick(5)).collect()
}

fn inst(ch: &mut Ch, id: &mut u64, budget: &mut usize, depth: usize) -> Inst {
    let me = *id;
    *id += 1;
    let kind = ch.pick(if depth == 0 { 1 } else { 4 });
    let mut kids = vec![];
    if kind > 0 {
        while *budget > 0 && ch.flag() {
            *budget -= 1;
            kids.push(inst(ch, id, budget, depth - 1));
        }
    }
    Inst {
        id: me,
        kind,
        optional: false,
        named: true,
        kids,
    }
}

fn ser_std<T: Model>(ch: &mut Ch, depth: usize, s: Scope, o: &mut Obs) -> Res {
    let mut v = T::gen(ch, s);
    let st = stack(ch, depth);
    let name = format!("{} {:?}", std::any::type_name::<T>(), v);
    let plain = trace(&v, None);
    ensure!(plain.error.is_none(), "{}: {:?}", name, plain.error);
    o.sample(|| format!("{} in {}", name, show(&st)));
    let mut f = |w: &dyn Serialize, done: &[usize]| compare(&plain, w, done, None, &name, o);
    // typed innermost wrappers, and any stack around a forwarder
    f(&&v, &[0])?;
    f(&&mut v, &[1])?;
    f(&&&v, &[0, 0])?;
    f(&Box::new(&v), &[0, 2])?;
    f(&Some(&v), &[0, 3])?;
    wrap4(&st, &mut vec![], Dyn(&v), &mut f)?;
    let b = Box::new(v);
    f(&b, &[2])?;
    f(&&b, &[2, 0])?;
    let b = Nt(*b);
    f(&b, &[4])?;
    f(&Some(&b), &[4, 0, 3])?;
    let b = Box::new(b);
    f(&b, &[4, 2])?;
    let b = Some(b.0);
    f(&b, &[3])?;
    f(&&b, &[3, 0])?;
    let b = Box::new(b);
    f(&b, &[3, 2])
}

fn de_std<T: Model>(v: &Val, o: &mut Obs) -> Res {
    let name = std::any::type_name::<T>();
    let evs = v.evs();
    let mut out: Option<T> = None;
    let plain = match feed(&evs, &mut out) {
        Ok(r) => r.map_err(|e| format!("{:?} {}", e.kind(), e)),
        Err(m) => fail!("{} from {}: panic {}", name, v.show(), m),
    };
    o.step_h(hash(&(name, v)));
    fn check<X: deser::Deserialize, T: Model>(evs: &[Ev], plain: &Result<(), String>, want: &Option<T>, get: fn(&X) -> Option<&T>) -> Res {
        let what = || format!("{} from {}", std::any::type_name::<X>(), mc_vals::show(evs));
        let mut x: Option<X> = None;
        match (feed(evs, &mut x), plain) {
            (Err(m), _) => fail!("{}: panic {}", what(), m),
            (Ok(Ok(())), Ok(())) => match (x.as_ref().and_then(get), want) {
                (Some(a), Some(b)) if same(a, b) => Ok(()),
                (a, b) => fail!("{}: gives {:?}, expected {:?}", what(), a, b),
            },
            (Ok(Err(e)), Err(t)) => {
                let s = format!("{:?} {}", e.kind(), e);
                ensure!(s == *t, "{}: error {}, expected {}", what(), s, t);
                Ok(())
            }
            (Ok(Err(e)), Ok(())) => fail!("{}: error {}, although accepted unwrapped", what(), e),
            (Ok(Ok(())), Err(t)) => fail!("{}: accepted, although {} unwrapped", what(), t),
        }
    }
    o.class(if plain.is_ok() { "accepted" } else { "rejected" });
    check::<Box<T>, T>(&evs, &plain, &out, |x| Some(x))?;
    check::<Box<Box<T>>, T>(&evs, &plain, &out, |x| Some(x))?;
    check::<Nt<T>, T>(&evs, &plain, &out, |x| Some(&x.0))?;
    check::<Nt<Nt<T>>, T>(&evs, &plain, &out, |x| Some(&x.0.0))?;
    check::<Box<Nt<T>>, T>(&evs, &plain, &out, |x| Some(&x.0))?;
    check::<Nt<Box<T>>, T>(&evs, &plain, &out, |x| Some(&x.0))?;
    if *v == Val::L(Leaf::Null) {
        // the null makes it absent, whatever T says
        let mut x: Option<Option<T>> = None;
        match feed(&evs, &mut x) {
            Ok(Ok(())) => {}
            r => fail!("Option of {} from null: {:?}", name, r),
        }
        return match x {
            Some(None) => Ok(()),
            // a null does not tell nested optionals apart
            Some(Some(x)) if name.contains("Option<") && x.events() == [Ev::A(Leaf::Null)] => Ok(()),
            x => fail!("Option of {} from null: {:?}", name, x),
        };
    }
    check::<Option<T>, T>(&evs, &plain, &out, |x| x.as_ref())?;
    check::<Option<Box<T>>, T>(&evs, &plain, &out, |x| x.as_deref())?;
    check::<Box<Option<T>>, T>(&evs, &plain, &out, |x| (**x).as_ref())?;
    check::<Option<Option<T>>, T>(&evs, &plain, &out, |x| x.as_ref().and_then(|x| x.as_ref()))?;
    check::<Option<Nt<T>>, T>(&evs, &plain, &out, |x| x.as_ref().map(|x| &x.0))?;
    check::<Nt<Option<T>>, T>(&evs, &plain, &out, |x| x.0.as_ref())
}

fn de_near<T: Model>(ch: &mut Ch, n: usize, odds: usize, o: &mut Obs) -> Res {
    let mut odds = odds;
    let v = T::tree(ch, n, &mut odds);
    de_std::<T>(&v, o)
}

fn de_any<T: Model>(ch: &mut Ch, n: usize, _: usize, o: &mut Obs) -> Res {
    let mut b = n;
    let v = mc_vals::ide::de_tree(ch, &mut b, 2, &mut |ch| ch.of(&[Leaf::U64(1), Leaf::Null, Leaf::s("a"), Leaf::Bool(true), Leaf::Bytes(vec![1, 2])]));
    de_std::<T>(&v, o)
}

fn direct(ch: &mut Ch, n: usize, o: &mut Obs) -> Res {
    // 0..4: what is announced; 0: rejects atoms, 1: accepts, 2: never gives a value
    let cfg = (ch.pick(4), ch.pick(3));
    let mut ops: Vec<usize> = vec![9, 10];
    for _ in 0..n {
        ops.push(ch.pick(8));
    }
    ops.extend([9, 10, 8]);
    // every callback failing, or none
    setup(cfg, None);
    let plain = calls::<It>(&ops, Some).map_err(|m| mc_core::Fail::from(format!("panic {}", m)))?;
    let k = ch.pick(plain.1.len() + 1);
    setup(cfg, k.checked_sub(1));
    let plain = calls::<It>(&ops, Some).map_err(|m| mc_core::Fail::from(format!("panic {}", m)))?;
    o.step_h(hash(&(cfg, &ops, k)));
    o.class(if plain.2.is_some() { "gives a value" } else { "no value" });
    fn same_as<X: Deserialize>(plain: &(Vec<String>, Vec<String>, Option<It>), ops: &[usize], get: fn(X) -> Option<It>) -> Res {
        match calls::<X>(ops, get) {
            Err(m) => fail!("{}: calls {:?}: panic {}", std::any::type_name::<X>(), ops, m),
            Ok(x) => ensure!(x == *plain, "{}: calls {:?} give {:?}, unwrapped {:?}", std::any::type_name::<X>(), ops, x, plain),
        }
        Ok(())
    }
    same_as::<Box<It>>(&plain, &ops, |x| Some(*x))?;
    same_as::<Nt<It>>(&plain, &ops, |x| Some(x.0))?;
    same_as::<Box<Box<It>>>(&plain, &ops, |x| Some(**x))?;
    same_as::<Nt<Box<It>>>(&plain, &ops, |x| Some(*x.0))?;
    same_as::<Box<Nt<It>>>(&plain, &ops, |x| Some(x.0))?;
    // an optional is only asked for these, and announces no members of its own
    if !ops.contains(&6) && !ops.contains(&7) {
        let ops: Vec<usize> = ops.iter().copied().filter(|x| *x != 10).collect();
        if !ops[1..].iter().any(|x| *x < 4) {
            // nothing was received
            return Ok(());
        }
        let plain = calls::<It>(&ops, Some).map_err(|m| mc_core::Fail::from(format!("panic {}", m)))?;
        same_as::<Option<It>>(&plain, &ops, |x| x)?;
        same_as::<Option<Box<It>>>(&plain, &ops, |x| x.map(|x| *x))?;
        same_as::<Box<Option<It>>>(&plain, &ops, |x| *x)?;
        same_as::<Nt<Option<Nt<It>>>>(&plain, &ops, |x| x.0.map(|x| x.0))?;
    }
    Ok(())
}

type Ser = fn(&mut Ch, usize, Scope, &mut Obs) -> Res;
type De = fn(&mut Ch, usize, usize, &mut Obs) -> Res;
macro_rules! sers { ($($t:ty),* $(,)?) => { &[$(ser_std::<$t> as Ser),*] }; }
macro_rules! des { ($($t:ty),* $(,)?) => { &[$((de_near::<$t> as De, de_any::<$t> as De)),*] }; }
const SER: &[Ser] = mc_vals::std_types!(sers);
const DE: &[(De, De)] = mc_vals::std_types!(des);

pub fn c23(r: &mut Runner) {
    let n = r.b(2, 3);
    r.section(
        "ser instrumented",
        &format!("all instrumented trees of <= {} nested values (4 kinds) x all stacks of 1..4 wrappers (&, &mut, Box, Some, newtype) x announcing and optional or not x no fault or every callback failing", n),
        |ch, o| {
            let (mut id, mut b) = (0, n);
            let mut v = inst(ch, &mut id, &mut b, 2);
            v.optional = ch.flag();
            v.named = ch.flag();
            let st = stack(ch, 4);
            let dry = trace(&v, None);
            let fault = match ch.pick(dry.calls.len() + 1) {
                0 => None,
                k => Some(k as u32 - 1),
            };
            let plain = trace(&v, fault);
            let name = format!("tree of {} values", id);
            let mut f = |w: &dyn Serialize, done: &[usize]| compare(&plain, w, done, fault, &name, o);
            wrap4(&st, &mut vec![], Dyn(&v), &mut f)?;
            wrap4(&st, &mut vec![], v, &mut f)
        },
    );
    let s = Scope { w: 2, n: r.b(1, 2) };
    r.section(
        "ser std",
        &format!("{} standard types, all values with collections of <= {} elements, x all stacks of <= 2 wrappers plus 13 typed ones", SER.len(), s.n),
        |ch, o| SER[ch.pick(SER.len())](ch, 2, s, o),
    );
    let m = r.b(3, 4);
    r.section("de sinks", &format!("sinks with 4 kinds of announcements that accept, reject or yield nothing, behind Box, newtype, Option and nested ones: all sequences of {} direct calls (8 kinds, nested sinks included) between reads of everything announced, no fault or every callback failing", m), |ch, o| direct(ch, m, o));
    r.section("de fitting", &format!("{} standard types, all streams of their shape with <= 2 elements per collection and at most one misfit, into Box, Box Box, newtypes, Option, Option Box, Box Option, Option Option", DE.len()), |ch, o| {
        (DE[ch.pick(DE.len())].0)(ch, 2, 1, o)
    });
    let m = r.b(2, 3);
    r.section("de any", &format!("the same types, all value trees of <= {} nested values", m), |ch, o| {
        (DE[ch.pick(DE.len())].1)(ch, m, 0, o)
    });
}
#[allow(unused)]
fn unused(_: HSet<u8>, _: BTreeSet<u8>, _: BTreeMap<u8, HMap<u8, u8>>) {}
