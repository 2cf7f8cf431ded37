//! C17: call stack use.
//!
//! Every case is executed on a thread with a small stack, nested so deeply
//! that even a few bytes per level would overflow it (an overflow ends the
//! process and is reported for the case by check.py), and on a shallow and a
//! deeper nesting for which the stack positions seen by callbacks are compared.
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, MapEmitter, SeqEmitter, Serialize, SerializeDriver, SerializeHandle, SerializerState, StructEmitter};
use deser::{Atom, Error, ErrorKind};
use deser_path::{PathSerializable, PathSink};
use mc_core::{ensure, fail, guard, hash, Ch, Obs, Res, Runner};
use mc_vals::{Ev, Leaf};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::hint::black_box;
use std::mem::take;

const STACK: usize = 192 << 10;

thread_local! {
    static LOW: Cell<usize> = const { Cell::new(usize::MAX) };
    static BASE: Cell<usize> = const { Cell::new(0) };
    static LOG: RefCell<Vec<(u8, u32)>> = const { RefCell::new(Vec::new()) };
}

#[inline(never)]
fn here() -> usize {
    let x = 0u8;
    black_box(&x) as *const u8 as usize
}
fn touch() {
    let a = here();
    LOW.with(|l| l.set(l.get().min(a)));
}
/// Stack used by callbacks of `f`.
fn used<R>(f: impl FnOnce() -> R) -> (usize, R) {
    LOW.with(|l| l.set(usize::MAX));
    BASE.with(|b| b.set(here()));
    let r = f();
    let u = BASE.with(|b| b.get()).saturating_sub(LOW.with(|l| l.get()).min(BASE.with(|b| b.get())));
    (u, r)
}

fn on_small_stack<R: Send>(f: impl FnOnce() -> R + Send) -> Result<R, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || guard(f))
            .expect("cannot start a thread")
            .join()
            .unwrap_or_else(|_| Err("panic".into()))
    })
}

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum K {
    Seq,
    /// with elements before and after
    Mid,
    MapVal,
    Struct,
    MapKey,
}
const KS: [K; 5] = [K::Seq, K::Mid, K::MapVal, K::Struct, K::MapKey];

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Hold {
    Boxed,
    Slot,
    SomeBox,
    BoxBox,
}
const HOLDS: [Hold; 4] = [Hold::Boxed, Hold::Slot, Hold::SomeBox, Hold::BoxBox];

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum End {
    Complete,
    Abandon,
    Fail,
    FailLast,
}
const ENDS: [End; 4] = [End::Complete, End::Abandon, End::Fail, End::FailLast];

#[derive(Clone, Debug, Hash)]
struct Plan {
    pat: Vec<K>,
    hold: Hold,
    end: End,
    n: usize,
}

impl Plan {
    fn kind(&self, i: usize) -> K {
        self.pat[i % self.pat.len()]
    }
    /// The events, made without recursion.
    fn events(&self) -> Vec<Ev> {
        let mut e = vec![];
        let a = |n: u64| Ev::A(Leaf::U64(n));
        let k = || Ev::A(Leaf::s("k"));
        for i in 0..self.n {
            match self.kind(i) {
                K::Seq => e.push(Ev::Ss),
                K::Mid => e.extend([Ev::Ss, a(1)]),
                K::MapVal | K::Struct => e.extend([Ev::Ms, k()]),
                K::MapKey => e.push(Ev::Ms),
            }
        }
        e.push(a(7));
        for i in (0..self.n).rev() {
            match self.kind(i) {
                K::Seq => e.push(Ev::Se),
                K::Mid => e.extend([a(2), Ev::Se]),
                K::MapVal | K::Struct => e.push(Ev::Me),
                K::MapKey => e.extend([a(3), Ev::Me]),
            }
        }
        e
    }
}

fn bad_end() -> Error {
    Error::new(ErrorKind::OutOfRange, "the end")
}

// ---------------------------------------------------------- serialization

#[derive(Clone, Copy)]
struct Nest<'p>(&'p Plan, usize);

impl Serialize for Nest<'_> {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        touch();
        let p = self.0;
        if self.1 == p.n {
            if p.end == End::Fail {
                return Err(bad_end());
            }
            return Ok(Chunk::Atom(Atom::U64(7)));
        }
        let em = Em {
            n: *self,
            step: 0,
            slot: None,
            num: 0,
        };
        Ok(match p.kind(self.1) {
            K::Seq | K::Mid => Chunk::Seq(Box::new(em)),
            K::MapVal | K::MapKey => Chunk::Map(Box::new(em)),
            K::Struct => Chunk::Struct(Box::new(em)),
        })
    }
    fn finish(&self, _: &SerializerState) -> Result<(), Error> {
        touch();
        if self.1 == 0 && self.0.end == End::FailLast {
            return Err(bad_end());
        }
        Ok(())
    }
}
impl Drop for Em<'_> {
    fn drop(&mut self) {
        touch();
    }
}

struct Em<'p> {
    n: Nest<'p>,
    step: u32,
    slot: Option<Nest<'p>>,
    num: u64,
}
impl<'p> Em<'p> {
    fn child(&mut self) -> SerializeHandle<'_> {
        let c = Nest(self.n.0, self.n.1 + 1);
        match c.0.hold {
            Hold::Boxed => SerializeHandle::boxed(c),
            Hold::Slot => SerializeHandle::to(self.slot.insert(c)),
            Hold::SomeBox => SerializeHandle::boxed(Some(Box::new(c))),
            Hold::BoxBox => SerializeHandle::boxed(Box::new(Box::new(c))),
        }
    }
    fn number(&mut self, n: u64) -> SerializeHandle<'_> {
        self.num = n;
        SerializeHandle::to(&self.num)
    }
}
impl SeqEmitter for Em<'_> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        touch();
        self.step += 1;
        Ok(match (self.n.0.kind(self.n.1), self.step) {
            (K::Seq, 1) | (K::Mid, 2) => Some(self.child()),
            (K::Mid, 1) => Some(self.number(1)),
            (K::Mid, 3) => Some(self.number(2)),
            _ => None,
        })
    }
}
impl MapEmitter for Em<'_> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        touch();
        self.step += 1;
        Ok(match (self.n.0.kind(self.n.1), self.step) {
            (K::MapVal, 1) => Some(SerializeHandle::boxed("k")),
            (K::MapKey, 1) => Some(self.child()),
            _ => None,
        })
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle<'_>, Error> {
        touch();
        Ok(match self.n.0.kind(self.n.1) {
            K::MapVal => self.child(),
            _ => self.number(3),
        })
    }
}
impl StructEmitter for Em<'_> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error> {
        touch();
        self.step += 1;
        Ok(match self.step {
            1 => Some((Cow::Borrowed("k"), self.child())),
            _ => None,
        })
    }
}

/// Serializes until the planned end and compares with the events.
fn drive(v: &dyn Serialize, p: &Plan, want: &[Ev]) -> Result<(), String> {
    let mut d = SerializeDriver::new(v);
    let bottom = want.iter().position(|e| *e == Ev::A(Leaf::U64(7))).unwrap();
    let mut i = 0;
    loop {
        match d.next() {
            Ok(Some((e, _, _))) => {
                if want.get(i) != Some(&Ev::of(&e)) {
                    return Err(format!("event {} is {:?}", i, e));
                }
                i += 1;
                if p.end == End::Abandon && i > bottom {
                    return Ok(());
                }
            }
            Ok(None) => break,
            Err(e) => {
                if e.kind() != ErrorKind::OutOfRange {
                    return Err(format!("{}", e));
                }
                let w = match p.end {
                    End::Fail => bottom,
                    // the value finishes after its last event
                    _ => want.len(),
                };
                // an error may come together with the last event
                if (p.end == End::Fail || p.end == End::FailLast) && (i == w || p.end == End::FailLast && i + 1 == w) {
                    return Ok(());
                }
                return Err(format!("error after {} events", i));
            }
        }
    }
    if i != want.len() || p.end == End::Fail || p.end == End::FailLast {
        return Err(format!("{} of {} events", i, want.len()));
    }
    Ok(())
}

fn ser_run(p: &Plan, path: bool) -> Result<(), String> {
    let want = p.events();
    let v = Nest(p, 0);
    if path {
        let w = PathSerializable::wrap(&v);
        drive(&w, p, &want)
    } else {
        drive(&v, p, &want)
    }
}

fn json_of(evs: &[Ev]) -> String {
    let mut s = String::new();
    // whether something came before in the container, and whether it is a map
    let mut st: Vec<(usize, bool)> = vec![];
    for e in evs {
        if !matches!(e, Ev::Se | Ev::Me) {
            if let Some((n, m)) = st.last_mut() {
                if *n > 0 {
                    s.push(if *m && *n % 2 == 1 { ':' } else { ',' });
                }
                *n += 1;
            }
        }
        match e {
            Ev::Ss => {
                s.push('[');
                st.push((0, false));
            }
            Ev::Ms => {
                s.push('{');
                st.push((0, true));
            }
            Ev::Se => {
                s.push(']');
                st.pop();
            }
            Ev::Me => {
                s.push('}');
                st.pop();
            }
            Ev::A(Leaf::Str(x)) => {
                s.push('"');
                s.push_str(x);
                s.push('"');
            }
            Ev::A(Leaf::U64(n)) => s.push_str(&n.to_string()),
            Ev::A(_) => s.push_str("null"),
        }
    }
    s
}

fn json_write(p: &Plan) -> Result<(), String> {
    let r = deser_json::to_string(&Nest(p, 0));
    match (r, p.end) {
        (Ok(s), End::Complete) => {
            if s != json_of(&p.events()) {
                return Err("different text".into());
            }
            Ok(())
        }
        (Err(e), End::Fail | End::FailLast) if e.kind() == ErrorKind::OutOfRange => Ok(()),
        (r, _) => Err(format!("{:?}", r.map(|s| s.len()))),
    }
}

// -------------------------------------------------------- deserialization

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Into {
    Boxed,
    Opt,
    InBox,
    Null,
}
const INTOS: [Into; 4] = [Into::Boxed, Into::Opt, Into::InBox, Into::Null];

/// Accepts everything and knows how deep it is.
struct Dig {
    depth: u32,
    how: Into,
    end: End,
}

thread_local! {
    static NEXT: Cell<(u32, Into, End)> = const { Cell::new((0, Into::Boxed, End::Complete)) };
}
impl Dig {
    fn log(&self, op: u8) {
        touch();
        LOG.with(|l| l.borrow_mut().push((op, self.depth)));
    }
    fn kid(&mut self) -> SinkHandle<'_> {
        let d = Dig {
            depth: self.depth + 1,
            how: self.how,
            end: self.end,
        };
        match self.how {
            Into::Boxed => SinkHandle::boxed(d),
            Into::Null => SinkHandle::null(),
            Into::Opt => {
                NEXT.with(|n| n.set((d.depth, d.how, d.end)));
                SinkHandle::boxed(Owned::<Option<Dug>>::new())
            }
            Into::InBox => {
                NEXT.with(|n| n.set((d.depth, d.how, d.end)));
                SinkHandle::boxed(Owned::<Box<Dug>>::new())
            }
        }
    }
}
/// What a `Dig` makes.
struct Dug;
impl Deserialize for Dug {
    fn deserialize_into(_: &mut Option<Self>) -> SinkHandle<'_> {
        let (depth, how, end) = NEXT.with(|n| n.get());
        SinkHandle::boxed(Dig { depth, how, end })
    }
}
use deser::de::OwnedSink;
/// A sink that owns the target it deserializes into.
struct Owned<T: Deserialize>(OwnedSink<T>);
impl<T: Deserialize + 'static> Owned<T> {
    fn new() -> Owned<T> {
        Owned(OwnedSink::deserialize())
    }
}
impl<T: Deserialize + 'static> Sink for Owned<T> {
    fn atom(&mut self, a: Atom, s: &DeserializerState) -> Result<(), Error> {
        self.0.borrow_mut().atom(a, s)
    }
    fn map(&mut self, s: &DeserializerState) -> Result<(), Error> {
        self.0.borrow_mut().map(s)
    }
    fn seq(&mut self, s: &DeserializerState) -> Result<(), Error> {
        self.0.borrow_mut().seq(s)
    }
    fn next_key(&mut self, s: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.0.borrow_mut().next_key(s)
    }
    fn next_value(&mut self, s: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.0.borrow_mut().next_value(s)
    }
    fn finish(&mut self, s: &DeserializerState) -> Result<(), Error> {
        self.0.borrow_mut().finish(s)
    }
}
impl Sink for Dig {
    fn atom(&mut self, a: Atom, _: &DeserializerState) -> Result<(), Error> {
        self.log(0);
        if self.end == End::Fail && Leaf::of(&a) == Leaf::U64(7) {
            return Err(bad_end());
        }
        Ok(())
    }
    fn map(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.log(1);
        Ok(())
    }
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.log(2);
        Ok(())
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.log(3);
        Ok(self.kid())
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.log(4);
        Ok(self.kid())
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.log(5);
        if self.end == End::FailLast && self.depth == 0 {
            return Err(bad_end());
        }
        Ok(())
    }
}
impl Drop for Dig {
    fn drop(&mut self) {
        touch();
    }
}

/// The calls the events lead to, and how many of the events are accepted.
fn calls(evs: &[Ev], how: Into, end: End) -> (Vec<(u8, u32)>, usize) {
    let mut v = vec![];
    // is a map; members
    let mut st: Vec<(bool, usize)> = vec![];
    for (i, e) in evs.iter().enumerate() {
        let max = if how == Into::Null { 0 } else { u32::MAX };
        let mut log = |op: u8, d: usize| {
            if d as u32 <= max {
                v.push((op, d as u32));
            }
        };
        if let Ev::Me | Ev::Se = e {
            st.pop();
            log(5, st.len());
        } else {
            let d = st.len();
            if let Some((m, n)) = st.last_mut() {
                log(if *m && *n % 2 == 0 { 3 } else { 4 }, d - 1);
                *n += 1;
            }
            match e {
                Ev::A(l) => {
                    log(0, d);
                    if *l == Leaf::U64(7) && how != Into::Null && end == End::Fail {
                        return (v, i);
                    }
                    log(5, d);
                    if *l == Leaf::U64(7) && end == End::Abandon {
                        return (v, i + 1);
                    }
                }
                Ev::Ms => {
                    log(1, d);
                    st.push((true, 0));
                }
                _ => {
                    log(2, d);
                    st.push((false, 0));
                }
            }
        }
    }
    let n = evs.len() - (end == End::FailLast) as usize;
    (v, n)
}

fn dig(p: &Plan, how: Into, path: bool) -> Result<(), String> {
    let evs = p.events();
    let (want, accepted) = calls(&evs, how, p.end);
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.clear();
        l.reserve(want.len());
    });
    let root = Dig {
        depth: 0,
        how,
        end: p.end,
    };
    let mut ok = 0;
    let mut failed = None;
    {
        let h = if path { SinkHandle::boxed(PathSink::wrap_ref(SinkHandle::boxed(root))) } else { SinkHandle::boxed(root) };
        let mut d = DeserializeDriver::from_sink(h);
        for e in &evs {
            if p.end == End::Abandon && ok == accepted {
                break;
            }
            match d.emit(e.event()) {
                Ok(()) => ok += 1,
                Err(e) => {
                    failed = Some(e);
                    break;
                }
            }
        }
    }
    let got = LOG.with(|l| take(&mut *l.borrow_mut()));
    if ok != accepted {
        return Err(format!("{} events accepted, expected {} ({:?})", ok, accepted, failed.map(|e| e.to_string())));
    }
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("call {} is {:?}, expected {:?}", i, got.get(i), want.get(i)));
    }
    Ok(())
}

/// Same from JSON.
struct Root(Dug);
impl Deserialize for Root {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        *out = Some(Root(Dug));
        Dug::deserialize_into(Box::leak(Box::new(None)))
    }
}

fn json_dig(p: &Plan, how: Into) -> Result<(), String> {
    let evs = p.events();
    let (want, _) = calls(&evs, how, p.end);
    let mut text = json_of(&evs);
    if p.end == End::Abandon {
        // nothing closes
        text.truncate(text.find('7').unwrap());
        text.push_str("7 ");
    }
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.clear();
        l.reserve(want.len());
    });
    NEXT.with(|n| n.set((0, how, p.end)));
    let r: Result<Root, Error> = deser_json::from_str(&text);
    let got = LOG.with(|l| take(&mut *l.borrow_mut()));
    let fine = match p.end {
        End::Complete => r.is_ok(),
        End::Abandon => r.is_err(),
        End::Fail => how == Into::Null || r.is_err(),
        End::FailLast => r.is_err(),
    };
    if !fine {
        return Err(match r {
            Ok(_) => "accepted".into(),
            Err(e) => format!("rejected: {}", e),
        });
    }
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("call {} is {:?}, expected {:?}", i, got.get(i), want.get(i)));
    }
    Ok(())
}

// ------------------------------------------------------------ typed values

trait Deep: Serialize + Deserialize {
    const OPEN: &'static str;
    const CLOSE: &'static str;
    const BOTTOM: &'static str;
    fn bottom() -> Self;
    fn around(self) -> Self;
    /// Takes what is nested directly inside.
    fn inner(&mut self) -> Option<Self>
    where
        Self: Sized;
}

macro_rules! unlinked {
    ($($t:ty),*) => { $(impl Drop for $t {
        fn drop(&mut self) {
            let mut x = self.inner();
            while let Some(mut y) = x {
                x = y.inner();
            }
        }
    })* };
}
unlinked!(Tree, Node, MapT, OptV, Flat, Pair);

#[derive(deser::Serialize, deser::Deserialize)]
struct Tree(Vec<Tree>);
impl Deep for Tree {
    const OPEN: &'static str = "[";
    const CLOSE: &'static str = "]";
    const BOTTOM: &'static str = "[]";
    fn bottom() -> Tree {
        Tree(vec![])
    }
    fn around(self) -> Tree {
        Tree(vec![self])
    }
    fn inner(&mut self) -> Option<Tree> {
        self.0.pop()
    }
}
#[derive(deser::Serialize, deser::Deserialize)]
struct Node {
    child: Option<Box<Node>>,
}
impl Deep for Node {
    const OPEN: &'static str = "{\"child\":";
    const CLOSE: &'static str = "}";
    const BOTTOM: &'static str = "{\"child\":null}";
    fn bottom() -> Node {
        Node { child: None }
    }
    fn around(self) -> Node {
        Node { child: Some(Box::new(self)) }
    }
    fn inner(&mut self) -> Option<Node> {
        self.child.take().map(|x| *x)
    }
}
#[derive(deser::Serialize, deser::Deserialize)]
struct MapT(BTreeMap<String, MapT>);
impl Deep for MapT {
    const OPEN: &'static str = "{\"k\":";
    const CLOSE: &'static str = "}";
    const BOTTOM: &'static str = "{}";
    fn bottom() -> MapT {
        MapT(BTreeMap::new())
    }
    fn around(self) -> MapT {
        MapT(BTreeMap::from([("k".to_string(), self)]))
    }
    fn inner(&mut self) -> Option<MapT> {
        self.0.pop_first().map(|x| x.1)
    }
}
#[derive(deser::Serialize, deser::Deserialize)]
struct OptV {
    v: Vec<Option<OptV>>,
}
impl Deep for OptV {
    const OPEN: &'static str = "{\"v\":[";
    const CLOSE: &'static str = "]}";
    const BOTTOM: &'static str = "{\"v\":[]}";
    fn bottom() -> OptV {
        OptV { v: vec![] }
    }
    fn around(self) -> OptV {
        OptV { v: vec![Some(self)] }
    }
    fn inner(&mut self) -> Option<OptV> {
        self.v.pop().flatten()
    }
}
#[derive(deser::Serialize, deser::Deserialize)]
struct Flat {
    #[deser(flatten)]
    inner: FlatIn,
}
#[derive(deser::Serialize, deser::Deserialize)]
struct FlatIn {
    next: Option<Box<Flat>>,
}
impl Deep for Flat {
    const OPEN: &'static str = "{\"next\":";
    const CLOSE: &'static str = "}";
    const BOTTOM: &'static str = "{\"next\":null}";
    fn bottom() -> Flat {
        Flat { inner: FlatIn { next: None } }
    }
    fn around(self) -> Flat {
        Flat { inner: FlatIn { next: Some(Box::new(self)) } }
    }
    fn inner(&mut self) -> Option<Flat> {
        self.inner.next.take().map(|x| *x)
    }
}
#[derive(deser::Serialize, deser::Deserialize)]
struct Pair((u64, Vec<Pair>));
impl Deep for Pair {
    const OPEN: &'static str = "[1,[";
    const CLOSE: &'static str = "]]";
    const BOTTOM: &'static str = "[1,[]]";
    fn bottom() -> Pair {
        Pair((1, vec![]))
    }
    fn around(self) -> Pair {
        Pair((1, vec![self]))
    }
    fn inner(&mut self) -> Option<Pair> {
        self.0 .1.pop()
    }
}

fn deep<T: Deep>(n: usize, what: usize) -> Result<(), String> {
    let text = format!("{}{}{}", T::OPEN.repeat(n), T::BOTTOM, T::CLOSE.repeat(n));
    let build = || {
        let mut v = T::bottom();
        for _ in 0..n {
            v = v.around();
        }
        v
    };
    let count = |mut v: T| {
        let mut k = 0;
        while let Some(x) = v.inner() {
            v = x;
            k += 1;
        }
        k
    };
    match what {
        0 => {
            let s = deser_json::to_string(&build()).map_err(|e| e.to_string())?;
            if s != text {
                return Err("different text".into());
            }
        }
        1 => {
            let v: T = deser_json::from_str(&text).map_err(|e| e.to_string())?;
            let k = count(v);
            if k != n {
                return Err(format!("{} of {} levels", k, n));
            }
        }
        2 => {
            // truncated in the middle
            let r: Result<T, Error> = deser_json::from_str(&text[..T::OPEN.len() * n]);
            if r.is_ok() {
                return Err("accepted a truncated text".into());
            }
        }
        3 => {
            // complete but for something that does not belong there
            let r: Result<T, Error> = deser_json::from_str(&format!("{}]", text));
            if r.is_ok() {
                return Err("accepted a text with something after it".into());
            }
            let r: Result<T, Error> = deser_json::from_str(&format!("{}[true]{}", T::OPEN.repeat(n), T::CLOSE.repeat(n)));
            if r.is_ok() {
                return Err("accepted what does not fit".into());
            }
        }
        4 => {
            // into a type through a driver with and without path tracking
            let v = build();
            for path in [false, true] {
                let mut out: Option<T> = None;
                {
                    let mut d = if path {
                        DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(T::deserialize_into(&mut out))))
                    } else {
                        DeserializeDriver::new(&mut out)
                    };
                    let mut s = SerializeDriver::new(&v);
                    while let Some((e, _, _)) = s.next().map_err(|e| e.to_string())? {
                        d.emit(e).map_err(|e| e.to_string())?;
                    }
                }
                let k = count(out.ok_or("no value")?);
                if k != n {
                    return Err(format!("{} of {} levels", k, n));
                }
            }
        }
        _ => {
            // every event but some of the last ones
            let v = build();
            let mut evs = vec![];
            {
                let w = PathSerializable::wrap(&v);
                let mut s = SerializeDriver::new(&w);
                while let Some((e, _, _)) = s.next().map_err(|e| e.to_string())? {
                    evs.push(Ev::of(&e));
                }
            }
            for miss in [1, 2, n / 2, n] {
                for path in [false, true] {
                    let mut out: Option<T> = None;
                    let mut d = if path {
                        DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(T::deserialize_into(&mut out))))
                    } else {
                        DeserializeDriver::new(&mut out)
                    };
                    for e in &evs[..evs.len() - miss.min(evs.len())] {
                        d.emit(e.event()).map_err(|e| e.to_string())?;
                    }
                }
            }
        }
    }
    Ok(())
}
const DEEP: [fn(usize, usize) -> Result<(), String>; 6] = [deep::<Tree>, deep::<Node>, deep::<MapT>, deep::<OptV>, deep::<Flat>, deep::<Pair>];

/// Unknown members and members of the wrong type are passed over.
#[derive(deser::Deserialize)]
struct Skips {
    a: Option<u64>,
}
#[derive(deser::Deserialize)]
struct SkipsFlat {
    #[deser(flatten)]
    s: Skips,
    b: Option<u64>,
}

fn skips(p: &Plan, flat: bool) -> Result<(), String> {
    let text = format!("{{\"u\":{},\"a\":5}}", json_of(&p.events()));
    let a = if flat {
        deser_json::from_str::<SkipsFlat>(&text).map(|x| (x.s.a, x.b))
    } else {
        deser_json::from_str::<Skips>(&text).map(|x| (x.a, None))
    };
    match a {
        Ok((Some(5), None)) => Ok(()),
        x => Err(format!("{:?}", x.map_err(|e| e.to_string()))),
    }
}

/// Runs a plan shallow, deeper and on a small stack.
fn at_depths(p: &Plan, n: usize, o: &mut Obs, what: &str, f: &(dyn Fn(&Plan) -> Result<(), String> + Sync)) -> Res {
    let small = on_small_stack(|| {
        let mut u = vec![];
        for n in [40, 1000] {
            let p = Plan { n, ..p.clone() };
            let (used, r) = used(|| f(&p));
            if let Err(e) = r {
                return Err(format!("depth {}: {}", n, e));
            }
            u.push(used);
        }
        let p = Plan { n, ..p.clone() };
        f(&p).map_err(|e| format!("depth {}: {}", n, e))?;
        Ok(u)
    });
    o.step_h(hash(&(what, p)));
    o.sample(|| format!("{} {:?}", what, p));
    let u = match small {
        Ok(Ok(u)) => u,
        Ok(Err(e)) => fail!("{} {:?}: {}", what, p, e),
        Err(e) => fail!("{} {:?}: panic {}", what, p, e),
    };
    // the same code at the same distance, but for what the data decides
    ensure!(u[1] <= u[0] + 4096, "{} {:?}: {} bytes of stack at depth 40 but {} at depth 1000", what, p, u[0], u[1]);
    Ok(())
}

fn pattern(ch: &mut Ch, ks: &[K], len: usize) -> Vec<K> {
    (0..1 + ch.pick(len)).map(|_| ch.of(ks)).collect()
}

pub fn c17(r: &mut Runner) {
    let (len, n, np) = (2, r.b(30_000, 200_000), r.b(12_000, 40_000));
    let ends = |ch: &mut Ch| ch.of(&ENDS);
    r.section("ser", &format!("nesting patterns of period <= {} over 5 kinds of containers x 4 kinds of handles, completed, abandoned at the bottom, failing at the bottom or the end; depths 40, 1000 and {} on a stack of {} KB", len, n, STACK >> 10), |ch, o| {
        let p = Plan { pat: pattern(ch, &KS, len), hold: ch.of(&HOLDS), end: ends(ch), n: 0 };
        at_depths(&p, n, o, "ser", &|p| ser_run(p, false))
    });
    r.section("ser path", &format!("the same with path tracking, depth {}", np), |ch, o| {
        let p = Plan { pat: pattern(ch, &KS, len), hold: ch.of(&HOLDS), end: ends(ch), n: 0 };
        at_depths(&p, np, o, "ser path", &|p| ser_run(p, true))
    });
    r.section("json write", &format!("the same without compound keys to JSON, depth {}", n), |ch, o| {
        let p = Plan { pat: pattern(ch, &KS[..4], len), hold: ch.of(&HOLDS), end: ch.of(&[End::Complete, End::Fail, End::FailLast]), n: 0 };
        at_depths(&p, n, o, "json write", &|p| json_write(p))
    });
    r.section("de", &format!("the same patterns into sinks (boxed, through Option and Box, ignored), completed, abandoned, failing at the bottom or the end, depth {}", n), |ch, o| {
        let p = Plan { pat: pattern(ch, &KS, len), hold: Hold::Boxed, end: ends(ch), n: 0 };
        let how = ch.of(&INTOS);
        if how == Into::Null && p.end == End::Fail {
            return Ok(());
        }
        at_depths(&p, n, o, "de", &|p| dig(p, how, false))
    });
    r.section("de path", &format!("the same with path tracking, depth {}", np), |ch, o| {
        let p = Plan { pat: pattern(ch, &KS, len), hold: Hold::Boxed, end: ends(ch), n: 0 };
        let how = ch.of(&INTOS);
        if how == Into::Null && p.end == End::Fail {
            return Ok(());
        }
        at_depths(&p, np, o, "de path", &|p| dig(p, how, true))
    });
    r.section("json read", &format!("the same without compound keys from JSON, truncated instead of abandoned, depth {}", n), |ch, o| {
        let p = Plan { pat: pattern(ch, &KS[..4], len), hold: Hold::Boxed, end: ends(ch), n: 0 };
        let how = ch.of(&INTOS);
        if how == Into::Null && p.end == End::Fail {
            return Ok(());
        }
        at_depths(&p, n, o, "json read", &|p| json_dig(p, how))
    });
    r.section("unknown members", &format!("the same as an unknown member of a derived struct, plain or flattened, depth {}", n), |ch, o| {
        let p = Plan { pat: pattern(ch, &KS[..4], len), hold: Hold::Boxed, end: End::Complete, n: 0 };
        let flat = ch.flag();
        at_depths(&p, n, o, "unknown members", &|p| skips(p, flat))
    });
    r.section("types", &format!("{} recursive derived types (lists, optional boxes, maps, flattened, tuples): to and from JSON, truncated, with errors, through drivers with and without path tracking, abandoned at four places; depths 1, 100 and {}", DEEP.len(), n), |ch, o| {
        let t = ch.pick(DEEP.len());
        let what = ch.pick(6);
        let d = ch.of(&[1, 100, if what >= 4 { np } else { n }]);
        o.step_h(hash(&(t, what, d)));
        match on_small_stack(|| DEEP[t](d, what)) {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => fail!("type {} use {} depth {}: {}", t, what, d, e),
            Err(e) => fail!("type {} use {} depth {}: panic {}", t, what, d, e),
        }
    });
}
