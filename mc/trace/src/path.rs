//! C18, C19 and C20: path tracking.
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, Serialize, SerializeDriver, SerializeHandle, SerializerState};
use deser::{Atom, Error};
use deser_path::{Path, PathSegment, PathSerializable, PathSink};
use mc_core::{ensure, fail, guard, hash, Ch, Fx, Obs, Res, Runner};
use mc_vals::gen::{HMap, HSet, Scope};
use mc_vals::ide::{self, child_pos, de_tree, set_styles, DStyle, TSink, Tr, DSTYLES, ROOT};
use mc_vals::direct;
use mc_vals::dtree::{self, Node};
use mc_vals::dty::{self, *};
use mc_vals::iser::{self, set_uniform, spec_tree, styles_all, styles_cycle, Kind, Spec, Style, STYLES};
use mc_vals::model::{Model, D};
use mc_vals::track::{self, bad, Op};
use mc_vals::{Ev, Leaf, Val};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::BuildHasherDefault;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Seg {
    Unknown,
    I(u64),
    K(String),
}

pub fn segs(p: &Path) -> Vec<Seg> {
    p.segments()
        .iter()
        .map(|x| match x {
            PathSegment::Unknown => Seg::Unknown,
            PathSegment::Index(x) => Seg::I(*x as u64),
            PathSegment::Key(x) => Seg::K(x.clone()),
        })
        .collect()
}

/// The segments a key may stand for.
fn key_segs(k: &Leaf) -> Vec<Seg> {
    match k {
        Leaf::Str(s) => vec![Seg::K(s.clone())],
        Leaf::U64(n) => vec![Seg::I(*n)],
        // not unsigned as sent, although it is as a number
        Leaf::I64(n) if *n >= 0 => vec![Seg::I(*n as u64), Seg::Unknown],
        _ => vec![Seg::Unknown],
    }
}

fn join(alts: &[Vec<Seg>], last: &[Seg]) -> Vec<Vec<Seg>> {
    let mut v = vec![];
    for a in alts {
        for l in last {
            let mut a = a.clone();
            a.push(l.clone());
            v.push(a);
        }
    }
    v
}

/// What is allowed at a node.
#[derive(Clone, Debug)]
struct Want {
    alts: Vec<Vec<Seg>>,
    /// inside of a key only the location of the map is certain
    prefix: bool,
}

type Wants = HashMap<u64, Want, BuildHasherDefault<Fx>>;

thread_local! {
    static WANT: RefCell<Wants> = RefCell::new(Wants::default());
    static SEEN: RefCell<u64> = const { RefCell::new(0) };
}

fn matches(got: &[Seg], w: &Want) -> bool {
    w.alts.iter().any(|a| if w.prefix { got.starts_with(a) } else { got == &a[..] })
}

fn badness() -> Res {
    match track::badness() {
        Some(b) => fail!("{}", b),
        None => Ok(()),
    }
}

// -------------------------------------------------------------------- C18

fn ser_wants(s: &Spec, at: &Want, w: &mut Wants) {
    w.insert(s.id, at.clone());
    for (i, k) in s.kids.iter().enumerate() {
        let last = match s.kind {
            Kind::Leaf => continue,
            Kind::Seq => vec![Seg::I(i as u64)],
            Kind::Struct => vec![Seg::K(s.names[i].clone())],
            Kind::Map if i % 2 == 0 => {
                let key = Want {
                    alts: at.alts.clone(),
                    prefix: true,
                };
                ser_wants(k, &key, w);
                // the key itself is at the location of the map
                w.insert(
                    k.id,
                    Want {
                        alts: at.alts.clone(),
                        prefix: at.prefix,
                    },
                );
                continue;
            }
            Kind::Map => match s.kids[i - 1].kind {
                Kind::Leaf => key_segs(&s.kids[i - 1].leaf),
                _ => vec![Seg::Unknown],
            },
        };
        if at.prefix {
            ser_wants(k, at, w);
        } else {
            ser_wants(
                k,
                &Want {
                    alts: join(&at.alts, &last),
                    prefix: false,
                },
                w,
            );
        }
    }
}

fn ser_observer(what: &str, id: u64, state: &SerializerState) {
    let got = segs(&state.get::<Path>());
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        *s = hash(&(*s, what, id, &got));
    });
    WANT.with(|w| {
        let w = w.borrow();
        match w.get(&id) {
            Some(x) if matches(&got, x) => {}
            x => bad(format!("during {} of n{} the path is {:?}, expected {:?}", what, id, got, x)),
        }
    });
}

/// Runs `f` with the value wrapped for path tracking.
fn tracked<R, S: Serialize>(k: usize, s: &S, f: impl FnOnce(&dyn Serialize) -> R) -> R {
    match k {
        0 => f(&PathSerializable::wrap(s)),
        1 => f(&PathSerializable::wrap_ref(SerializeHandle::Borrowed(s))),
        2 => f(&PathSerializable::wrap_ref(SerializeHandle::boxed(s))),
        _ => f(&PathSerializable::wrap_ref(SerializeHandle::boxed(Some(Box::new(s))))),
    }
}

fn show_desc(s: &Spec, k: usize) -> String {
    format!("{} (wrapped in way {})", s.show(), k)
}

fn ser_location(s: &mut Spec, k: usize, o: &mut Obs) -> Res {
    s.number();
    // the visible descriptors are a matter of C20
    s.set_check(false);
    let mut w = Wants::default();
    ser_wants(
        s,
        &Want {
            alts: vec![vec![]],
            prefix: false,
        },
        &mut w,
    );
    WANT.with(|x| *x.borrow_mut() = w);
    track::reset(&[]);
    iser::observe(Some(ser_observer));
    let s = &*s;
    let r = tracked(k, s, |v| -> Res {
        for round in 0..2 {
            SEEN.with(|s| *s.borrow_mut() = 0);
            let mut d = SerializeDriver::new(v);
            loop {
                match guard(|| d.next().map(|x| x.is_some())) {
                    Ok(Ok(true)) => {}
                    Ok(Ok(false)) => break,
                    Ok(Err(e)) => fail!("error {}", e),
                    Err(m) => fail!("panic {}", m),
                }
                o.step_h(SEEN.with(|s| *s.borrow()));
            }
            let end = segs(&d.state().get::<Path>());
            ensure!(end.is_empty(), "at the end of traversal {} the path is {:?}", round, end);
        }
        Ok(())
    });
    iser::observe(None);
    if let Err(e) = r {
        fail!("{}: {}", show_desc(s, k), e.msg);
    }
    if let Some(b) = track::badness() {
        fail!("{}: {}", show_desc(s, k), b);
    }
    o.sample(|| show_desc(s, k));
    Ok(())
}

fn derived_observer(what: &str, id: u64, state: &SerializerState) {
    // where flattened values are is not certain
    if WANT.with(|w| w.borrow().contains_key(&id)) {
        ser_observer(what, id, state);
    }
}

fn ser_derived_location(ch: &mut Ch, n: &Node, what: &dyn Fn() -> String, o: &mut Obs) -> Res {
    let k = ch.pick(4);
    let mut at = vec![];
    n.places(&[], &mut at);
    let w: Wants = at
        .into_iter()
        .map(|(id, p)| {
            let p = p.into_iter().map(|s| match s {
                dtree::Step::I(i) => Seg::I(i),
                dtree::Step::K(k) => Seg::K(k),
            });
            (id, Want { alts: vec![p.collect()], prefix: false })
        })
        .collect();
    WANT.with(|x| *x.borrow_mut() = w);
    track::reset(&[]);
    let v = n.build();
    dtree::observe(Some(derived_observer));
    let r = tracked(k, &v, |v| -> Res {
        for round in 0..2 {
            SEEN.with(|s| *s.borrow_mut() = 0);
            let mut d = SerializeDriver::new(v);
            loop {
                match guard(|| d.next().map(|x| x.is_some())) {
                    Ok(Ok(true)) => {}
                    Ok(Ok(false)) => break,
                    Ok(Err(e)) => fail!("error {}", e),
                    Err(m) => fail!("panic {}", m),
                }
                o.step_h(SEEN.with(|s| *s.borrow()));
            }
            let end = segs(&d.state().get::<Path>());
            ensure!(end.is_empty(), "at the end of traversal {} the path is {:?}", round, end);
        }
        Ok(())
    });
    dtree::observe(None);
    let what = || format!("{} (wrapped in way {})", what(), k);
    if let Err(e) = r {
        fail!("{}: {}", what(), e.msg);
    }
    if let Some(b) = track::badness() {
        fail!("{}: {}", what(), b);
    }
    o.sample(what);
    Ok(())
}

fn key_leaf(ch: &mut Ch) -> Leaf {
    ch.of(&[
        Leaf::s("a"),
        Leaf::U64(7),
        Leaf::I64(-1),
        Leaf::s(""),
        Leaf::Char('c'),
        Leaf::Null,
        Leaf::Bool(true),
        Leaf::F64(1.0),
        Leaf::Bytes(vec![97]),
        Leaf::I64(3),
        Leaf::U64(u64::MAX),
        Leaf::s("a.b[0]"),
    ])
}

/// Characters that mean something in one notation of paths or another.
const ODD: [&str; 24] = [
    "0", "1", "9", "a", "e", "-", "+", ".", "[", "]", "{", "}", "\"", "'", "/", "\\", "~", "*", "_", "$", " ", "\0", "\u{e9}", "\u{1f600}",
];

const WORDS: [&str; 30] = [
    "null", "true", "false", "nan", "inf", "NaN", "-0", "007", "1e3", "0x10", "1.5", "42", "255", "256", "65535", "65536", "4294967295", "4294967296",
    "9223372036854775807", "18446744073709551615", "18446744073709551616", "unknown", "Unknown", "index", "key", "__proto__", "$ref", "..", "<key>", "[0]",
];

/// A key by its text, or by its number.
fn any_key(ch: &mut Ch, len: usize) -> Leaf {
    match ch.pick(5) {
        0 => {
            let n = ch.pick(len + 1);
            Leaf::Str((0..n).map(|_| ch.of(&ODD)).collect())
        }
        1 => Leaf::s(ch.of(&WORDS)),
        2 => {
            let n = 1u64 << ch.pick(64);
            Leaf::U64(match ch.pick(3) {
                0 => n - 1,
                1 => n,
                _ => n.wrapping_add(n - 1),
            })
        }
        3 => {
            let n = 1i64 << ch.pick(63);
            Leaf::I64(match ch.pick(4) {
                0 => n - 1,
                1 => n,
                2 => -n,
                _ => (-n).wrapping_sub(1),
            })
        }
        _ => {
            let n = ch.of(&[15, 16, 17, 22, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 65535, 65536, 65537]);
            Leaf::Str(ch.of(&["a", "7", "\u{e9}"]).repeat(n))
        }
    }
}

fn leaf_spec(l: Leaf) -> Spec {
    Spec::new(Kind::Leaf, l, vec![])
}

/// `[{key: [0], key: 0}, 0]`, or the same with a struct.
fn keyed_spec(ch: &mut Ch, key: Leaf) -> Option<Spec> {
    let inner = Spec::new(Kind::Seq, Leaf::Null, vec![leaf_spec(Leaf::U64(0))]);
    let m = if ch.flag() {
        let Leaf::Str(k) = key else { return None };
        let mut m = Spec::new(Kind::Struct, Leaf::Null, vec![inner, leaf_spec(Leaf::U64(0))]);
        m.names = vec![k.clone(), k];
        m
    } else {
        Spec::new(Kind::Map, Leaf::Null, vec![leaf_spec(key.clone()), inner, leaf_spec(key), leaf_spec(Leaf::U64(0))])
    };
    Some(Spec::new(Kind::Seq, Leaf::Null, vec![m, leaf_spec(Leaf::U64(0))]))
}

fn keyed_val(key: Leaf) -> Val {
    let zero = Val::L(Leaf::U64(0));
    let m = Val::Map(vec![(Val::L(key.clone()), Val::Seq(vec![zero.clone()])), (Val::L(key), zero.clone())]);
    Val::Seq(vec![m, zero])
}

/// A key of one character.
fn char_key(ch: &mut Ch) -> Leaf {
    let hi = ch.pick(0x1100) as u32;
    let c = char::from_u32(hi << 8 | ch.pick(256) as u32);
    Leaf::Str(c.map(String::from).unwrap_or_default())
}

/// Three kinds of keys: string, number, unknown.
fn few_leaf(ch: &mut Ch) -> Leaf {
    ch.of(&[Leaf::s("a"), Leaf::U64(7), Leaf::Bool(true)])
}

/// Trees whose leaves matter only as keys.
fn keyed_tree(ch: &mut Ch, budget: &mut usize, depth: usize, key: fn(&mut Ch) -> Leaf, is_key: bool) -> Spec {
    let kinds = if depth == 0 { 1 } else { 4 };
    match ch.pick(kinds) {
        0 => Spec::new(Kind::Leaf, if is_key { key(ch) } else { Leaf::U64(0) }, vec![]),
        k => {
            let kind = [Kind::Seq, Kind::Map, Kind::Struct][k - 1];
            let mut kids = vec![];
            while *budget > 0 && ch.flag() {
                *budget -= 1;
                if kind == Kind::Map {
                    kids.push(keyed_tree(ch, budget, depth - 1, key, true));
                    if *budget > 0 {
                        *budget -= 1;
                    }
                }
                kids.push(keyed_tree(ch, budget, depth - 1, key, false));
            }
            Spec::new(kind, Leaf::Null, kids)
        }
    }
}

/// A user value that knows where it is.
struct At(Vec<Seg>, u64);

impl Serialize for At {
    fn serialize(&self, s: &SerializerState) -> Result<Chunk<'_>, Error> {
        self.look("start", s);
        Ok(Chunk::Atom(Atom::U64(self.1)))
    }
    fn finish(&self, s: &SerializerState) -> Result<(), Error> {
        self.look("end", s);
        Ok(())
    }
}
impl At {
    fn look(&self, what: &str, s: &SerializerState) {
        let got = segs(&s.get::<Path>());
        track::with(|t| t.log.push((Op::Serialize, self.1)));
        if got != self.0 {
            bad(format!("at the {} the path is {:?}, expected {:?}", what, got, self.0));
        }
    }
}
impl PartialEq for At {
    fn eq(&self, o: &At) -> bool {
        self.1 == o.1
    }
}
impl Eq for At {}
impl PartialOrd for At {
    fn partial_cmp(&self, o: &At) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for At {
    fn cmp(&self, o: &At) -> std::cmp::Ordering {
        self.1.cmp(&o.1)
    }
}
impl std::hash::Hash for At {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.1.hash(h)
    }
}

/// Builds values of a type whose leaves know their location.
trait Place: Serialize {
    fn place(ch: &mut Ch, at: &[Seg], n: usize, count: &mut u64) -> Self;
}
fn then(at: &[Seg], s: Seg) -> Vec<Seg> {
    let mut v = at.to_vec();
    v.push(s);
    v
}
impl Place for At {
    fn place(_: &mut Ch, at: &[Seg], _: usize, count: &mut u64) -> At {
        *count += 1;
        At(at.to_vec(), *count)
    }
}
impl<T: Place> Place for Vec<T> {
    fn place(ch: &mut Ch, at: &[Seg], n: usize, count: &mut u64) -> Vec<T> {
        let k = elems(ch, n);
        (0..k).map(|i| T::place(ch, &then(at, Seg::I(i as u64)), n, count)).collect()
    }
}
impl<T: Place> Place for [T; 2] {
    fn place(ch: &mut Ch, at: &[Seg], n: usize, count: &mut u64) -> [T; 2] {
        std::array::from_fn(|i| T::place(ch, &then(at, Seg::I(i as u64)), n, count))
    }
}
impl<T: Place> Place for [T; 1] {
    fn place(ch: &mut Ch, at: &[Seg], n: usize, count: &mut u64) -> [T; 1] {
        [T::place(ch, &then(at, Seg::I(0)), n, count)]
    }
}
impl<A: Place, B: Place> Place for (A, B) {
    fn place(ch: &mut Ch, at: &[Seg], n: usize, count: &mut u64) -> (A, B) {
        (A::place(ch, &then(at, Seg::I(0)), n, count), B::place(ch, &then(at, Seg::I(1)), n, count))
    }
}
impl<A: Place, B: Place, C: Place> Place for (A, B, C) {
    fn place(ch: &mut Ch, at: &[Seg], n: usize, count: &mut u64) -> (A, B, C) {
        (
            A::place(ch, &then(at, Seg::I(0)), n, count),
            B::place(ch, &then(at, Seg::I(1)), n, count),
            C::place(ch, &then(at, Seg::I(2)), n, count),
        )
    }
}
impl<T: Place> Place for Option<T> {
    fn place(ch: &mut Ch, at: &[Seg], n: usize, count: &mut u64) -> Option<T> {
        if ch.flag() {
            None
        } else {
            Some(T::place(ch, at, n, count))
        }
    }
}
impl<T: Place> Place for Box<T> {
    fn place(ch: &mut Ch, at: &[Seg], n: usize, count: &mut u64) -> Box<T> {
        Box::new(T::place(ch, at, n, count))
    }
}
impl<T: Place + Ord> Place for BTreeSet<T> {
    fn place(ch: &mut Ch, at: &[Seg], n: usize, count: &mut u64) -> BTreeSet<T> {
        let k = elems(ch, n);
        (0..k).map(|i| T::place(ch, &then(at, Seg::I(i as u64)), n, count)).collect()
    }
}
/// A key and what it looks like in a path.
trait Key: Serialize + Ord + std::hash::Hash + Clone {
    fn keys() -> Vec<(Self, Seg)>;
}
impl Key for String {
    fn keys() -> Vec<(String, Seg)> {
        ["", "a", "b/c"].iter().map(|x| (x.to_string(), Seg::K(x.to_string()))).collect()
    }
}
impl Key for &'static str {
    fn keys() -> Vec<(&'static str, Seg)> {
        ["", "a", "é"].iter().map(|x| (*x, Seg::K(x.to_string()))).collect()
    }
}
impl Key for u64 {
    fn keys() -> Vec<(u64, Seg)> {
        [0, 5, u64::MAX].iter().map(|x| (*x, Seg::I(*x))).collect()
    }
}
impl Key for u8 {
    fn keys() -> Vec<(u8, Seg)> {
        [0, 5, 255].iter().map(|x| (*x, Seg::I(*x as u64))).collect()
    }
}
impl Key for usize {
    fn keys() -> Vec<(usize, Seg)> {
        [0, 5].iter().map(|x| (*x, Seg::I(*x as u64))).collect()
    }
}
impl Key for i64 {
    fn keys() -> Vec<(i64, Seg)> {
        vec![(-5, Seg::Unknown), (-1, Seg::Unknown)]
    }
}
impl Key for bool {
    fn keys() -> Vec<(bool, Seg)> {
        vec![(false, Seg::Unknown), (true, Seg::Unknown)]
    }
}
impl Key for char {
    fn keys() -> Vec<(char, Seg)> {
        vec![('a', Seg::Unknown), ('\u{1f600}', Seg::Unknown)]
    }
}
impl Key for () {
    fn keys() -> Vec<((), Seg)> {
        vec![((), Seg::Unknown)]
    }
}
impl<T: Key> Key for Option<T> {
    fn keys() -> Vec<(Option<T>, Seg)> {
        let mut v = vec![(None, Seg::Unknown)];
        v.extend(T::keys().into_iter().map(|x| (Some(x.0), x.1)));
        v
    }
}
impl<T: Key> Key for Box<T> {
    fn keys() -> Vec<(Box<T>, Seg)> {
        T::keys().into_iter().map(|x| (Box::new(x.0), x.1)).collect()
    }
}
impl Key for Vec<u8> {
    fn keys() -> Vec<(Vec<u8>, Seg)> {
        vec![(vec![], Seg::Unknown), (vec![97], Seg::Unknown)]
    }
}
impl Key for Vec<String> {
    fn keys() -> Vec<(Vec<String>, Seg)> {
        vec![(vec![], Seg::Unknown), (vec!["a".into()], Seg::Unknown)]
    }
}
impl Key for BTreeMap<String, u64> {
    fn keys() -> Vec<(BTreeMap<String, u64>, Seg)> {
        vec![(BTreeMap::new(), Seg::Unknown), (BTreeMap::from([("a".to_string(), 1)]), Seg::Unknown)]
    }
}
impl<K: Key, V: Place> Place for BTreeMap<K, V> {
    fn place(ch: &mut Ch, at: &[Seg], n: usize, count: &mut u64) -> BTreeMap<K, V> {
        let ks = K::keys();
        let mut m = BTreeMap::new();
        for (k, s) in ks {
            if m.len() < n && elems(ch, 1) == 1 {
                m.insert(k, V::place(ch, &then(at, s), n, count));
            }
        }
        m
    }
}
impl<K: Key, V: Place> Place for HMap<K, V> {
    fn place(ch: &mut Ch, at: &[Seg], n: usize, count: &mut u64) -> HMap<K, V> {
        let ks = K::keys();
        let mut m = HMap::default();
        for (k, s) in ks {
            if m.len() < n && elems(ch, 1) == 1 {
                m.insert(k, V::place(ch, &then(at, s), n, count));
            }
        }
        m
    }
}

#[derive(deser::Serialize)]
struct Derived<T: Serialize> {
    first: T,
    #[deser(rename = "2nd")]
    second: Vec<T>,
    #[deser(flatten)]
    inner: Inner<T>,
    last: Option<T>,
}

#[derive(deser::Serialize)]
#[deser(skip_serializing_optionals)]
struct Inner<T: Serialize> {
    x: Option<T>,
    #[deser(flatten)]
    leaf: Innermost<T>,
    y: BTreeMap<u8, T>,
}

#[derive(deser::Serialize)]
struct Innermost<T: Serialize> {
    z: T,
}

#[derive(deser::Serialize)]
struct Wrapper<T: Serialize>(T);

impl<T: Place> Place for Derived<T> {
    fn place(ch: &mut Ch, at: &[Seg], n: usize, count: &mut u64) -> Self {
        let k = |x: &str| then(at, Seg::K(x.into()));
        Derived {
            first: T::place(ch, &k("first"), n, count),
            second: Place::place(ch, &k("2nd"), n, count),
            inner: Inner {
                x: Place::place(ch, &k("x"), n, count),
                leaf: Innermost {
                    z: T::place(ch, &k("z"), n, count),
                },
                y: Place::place(ch, &k("y"), n, count),
            },
            last: Place::place(ch, &k("last"), n, count),
        }
    }
}
impl<T: Place> Place for Wrapper<T> {
    fn place(ch: &mut Ch, at: &[Seg], n: usize, count: &mut u64) -> Self {
        Wrapper(T::place(ch, at, n, count))
    }
}

thread_local! {
    static LEFT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// A number of elements within what is left for the whole value.
fn elems(ch: &mut Ch, n: usize) -> usize {
    let left = LEFT.with(|l| l.get());
    let k = ch.pick(n.min(left) + 1);
    LEFT.with(|l| l.set(left - k));
    k
}

fn placed<T: Place>(ch: &mut Ch, n: usize, o: &mut Obs) -> Res {
    LEFT.with(|l| l.set(n));
    let mut count = 0;
    let v = T::place(ch, &[], 2, &mut count);
    let name = std::any::type_name::<T>();
    track::reset(&[]);
    let run = |w: &dyn Serialize, o: &mut Obs| -> Res {
        let mut d = SerializeDriver::new(w);
        let mut h = hash(&name);
        loop {
            match guard(|| d.next().map(|x| x.map(|x| Ev::of(&x.0)))) {
                Ok(Ok(Some(e))) => {
                    h = hash(&(h, e));
                    o.step_h(h);
                }
                Ok(Ok(None)) => break,
                Ok(Err(e)) => fail!("{}: error {}", name, e),
                Err(m) => fail!("{}: panic {}", name, m),
            }
        }
        let end = segs(&d.state().get::<Path>());
        ensure!(end.is_empty(), "{}: at the end the path is {:?}", name, end);
        let calls = track::take_log().len() as u64;
        ensure!(calls == 2 * count, "{}: {} callbacks for {} values", name, calls, count);
        badness()
    };
    run(&PathSerializable::wrap(&v), o)?;
    run(&PathSerializable::wrap_ref(SerializeHandle::boxed(&v)), o)?;
    run(&PathSerializable::wrap_ref(SerializeHandle::boxed(v)), o)
}

type Placed = fn(&mut Ch, usize, &mut Obs) -> Res;
macro_rules! placed_cases { ($($t:ty),* $(,)?) => { &[$(placed::<$t> as Placed),*] }; }
const PLACED: &[Placed] = placed_cases!(
    At, Vec<At>, Vec<Vec<At>>, Vec<Vec<Vec<At>>>, [At; 2], [Vec<At>; 2], [[At; 1]; 2], (At, At), (At, Vec<At>, At), Vec<(At, At)>, Option<At>, Vec<Option<At>>,
    Option<Vec<At>>, Box<At>, Box<Vec<Box<At>>>, Vec<Option<Box<At>>>, BTreeSet<At>, Vec<BTreeSet<At>>, BTreeMap<String, At>, BTreeMap<&'static str, Vec<At>>,
    BTreeMap<u64, At>, BTreeMap<u8, Vec<At>>, BTreeMap<usize, (At, At)>, BTreeMap<i64, At>, BTreeMap<bool, Vec<At>>, BTreeMap<char, Option<At>>, BTreeMap<(), At>,
    BTreeMap<Option<String>, At>, BTreeMap<Option<u64>, Vec<At>>, BTreeMap<Box<String>, At>, BTreeMap<Vec<u8>, At>, BTreeMap<Vec<String>, Vec<At>>, BTreeMap<BTreeMap<String, u64>, At>,
    BTreeMap<String, BTreeMap<String, At>>, BTreeMap<String, BTreeMap<bool, At>>, BTreeMap<bool, BTreeMap<String, At>>, Vec<BTreeMap<u8, Vec<At>>>,
    HMap<String, At>, HMap<u64, Vec<At>>, HMap<bool, At>, Vec<HMap<Option<String>, At>>, Derived<At>, Vec<Derived<At>>, Wrapper<At>, Vec<Wrapper<Vec<At>>>,
    BTreeMap<String, Derived<Option<At>>>, Derived<Vec<At>>, Option<Derived<At>>, Box<Wrapper<Derived<At>>>,
);

pub fn c18(r: &mut Runner) {
    let n = r.b(3, 4);
    r.section(
        "trees",
        &format!("all trees of <= {} nested values (containers as keys included), nesting <= 3, 3 kinds of leaf keys, uniform or rotating handle styles, 4 ways to wrap the root; two traversals", n),
        |ch, o| {
            let mut b = n;
            let mut s = keyed_tree(ch, &mut b, 3, few_leaf, false);
            match ch.pick(3) {
                0 => {}
                1 => set_uniform(&mut s, Style::Slot, 1),
                _ => styles_cycle(ch, &mut s),
            }
            let k = ch.pick(4);
            ser_location(&mut s, k, o)
        },
    );
    let n = r.b(2, 3);
    r.section(
        "keys",
        &format!("all trees of <= {} nested values (pairs of keys and values count as two) with 12 kinds of leaf keys, x {} handle styles for each value", n, if n > 2 { 5 } else { 8 }),
        |ch, o| {
            let mut b = n;
            let mut s = keyed_tree(ch, &mut b, 2, key_leaf, false);
            styles_all(ch, &mut s, if n > 2 { &STYLES[..5] } else { &STYLES });
            let k = ch.pick(2);
            ser_location(&mut s, k, o)
        },
    );
    let n = r.b(4, 5);
    r.section("key texts", &format!("a map or a struct with one key twice: all texts of <= {} out of 24 characters, 30 words, lengths up to 65537, numbers around every power of two; 2 handle styles", n), |ch, o| {
        let key = any_key(ch, n);
        let Some(mut s) = keyed_spec(ch, key) else { return Ok(()) };
        let st = ch.of(&[Style::Borrowed, Style::Slot]);
        set_uniform(&mut s, st, 0);
        ser_location(&mut s, 0, o)
    });
    r.section("key characters", "a map or a struct with one key twice: every character", |ch, o| {
        let key = char_key(ch);
        let Some(mut s) = keyed_spec(ch, key) else { return Ok(()) };
        ser_location(&mut s, 0, o)
    });
    let ds = if r.thorough { vec![1, 2, 3, 10, 60, 127, 128, 129, 500] } else { vec![1, 2, 3, 10, 60, 129] };
    r.section("deep", &format!("nesting patterns of period <= 2, depths {:?}, 4 handle styles", ds), |ch, o| {
        let p = iser::pattern(ch);
        let mut s = iser::ladder(&p, ch.of(&ds));
        let st = ch.of(&[Style::Borrowed, Style::Owned, Style::Slot, Style::OwnedSome]);
        set_uniform(&mut s, st, 0);
        ser_location(&mut s, 0, o)
    });
    r.section("wide", "containers of n elements for n <= 70, 127..129, 300, 1000, 4097, 65537; 4 kinds, 8 handle styles", |ch, o| {
        let k = ch.pick(4);
        let n = ch.pick(78);
        let mut s = iser::wide(k, if n <= 70 { n } else { [127, 128, 129, 300, 1000, 4097, 65537][n - 71] });
        let st = ch.of(&STYLES);
        set_uniform(&mut s, st, 0);
        ser_location(&mut s, 0, o)
    });
    let n = r.b(4, 5);
    r.section("derived", &format!("all trees of <= {} nested values built from 28 shapes of derived structs (flattened and skipped fields), newtypes, standard containers and instrumented ones, 4 ways to wrap the root", n), |ch, o| {
        let mut b = n;
        let mut d = dtree::dtree(ch, &mut b, n, true);
        d.number();
        d.gives(1, 1);
        ser_derived_location(ch, &d, &|| d.show(), o)
    });
    r.section("derived deep", "8 derived shapes in patterns of period <= 2, depths 1, 2, 10, 60, 129", |ch, o| {
        let n = 1 + ch.pick(2);
        let p: Vec<usize> = (0..n).map(|_| ch.pick(8)).collect();
        let depth = ch.of(&[1, 2, 10, 60, 129]);
        let mut d = dtree::dladder(&p, depth);
        d.gives(1, 1);
        ser_derived_location(ch, &d, &|| format!("{:?} nested {} deep", p, depth), o)
    });
    let n = r.b(5, 6);
    r.section("standard types", &format!("{} standard and derived types (flattened fields included) with <= {} elements per collection and <= {} in all", PLACED.len(), 2, n), |ch, o| {
        PLACED[ch.pick(PLACED.len())](ch, n, o)
    });
}

// -------------------------------------------------------------------- C19

fn de_wants(v: &Val, pos: u64, at: &Want, w: &mut Wants) {
    w.insert(pos, at.clone());
    match v {
        Val::L(_) => {}
        Val::Seq(xs) => {
            for (i, x) in xs.iter().enumerate() {
                let alts = join(&at.alts, &[Seg::I(i as u64)]);
                de_wants(x, child_pos(pos, i as u32), &Want { alts, prefix: false }, w);
            }
        }
        Val::Map(xs) => {
            for (i, (k, x)) in xs.iter().enumerate() {
                // a key is at the location of the map or at an unknown one in it
                let mut alts = join(&at.alts, &[Seg::Unknown]);
                alts.extend(at.alts.iter().cloned());
                de_wants(k, child_pos(pos, 2 * i as u32), &Want { alts, prefix: false }, w);
                let seg = match k {
                    Val::L(k) => key_segs(k),
                    _ => vec![Seg::Unknown],
                };
                let alts = join(&at.alts, &seg);
                de_wants(x, child_pos(pos, 2 * i as u32 + 1), &Want { alts, prefix: false }, w);
            }
        }
    }
}

fn de_observer(what: &str, pos: u64, state: &DeserializerState) {
    let mut got = segs(&state.get::<Path>());
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        *s = hash(&(*s, what, pos, &got));
    });
    if what == "next_key" || what == "next_value" {
        return;
    }
    WANT.with(|w| {
        let w = w.borrow();
        match w.get(&pos) {
            Some(x) if matches(&got, x) => {}
            // a container may already have made room for its first member
            Some(x)
                if (what == "map" || what == "seq") && got.last() == Some(&Seg::Unknown) && {
                    got.pop();
                    matches(&got, x)
                } => {}
            x => bad(format!("during {} the path is {:?}, expected {:?}", what, got, x.map(|x| &x.alts))),
        }
    });
}

/// Runs `f` on a driver for an instrumented root sink with path tracking.
fn sink_tracked<R>(k: usize, f: impl FnOnce(&mut DeserializeDriver) -> R) -> R {
    ide::root_next();
    match k {
        0 => {
            let mut t = TSink::root();
            let p = PathSink::wrap(&mut t);
            let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(p));
            f(&mut d)
        }
        1 => {
            let p = PathSink::wrap_ref(SinkHandle::boxed(TSink::root()));
            let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(p));
            f(&mut d)
        }
        2 => {
            let mut t = TSink::root();
            let mut p = PathSink::wrap_ref(SinkHandle::to(&mut t));
            let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut p));
            f(&mut d)
        }
        3 => {
            let mut out: Option<Option<Tr>> = None;
            let p = PathSink::wrap_ref(Deserialize::deserialize_into(&mut out));
            let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(p));
            f(&mut d)
        }
        _ => {
            let mut out: Option<Box<Tr>> = None;
            let p = PathSink::wrap_ref(Deserialize::deserialize_into(&mut out));
            let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(p));
            f(&mut d)
        }
    }
}

fn sink_plain<R>(k: usize, f: impl FnOnce(&mut DeserializeDriver) -> R) -> R {
    ide::root_next();
    match k {
        0 | 2 => {
            let mut t = TSink::root();
            let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut t));
            f(&mut d)
        }
        1 => {
            let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(TSink::root()));
            f(&mut d)
        }
        3 => {
            let mut out: Option<Option<Tr>> = None;
            let mut d = DeserializeDriver::new(&mut out);
            f(&mut d)
        }
        _ => {
            let mut out: Option<Box<Tr>> = None;
            let mut d = DeserializeDriver::new(&mut out);
            f(&mut d)
        }
    }
}

fn de_location(v: &Val, k: usize, styles: &[DStyle], o: &mut Obs) -> Res {
    let mut w = Wants::default();
    de_wants(
        v,
        ROOT,
        &Want {
            alts: vec![vec![]],
            prefix: false,
        },
        &mut w,
    );
    WANT.with(|x| *x.borrow_mut() = w);
    track::reset(&[]);
    set_styles(styles);
    ide::set_check(false);
    ide::observe(Some(de_observer));
    SEEN.with(|s| *s.borrow_mut() = 0);
    let evs = v.evs();
    let what = || format!("{} (target {}, sinks {:?})", v.show(), k, &styles[..styles.len().min(12)]);
    let r = guard(|| {
        sink_tracked(k, |d| -> Res {
            for e in &evs {
                if let Err(x) = d.emit(e.event()) {
                    fail!("error {}", x);
                }
                o.step_h(SEEN.with(|s| *s.borrow()));
            }
            let end = segs(&d.state().get::<Path>());
            ensure!(end.is_empty(), "at the end the path is {:?}", end);
            Ok(())
        })
    });
    ide::observe(None);
    ide::set_check(true);
    match r {
        Err(m) => fail!("{}: panic {}", what(), m),
        Ok(Err(e)) => fail!("{}: {}", what(), e.msg),
        Ok(Ok(())) => {}
    }
    if let Some(b) = track::badness() {
        fail!("{}: {}", what(), b);
    }
    o.sample(what);
    Ok(())
}

fn val_tree(ch: &mut Ch, budget: &mut usize, depth: usize, key: fn(&mut Ch) -> Leaf, is_key: bool) -> Val {
    let kinds = if depth == 0 { 1 } else { 3 };
    match ch.pick(kinds) {
        0 => Val::L(if is_key { key(ch) } else { Leaf::U64(0) }),
        1 => {
            let mut v = vec![];
            while *budget > 0 && ch.flag() {
                *budget -= 1;
                v.push(val_tree(ch, budget, depth - 1, key, false));
            }
            Val::Seq(v)
        }
        _ => {
            let mut v = vec![];
            while *budget > 0 && ch.flag() {
                *budget -= 1;
                let k = val_tree(ch, budget, depth - 1, key, true);
                *budget = budget.saturating_sub(1);
                v.push((k, val_tree(ch, budget, depth - 1, key, false)));
            }
            Val::Map(v)
        }
    }
}

thread_local! {
    static GOT: RefCell<Vec<(u64, Vec<Seg>)>> = const { RefCell::new(Vec::new()) };
}

/// A target that records where it is. Its number is what it was made from.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Here(u64);

deser::make_slot_wrapper!(Slot);
impl Deserialize for Here {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        Slot::make_handle(out)
    }
}
impl Sink for Slot<Here> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        match atom {
            Atom::U64(n) => {
                GOT.with(|g| g.borrow_mut().push((n, segs(&state.get::<Path>()))));
                **self = Some(Here(n));
                Ok(())
            }
            x => self.unexpected_atom(x, state),
        }
    }
    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        let n = (**self).as_ref().map_or(0, |x| x.0);
        GOT.with(|g| g.borrow_mut().push((n, segs(&state.get::<Path>()))));
        Ok(())
    }
}

/// Streams for a type, and where its leaves are.
trait Stream: Deserialize {
    fn stream(ch: &mut Ch, at: &[Seg], n: usize, out: &mut Vec<(u64, Vec<Seg>)>) -> Val;
}
impl Stream for Here {
    fn stream(_: &mut Ch, at: &[Seg], _: usize, out: &mut Vec<(u64, Vec<Seg>)>) -> Val {
        let n = out.len() as u64 + 1;
        out.push((n, at.to_vec()));
        out.push((n, at.to_vec()));
        Val::L(Leaf::U64(n))
    }
}
macro_rules! list_streams {
    ($({$($g:tt)*} $t:ty, $a:ty;)*) => {$(
        impl<$($g)*> Stream for $t {
            fn stream(ch: &mut Ch, at: &[Seg], n: usize, out: &mut Vec<(u64, Vec<Seg>)>) -> Val {
                let k = elems(ch, n);
                Val::Seq((0..k).map(|i| <$a>::stream(ch, &then(at, Seg::I(i as u64)), n, out)).collect())
            }
        }
    )*};
}
list_streams!({T: Stream} Vec<T>, T; {T: Stream + Ord} BTreeSet<T>, T; {T: Stream + Eq + std::hash::Hash} HashSet<T>, T;);
impl<T: Stream> Stream for [T; 2] {
    fn stream(ch: &mut Ch, at: &[Seg], n: usize, out: &mut Vec<(u64, Vec<Seg>)>) -> Val {
        Val::Seq((0..2).map(|i| T::stream(ch, &then(at, Seg::I(i)), n, out)).collect())
    }
}
impl<A: Stream, B: Stream> Stream for (A, B) {
    fn stream(ch: &mut Ch, at: &[Seg], n: usize, out: &mut Vec<(u64, Vec<Seg>)>) -> Val {
        let a = A::stream(ch, &then(at, Seg::I(0)), n, out);
        Val::Seq(vec![a, B::stream(ch, &then(at, Seg::I(1)), n, out)])
    }
}
impl<T: Stream> Stream for Option<T> {
    fn stream(ch: &mut Ch, at: &[Seg], n: usize, out: &mut Vec<(u64, Vec<Seg>)>) -> Val {
        if ch.flag() {
            Val::L(Leaf::Null)
        } else {
            T::stream(ch, at, n, out)
        }
    }
}
impl<T: Stream> Stream for Box<T> {
    fn stream(ch: &mut Ch, at: &[Seg], n: usize, out: &mut Vec<(u64, Vec<Seg>)>) -> Val {
        T::stream(ch, at, n, out)
    }
}
trait DeKey: Deserialize + Ord + std::hash::Hash {
    fn keys() -> Vec<(Val, Seg)>;
}
fn strs() -> Vec<(Val, Seg)> {
    ["", "a"].iter().map(|x| (Val::L(Leaf::s(x)), Seg::K(x.to_string()))).collect()
}
impl DeKey for String {
    fn keys() -> Vec<(Val, Seg)> {
        strs()
    }
}
impl DeKey for u64 {
    fn keys() -> Vec<(Val, Seg)> {
        vec![(Val::L(Leaf::U64(0)), Seg::I(0)), (Val::L(Leaf::U64(u64::MAX)), Seg::I(u64::MAX))]
    }
}
impl DeKey for i8 {
    fn keys() -> Vec<(Val, Seg)> {
        vec![(Val::L(Leaf::U64(3)), Seg::I(3)), (Val::L(Leaf::I64(-3)), Seg::Unknown)]
    }
}
impl DeKey for bool {
    fn keys() -> Vec<(Val, Seg)> {
        vec![(Val::L(Leaf::Bool(true)), Seg::Unknown)]
    }
}
impl DeKey for char {
    fn keys() -> Vec<(Val, Seg)> {
        vec![(Val::L(Leaf::Char('a')), Seg::Unknown), (Val::L(Leaf::s("b")), Seg::K("b".into()))]
    }
}
impl<T: DeKey> DeKey for Option<T> {
    fn keys() -> Vec<(Val, Seg)> {
        let mut v = vec![(Val::L(Leaf::Null), Seg::Unknown)];
        v.extend(T::keys());
        v
    }
}
impl<T: DeKey> DeKey for Box<T> {
    fn keys() -> Vec<(Val, Seg)> {
        T::keys()
    }
}
impl<T: DeKey> DeKey for Vec<T> {
    fn keys() -> Vec<(Val, Seg)> {
        let a = T::keys().remove(0).0;
        vec![(Val::Seq(vec![]), Seg::Unknown), (Val::Seq(vec![a]), Seg::Unknown)]
    }
}
impl<T: DeKey> DeKey for BTreeMap<T, T> {
    fn keys() -> Vec<(Val, Seg)> {
        let (a, b) = (T::keys().remove(0).0, T::keys().remove(0).0);
        vec![(Val::Map(vec![]), Seg::Unknown), (Val::Map(vec![(a, b)]), Seg::Unknown)]
    }
}
fn map_stream<K: DeKey, V: Stream>(ch: &mut Ch, at: &[Seg], n: usize, out: &mut Vec<(u64, Vec<Seg>)>) -> Val {
    let k = elems(ch, n);
    let ks = K::keys();
    Val::Map(
        (0..k)
            .map(|_| {
                let (k, s) = ch.of(&ks);
                (k, V::stream(ch, &then(at, s), n, out))
            })
            .collect(),
    )
}
impl<K: DeKey, V: Stream> Stream for BTreeMap<K, V> {
    fn stream(ch: &mut Ch, at: &[Seg], n: usize, out: &mut Vec<(u64, Vec<Seg>)>) -> Val {
        map_stream::<K, V>(ch, at, n, out)
    }
}
impl<K: DeKey, V: Stream> Stream for HashMap<K, V> {
    fn stream(ch: &mut Ch, at: &[Seg], n: usize, out: &mut Vec<(u64, Vec<Seg>)>) -> Val {
        map_stream::<K, V>(ch, at, n, out)
    }
}

#[derive(deser::Deserialize)]
#[allow(dead_code)]
struct DOuter<T: Deserialize> {
    first: Option<T>,
    #[deser(flatten)]
    inner: DInner<T>,
    #[deser(rename = "l", alias = "last")]
    last: Option<T>,
}
#[derive(deser::Deserialize)]
#[allow(dead_code)]
struct DInner<T: Deserialize> {
    x: Option<Vec<T>>,
    #[deser(flatten)]
    most: DMost<T>,
}
#[derive(deser::Deserialize)]
#[allow(dead_code)]
struct DMost<T: Deserialize> {
    z: Option<T>,
}
#[derive(deser::Deserialize, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct DWrap<T: Deserialize>(T);

impl<T: Stream> Stream for DOuter<T> {
    fn stream(ch: &mut Ch, at: &[Seg], n: usize, out: &mut Vec<(u64, Vec<Seg>)>) -> Val {
        let k = elems(ch, n + 1);
        let mut v = vec![];
        for _ in 0..k {
            let name = ch.of(&["first", "x", "z", "l", "last", "unknown"]);
            let at = then(at, Seg::K(name.into()));
            let x = match name {
                "x" => Vec::<T>::stream(ch, &at, n, out),
                "unknown" => ch.of(&[
                    Val::L(Leaf::U64(9)),
                    Val::Map(vec![(Val::L(Leaf::s("z")), Val::Seq(vec![Val::L(Leaf::Null)]))]),
                    Val::Seq(vec![Val::Map(vec![]), Val::L(Leaf::s("z"))]),
                ]),
                _ => T::stream(ch, &at, n, out),
            };
            v.push((Val::L(Leaf::s(name)), x));
        }
        Val::Map(v)
    }
}
impl<T: Stream> Stream for DWrap<T> {
    fn stream(ch: &mut Ch, at: &[Seg], n: usize, out: &mut Vec<(u64, Vec<Seg>)>) -> Val {
        T::stream(ch, at, n, out)
    }
}

fn streamed<T: Stream>(ch: &mut Ch, n: usize, o: &mut Obs) -> Res {
    LEFT.with(|l| l.set(n));
    let name = std::any::type_name::<T>();
    let mut want = vec![];
    let v = T::stream(ch, &[], 3, &mut want);
    GOT.with(|g| g.borrow_mut().clear());
    let mut out: Option<T> = None;
    let r = guard(|| -> Res {
        let p = PathSink::wrap_ref(Deserialize::deserialize_into(&mut out));
        let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(p));
        let mut h = hash(&name);
        for e in v.evs() {
            if let Err(e) = d.emit(e.event()) {
                fail!("error {}", e);
            }
            h = hash(&(h, e));
            o.step_h(h);
        }
        let end = segs(&d.state().get::<Path>());
        ensure!(end.is_empty(), "at the end the path is {:?}", end);
        Ok(())
    });
    match r {
        Err(m) => fail!("{} from {}: panic {}", name, v.show(), m),
        Ok(Err(e)) => fail!("{} from {}: {}", name, v.show(), e.msg),
        Ok(Ok(())) => {}
    }
    let got = GOT.with(|g| std::mem::take(&mut *g.borrow_mut()));
    ensure!(got == want, "{} from {}: locations {:?}, expected {:?}", name, v.show(), got, want);
    ensure!(out.is_some(), "{} from {}: no value", name, v.show());
    o.sample(|| format!("{} from {}", name, v.show()));
    Ok(())
}

macro_rules! streamed_cases { ($($t:ty),* $(,)?) => { &[$(streamed::<$t> as Placed),*] }; }
const STREAMED: &[Placed] = streamed_cases!(
    Here, Vec<Here>, Vec<Vec<Here>>, Vec<Vec<Vec<Here>>>, [Here; 2], Vec<[Here; 2]>, (Here, Here), (Vec<Here>, Vec<Here>), Vec<(Here, Here)>, Option<Here>, Vec<Option<Here>>,
    Option<Vec<Here>>, Box<Here>, Vec<Box<Vec<Here>>>, BTreeSet<Here>, HashSet<Here>, Vec<BTreeSet<Here>>,
    BTreeMap<String, Here>, BTreeMap<String, Vec<Here>>, BTreeMap<u64, Here>, BTreeMap<i8, Here>, BTreeMap<bool, Vec<Here>>, BTreeMap<char, Here>, BTreeMap<Option<String>, Here>,
    BTreeMap<Option<u64>, Vec<Here>>, BTreeMap<Box<String>, Here>, BTreeMap<Vec<u64>, Here>, BTreeMap<Vec<String>, Vec<Here>>, BTreeMap<BTreeMap<String, String>, Here>,
    BTreeMap<Vec<Vec<u64>>, Here>, BTreeMap<String, BTreeMap<String, Here>>, BTreeMap<String, BTreeMap<bool, Here>>, BTreeMap<bool, BTreeMap<String, Here>>, Vec<BTreeMap<u64, Vec<Here>>>,
    HashMap<String, Here>, HashMap<u64, Vec<Here>>, Vec<HashMap<bool, Here>>, DOuter<Here>, Vec<DOuter<Here>>, BTreeMap<String, DOuter<Here>>, DWrap<Here>, Vec<DWrap<Vec<Here>>>,
    Option<DOuter<Here>>, Box<DWrap<DOuter<Here>>>,
);

fn rotate(ch: &mut Ch) -> Vec<DStyle> {
    match ch.pick(5) {
        0 => vec![],
        k => DSTYLES[k..].iter().chain(&DSTYLES[..k]).cycle().take(40).copied().collect(),
    }
}

pub fn c19(r: &mut Runner) {
    let n = r.b(6, 7);
    r.section(
        "trees",
        &format!("all trees of <= {} nested values (containers as keys included), nesting <= 3, 3 kinds of leaf keys, 5 rotations of sink kinds, 5 ways to wrap the root", n),
        |ch, o| {
            let mut b = n;
            let v = val_tree(ch, &mut b, 3, few_leaf, false);
            let st = rotate(ch);
            let k = ch.pick(5);
            de_location(&v, k, &st, o)
        },
    );
    let n = r.b(6, 8);
    r.section(
        "keys",
        &format!("all trees of <= {} nested values with 12 kinds of leaf keys", n),
        |ch, o| {
            let mut b = n;
            let v = val_tree(ch, &mut b, 2, key_leaf, false);
            de_location(&v, 1, &[], o)
        },
    );
    let n = r.b(4, 5);
    r.section("key texts", &format!("a map with one key twice: all texts of <= {} out of 24 characters, 30 words, lengths up to 65537, numbers around every power of two; 2 sink kinds", n), |ch, o| {
        let v = keyed_val(any_key(ch, n));
        let st = vec![ch.of(&[DStyle::Owned, DStyle::Slot]); 10];
        de_location(&v, 1, &st, o)
    });
    r.section("key characters", "a map with one key twice: every character", |ch, o| {
        let v = keyed_val(char_key(ch));
        de_location(&v, 1, &[], o)
    });
    let ds = if r.thorough { vec![1, 2, 3, 10, 60, 127, 128, 129, 500] } else { vec![1, 2, 3, 10, 60, 129] };
    r.section("deep", &format!("nesting patterns of period <= 2, depths {:?}", ds), |ch, o| {
        let p = ide::pattern(ch);
        let d = ch.of(&ds);
        // every level of keys doubles what is allowed
        if p.contains(&2) && d > 10 {
            return Ok(());
        }
        let v = ide::ladder(&p, d);
        let st = vec![ch.of(&[DStyle::Owned, DStyle::Slot]); 4 * d];
        de_location(&v, ch.pick(3), &st, o)
    });
    r.section("wide", "containers of n elements for n <= 70, 127..129, 300, 1000, 4097, 65537; 3 kinds, 6 sink kinds", |ch, o| {
        let k = ch.pick(3);
        let n = ch.pick(78);
        let n = if n <= 70 { n } else { [127, 128, 129, 300, 1000, 4097, 65537][n - 71] };
        let v = ide::wide(k, n);
        let st = vec![ch.of(&DSTYLES); 3 * n + 10];
        de_location(&v, 0, &st, o)
    });
    let n = r.b(6, 8);
    r.section("standard types", &format!("{} standard and derived types (flattened and unknown members included) with <= {} elements per collection and <= {} in all, repeated keys included", STREAMED.len(), 3, n), |ch, o| {
        STREAMED[ch.pick(STREAMED.len())](ch, n, o)
    });
}

// -------------------------------------------------------------------- C20

#[derive(PartialEq, Debug)]
struct Trace {
    steps: Vec<(Ev, D, usize, Option<D>)>,
    calls: Vec<(Op, u64)>,
    error: Option<String>,
    root: D,
    optional: bool,
}

fn trace(v: &dyn Serialize, fault: Option<u32>) -> Trace {
    match fault {
        Some(n) => track::rearm(&[n]),
        None => track::rearm(&[]),
    }
    let mut t = Trace {
        steps: vec![],
        calls: vec![],
        error: None,
        root: D::of(v.descriptor()),
        optional: v.is_optional(),
    };
    let mut d = SerializeDriver::new(v);
    loop {
        match guard(|| d.next().map(|x| x.map(|(e, d, s)| (Ev::of(&e), D::of(d), s.depth(), s.top_descriptor().map(D::of))))) {
            Ok(Ok(Some(x))) => t.steps.push(x),
            Ok(Ok(None)) => break,
            Ok(Err(e)) => {
                t.error = Some(error_text(&e));
                break;
            }
            Err(m) => {
                t.error = Some(format!("panic {}", m));
                break;
            }
        }
    }
    drop(d);
    t.calls = track::take_log();
    t
}

fn error_text(e: &Error) -> String {
    format!("{:?} {} {:?}", e.kind(), e, std::error::Error::source(e).map(|x| x.to_string()))
}

fn same_trace(a: &Trace, b: &Trace, what: &dyn Fn() -> String, o: &mut Obs) -> Res {
    let mut h = 0;
    for (i, (x, y)) in a.steps.iter().zip(&b.steps).enumerate() {
        h = hash(&(h, &y.0, y.2));
        o.step_h(h);
        ensure!(x == y, "{}: event {} is {:?} with path tracking, {:?} without", what(), i, x, y);
    }
    ensure!(a.error == b.error, "{}: error {:?} with path tracking, {:?} without", what(), a.error, b.error);
    ensure!(a == b, "{}: {:?} with path tracking, {:?} without", what(), a, b);
    Ok(())
}

fn ser_same(ch: &mut Ch, s: &mut Spec, faults: bool, o: &mut Obs) -> Res {
    s.number();
    let k = ch.pick(3);
    let s = &*s;
    track::reset(&[]);
    ser_same_in(ch, s, k, &|| show_desc(s, k), faults, o)
}

fn ser_same_in<S: Serialize>(ch: &mut Ch, s: &S, k: usize, what: &dyn Fn() -> String, faults: bool, o: &mut Obs) -> Res {
    let dry = trace(s, None);
    ensure!(dry.error.is_none(), "{}: {:?}", what(), dry.error);
    badness()?;
    let fault = match ch.pick(if faults { dry.calls.len() + 1 } else { 1 }) {
        0 => None,
        n => Some(n as u32 - 1),
    };
    let plain = trace(s, fault);
    let t = tracked(k, s, |v| trace(v, fault));
    o.sample(|| format!("{}, failing callback {:?}", what(), fault));
    same_trace(&t, &plain, &|| format!("{}, failing callback {:?}", what(), fault), o)?;
    if fault.is_none() {
        if let Some(b) = track::badness() {
            fail!("{}: {}", what(), b);
        }
    }
    Ok(())
}

fn ser_typed<T: Model>(ch: &mut Ch, s: Scope, _: usize, o: &mut Obs) -> Res {
    let v = T::gen(ch, s);
    track::reset(&[]);
    let plain = trace(&v, None);
    let what = || format!("{} {:?}", std::any::type_name::<T>(), v);
    same_trace(&trace(&PathSerializable::wrap(&v), None), &plain, &what, o)?;
    {
        let w = PathSerializable::wrap_ref(SerializeHandle::to(&v));
        same_trace(&trace(&w, None), &plain, &what, o)?;
    }
    let r = &v;
    {
        let w = PathSerializable::wrap_ref(SerializeHandle::boxed(r));
        same_trace(&trace(&w, None), &plain, &what, o)?;
    }
    // a value with path tracking can itself be tracked
    let w = PathSerializable::wrap(r);
    let ww = PathSerializable::wrap(&w);
    let t = trace(&ww, None);
    same_trace(&t, &plain, &what, o)
}

/// Everything visible of feeding events.
#[derive(PartialEq, Debug, Default)]
struct Fed {
    after: Vec<(usize, usize, Option<String>)>,
    calls: Vec<(Op, u64)>,
    atoms: Vec<(u64, Leaf)>,
    result: Option<String>,
}

fn feed_into(d: &mut DeserializeDriver, evs: &[Ev], f: &mut Fed) {
    for e in evs {
        match guard(|| d.emit(e.event())) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                f.result = Some(error_text(&e));
                return;
            }
            Err(m) => {
                f.result = Some(format!("panic {}", m));
                return;
            }
        }
        f.after.push((
            track::logged(),
            d.state().depth(),
            d.state().top_descriptor().map(|x| format!("{:?}", D::of(x))),
        ));
    }
}

fn de_same(ch: &mut Ch, v: &Val, k: usize, styles: &[DStyle], faults: bool, o: &mut Obs) -> Res {
    let evs = v.evs();
    let run = |tracked: bool, fault: Option<u32>| -> Fed {
        match fault {
            Some(n) => track::reset(&[n]),
            None => track::reset(&[]),
        }
        set_styles(styles);
        ide::set_check(fault.is_none());
        let mut f = Fed::default();
        if tracked {
            sink_tracked(k, |d| feed_into(d, &evs, &mut f));
        } else {
            sink_plain(k, |d| feed_into(d, &evs, &mut f));
        }
        ide::set_check(true);
        f.calls = track::take_log();
        f.atoms = ide::take_atoms();
        f
    };
    let what = || format!("{} (target {}, sinks {:?})", v.show(), k, &styles[..styles.len().min(12)]);
    let dry = run(false, None);
    ensure!(dry.result.is_none(), "{}: {:?}", what(), dry.result);
    let fault = match ch.pick(if faults { dry.calls.len() + 1 } else { 1 }) {
        0 => None,
        n => Some(n as u32 - 1),
    };
    let plain = run(false, fault);
    if fault.is_none() {
        badness()?;
    }
    let t = run(true, fault);
    let mut h = 0;
    for (x, e) in plain.after.iter().zip(&evs) {
        h = hash(&(h, x, e));
        o.step_h(h);
    }
    o.sample(|| format!("{}, failing callback {:?}", what(), fault));
    ensure!(t == plain, "{}, failing callback {:?}: {:?} with path tracking, {:?} without", what(), fault, t, plain);
    if fault.is_none() {
        if let Some(b) = track::badness() {
            fail!("{}: {}", what(), b);
        }
    }
    Ok(())
}

fn de_typed_val<T: Model>(v: &Val, o: &mut Obs) -> Res {
    let name = std::any::type_name::<T>();
    let evs = v.evs();
    let mut a: Option<T> = None;
    let mut plain = Fed::default();
    {
        let mut d = DeserializeDriver::new(&mut a);
        feed_into(&mut d, &evs, &mut plain);
    }
    let mut b: Option<T> = None;
    let mut t = Fed::default();
    {
        let p = PathSink::wrap_ref(Deserialize::deserialize_into(&mut b));
        let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(p));
        feed_into(&mut d, &evs, &mut t);
    }
    o.step_h(hash(&(name, v)));
    o.class(if plain.result.is_none() { "accepted" } else { "rejected" });
    ensure!(t == plain, "{} from {}: {:?} with path tracking, {:?} without", name, v.show(), t, plain);
    match (&a, &b) {
        (Some(x), Some(y)) if x == y || x.events() == y.events() => Ok(()),
        (None, None) => Ok(()),
        _ => fail!("{} from {}: {:?} with path tracking, {:?} without", name, v.show(), b, a),
    }
}

fn de_typed<T: Model>(ch: &mut Ch, s: Scope, odds: usize, o: &mut Obs) -> Res {
    let mut odds = odds;
    let v = T::tree(ch, s.n, &mut odds);
    de_typed_val::<T>(&v, o)
}
fn de_any<T: Model>(ch: &mut Ch, s: Scope, _: usize, o: &mut Obs) -> Res {
    let mut b = s.n;
    let v = de_tree(ch, &mut b, 2, &mut |ch| ch.of(&[Leaf::U64(1), Leaf::Null, Leaf::s("a"), Leaf::Bytes(vec![1, 2])]));
    de_typed_val::<T>(&v, o)
}

fn ser_derived(ch: &mut Ch, n: &Node, faults: bool, what: &dyn Fn() -> String, o: &mut Obs) -> Res {
    let k = ch.pick(3);
    track::reset(&[]);
    dtree::observe(None);
    let v = n.build();
    ser_same_in(ch, &v, k, &|| format!("{} (wrapped in way {})", what(), k), faults, o)
}

/// Values for derived targets.
fn de_derived<T: Shape>(ch: &mut Ch, n: usize, o: &mut Obs) -> Res {
    let kind = T::kind();
    let v = if n == 0 {
        let turn = ch.pick(8);
        let d = ch.of(&[0, 1, 2, 60, 127, 300]);
        let p = [ch.pick(5)];
        dty::full_val(&kind, turn, &|| ide::ladder(&p, d))
    } else {
        let mut n = n;
        dty::gen_val(ch, &kind, &mut n, 2)
    };
    let evs = v.evs();
    let name = std::any::type_name::<T>();
    let run = |tracked: bool, fault: Option<u32>| -> (Fed, bool) {
        match fault {
            Some(n) => track::reset(&[n]),
            None => track::reset(&[]),
        }
        set_styles(&[]);
        ide::set_check(fault.is_none());
        let mut f = Fed::default();
        let mut out: Option<T> = None;
        if tracked {
            let p = PathSink::wrap_ref(Deserialize::deserialize_into(&mut out));
            let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(p));
            feed_into(&mut d, &evs, &mut f);
        } else {
            let mut d = DeserializeDriver::new(&mut out);
            feed_into(&mut d, &evs, &mut f);
        }
        ide::set_check(true);
        f.calls = track::take_log();
        f.atoms = ide::take_atoms();
        (f, out.is_some())
    };
    let dry = run(false, None);
    let calls = dry.0.calls.len();
    let fault = match ch.pick(if n == 0 { 1 } else { calls + 1 }) {
        0 => None,
        n => Some(n as u32 - 1),
    };
    let what = || format!("{} from {}, failing callback {:?}", name, v.show(), fault);
    let plain = run(false, fault);
    let t = run(true, fault);
    o.sample(what);
    let mut h = hash(&name);
    for (x, e) in plain.0.after.iter().zip(&evs) {
        h = hash(&(h, x, e));
        o.step_h(h);
    }
    o.class(if plain.0.result.is_none() { "accepted" } else { "rejected" });
    ensure!(t == plain, "{}: {:?} with path tracking, {:?} without", what(), t, plain);
    Ok(())
}

type Shaped = fn(&mut Ch, usize, &mut Obs) -> Res;
macro_rules! shaped {
    ($($t:ty),* $(,)?) => { &[$(de_derived::<$t> as Shaped),*] };
}
const SHAPED: &[Shaped] = shaped!(
    P2, PO, PA, PF, PN, PB, PD, PM, NT, NP, NF, NO, G<Tr>, G<PF>, G<Option<Box<P2>>>, Option<PF>, Box<PN>, Vec<NP>, Vec<Option<PA>>, Option<NO>, Box<NO>, Vec<G<PF>>,
);

/// A sink called directly, in an order that is possible. Reading what it
/// expects and announces is possible anywhere.
fn direct_ops(ch: &mut Ch, n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut state = 0;
    while v.len() < n {
        // 0 nothing yet, 1 atom received, 2 key next, 3 value next, 4 element next, 5 finished
        let next: &[usize] = match state {
            0 => &[0, 1, 2, 3],
            1 => &[8],
            2 => &[4, 8],
            3 => &[5],
            4 => &[5, 8],
            _ => &[],
        };
        let c = ch.pick(next.len() + 3);
        let op = match c {
            0 => break,
            1 => 9,
            2 => 10,
            c => next[c - 3],
        };
        state = match (state, op) {
            (s, 9 | 10) => s,
            (_, 0 | 1) => 1,
            (_, 2) => 2,
            (_, 3) => 4,
            (2, 4) => 3,
            (3, 5) => 2,
            (s, 5) => s,
            _ => 5,
        };
        v.push(op);
    }
    v
}

fn de_direct(ch: &mut Ch, n: usize, o: &mut Obs) -> Res {
    let ops = direct_ops(ch, n);
    let cfg = (ch.pick(4), ch.pick(3));
    let way = ch.pick(4);
    let run = |way: usize| -> Result<(Vec<String>, Vec<String>, Option<direct::It>), String> {
        let mut out: Option<direct::It> = None;
        let (a, b) = match way {
            0 => direct::calls_on(&ops, || direct::It::deserialize_into(&mut out))?,
            1 => direct::calls_on(&ops, || SinkHandle::boxed(PathSink::wrap_ref(direct::It::deserialize_into(&mut out))))?,
            2 => direct::calls_on(&ops, || SinkHandle::boxed(PathSink::wrap_ref(SinkHandle::boxed(PathSink::wrap_ref(direct::It::deserialize_into(&mut out))))))?,
            3 => {
                let mut s = direct::It::deserialize_into(&mut out);
                let mut p = PathSink::wrap(&mut *s);
                direct::calls_on(&ops, || SinkHandle::to(&mut p))?
            }
            _ => {
                let mut s = direct::It::deserialize_into(&mut out);
                let p = PathSink::wrap(&mut *s);
                direct::calls_on(&ops, || SinkHandle::boxed(p))?
            }
        };
        Ok((a, b, out))
    };
    direct::setup(cfg, None);
    let dry = run(0)?;
    let fault = match ch.pick(dry.1.len() + 1) {
        0 => None,
        n => Some(n - 1),
    };
    direct::setup(cfg, fault);
    let plain = run(0);
    let t = run(way + 1);
    let what = || format!("calls {:?}, sink of kind {:?}, wrapped in way {}, failing callback {:?}", ops, cfg, way, fault);
    o.sample(what);
    if let Ok((a, ..)) = &plain {
        let mut h = 0;
        for (x, y) in a.iter().zip(&ops) {
            h = hash(&(h, x, y));
            o.step_h(h);
        }
    }
    direct::setup((0, 0), None);
    ensure!(t == plain, "{}: {:?} with path tracking, {:?} without", what(), t, plain);
    Ok(())
}

type Typed = fn(&mut Ch, Scope, usize, &mut Obs) -> Res;
macro_rules! typed_cases { ($($t:ty),* $(,)?) => { &[$((ser_typed::<$t> as Typed, de_typed::<$t> as Typed, de_any::<$t> as Typed)),*] }; }
const TYPED: &[(Typed, Typed, Typed)] = mc_vals::std_types!(typed_cases);

pub fn c20(r: &mut Runner) {
    let n = r.b(3, 4);
    r.section(
        "ser faults",
        &format!("all trees of <= {} nested values, 2 leaves, rotating handle styles, 3 ways to wrap the root, no fault or every callback failing", n),
        |ch, o| {
            let mut b = n;
            let mut s = spec_tree(ch, &mut b, 3, &mut |ch| ch.of(&[Leaf::s("a"), Leaf::Null]));
            if ch.flag() {
                styles_cycle(ch, &mut s);
            }
            ser_same(ch, &mut s, true, o)
        },
    );
    let deep = r.thorough;
    r.section("ser styles", &format!("all trees of <= 2 nested values, {} handle styles for every value, {} kinds of leaves, every callback failing", 8, if deep { 12 } else { 4 }), |ch, o| {
        let mut b = 2;
        let mut s = spec_tree(ch, &mut b, 2, &mut |ch| if deep { key_leaf(ch) } else { ch.of(&[Leaf::s("a"), Leaf::U64(7), Leaf::Null, Leaf::Bytes(vec![97])]) });
        styles_all(ch, &mut s, &STYLES);
        ser_same(ch, &mut s, true, o)
    });
    let n = r.b(2, 3);
    r.section("ser key texts", &format!("a map or a struct with one key twice: all texts of <= {} out of 24 characters, 30 words, lengths up to 65537, numbers around every power of two; every callback failing", n), |ch, o| {
        let key = any_key(ch, n);
        let Some(mut s) = keyed_spec(ch, key) else { return Ok(()) };
        ser_same(ch, &mut s, true, o)
    });
    r.section("de key texts", &format!("a map with one key twice: all texts of <= {} out of 24 characters, 30 words, lengths up to 65537, numbers around every power of two; every callback failing", n), |ch, o| {
        let v = keyed_val(any_key(ch, n));
        let k = ch.pick(3);
        de_same(ch, &v, k, &[], true, o)
    });
    r.section("ser deep", "nesting patterns of period <= 2, depths 1, 127..129, 300; 3 handle styles", |ch, o| {
        let p = iser::pattern(ch);
        let mut s = iser::ladder(&p, ch.of(&[1, 127, 128, 129, 300]));
        let st = ch.of(&[Style::Borrowed, Style::Slot, Style::SlotSome]);
        set_uniform(&mut s, st, 0);
        ser_same(ch, &mut s, false, o)
    });
    r.section("ser wide", "containers of n elements for n <= 70, 127..129, 300, 1000, 4097, 65537; 4 kinds, 3 handle styles", |ch, o| {
        let k = ch.pick(4);
        let n = ch.pick(78);
        let mut s = iser::wide(k, if n <= 70 { n } else { [127, 128, 129, 300, 1000, 4097, 65537][n - 71] });
        let st = ch.of(&[Style::Borrowed, Style::Slot, Style::SlotSome]);
        set_uniform(&mut s, st, 0);
        ser_same(ch, &mut s, false, o)
    });
    let n = r.b(3, 4);
    r.section("ser derived", &format!("all trees of <= {} nested values built from 28 shapes of derived structs (flattened and skipped fields), newtypes, standard containers and instrumented ones, no fault or every callback failing", n), |ch, o| {
        let mut b = n;
        let mut d = dtree::dtree(ch, &mut b, n, true);
        d.number();
        d.gives(1, 1);
        ser_derived(ch, &d, true, &|| d.show(), o)
    });
    r.section("ser derived deep", "8 derived shapes in patterns of period <= 2, depths 1, 2, 60, 129, 300", |ch, o| {
        let n = 1 + ch.pick(2);
        let p: Vec<usize> = (0..n).map(|_| ch.pick(8)).collect();
        let depth = ch.of(&[1, 2, 60, 129, 300]);
        let mut d = dtree::dladder(&p, depth);
        d.gives(1, 1);
        ser_derived(ch, &d, false, &|| format!("{:?} nested {} deep", p, depth), o)
    });
    let s = Scope { w: 2, n: r.b(1, 2) };
    r.section("ser types", &format!("{} standard types, all values with <= {} elements per collection", TYPED.len(), s.n), |ch, o| {
        (TYPED[ch.pick(TYPED.len())].0)(ch, s, 0, o)
    });
    let n = r.b(4, 5);
    r.section(
        "de faults",
        &format!("all trees of <= {} nested values, 2 leaves, 5 rotations of sink kinds, 5 ways to wrap the root, no fault or every callback failing", n),
        |ch, o| {
            let mut b = n;
            let v = de_tree(ch, &mut b, 3, &mut |ch| ch.of(&[Leaf::s("a"), Leaf::Null]));
            let st = rotate(ch);
            let k = ch.pick(5);
            de_same(ch, &v, k, &st, true, o)
        },
    );
    r.section("de deep", "nesting patterns of period <= 2, depths 1, 127..129, 300", |ch, o| {
        let p = ide::pattern(ch);
        let d = ch.of(&[1, 127, 128, 129, 300]);
        let v = ide::ladder(&p, d);
        let st = vec![ch.of(&[DStyle::Owned, DStyle::Slot, DStyle::Opt]); 4 * d];
        let k = ch.pick(2);
        de_same(ch, &v, k, &st, false, o)
    });
    r.section("de wide", "containers of n elements for n <= 70, 127..129, 300, 1000, 4097, 65537; 3 kinds, 3 sink kinds", |ch, o| {
        let k = ch.pick(3);
        let n = ch.pick(78);
        let n = if n <= 70 { n } else { [127, 128, 129, 300, 1000, 4097, 65537][n - 71] };
        let v = ide::wide(k, n);
        let st = vec![ch.of(&[DStyle::Owned, DStyle::Slot, DStyle::Opt]); 3 * n + 10];
        let k = ch.pick(2);
        de_same(ch, &v, k, &st, false, o)
    });
    let s = Scope { w: 2, n: r.b(1, 2) };
    r.section("de types", &format!("{} standard types, all fitting streams with <= {} elements per collection and at most one misfit", TYPED.len(), s.n), |ch, o| {
        (TYPED[ch.pick(TYPED.len())].1)(ch, s, 1, o)
    });
    let s = Scope { w: 2, n: r.b(2, 3) };
    r.section("de any", &format!("the same types, all trees of <= {} nested values", s.n), |ch, o| {
        (TYPED[ch.pick(TYPED.len())].2)(ch, s, 0, o)
    });
    let n = r.b(4, 5);
    r.section("de derived", &format!("{} types with derived structs, newtypes and flattened fields: all streams of their shape with <= {} members and elements, every callback failing", SHAPED.len(), n), |ch, o| {
        SHAPED[ch.pick(SHAPED.len())](ch, n, o)
    });
    r.section("de derived deep", "the same types, complete values in 8 orders with members nested 0, 1, 2, 60, 127, 300 deep in 5 ways", |ch, o| {
        SHAPED[ch.pick(SHAPED.len())](ch, 0, o)
    });
    let n = r.b(7, 9);
    r.section("de direct", &format!("a sink called directly in all possible orders of <= {} calls (what it expects and announces read anywhere), 12 sinks, 4 ways to wrap it, every callback failing", n), |ch, o| {
        de_direct(ch, n, o)
    });
}
