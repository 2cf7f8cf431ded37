//! C30: what types announce about themselves.
use deser::de::{DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::ser::SerializeDriver;
use deser::{Deserialize, Error, Event, Serialize};
use mc_core::{ensure, guard, hash, Ch, Obs, Res, Runner};
use mc_vals::gen::{Gen, HMap, Scope};
use mc_vals::model::D;
use mc_vals::Ev;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// What is promised about a type.
#[derive(Clone, Copy, Debug)]
struct Row {
    /// while serializing and while deserializing
    ser: Option<&'static str>,
    de: Option<&'static str>,
    precision: Option<usize>,
    hashed: bool,
    /// other unordered announcements are possible for sinks
    sorted: bool,
}

fn number(name: &'static str, bits: usize) -> Row {
    Row { ser: Some(name), de: Some(name), precision: Some(bits), hashed: false, sorted: false }
}
fn named(name: &'static str) -> Row {
    Row { ser: Some(name), de: Some(name), precision: None, hashed: false, sorted: false }
}
const PLAIN: Row = Row { ser: None, de: None, precision: None, hashed: false, sorted: false };
const SORTED: Row = Row { ser: None, de: None, precision: None, hashed: false, sorted: true };
const HASHED: Row = Row { ser: None, de: None, precision: None, hashed: true, sorted: false };

fn said(d: &D, r: &Row, what: &str) -> Res {
    if let Some(n) = r.ser {
        ensure!(d.name.as_deref() == Some(n), "{}: announced as {:?} instead of {:?}", what, d.name, n);
    }
    ensure!(d.precision == r.precision, "{}: precision {:?} instead of {:?}", what, d.precision, r.precision);
    ensure!(d.unordered == r.hashed, "{}: announced as unordered {}", what, d.unordered);
    Ok(())
}

fn sink_said(d: &D, r: &Row, what: &str) -> Res {
    if let Some(n) = r.de {
        ensure!(d.name.as_deref() == Some(n), "{}: announced as {:?} instead of {:?}", what, d.name, n);
    }
    ensure!(d.precision.is_none() || d.precision == r.precision, "{}: precision {:?} of {:?}", what, d.precision, r.precision);
    if !r.sorted {
        ensure!(d.unordered == r.hashed, "{}: announced as unordered {}", what, d.unordered);
    }
    Ok(())
}

#[derive(Serialize, Deserialize)]
struct New<T>(T);
#[derive(Serialize, Deserialize)]
struct Holder<T> {
    first: u8,
    it: T,
}
#[derive(Serialize, Deserialize)]
#[deser(rename = "another name")]
struct Renamed<T> {
    it: T,
}

fn walk(v: &dyn Serialize) -> Result<Vec<(Ev, D)>, String> {
    guard(|| {
        let mut out = vec![];
        let mut d = SerializeDriver::new(v);
        while let Some((e, d, _)) = d.next().map_err(|e| e.to_string())? {
            out.push((Ev::of(&e), D::of(d)));
        }
        Ok(out)
    })?
}

/// The descriptors of the first and last event of a value found at the position.
fn at(v: &dyn Serialize, from: usize, back: usize, r: &Row, what: &str) -> Res {
    let t = match walk(v) {
        Ok(t) => t,
        Err(m) => mc_core::fail!("{}: {}", what, m),
    };
    if t.len() == 1 && from == 1 {
        // bytes
        return Ok(());
    }
    said(&t[from].1, r, what)?;
    said(&t[t.len() - 1 - back].1, r, what)
}

fn ser<T: Serialize>(mut x: T, r: &Row, what: &str) -> Res {
    said(&D::of(x.descriptor()), r, what)?;
    said(&D::of((&x).descriptor()), r, &format!("&{}", what))?;
    said(&D::of((&&x).descriptor()), r, &format!("&&{}", what))?;
    at(&x, 0, 0, r, what)?;
    at(&&x, 0, 0, r, &format!("reference to {}", what))?;
    at(&&mut x, 0, 0, r, &format!("mutable reference to {}", what))?;
    said(&D::of((&mut x).descriptor()), r, &format!("&mut {}", what))?;
    let x = Box::new(x);
    said(&D::of(x.descriptor()), r, &format!("Box of {}", what))?;
    at(&x, 0, 0, r, &format!("boxed {}", what))?;
    let x = New(x);
    said(&D::of(x.descriptor()), r, &format!("newtype of {}", what))?;
    at(&x, 0, 0, r, &format!("newtype of {}", what))?;
    let x = (x,);
    at(&x, 1, 1, r, &format!("{} in tuple", what))?;
    let x = vec![x.0];
    at(&x, 1, 1, r, &format!("{} in vector", what))?;
    let x: [_; 1] = [x.into_iter().next().unwrap()];
    at(&x, 1, 1, r, &format!("{} in array", what))?;
    let [x] = x;
    let x: BTreeMap<u8, _> = [(1, x)].into_iter().collect();
    at(&x, 2, 1, r, &format!("{} in map", what))?;
    let x = x.into_iter().next().unwrap().1;
    let x: HMap<u8, _> = [(1, x)].into_iter().collect();
    at(&x, 2, 1, r, &format!("{} in hash map", what))?;
    let x = x.into_iter().next().unwrap().1;
    let x = Holder { first: 1, it: x };
    said(&D::of(x.descriptor()), &named("Holder"), "struct")?;
    at(&x, 0, 0, &named("Holder"), "struct")?;
    at(&x, 4, 1, r, &format!("{} in struct", what))?;
    let x = Renamed { it: x.it };
    said(&D::of(x.descriptor()), &named("another name"), "renamed struct")?;
    at(&x, 0, 0, &named("another name"), "renamed struct")?;
    at(&x, 2, 1, r, &format!("{} in renamed struct", what))
}

/// A container whose only element is of the type.
struct Probe<'a, T> {
    slot: Option<T>,
    seen: &'a std::cell::RefCell<Vec<D>>,
}
impl<'a, T: Deserialize> Sink for Probe<'a, T> {
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        Ok(())
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        let h = T::deserialize_into(&mut self.slot);
        self.seen.borrow_mut().push(D::of(h.descriptor()));
        Ok(h)
    }
}

fn de<T: Deserialize + Serialize>(x: &T, r: &Row, what: &str) -> Res {
    macro_rules! direct {
        ($($t:ty),*) => {$({
            let mut slot: Option<$t> = None;
            let h = <$t>::deserialize_into(&mut slot);
            sink_said(&D::of(h.descriptor()), r, &format!("sink of {} as {}", what, stringify!($t)))?;
        })*};
    }
    direct!(T, Box<T>, Option<T>, New<T>, Box<Box<T>>, Option<Box<T>>, New<New<T>>, Box<New<T>>);
    {
        let mut slot: Option<Holder<T>> = None;
        sink_said(&D::of(Holder::<T>::deserialize_into(&mut slot).descriptor()), &named("Holder"), "struct sink")?;
        let mut slot: Option<Renamed<T>> = None;
        sink_said(&D::of(Renamed::<T>::deserialize_into(&mut slot).descriptor()), &named("another name"), "renamed struct sink")?;
    }
    // containers are visible to what is inside
    let evs: Vec<Ev> = match walk(x) {
        Ok(t) => t.into_iter().map(|x| x.0).collect(),
        Err(m) => mc_core::fail!("{}: {}", what, m),
    };
    let seen = std::cell::RefCell::new(vec![]);
    let tops = guard(|| -> Result<Vec<Option<D>>, String> {
        let mut p: Probe<T> = Probe { slot: None, seen: &seen };
        let mut d = DeserializeDriver::from_sink(SinkHandle::to(&mut p));
        let mut tops = vec![];
        d.emit(Event::SeqStart).map_err(|e| e.to_string())?;
        for e in &evs {
            d.emit(e.event()).map_err(|e| e.to_string())?;
            tops.push(d.state().top_descriptor().map(D::of));
        }
        d.emit(Event::SeqEnd).map_err(|e| e.to_string())?;
        Ok(tops)
    });
    match tops {
        Ok(Ok(t)) => {
            for d in seen.borrow().iter() {
                sink_said(d, r, &format!("nested sink of {}", what))?;
            }
            if evs.len() > 1 {
                match &t[0] {
                    Some(d) => sink_said(d, r, &format!("innermost container in {}", what))?,
                    None => mc_core::fail!("{}: no container", what),
                }
            }
            Ok(())
        }
        x => mc_core::fail!("{} from {}: {:?}", what, mc_vals::show(&evs), x),
    }
}

fn both<T: Serialize + Deserialize + Gen>(ch: &mut Ch, r: Row, s: Scope, o: &mut Obs) -> Res {
    let x = T::gen(ch, s);
    let what = std::any::type_name::<T>();
    o.step_h(hash(&(what, walk(&x).map(|t| t.into_iter().map(|x| x.0).collect::<Vec<_>>()))));
    de(&x, &r, what)?;
    ser(x, &r, what)
}

type Case = fn(&mut Ch, Scope, &mut Obs) -> Res;
macro_rules! rows {
    ($($t:ty: $r:expr),* $(,)?) => { &[$({
        fn f(ch: &mut Ch, s: Scope, o: &mut Obs) -> Res { both::<$t>(ch, $r, s, o) }
        f as Case
    }),*] };
}

const NUMBERS: &[Case] = rows! {
    u8: number("u8", 8), u16: number("u16", 16), u32: number("u32", 32), u64: number("u64", 64),
    i8: number("i8", 8), i16: number("i16", 16), i32: number("i32", 32), i64: number("i64", 64),
    f32: number("f32", 32), f64: number("f64", 64),
    usize: number("usize", std::mem::size_of::<usize>() * 8), isize: number("isize", std::mem::size_of::<isize>() * 8),
    bool: named("bool"), char: named("char"),
};

const OTHERS: &[Case] = rows! {
    (): PLAIN, String: PLAIN, (u8,): PLAIN, (u64, String): PLAIN, (u16, bool, f64): PLAIN,
    Vec<u8>: PLAIN, Vec<u16>: PLAIN, Vec<String>: PLAIN, Vec<Vec<u32>>: PLAIN, Vec<()>: PLAIN,
    Vec<HashSet<u8>>: PLAIN, Vec<HMap<u8, u8>>: PLAIN, (HashSet<u32>,): PLAIN,
    [u8; 0]: PLAIN, [u8; 2]: PLAIN, [u32; 1]: PLAIN, [String; 2]: PLAIN, [HashSet<u8>; 1]: PLAIN,
    BTreeSet<u8>: SORTED, BTreeSet<String>: SORTED, BTreeMap<u8, f32>: SORTED, BTreeMap<String, String>: SORTED,
    BTreeMap<u8, HashSet<u8>>: SORTED, BTreeMap<u8, HMap<u8, u8>>: SORTED,
    HashSet<u8>: HASHED, HashSet<String>: HASHED, HashSet<u64>: HASHED, HashSet<Vec<u8>>: HASHED, HashSet<BTreeSet<u8>>: HASHED,
    HMap<u8, f32>: HASHED, HMap<String, String>: HASHED, HMap<u8, BTreeMap<u8, u8>>: HASHED, HMap<u8, Vec<u32>>: HASHED,
    HMap<String, HashSet<u8>>: HASHED,
};

// types without the other direction
fn borrowed(ch: &mut Ch, o: &mut Obs) -> Res {
    let n = ch.pick(4);
    o.step_h(hash(&n));
    let b: Vec<u8> = (0..n as u8).collect();
    let w: Vec<u16> = b.iter().map(|x| *x as u16).collect();
    let s = "x".repeat(n);
    match ch.pick(5) {
        0 => ser(&b[..], &PLAIN, "byte slice"),
        1 => ser(&w[..], &PLAIN, "slice"),
        2 => ser(&s[..], &PLAIN, "str"),
        3 => ser(Cow::Borrowed(&s[..]), &PLAIN, "borrowed str"),
        _ => ser(Cow::<str>::Owned(s), &PLAIN, "owned str"),
    }
}

// derived structs of other names
#[derive(Serialize, Deserialize)]
struct Empty {}
#[derive(Serialize, Deserialize)]
struct _Under_score {
    a: u8,
}
#[derive(Serialize, Deserialize)]
struct Café {
    a: u8,
}
#[derive(Serialize, Deserialize)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
struct CaseOnly {
    a_b: u8,
}
#[derive(Serialize, Deserialize)]
#[deser(rename = "")]
struct NoName {
    a: u8,
}
#[derive(Serialize, Deserialize)]
#[deser(rename = "Holder", rename_all = "camelCase")]
struct Same {
    a_b: u8,
}
#[derive(Serialize, Deserialize)]
#[deser(rename = "é \"\\ \u{1f600}\n")]
struct Strange {
    #[deser(rename = "Strange")]
    a: u8,
}
#[derive(Serialize, Deserialize)]
struct Skipper {
    a: Option<u8>,
    #[deser(flatten)]
    inner: CaseOnly,
}
#[derive(Serialize, Deserialize)]
struct Bound<'a, T: Clone, const N: usize>
where
    T: Copy,
{
    a: [T; N],
    #[deser(default)]
    b: Option<Cow0<'a>>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Cow0<'a> {
    #[deser(default)]
    p: Marker<'a>,
}
#[derive(Clone, Default)]
struct Marker<'a>(std::marker::PhantomData<&'a ()>);
impl<'a> Serialize for Marker<'a> {
    fn serialize(&self, _: &deser::ser::SerializerState) -> Result<deser::ser::Chunk<'_>, Error> {
        Ok(deser::ser::Chunk::Atom(deser::Atom::Null))
    }
}
impl<'a> Deserialize for Marker<'a> {
    fn deserialize_into(_: &mut Option<Self>) -> SinkHandle<'_> {
        SinkHandle::null()
    }
}

fn derived(ch: &mut Ch, o: &mut Obs) -> Res {
    let k = ch.pick(11);
    o.step_h(hash(&k));
    fn go<T: Serialize + Deserialize>(x: T, name: &'static str) -> Res {
        de(&x, &named(name), name)?;
        ser(x, &named(name), name)
    }
    match k {
        0 => go(Empty {}, "Empty"),
        1 => go(_Under_score { a: 1 }, "_Under_score"),
        2 => go(Café { a: 1 }, "Café"),
        3 => go(CaseOnly { a_b: 1 }, "CaseOnly"),
        4 => go(NoName { a: 1 }, ""),
        5 => go(Same { a_b: 1 }, "Holder"),
        6 => go(Strange { a: 1 }, "é \"\\ \u{1f600}\n"),
        7 => go(Skipper { a: None, inner: CaseOnly { a_b: 2 } }, "Skipper"),
        8 => {
            let x: HashMap<u8, u8> = (0..3).map(|x| (x, x)).collect();
            de(&x, &HASHED, "HashMap")?;
            ser(x, &HASHED, "HashMap")
        }
        9 => {
            let x: HashSet<u8> = (0..3).collect();
            de(&x, &HASHED, "HashSet")?;
            ser(x, &HASHED, "HashSet")
        }
        _ => go(Bound::<u16, 2> { a: [1, 2], b: None }, "Bound"),
    }
}

pub fn c30(r: &mut Runner) {
    let s = r.b(Scope { w: 0, n: 3 }, Scope { w: 0, n: 3 });
    r.section("numbers", "all number types, bool and char x all boundary values, alone, behind references, boxes and newtypes, as elements, members and fields of 8 containers, and as targets alone, in boxes, optionals and newtypes", |ch, o| {
        NUMBERS[ch.pick(NUMBERS.len())](ch, s, o)
    });
    let s = r.b(Scope { w: 2, n: 2 }, Scope { w: 3, n: 4 });
    r.section("other types", &format!("{} types, all values with <= {} elements per collection, in the same places", OTHERS.len(), s.n), |ch, o| {
        OTHERS[ch.pick(OTHERS.len())](ch, s, o)
    });
    r.section("borrowed types", "slices and strings of <= 3 elements, in the same places", borrowed);
    r.section("derived structs", "9 derived structs with declared and given names, hash containers, in the same places", derived);
}
