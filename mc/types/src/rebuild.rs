//! C06 and C26: containers are rebuilt from event streams.
use deser::de::{Deserialize, DeserializeDriver};
use deser::ser::{Chunk, Serialize, SerializeDriver};
use deser::{Atom, Error, Event};
use mc_core::{ensure, fail, guard, hash, Ch, Obs, Res, Runner};
use mc_vals::judge::{feed, judge, same};
use mc_vals::gen::{Gen, HMap, HSet, Scope};
use mc_vals::model::{odd, Errs, Model};
use mc_vals::{Ev, Leaf, Val};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};

fn near<T: Model>(ch: &mut Ch, n: usize, odds: usize, o: &mut Obs) -> Res {
    let mut odds = odds;
    let v = T::tree(ch, n, &mut odds);
    o.sample(|| format!("{} from {}", std::any::type_name::<T>(), v.show()));
    judge::<T>(&v, o, None)
}

fn any<T: Model>(ch: &mut Ch, n: usize, _: usize, o: &mut Obs) -> Res {
    let mut b = n;
    let v = mc_vals::ide::de_tree(ch, &mut b, 3, &mut |ch| {
        ch.of(&[
            Leaf::U64(1),
            Leaf::Null,
            Leaf::s("a"),
            Leaf::I64(-1),
            Leaf::Bool(true),
            Leaf::Bytes(vec![1, 2]),
        ])
    });
    judge::<T>(&v, o, None)
}

/// Again into a slot that already holds a value.
fn again<T: Model>(ch: &mut Ch, n: usize, _: usize, o: &mut Obs) -> Res {
    let stale = T::gen(ch, Scope { w: 2, n: 1 });
    let v = T::tree(ch, n, &mut 0);
    judge::<T>(&v, o, Some(stale))
}

type Case = fn(&mut Ch, usize, usize, &mut Obs) -> Res;
macro_rules! near_cases { ($($t:ty),* $(,)?) => { &[$((stringify!($t), near::<$t> as Case)),*] }; }
const NEAR: &[(&str, Case)] = mc_vals::std_types!(near_cases);
const NEAR_LONG: &[(&str, Case)] = mc_vals::std_types_long!(near_cases);
macro_rules! any_cases { ($($t:ty),* $(,)?) => { &[$(any::<$t> as Case),*] }; }
const ANY: &[Case] = mc_vals::std_types!(any_cases);
macro_rules! again_cases { ($($t:ty),* $(,)?) => { &[$(again::<$t> as Case),*] }; }
const AGAIN: &[Case] = mc_vals::std_types!(again_cases);

fn lengths<T: Model>(n: usize, f: &dyn Fn(usize) -> Val, o: &mut Obs) -> Res {
    judge::<T>(&Val::Seq((0..n).map(f).collect()), o, None)
}

fn nested(name: &str) -> bool {
    name.chars().filter(|c| "<[(".contains(*c)).count() > 1
}

/// Elements or keys in this order.
fn ordered(ks: &[usize], ch: &mut Ch, o: &mut Obs) -> Res {
    let num = |k: usize| Val::L(Leaf::U64(k as u64));
    let seq = |f: &dyn Fn(usize) -> Val| Val::Seq(ks.iter().map(|k| f(*k)).collect());
    let map = |f: &dyn Fn(usize) -> Val| Val::Map(ks.iter().enumerate().map(|(i, k)| (f(*k), num(i))).collect());
    let text = |k: usize| Val::L(Leaf::s(&"x".repeat(k % 40).replacen('x', &k.to_string(), 1)));
    match ch.pick(13) {
        0 => judge::<BTreeSet<u16>>(&seq(&num), o, None),
        1 => judge::<HSet<u16>>(&seq(&num), o, None),
        2 => judge::<BTreeSet<String>>(&seq(&text), o, None),
        3 => judge::<HSet<String>>(&seq(&text), o, None),
        4 => judge::<Vec<u16>>(&seq(&num), o, None),
        5 => judge::<BTreeSet<Option<u16>>>(&seq(&|k| if k == 1 { Val::L(Leaf::Null) } else { num(k) }), o, None),
        6 => judge::<BTreeSet<(u16, bool)>>(&seq(&|k| Val::Seq(vec![num(k / 2), Val::L(Leaf::Bool(k % 2 == 1))])), o, None),
        7 => judge::<BTreeMap<u16, u64>>(&map(&num), o, None),
        8 => judge::<HMap<u16, u64>>(&map(&num), o, None),
        9 => judge::<BTreeMap<String, u64>>(&map(&text), o, None),
        10 => judge::<HMap<String, u64>>(&map(&text), o, None),
        11 => judge::<BTreeMap<Box<u16>, Option<u64>>>(&map(&num), o, None),
        _ => judge::<BTreeMap<Vec<u16>, u64>>(&map(&|k| Val::Seq((0..k % 5).map(|i| num(k / 5 + i)).collect())), o, None),
    }
}

pub fn c06(r: &mut Runner) {
    let n = r.b(3, 4);
    r.section(
        "any value",
        &format!("all value trees of <= {} nested values (containers as keys included), nesting <= 3, 6 leaves, into each of {} types", n, ANY.len()),
        |ch, o| ANY[ch.pick(ANY.len())](ch, n, 0, o),
    );
    let m = r.b(2, 3);
    r.section(
        "fitting values",
        &format!("{} types, all streams of the shape of the type with <= {} elements per collection", NEAR.len(), m),
        |ch, o| (NEAR[ch.pick(NEAR.len())].1)(ch, m, 0, o),
    );
    let flat: Vec<Case> = NEAR.iter().filter(|x| !nested(x.0)).map(|x| x.1).collect();
    let m = r.b(4, 6);
    r.section(
        "fitting flat values",
        &format!("{} types without nesting, all streams of the shape of the type with <= {} elements per collection", flat.len(), m),
        |ch, o| flat[ch.pick(flat.len())](ch, m, 0, o),
    );
    r.section(
        "one misfit",
        &format!("{} types, all streams of the shape of the type with <= 2 elements per collection and at most one part replaced by one of 19 others; array and tuple lengths around the right one", NEAR.len()),
        |ch, o| (NEAR[ch.pick(NEAR.len())].1)(ch, 2, 1, o),
    );
    if r.thorough {
        r.section("two misfits", "the same with at most two misfits", |ch, o| {
            (NEAR[ch.pick(NEAR.len())].1)(ch, 2, 2, o)
        });
    }
    r.section("long tuples", "tuples of 6 to 12 elements with at most one misfit, lengths around the right one", |ch, o| {
        (NEAR_LONG[ch.pick(NEAR_LONG.len())].1)(ch, 1, 1, o)
    });
    r.section("filled slots", "all fitting streams with <= 2 elements per collection into a slot holding any of 2 values per leaf", |ch, o| {
        AGAIN[ch.pick(AGAIN.len())](ch, 2, 0, o)
    });
    r.section("lengths", "sequences of n elements for all n <= 300, and 4097, 65535..65537, into vectors, sets, arrays of 0..64 and 256 elements, with and without duplicates", |ch, o| {
        let n = ch.pick(305);
        let n = if n <= 300 { n } else { [4097, 65535, 65536, 65537][n - 301] };
        let id = |i: usize| Val::L(Leaf::U64(i as u64));
        let dup = |i: usize| Val::L(Leaf::U64((i / 2) as u64));
        let s = |i: usize| Val::L(Leaf::s(&i.to_string()));
        let bx = |i: usize| if i % 3 == 0 { Val::L(Leaf::Null) } else { Val::L(Leaf::U64(i as u64)) };
        match ch.pick(25) {
            22 => lengths::<[u16; 256]>(n, &id, o),
            23 => lengths::<Vec<u64>>(n, &id, o),
            24 => lengths::<HSet<String>>(n, &s, o),
            0 => lengths::<Vec<u16>>(n, &id, o),
            1 => lengths::<Vec<String>>(n, &s, o),
            2 => lengths::<BTreeSet<u16>>(n, &dup, o),
            3 => lengths::<HSet<u16>>(n, &dup, o),
            4 => lengths::<[u16; 0]>(n, &id, o),
            5 => lengths::<[u16; 7]>(n, &id, o),
            6 => lengths::<[String; 8]>(n, &s, o),
            7 => lengths::<[u16; 31]>(n, &id, o),
            8 => lengths::<[u16; 32]>(n, &id, o),
            9 => lengths::<[u16; 33]>(n, &id, o),
            10 => lengths::<[Box<u16>; 64]>(n, &id, o),
            11 => lengths::<[(); 5]>(n, &|_| Val::L(Leaf::Null), o),
            12 => lengths::<Vec<()>>(n, &|_| Val::L(Leaf::Null), o),
            13 => lengths::<Vec<Option<u16>>>(n, &bx, o),
            14 => lengths::<[Option<u16>; 9]>(n, &bx, o),
            15 => lengths::<Option<[Option<u16>; 10]>>(n, &bx, o),
            16 => lengths::<BTreeSet<Option<u16>>>(n, &bx, o),
            17 => lengths::<Box<Vec<u64>>>(n, &id, o),
            18 => lengths::<Vec<[u16; 1]>>(n, &|i| Val::Seq(vec![id(i)]), o),
            19 => lengths::<Vec<Vec<u16>>>(n, &|i| Val::Seq((0..i % 4).map(id).collect()), o),
            20 => lengths::<(u16, u16, u16, u16)>(n, &id, o),
            _ => lengths::<Vec<BTreeMap<u16, bool>>>(n, &|i| Val::Map((0..i % 3).map(|x| (id(x), Val::L(Leaf::Bool(true)))).collect()), o),
        }
    });
    r.section("map keys", "maps of n <= 6 members over 3 keys in every arrangement (the last equal key wins), 6 map types; and n <= 300 distinct or repeating keys", |ch, o| {
        let n = ch.pick(7);
        let ks: Vec<usize> = if n == 6 {
            let n = ch.pick(300);
            let m = ch.of(&[1, 2, 7, 1000]);
            (0..n).map(|x| x % m).collect()
        } else {
            (0..n + 1).map(|_| ch.pick(3)).collect()
        };
        let mk = |f: &dyn Fn(usize) -> Val| Val::Map(ks.iter().enumerate().map(|(i, k)| (f(*k), Val::L(Leaf::U64(i as u64)))).collect());
        let num = |k| Val::L(Leaf::U64(k as u64));
        match ch.pick(6) {
            0 => judge::<BTreeMap<u16, u64>>(&mk(&num), o, None),
            1 => judge::<HMap<u16, u64>>(&mk(&num), o, None),
            2 => judge::<BTreeMap<String, u64>>(&mk(&|k| Val::L(Leaf::s(&format!("k{}", k)))), o, None),
            3 => judge::<BTreeMap<Vec<u16>, u64>>(&mk(&|k| Val::Seq(vec![num(k), num(1)])), o, None),
            4 => judge::<HMap<Option<u16>, u64>>(&mk(&|k| if k == 0 { Val::L(Leaf::Null) } else { num(k) }), o, None),
            _ => judge::<BTreeMap<BTreeMap<u16, u16>, Option<u64>>>(&mk(&|k| Val::Map(vec![(num(k), num(k))])), o, None),
        }
    });
    let m = r.b(5, 6);
    r.section("orders", &format!("every sequence of <= {} out of {} elements or keys, every permutation of {} elements; 7 types of sets and vectors, 6 of maps", m, m, m + 1), |ch, o| {
        let ks: Vec<usize> = if ch.flag() {
            let mut left: Vec<usize> = (0..m + 1).collect();
            let mut v = vec![];
            while !left.is_empty() {
                let i = ch.pick(left.len());
                v.push(left.remove(i));
            }
            v
        } else {
            (0..ch.pick(m + 1)).map(|_| ch.pick(m)).collect()
        };
        ordered(&ks, ch, o)
    });
    r.section("long orders", "n <= 150, 255..257, 1000, 3000, 65537 elements or keys: rising, falling, from both ends, odd ones after even ones, all equal, rising but for a last one that belongs at any of 4 places, with every or no element repeated; the same types", |ch, o| {
        let n = {
            let i = ch.pick(157);
            if i <= 150 { i } else { [255, 256, 257, 1000, 3000, 65537][i - 151] }
        };
        let mut ks: Vec<usize> = match ch.pick(9) {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            2 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
            3 => (0..n).map(|i| if i < n.div_ceil(2) { 2 * i } else { 2 * (i - n.div_ceil(2)) + 1 }).collect(),
            4 => (0..n).map(|_| 5).collect(),
            x => {
                let mut v: Vec<usize> = (0..n).map(|i| 2 * i + 2).collect();
                v.push([0, 2 * (n / 2) + 1, (2 * n).max(1) - 1, 2 * (n / 2)][x - 5]);
                v
            }
        };
        if ch.flag() {
            ks = ks.iter().flat_map(|k| [*k, *k]).collect();
        }
        ordered(&ks, ch, o)
    });
    r.section("deep", "vectors, boxes, options and maps nested 12 deep, every level holding 0..2 elements or null", |ch, o| {
        type V1 = Vec<Option<Box<Vec<Option<Vec<BTreeMap<u8, Option<Vec<Box<Vec<u16>>>>>>>>>>>;
        near::<V1>(ch, 1, 1, o)
    });
}

// -------------------------------------------------------------------- C26

/// Passes the events of a value on to a deserialization of its type, one by one.
pub fn relay<T: Serialize + Deserialize>(v: &T, copied: bool) -> Result<Option<T>, String> {
    let mut out = None;
    let r = guard(|| -> Result<Result<(), Error>, String> {
        let mut s = SerializeDriver::new(v);
        let mut d = DeserializeDriver::new(&mut out);
        loop {
            let e = match s.next() {
                Ok(Some((e, _, _))) => e,
                Ok(None) => return Ok(Ok(())),
                Err(e) => return Ok(Err(e)),
            };
            if copied {
                let c: Event<'static> = e.to_static();
                if c != e || Ev::of(&c) != Ev::of(&e) {
                    let nan = matches!(e, Event::Atom(Atom::F64(x)) if x.is_nan());
                    if !nan || Ev::of(&c) != Ev::of(&e) {
                        return Err(format!("copy {:?} of event {:?}", c, e));
                    }
                }
                drop(e);
                if let Err(e) = d.emit(c) {
                    return Ok(Err(e));
                }
            } else if let Err(e) = d.emit(e) {
                return Ok(Err(e));
            }
        }
    });
    match r {
        Err(m) => Err(format!("panic {}", m)),
        Ok(Err(m)) => Err(m),
        Ok(Ok(Err(e))) => Err(format!("error {}", e)),
        Ok(Ok(Ok(()))) => Ok(out),
    }
}

fn again26<T: Model>(ch: &mut Ch, s: Scope, o: &mut Obs) -> Res {
    let v = T::gen(ch, s);
    let name = std::any::type_name::<T>();
    o.sample(|| format!("{} {:?}", name, v));
    o.step_h(hash(&(name, v.events())));
    for copied in [false, true] {
        match relay(&v, copied) {
            Err(m) => fail!("{} {:?} (copied: {}): {}", name, v, copied, m),
            Ok(Some(x)) if same(&x, &v) => {}
            Ok(x) => fail!("{} {:?} comes back as {:?} (copied: {})", name, v, x, copied),
        }
    }
    Ok(())
}

type Case26 = fn(&mut Ch, Scope, &mut Obs) -> Res;
macro_rules! cases26 { ($($t:ty),* $(,)?) => { &[$((stringify!($t), again26::<$t> as Case26)),*] }; }
const ALL26: &[(&str, Case26)] = mc_vals::std_types!(cases26);
const LONG26: &[(&str, Case26)] = mc_vals::std_types_long!(cases26);

/// Optionals of values which may themselves be null do not count.
fn ambiguous(name: &str) -> bool {
    let n: String = name.chars().filter(|c| !c.is_whitespace()).collect();
    n.contains("Option<Option<") || n.contains("Option<()>") || n.contains("Option<Box<Option<")
}

fn from_event<'a, X: Into<Event<'a>> + std::fmt::Debug>(x: X, want: Leaf, o: &mut Obs) -> Res {
    let t = format!("{:?}", x);
    let e: Event = x.into();
    o.step_h(hash(&want));
    ensure!(Ev::of(&e) == Ev::A(want.clone()), "{} converts to the event {:?}, expected {:?}", t, e, want);
    ensure!(Ev::of(&e.to_static()) == Ev::A(want.clone()), "copy of {:?} is {:?}", e, e.to_static());
    Ok(())
}

fn from_chunk<'a, X: Into<Chunk<'a>> + std::fmt::Debug>(x: X, want: Leaf) -> Res {
    let t = format!("{:?}", x);
    match x.into() {
        Chunk::Atom(a) if Leaf::of(&a) == want => Ok(()),
        Chunk::Atom(a) => fail!("{} converts to the chunk {:?}, expected {:?}", t, a, want),
        _ => fail!("{} converts to a container", t),
    }
}

pub fn c26(r: &mut Runner) {
    let std26: Vec<Case26> = ALL26.iter().filter(|x| !ambiguous(x.0)).map(|x| x.1).collect();
    let flat26: Vec<Case26> = ALL26.iter().filter(|x| !ambiguous(x.0) && !nested(x.0)).map(|x| x.1).collect();
    let s = r.b(Scope { w: 3, n: 4 }, Scope { w: 4, n: 5 });
    r.section(
        "flat values",
        &format!("{} standard types without nesting, all values with collections of <= {} elements and {} values per leaf, passed on directly and as copies", flat26.len(), s.n, s.w),
        |ch, o| flat26[ch.pick(flat26.len())](ch, s, o),
    );
    let s = r.b(Scope { w: 2, n: 2 }, Scope { w: 2, n: 3 });
    r.section(
        "values",
        &format!("{} standard types, all values with collections of <= {} elements and {} values per leaf, passed on directly and as copies", std26.len(), s.n, s.w),
        |ch, o| std26[ch.pick(std26.len())](ch, s, o),
    );
    r.section("leaves", "16 primitive types, all boundary values (powers of two and their neighbours, all float exponents, 12 characters in every block of 256, strings of <= 3 characters)", |ch, o| {
        std26[ch.pick(16)](ch, Scope { w: 0, n: 2 }, o)
    });
    r.section("tuples", "tuples of 6 to 12 booleans, all values", |ch, o| {
        LONG26[ch.pick(LONG26.len())].1(ch, Scope { w: 2, n: 2 }, o)
    });
    r.section("lengths", "byte vectors, vectors, sets, maps and strings of n elements for all n <= 400, and 4097, 65535..65537, 2^20 + 1", |ch, o| {
        let n = ch.pick(406);
        let n = if n <= 400 { n } else { [4097, 65535, 65536, 65537, (1 << 20) + 1][n - 401] };
        fn go<T: Model>(v: T, o: &mut Obs) -> Res {
            o.step_h(hash(&v.events()));
            for copied in [false, true] {
                match relay(&v, copied) {
                    Ok(Some(x)) if x == v => {}
                    x => fail!("{} {:?} comes back as {:?}", std::any::type_name::<T>(), v, x),
                }
            }
            Ok(())
        }
        match ch.pick(8) {
            0 => go((0..n).map(|x| (x * 7) as u8).collect::<Vec<u8>>(), o),
            1 => go((0..n).map(|x| x as i8).collect::<Vec<i8>>(), o),
            2 => go((0..n as u64).collect::<BTreeSet<u64>>(), o),
            3 => go((0..n as u64).collect::<HSet<u64>>(), o),
            4 => go((0..n).map(|x| (x.to_string(), vec![x as u8; x % 5])).collect::<BTreeMap<String, Vec<u8>>>(), o),
            5 => go((0..n).map(|x| (x as i32 - 200, Some(x as u8 as char))).collect::<HMap<i32, Option<char>>>(), o),
            6 => go("é\u{1f600}x".repeat(n), o),
            _ => go((0..n).map(|x| if x % 2 == 0 { None } else { Some(Box::new([x as u8; 3])) }).collect::<Vec<Option<Box<[u8; 3]>>>>(), o),
        }
    });
    r.section("every character", "strings of one character or of two (every character before and after each of 3 others), and characters; passed on directly, as copies and converted", |ch, o| {
        let b = ch.pick(0x1100) as u32;
        let d = ch.of(&["", "a", "\0", "\u{1f600}"]);
        for c in (b * 256..(b + 1) * 256).filter_map(char::from_u32) {
            for s in [format!("{}{}", d, c), format!("{}{}", c, d)] {
                o.step_h(hash(&s));
                let e = Event::Atom(Atom::Str(Cow::Borrowed(&s)));
                ensure!(Ev::of(&e.to_static()) == Ev::A(Leaf::s(&s)), "copy of {:?} is {:?}", e, e.to_static());
                for copied in [false, true] {
                    match relay(&s, copied) {
                        Ok(Some(x)) if x == s => {}
                        x => fail!("{:?} comes back as {:?}", s, x),
                    }
                }
            }
            if d.is_empty() {
                from_event(c, Leaf::Char(c), o)?;
                for copied in [false, true] {
                    match relay(&c, copied) {
                        Ok(Some(x)) if x == c => {}
                        x => fail!("{:?} comes back as {:?}", c, x),
                    }
                }
            }
        }
        Ok(())
    });
    r.section("every pair of bytes", "all byte strings of <= 2 bytes, and of 3 and 4 bytes that begin or end with each pair; passed on directly and as copies", |ch, o| {
        let a = ch.pick(256) as u8;
        let rest: &[u8] = ch.of(&[&[][..], &[0], &[255, 10]]);
        for b in 0..=256 {
            let pair = if b == 256 { vec![a] } else { vec![a, b as u8] };
            for x in [[&pair[..], rest].concat(), [rest, &pair[..]].concat()] {
                o.step_h(hash(&x));
                for copied in [false, true] {
                    match relay(&x, copied) {
                        Ok(Some(y)) if y == x => {}
                        y => fail!("{:?} comes back as {:?}", x, y),
                    }
                }
            }
        }
        Ok(())
    });
    let sc = Scope { w: 0, n: 3 };
    r.section("conversions", "the conversions of (), bool, char, u64, i64, usize, isize, f64, strings, bytes and atoms to events (and chunks where they exist), all boundary values", |ch, o| match ch.pick(14) {
        0 => {
            from_event((), Leaf::Null, o)?;
            from_chunk((), Leaf::Null)
        }
        1 => {
            let x = ch.flag();
            from_event(x, Leaf::Bool(x), o)?;
            from_chunk(x, Leaf::Bool(x))
        }
        2 => {
            let x = char::gen(ch, sc);
            from_event(x, Leaf::Char(x), o)?;
            from_chunk(x, Leaf::Char(x))
        }
        3 => {
            let x = u64::gen(ch, sc);
            from_event(x, Leaf::U64(x), o)?;
            from_chunk(x, Leaf::U64(x))
        }
        4 => {
            let x = i64::gen(ch, sc);
            from_event(x, Leaf::I64(x), o)?;
            from_chunk(x, Leaf::I64(x))
        }
        5 => {
            let x = usize::gen(ch, sc);
            from_event(x, Leaf::U64(x as u64), o)?;
            from_chunk(x, Leaf::U64(x as u64))
        }
        6 => {
            let x = isize::gen(ch, sc);
            from_event(x, Leaf::I64(x as i64), o)?;
            from_chunk(x, Leaf::I64(x as i64))
        }
        7 => {
            let x = f64::gen(ch, sc);
            from_event(x, Leaf::F64(x), o)?;
            from_chunk(x, Leaf::F64(x))
        }
        8 => {
            let x = ch.of(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE]);
            from_event(x, Leaf::F64(x), o)?;
            from_chunk(x, Leaf::F64(x))
        }
        9 => {
            let x = String::gen(ch, sc);
            from_event(x.as_str(), Leaf::s(&x), o)?;
            from_event(Cow::Borrowed(x.as_str()), Leaf::s(&x), o)?;
            from_event(Cow::<str>::Owned(x.clone()), Leaf::s(&x), o)?;
            from_event(x.clone(), Leaf::s(&x), o)?;
            from_chunk(x.as_str(), Leaf::s(&x))?;
            from_chunk(x.clone(), Leaf::s(&x))
        }
        10 => {
            let n = ch.pick(4);
            let x: Vec<u8> = (0..n).map(|_| ch.of(&[0, 1, 65, 127, 128, 255])).collect();
            from_event(&x[..], Leaf::Bytes(x.clone()), o)?;
            from_chunk(&x[..], Leaf::Bytes(x.clone()))
        }
        11 => {
            let c = [Event::MapStart, Event::MapEnd, Event::SeqStart, Event::SeqEnd];
            let e = &c[ch.pick(4)];
            ensure!(e.to_static() == *e, "copy of {:?} is {:?}", e, e.to_static());
            Ok(())
        }
        _ => {
            let l = match odd(ch) {
                Val::L(l) => l,
                _ => Leaf::Null,
            };
            ensure!(Leaf::of(&l.atom().to_static()) == l, "copy of {:?}", l);
            from_event(l.atom(), l.clone(), o)?;
            from_chunk(l.atom(), l.clone())
        }
    });
}
