//! C21: debug rendering.
use deser::ser::{Chunk, MapEmitter, SeqEmitter, Serialize, SerializeHandle, SerializerState, StructEmitter};
use deser::{Descriptor, Error};
use deser_debug::ToDebug;
use mc_core::{ensure, fail, guard, hash, Ch, Obs, Res, Runner};
use mc_vals::gen::{HMap, HSet, Scope};
use mc_vals::model::{Model, Shape};
use mc_vals::{dtree, track};
use mc_vals::{Ev, Leaf};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Debug, Write};

/// The data with the standard library's rendering.
enum M {
    L(Leaf),
    S(Option<String>, Vec<M>),
    M(Option<String>, Vec<(M, M)>),
}

impl Debug for M {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            M::L(Leaf::Null) => Debug::fmt(&(), f),
            M::L(Leaf::Bool(x)) => Debug::fmt(x, f),
            M::L(Leaf::Str(x)) => Debug::fmt(x, f),
            M::L(Leaf::Bytes(x)) => {
                f.write_str("b\"")?;
                for b in x {
                    write!(f, "\\x{:02x}", b)?;
                }
                f.write_str("\"")
            }
            M::L(Leaf::Char(x)) => Debug::fmt(x, f),
            M::L(Leaf::U64(x)) => Debug::fmt(x, f),
            M::L(Leaf::I64(x)) => Debug::fmt(x, f),
            M::L(Leaf::F64(x)) => Debug::fmt(x, f),
            M::S(name, xs) => {
                if let Some(n) = name {
                    if n != "Vec" && n != "slice" {
                        write!(f, "{} ", n)?;
                    }
                }
                f.debug_list().entries(xs).finish()
            }
            M::M(name, xs) => {
                if let Some(n) = name {
                    write!(f, "{} ", n)?;
                }
                f.debug_map().entries(xs.iter().map(|x| (&x.0, &x.1))).finish()
            }
        }
    }
}

/// Writes every byte string literal as hexadecimal escapes, whatever it was
/// written as.
fn normal(s: &str) -> Result<String, String> {
    let b = s.as_bytes();
    let mut out = String::with_capacity(s.len());
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'b' if b.get(i + 1) == Some(&b'"') => {
                out.push_str("b\"");
                i += 2;
                loop {
                    let c = *b.get(i).ok_or("unterminated byte string")?;
                    i += 1;
                    let v = match c {
                        b'"' => break,
                        b'\\' => {
                            let e = *b.get(i).ok_or("unterminated escape")?;
                            i += 1;
                            match e {
                                b'n' => b'\n',
                                b'r' => b'\r',
                                b't' => b'\t',
                                b'0' => 0,
                                b'\\' | b'"' | b'\'' => e,
                                b'x' => {
                                    let h = s.get(i..i + 2).filter(|h| h.bytes().all(|x| x.is_ascii_hexdigit())).ok_or("bad hexadecimal escape")?;
                                    i += 2;
                                    u8::from_str_radix(h, 16).map_err(|_| "bad hexadecimal escape")?
                                }
                                x => return Err(format!("escape of {:#x} in a byte string", x)),
                            }
                        }
                        // a literal cannot hold these as they are
                        b'\r' | 0x80..=0xff => return Err(format!("{:#x} in a byte string", c)),
                        c => c,
                    };
                    write!(out, "\\x{:02x}", v).unwrap();
                }
                out.push('"');
            }
            q @ (b'"' | b'\'') => {
                let start = i;
                i += 1;
                loop {
                    match b.get(i) {
                        None => return Err("unterminated literal".into()),
                        Some(b'\\') => i += 2,
                        Some(&c) => {
                            i += 1;
                            if c == q {
                                break;
                            }
                        }
                    }
                }
                out.push_str(s.get(start..i).ok_or("bad literal")?);
            }
            _ => {
                let n = s[i..].chars().next().unwrap().len_utf8();
                out.push_str(&s[i..i + n]);
                i += n;
            }
        }
    }
    Ok(out)
}

struct In<'a>(&'a dyn Debug);
impl Debug for In<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("In").field("x", self.0).finish()
    }
}

fn same(v: &dyn Serialize, m: &M, nested: bool, o: &mut Obs) -> Res {
    let r = guard(|| {
        let d = ToDebug::new(v);
        let mut x = vec![format!("{}", d), format!("{:?}", d), format!("{:#}", d), format!("{:#?}", d), format!("{:?}", d)];
        if nested {
            x.push(format!("{:?}", In(&d)));
            x.push(format!("{:#?}", In(&d)));
        }
        x
    });
    let got = match r {
        Ok(x) => x,
        Err(e) => fail!("{:?}: panic {}", m, e),
    };
    let (c, p) = (format!("{:?}", m), format!("{:#?}", m));
    let mut want = vec![c.clone(), c.clone(), p.clone(), p, c.clone()];
    if nested {
        want.push(format!("{:?}", In(m)));
        want.push(format!("{:#?}", In(m)));
    }
    o.step_h(hash(&c));
    o.sample(|| c.clone());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        let n = match normal(g) {
            Ok(n) => n,
            Err(e) => fail!("{} instead of {} (form {}): {}", g, w, i, e),
        };
        ensure!(n == *w, "{} instead of {} (form {})", g, w, i);
    }
    Ok(())
}

/// Plain vectors and slices of a type whose data look like the type itself.
fn plain<T: Serialize + Debug + Clone>(ch: &mut Ch, vals: &[T], o: &mut Obs) -> Res {
    let n = ch.pick(4);
    let v: Vec<T> = (0..n).map(|_| vals[ch.pick(vals.len())].clone()).collect();
    let s = &v[..];
    let (d, want): (_, &dyn Debug) = match ch.pick(6) {
        0 => (ToDebug::new(&v), &v),
        1 => (ToDebug::new(&s), &v),
        2 => (ToDebug::new(&&s), &v),
        3 => (ToDebug::new(&Box::new(s)), &v),
        4 => (ToDebug::new(&vec![s, s]), &vec![s, s]),
        _ => (ToDebug::new(&&[s, s][..]), &[s, s]),
    };
    let (got, want) = ([format!("{:?}", d), format!("{:#}", d)], [format!("{:?}", want), format!("{:#?}", want)]);
    o.step_h(hash(&want));
    ensure!(got == want, "{:?} instead of {:?}", got, want);
    o.sample(|| want[0].clone());
    Ok(())
}

/// Takes so many pieces and fails then.
struct Broken {
    left: usize,
    got: String,
    late: bool,
}
impl Write for Broken {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left == 0 {
            self.late = true;
            return Err(fmt::Error);
        }
        self.left -= 1;
        self.got.push_str(s);
        Ok(())
    }
}

/// A writer failing at every piece in turn.
fn failing(v: &dyn Serialize, ch: &mut Ch, o: &mut Obs) -> Res {
    let d = match guard(|| ToDebug::new(v)) {
        Ok(d) => d,
        Err(e) => fail!("panic {}", e),
    };
    let form = ch.pick(5);
    let put = |left: usize| {
        let mut w = Broken { left, got: String::new(), late: false };
        let r = guard(|| match form {
            0 => write!(w, "{}", d),
            1 => write!(w, "{:?}", d),
            2 => write!(w, "{:#}", d),
            3 => write!(w, "{:#?}", d),
            _ => write!(w, "{:#?}", In(&d)),
        });
        (w.left, w.late, w.got, r)
    };
    let (left, _, all, _) = put(1 << 20);
    for k in 0..(1 << 20) - left {
        let (_, late, got, r) = put(k);
        o.step_h(hash(&(&got, k)));
        match r {
            Err(e) => fail!("{}: writing fails after {:?}: panic {}", all, got, e),
            Ok(Ok(())) => fail!("{}: writing fails after {:?}, but no error is reported", all, got),
            Ok(Err(_)) => {}
        }
        ensure!(late, "{}: an error is reported after {:?} without a reason", all, got);
        ensure!(all.starts_with(&got), "{}: wrote {:?}", all, got);
    }
    let (_, _, got, r) = put((1 << 20) - left);
    ensure!(matches!(r, Ok(Ok(()))) && got == all, "{}: wrote {:?}, {:?}", all, got, r);
    o.sample(|| all);
    Ok(())
}

// ------------------------------------------------------------ user values

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Seq,
    Map,
    Struct,
}

enum U {
    L(Leaf, Option<&'static str>),
    C(Kind, Option<&'static str>, Vec<(U, U)>),
}

struct Desc(Option<&'static str>);
impl Descriptor for Desc {
    fn name(&self) -> Option<&str> {
        self.0
    }
}
static DESCS: [Desc; 6] = [Desc(None), Desc(Some("Name")), Desc(Some("a::B<u8>")), Desc(Some("x")), Desc(Some("set")), Desc(Some("Vector"))];
fn desc(n: Option<&'static str>) -> &'static dyn Descriptor {
    DESCS.iter().find(|d| d.0 == n).unwrap()
}

struct It<'a>(std::slice::Iter<'a, (U, U)>, Option<&'a U>);
impl SeqEmitter for It<'_> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        Ok(self.0.next().map(|x| SerializeHandle::to(&x.1)))
    }
}
impl MapEmitter for It<'_> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        Ok(self.0.next().map(|x| {
            self.1 = Some(&x.1);
            SerializeHandle::to(&x.0)
        }))
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle<'_>, Error> {
        Ok(SerializeHandle::to(self.1.take().unwrap()))
    }
}
impl StructEmitter for It<'_> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error> {
        Ok(self.0.next().map(|x| match &x.0 {
            U::L(Leaf::Str(s), _) => (Cow::Borrowed(&s[..]), SerializeHandle::to(&x.1)),
            _ => unreachable!(),
        }))
    }
}
impl Serialize for U {
    fn descriptor(&self) -> &dyn Descriptor {
        match self {
            U::L(_, n) | U::C(_, n, _) => desc(*n),
        }
    }
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        Ok(match self {
            U::L(l, _) => Chunk::Atom(l.atom()),
            U::C(Kind::Seq, _, xs) => Chunk::Seq(Box::new(It(xs.iter(), None))),
            U::C(Kind::Map, _, xs) => Chunk::Map(Box::new(It(xs.iter(), None))),
            U::C(Kind::Struct, _, xs) => Chunk::Struct(Box::new(It(xs.iter(), None))),
        })
    }
}
impl U {
    fn mirror(&self) -> M {
        match self {
            U::L(l, _) => M::L(l.clone()),
            U::C(Kind::Seq, n, xs) => M::S(n.map(|x| x.into()), xs.iter().map(|x| x.1.mirror()).collect()),
            U::C(_, n, xs) => M::M(n.map(|x| x.into()), xs.iter().map(|x| (x.0.mirror(), x.1.mirror())).collect()),
        }
    }
}

fn leaf_u(ch: &mut Ch, leaf: fn(&mut Ch) -> Leaf) -> U {
    let l = leaf(ch);
    // names of atoms are not shown
    U::L(l, Some("x"))
}

fn u_tree(ch: &mut Ch, budget: &mut usize, depth: usize, leaf: fn(&mut Ch) -> Leaf, names: &[Option<&'static str>]) -> U {
    match ch.pick(if depth == 0 { 1 } else { 4 }) {
        0 => leaf_u(ch, leaf),
        k => {
            let kind = [Kind::Seq, Kind::Map, Kind::Struct][k - 1];
            let n = ch.of(names);
            let mut xs = vec![];
            while *budget > 0 && ch.flag() {
                *budget -= 1;
                let key = match kind {
                    Kind::Map => {
                        let k = u_tree(ch, budget, depth - 1, leaf, names);
                        *budget = budget.saturating_sub(1);
                        k
                    }
                    _ => U::L(Leaf::Str(["k", "", "é\n"][xs.len() % 3].into()), None),
                };
                xs.push((key, u_tree(ch, budget, depth - 1, leaf, names)));
            }
            U::C(kind, n, xs)
        }
    }
}

fn some_leaf(ch: &mut Ch) -> Leaf {
    ch.of(&[Leaf::Null, Leaf::s("a, \"b"), Leaf::Bytes(vec![0, b'"', 200]), Leaf::I64(-7)])
}
fn two_leaves(ch: &mut Ch) -> Leaf {
    ch.of(&[Leaf::Null, Leaf::Bytes(vec![b']', b'"'])])
}
fn one_leaf(_: &mut Ch) -> Leaf {
    Leaf::F64(1.0)
}

// --------------------------------------------------------- standard types

fn mirror(s: &Shape) -> M {
    fn go(s: &Shape, i: &mut usize) -> M {
        let (e, d) = &s[*i];
        *i += 1;
        match e {
            Ev::A(l) => M::L(l.clone()),
            Ev::Ss => {
                let mut v = vec![];
                while s[*i].0 != Ev::Se {
                    v.push(go(s, i));
                }
                *i += 1;
                M::S(d.name.clone(), v)
            }
            _ => {
                let mut v = vec![];
                while s[*i].0 != Ev::Me {
                    let k = go(s, i);
                    v.push((k, go(s, i)));
                }
                *i += 1;
                M::M(d.name.clone(), v)
            }
        }
    }
    go(s, &mut 0)
}

fn typed<T: Model>(ch: &mut Ch, s: Scope, o: &mut Obs) -> Res {
    let v = T::gen(ch, s);
    let mut sh = vec![];
    v.shape(&mut sh);
    same(&v, &mirror(&sh), false, o)
}
type Typed = fn(&mut Ch, Scope, &mut Obs) -> Res;
macro_rules! typed_cases { ($($t:ty),* $(,)?) => { &[$(typed::<$t> as Typed),*] }; }
const TYPED: &[Typed] = mc_vals::std_types!(typed_cases);

/// Puts a leaf in all positions.
fn placed(ch: &mut Ch, l: Leaf) -> U {
    let l = U::L(l, None);
    let z = || U::L(Leaf::U64(0), None);
    match ch.pick(4) {
        0 => l,
        1 => U::C(Kind::Seq, None, vec![(z(), l), (z(), z())]),
        2 => U::C(Kind::Map, Some("Name"), vec![(l, z())]),
        _ => U::C(Kind::Struct, None, vec![(U::L(Leaf::s("b"), None), l)]),
    }
}

fn bytes_class() -> Vec<u8> {
    let mut v = b"\0\x01\n\r\t\x0b\x1b\x1f !\"'/0127x\\abnrtAZ[]{},:~\x7f".to_vec();
    v.extend([0x80, 0xa0, 0xc3, 0xff]);
    v
}

pub fn c21(r: &mut Runner) {
    let n = r.b(4, 5);
    r.section(
        "trees",
        &format!("all trees of <= {} nested values (containers as keys included), nesting <= 3; lists, maps and structs with and without a name, 2 leaves; compact, pretty and inside another value", n),
        |ch, o| {
            let mut b = n;
            let u = u_tree(ch, &mut b, 3, two_leaves, &[None, Some("Name")]);
            same(&u, &u.mirror(), true, o)
        },
    );
    let n = r.b(6, 7);
    r.section("shapes", &format!("all trees of <= {} nested unnamed values, nesting <= 4, 1 leaf", n), |ch, o| {
        let mut b = n;
        let u = u_tree(ch, &mut b, 4, one_leaf, &[None]);
        same(&u, &u.mirror(), false, o)
    });
    let n = r.b(2, 3);
    r.section("names", &format!("all trees of <= {} nested values, 6 names, 4 leaves", n), |ch, o| {
        let mut b = n;
        let u = u_tree(ch, &mut b, 2, some_leaf, &[None, Some("Name"), Some("a::B<u8>"), Some("x"), Some("set"), Some("Vector")]);
        same(&u, &u.mirror(), true, o)
    });
    let cs: Vec<char> = ('\0'..=char::MAX).collect();
    let n = r.b(3, 4);
    r.section("plain lists", "vectors and slices of <= 3 values of 12 types, alone, behind references and boxes and in each other", |ch, o| match ch.pick(12) {
        0 => plain(ch, &[0u16, 7], o),
        1 => plain(ch, &[0i8, -7], o),
        2 => plain(ch, &[0u32, 7], o),
        3 => plain(ch, &[0i64, i64::MIN], o),
        4 => plain(ch, &[true, false], o),
        5 => plain(ch, &['a', '\n'], o),
        6 => plain(ch, &[0.5f32, -2.0], o),
        7 => plain(ch, &[0.5f64, -1e30], o),
        8 => plain(ch, &["", "a\n"], o),
        9 => plain(ch, &[String::new(), "a".into()], o),
        10 => plain(ch, &[(), ()], o),
        _ => plain(ch, &[vec![], vec![1u16, 2]], o),
    });
    r.section("failing writer", &format!("all trees of <= {} nested values (containers as keys included), 5 leaves, named and not, compact, pretty and inside another value; the writer fails at every piece", n), |ch, o| {
        let mut b = n;
        let u = u_tree(ch, &mut b, 3, some_leaf, &[None, Some("Name")]);
        failing(&u, ch, o)
    });
    r.section("chars", "every character, alone and as a string, at the top and in a list, map or struct", |ch, o| {
        let c = cs[ch.pick(cs.len())];
        let l = if ch.flag() { Leaf::Char(c) } else { Leaf::Str(c.into()) };
        let u = placed(ch, l);
        same(&u, &u.mirror(), false, o)
    });
    let bc = bytes_class();
    let n = r.b(2, 3);
    r.section("bytes", &format!("all 256 single bytes, all strings of <= {} out of {} bytes, as bytes and as characters of a string", n, bc.len()), |ch, o| {
        let v: Vec<u8> = match ch.pick(2) {
            0 => vec![ch.pick(256) as u8],
            _ => {
                let k = ch.pick(n + 1);
                (0..k).map(|_| ch.of(&bc)).collect()
            }
        };
        let l = if ch.flag() { Leaf::Bytes(v) } else { Leaf::Str(v.iter().map(|x| *x as char).collect()) };
        let u = placed(ch, l);
        same(&u, &u.mirror(), false, o)
    });
    let mut nums = vec![Leaf::Null, Leaf::Bool(true), Leaf::Bool(false)];
    for i in 0..64 {
        for d in [-1i128, 0, 1] {
            let x = (1i128 << i) + d;
            if let Ok(x) = u64::try_from(x) {
                nums.push(Leaf::U64(x));
            }
            for x in [x, -x] {
                if let Ok(x) = i64::try_from(x) {
                    nums.push(Leaf::I64(x));
                }
            }
        }
    }
    nums.extend([u64::MAX].map(Leaf::U64));
    nums.extend([i64::MIN, i64::MAX].map(Leaf::I64));
    for x in [0.0, -0.0, 1.0, 0.1, 0.1f32 as f64, 1e15, 1e16, 1e17, 1e-4, 1e-5, 1e-7, 1e300, 123456.789, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::EPSILON, 9007199254740993.0] {
        nums.push(Leaf::F64(x));
        nums.push(Leaf::F64(-x));
    }
    r.section("numbers", &format!("{} boundary numbers, null and booleans in 4 positions", nums.len()), |ch, o| {
        let l = ch.of(&nums);
        let u = placed(ch, l);
        same(&u, &u.mirror(), true, o)
    });
    let s = Scope { w: 2, n: r.b(2, 3) };
    r.section("standard types", &format!("{} standard types, all values with <= {} elements per collection", TYPED.len(), s.n), |ch, o| {
        TYPED[ch.pick(TYPED.len())](ch, s, o)
    });
    r.section("deep", "nesting patterns of period <= 3 over lists, map values, map keys and structs, named and not, with and without siblings, depths 1..5, 20, 60", |ch, o| {
        let p: Vec<usize> = (0..1 + ch.pick(3)).map(|_| ch.pick(4)).collect();
        let d = ch.of(&[1, 2, 3, 4, 5, 20, 60]);
        let name = ch.of(&[None, Some("Name")]);
        let (pre, post) = (ch.flag(), ch.flag());
        let z = |s: &str| U::L(Leaf::s(s), None);
        let mut u = z("x");
        for i in (0..d).rev() {
            let kind = [Kind::Seq, Kind::Map, Kind::Map, Kind::Struct][p[i % p.len()]];
            let mut xs = vec![];
            if pre {
                xs.push((z("a"), z("b")));
            }
            xs.push(if p[i % p.len()] == 2 { (u, z("v")) } else { (z("k"), u) });
            if post {
                xs.push((z("c"), z("d")));
            }
            u = U::C(kind, name, xs);
        }
        same(&u, &u.mirror(), false, o)
    });
    r.section("wide", "lists, maps and structs of n members for n <= 40, 127..129, 300, 1000, 4097, 65537", |ch, o| {
        let kind = ch.of(&[Kind::Seq, Kind::Map, Kind::Struct]);
        let n = ch.pick(48);
        let n = if n <= 40 { n } else { [127, 128, 129, 300, 1000, 4097, 65537][n - 41] };
        let u = U::C(kind, Some("Name"), (0..n).map(|i| (U::L(Leaf::Str(format!("k{}", i)), None), U::L(Leaf::U64(i as u64), None))).collect());
        same(&u, &u.mirror(), false, o)
    });
    let derived = |n: &dtree::Node, o: &mut Obs| -> Res {
        let sh: Shape = n.expect().into_iter().map(|x| (x.ev, x.d)).collect();
        track::reset(&[]);
        let v = n.build();
        same(&v, &mirror(&sh), false, o)?;
        match track::badness() {
            Some(b) => fail!("{}: {}", n.show(), b),
            None => Ok(()),
        }
    };
    let n = r.b(4, 5);
    r.section("derived", &format!("all trees of <= {} nested values built from 28 shapes of derived structs (flattened and skipped fields), newtypes, standard containers and instrumented ones", n), |ch, o| {
        let mut b = n;
        let mut d = dtree::dtree(ch, &mut b, n, true);
        d.number();
        d.gives(1, 1);
        derived(&d, o)
    });
    r.section("derived deep", "8 derived shapes in patterns of period <= 3, depths 1, 2, 20, 60", |ch, o| {
        let n = 1 + ch.pick(3);
        let p: Vec<usize> = (0..n).map(|_| ch.pick(8)).collect();
        let mut d = dtree::dladder(&p, ch.of(&[1, 2, 20, 60]));
        d.gives(1, 1);
        derived(&d, o)
    });
}
