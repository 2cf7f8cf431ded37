//! Independent reference semantics of the standard types: which events a value
//! stands for, and which value (or error) a type makes of a value tree.
use crate::gen::{Gen, HMap, HSet};
use crate::{Ev, Leaf, Val};
use deser::de::Deserialize;
use deser::ser::Serialize;
use deser::{Descriptor, ErrorKind};
use mc_core::Ch;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;

/// What is visible of a descriptor.
#[derive(Clone, Debug, PartialEq, Hash)]
pub struct D {
    pub name: Option<String>,
    pub precision: Option<usize>,
    pub unordered: bool,
}

impl D {
    pub fn of(d: &dyn Descriptor) -> D {
        D {
            name: d.name().map(|x| x.to_string()),
            precision: d.precision(),
            unordered: d.unordered(),
        }
    }
}

pub type Errs = Vec<ErrorKind>;
pub type Shape = Vec<(Ev, D)>;

fn wrong<T>(e: &mut Errs, k: ErrorKind) -> Option<T> {
    e.push(k);
    None
}

const UNEXPECTED: ErrorKind = ErrorKind::Unexpected;

/// Values no type below is happy with in every position.
pub fn odd(ch: &mut Ch) -> Val {
    let s = |x: &str| Val::L(Leaf::s(x));
    match ch.pick(19) {
        0 => Val::L(Leaf::Null),
        1 => Val::L(Leaf::Bool(true)),
        2 => s("a"),
        3 => s("ab"),
        4 => s(""),
        5 => Val::L(Leaf::Char('x')),
        6 => Val::L(Leaf::U64(1)),
        7 => Val::L(Leaf::I64(1)),
        8 => Val::L(Leaf::I64(-1)),
        9 => Val::L(Leaf::U64(u64::MAX)),
        10 => Val::L(Leaf::F64(1.0)),
        11 => Val::L(Leaf::Bytes(vec![])),
        12 => Val::L(Leaf::Bytes(vec![1, 2])),
        13 => Val::Seq(vec![]),
        14 => Val::Seq(vec![Val::L(Leaf::U64(1))]),
        15 => Val::Seq(vec![Val::L(Leaf::U64(1)), Val::L(Leaf::U64(2))]),
        16 => Val::Map(vec![]),
        17 => Val::Map(vec![(s("a"), Val::L(Leaf::U64(1)))]),
        _ => Val::Map(vec![(Val::L(Leaf::U64(1)), Val::Seq(vec![]))]),
    }
}

pub trait Model: Gen + Serialize + Deserialize + PartialEq + Debug + 'static {
    fn shape(&self, out: &mut Shape);
    fn interp(v: &Val, e: &mut Errs) -> Option<Self>;
    /// A value tree for the type, with at most `odds` misfits.
    fn tree(ch: &mut Ch, n: usize, odds: &mut usize) -> Val {
        if *odds > 0 && ch.flag() {
            *odds -= 1;
            return odd(ch);
        }
        Self::good(ch, n, odds)
    }
    fn good(ch: &mut Ch, n: usize, odds: &mut usize) -> Val;
    fn byte(_: &[Self]) -> Option<Vec<u8>> {
        None
    }
    fn unbyte(_: &[u8]) -> Option<Vec<Self>> {
        None
    }
    fn d(&self) -> D {
        D::of(self.descriptor())
    }
    fn events(&self) -> Vec<Ev> {
        let mut o = vec![];
        self.shape(&mut o);
        o.into_iter().map(|x| x.0).collect()
    }
}

impl Model for () {
    fn shape(&self, out: &mut Shape) {
        out.push((Ev::A(Leaf::Null), self.d()))
    }
    fn interp(v: &Val, e: &mut Errs) -> Option<()> {
        match v {
            Val::L(Leaf::Null) => Some(()),
            _ => wrong(e, UNEXPECTED),
        }
    }
    fn good(_: &mut Ch, _: usize, _: &mut usize) -> Val {
        Val::L(Leaf::Null)
    }
}

impl Model for bool {
    fn shape(&self, out: &mut Shape) {
        out.push((Ev::A(Leaf::Bool(*self)), self.d()))
    }
    fn interp(v: &Val, e: &mut Errs) -> Option<bool> {
        match v {
            Val::L(Leaf::Bool(x)) => Some(*x),
            _ => wrong(e, UNEXPECTED),
        }
    }
    fn good(ch: &mut Ch, _: usize, _: &mut usize) -> Val {
        Val::L(Leaf::Bool(ch.flag()))
    }
}

macro_rules! ints {
    ($leaf:ident $as:ty: $($t:ty)*) => {$(
        impl Model for $t {
            fn shape(&self, out: &mut Shape) {
                out.push((Ev::A(Leaf::$leaf(*self as $as)), self.d()))
            }
            fn interp(v: &Val, e: &mut Errs) -> Option<$t> {
                let n = match v {
                    Val::L(Leaf::U64(x)) => *x as i128,
                    Val::L(Leaf::I64(x)) => *x as i128,
                    _ => return wrong(e, UNEXPECTED),
                };
                if n < <$t>::MIN as i128 || n > <$t>::MAX as i128 {
                    return wrong(e, ErrorKind::OutOfRange);
                }
                Some(n as $t)
            }
            fn good(ch: &mut Ch, _: usize, _: &mut usize) -> Val {
                match ch.pick(4) {
                    0 => Val::L(Leaf::U64(1)),
                    1 => Val::L(Leaf::I64(2)),
                    2 => Val::L(Leaf::U64(<$t>::MAX as u64)),
                    _ => Val::L(Leaf::U64(0)),
                }
            }
        }
    )*};
}
ints!(U64 u64: u16 u32 u64 usize);
ints!(I64 i64: i8 i16 i32 i64 isize);

impl Model for u8 {
    fn shape(&self, out: &mut Shape) {
        out.push((Ev::A(Leaf::U64(*self as u64)), self.d()))
    }
    fn interp(v: &Val, e: &mut Errs) -> Option<u8> {
        match v {
            Val::L(Leaf::U64(x)) if *x < 256 => Some(*x as u8),
            Val::L(Leaf::I64(x)) if *x >= 0 && *x < 256 => Some(*x as u8),
            Val::L(Leaf::U64(_)) | Val::L(Leaf::I64(_)) => wrong(e, ErrorKind::OutOfRange),
            _ => wrong(e, UNEXPECTED),
        }
    }
    fn good(ch: &mut Ch, _: usize, _: &mut usize) -> Val {
        match ch.pick(3) {
            0 => Val::L(Leaf::U64(1)),
            1 => Val::L(Leaf::I64(2)),
            _ => Val::L(Leaf::U64(255)),
        }
    }
    fn byte(x: &[u8]) -> Option<Vec<u8>> {
        Some(x.to_vec())
    }
    fn unbyte(x: &[u8]) -> Option<Vec<u8>> {
        Some(x.to_vec())
    }
}

/// The nearest float with `mant` explicit mantissa bits (ties to even).
pub fn round_int(n: i128, mant: u32) -> f64 {
    let neg = n < 0;
    let m = n.unsigned_abs();
    let bits = 128 - m.leading_zeros();
    let r = if bits <= mant + 1 {
        m
    } else {
        let drop = bits - mant - 1;
        let low = m & ((1 << drop) - 1);
        let half = 1u128 << (drop - 1);
        let mut k = m >> drop;
        if low > half || (low == half && k & 1 == 1) {
            k += 1;
        }
        k << drop
    };
    // exactly representable by construction: assemble from halves
    let f = (r >> 64) as u64 as f64 * 18446744073709551616.0 + (r as u64) as f64;
    if neg {
        -f
    } else {
        f
    }
}

/// Nearest single (ties to even), computed on the bits.
pub fn round_double(x: f64) -> f32 {
    let b = x.to_bits();
    let sign = ((b >> 63) as u32) << 31;
    let exp = ((b >> 52) & 0x7ff) as i32;
    let frac = b & ((1 << 52) - 1);
    if exp == 0x7ff {
        return if frac == 0 {
            f32::from_bits(sign | 0x7f80_0000)
        } else {
            f32::NAN
        };
    }
    if exp == 0 {
        return f32::from_bits(sign);
    }
    let m = frac | 1 << 52;
    let mut e = exp - 1023 + 127;
    let mut drop = 29;
    if e <= 0 {
        drop += 1 - e;
        e = 0;
    }
    if drop > 60 {
        return f32::from_bits(sign);
    }
    let low = m & ((1u64 << drop) - 1);
    let half = 1u64 << (drop - 1);
    let mut k = m >> drop;
    if low > half || (low == half && k & 1 == 1) {
        k += 1;
    }
    // for normals the hidden bit carries into the exponent
    let base = if e > 0 { ((e - 1) as u64) << 23 } else { 0 };
    let r = base + k;
    if r >= 0x7f80_0000 {
        f32::from_bits(sign | 0x7f80_0000)
    } else {
        f32::from_bits(sign | r as u32)
    }
}

impl Model for f64 {
    fn shape(&self, out: &mut Shape) {
        out.push((Ev::A(Leaf::F64(*self)), self.d()))
    }
    fn interp(v: &Val, e: &mut Errs) -> Option<f64> {
        match v {
            Val::L(Leaf::U64(x)) => Some(round_int(*x as i128, 52)),
            Val::L(Leaf::I64(x)) => Some(round_int(*x as i128, 52)),
            Val::L(Leaf::F64(x)) => Some(*x),
            _ => wrong(e, UNEXPECTED),
        }
    }
    fn good(ch: &mut Ch, _: usize, _: &mut usize) -> Val {
        match ch.pick(3) {
            0 => Val::L(Leaf::F64(1.5)),
            1 => Val::L(Leaf::I64(-2)),
            _ => Val::L(Leaf::U64(u64::MAX)),
        }
    }
}

impl Model for f32 {
    fn shape(&self, out: &mut Shape) {
        out.push((Ev::A(Leaf::F64(*self as f64)), self.d()))
    }
    fn interp(v: &Val, e: &mut Errs) -> Option<f32> {
        match v {
            Val::L(Leaf::U64(x)) => Some(round_int(*x as i128, 23) as f32),
            Val::L(Leaf::I64(x)) => Some(round_int(*x as i128, 23) as f32),
            Val::L(Leaf::F64(x)) => Some(round_double(*x)),
            _ => wrong(e, UNEXPECTED),
        }
    }
    fn good(ch: &mut Ch, _: usize, _: &mut usize) -> Val {
        match ch.pick(3) {
            0 => Val::L(Leaf::F64(0.1)),
            1 => Val::L(Leaf::I64(-16777217)),
            _ => Val::L(Leaf::U64(u64::MAX)),
        }
    }
}

impl Model for char {
    fn shape(&self, out: &mut Shape) {
        out.push((Ev::A(Leaf::Char(*self)), self.d()))
    }
    fn interp(v: &Val, e: &mut Errs) -> Option<char> {
        match v {
            Val::L(Leaf::Char(x)) => Some(*x),
            Val::L(Leaf::Str(s)) if s.chars().count() == 1 => s.chars().next(),
            _ => wrong(e, UNEXPECTED),
        }
    }
    fn good(ch: &mut Ch, _: usize, _: &mut usize) -> Val {
        match ch.pick(3) {
            0 => Val::L(Leaf::Char('b')),
            1 => Val::L(Leaf::s("é")),
            _ => Val::L(Leaf::s("b")),
        }
    }
}

impl Model for String {
    fn shape(&self, out: &mut Shape) {
        out.push((Ev::A(Leaf::Str(self.clone())), self.d()))
    }
    fn interp(v: &Val, e: &mut Errs) -> Option<String> {
        match v {
            Val::L(Leaf::Str(s)) => Some(s.clone()),
            _ => wrong(e, UNEXPECTED),
        }
    }
    fn good(ch: &mut Ch, _: usize, _: &mut usize) -> Val {
        Val::L(Leaf::s(ch.of(&["k", "", "l"])))
    }
}

impl<T: Model> Model for Option<T> {
    fn shape(&self, out: &mut Shape) {
        match self {
            None => out.push((Ev::A(Leaf::Null), self.d())),
            Some(x) => {
                let at = out.len();
                x.shape(out);
                out[at].1 = self.d();
                out.last_mut().unwrap().1 = self.d();
            }
        }
    }
    fn interp(v: &Val, e: &mut Errs) -> Option<Option<T>> {
        match v {
            Val::L(Leaf::Null) => Some(None),
            v => T::interp(v, e).map(Some),
        }
    }
    fn good(ch: &mut Ch, n: usize, odds: &mut usize) -> Val {
        if ch.flag() {
            Val::L(Leaf::Null)
        } else {
            T::tree(ch, n, odds)
        }
    }
}

impl<T: Model> Model for Box<T> {
    fn shape(&self, out: &mut Shape) {
        let at = out.len();
        (**self).shape(out);
        out[at].1 = self.d();
        out.last_mut().unwrap().1 = self.d();
    }
    fn interp(v: &Val, e: &mut Errs) -> Option<Box<T>> {
        T::interp(v, e).map(Box::new)
    }
    fn good(ch: &mut Ch, n: usize, odds: &mut usize) -> Val {
        T::good(ch, n, odds)
    }
}

fn list_shape<'a, T: Model>(d: D, xs: impl Iterator<Item = &'a T>, out: &mut Shape) {
    out.push((Ev::Ss, d.clone()));
    for x in xs {
        x.shape(out);
    }
    out.push((Ev::Se, d));
}

fn list<T: Model>(v: &Val, e: &mut Errs) -> Option<Vec<T>> {
    match v {
        Val::Seq(xs) => {
            // later elements are looked at even if an earlier one is wrong
            let r: Vec<Option<T>> = xs.iter().map(|x| T::interp(x, e)).collect();
            r.into_iter().collect()
        }
        _ => wrong(e, UNEXPECTED),
    }
}

fn list_tree<T: Model>(ch: &mut Ch, n: usize, odds: &mut usize) -> Val {
    let k = ch.pick(n + 1);
    Val::Seq((0..k).map(|_| T::tree(ch, less(n), odds)).collect())
}

fn less(n: usize) -> usize {
    n.saturating_sub(1).max(1)
}

impl<T: Model> Model for Vec<T> {
    fn shape(&self, out: &mut Shape) {
        match T::byte(self) {
            Some(b) => out.push((Ev::A(Leaf::Bytes(b)), self.d())),
            None => list_shape(self.d(), self.iter(), out),
        }
    }
    fn interp(v: &Val, e: &mut Errs) -> Option<Vec<T>> {
        if let Val::L(Leaf::Bytes(b)) = v {
            return T::unbyte(b).or_else(|| wrong(e, UNEXPECTED));
        }
        list(v, e)
    }
    fn good(ch: &mut Ch, n: usize, odds: &mut usize) -> Val {
        if T::unbyte(&[]).is_some() && ch.flag() {
            return Val::L(Leaf::Bytes(ch.of(&[vec![], vec![7], vec![0, 255, 128]])));
        }
        list_tree::<T>(ch, n, odds)
    }
}

impl<T: Model, const N: usize> Model for [T; N] {
    fn shape(&self, out: &mut Shape) {
        match T::byte(self) {
            Some(b) => out.push((Ev::A(Leaf::Bytes(b)), self.d())),
            None => list_shape(self.d(), self.iter(), out),
        }
    }
    fn interp(v: &Val, e: &mut Errs) -> Option<[T; N]> {
        let r = match v {
            Val::L(Leaf::Bytes(b)) => match T::unbyte(b) {
                Some(x) => Some(x),
                None => return wrong(e, UNEXPECTED),
            },
            v => {
                if let Val::Seq(xs) = v {
                    if xs.len() != N {
                        e.push(ErrorKind::WrongLength);
                    }
                }
                list(v, e)
            }
        };
        match r?.try_into() {
            Ok(x) => Some(x),
            Err(_) => wrong(e, ErrorKind::WrongLength),
        }
    }
    fn good(ch: &mut Ch, n: usize, odds: &mut usize) -> Val {
        // a wrong length is a misfit
        let mut k = N;
        if *odds > 0 && ch.flag() {
            *odds -= 1;
            k = ch.pick(N + 2);
        }
        if T::unbyte(&[]).is_some() && ch.flag() {
            return Val::L(Leaf::Bytes((0..k).map(|x| (x * 100 % 256) as u8).collect()));
        }
        Val::Seq((0..k).map(|_| T::tree(ch, less(n), odds)).collect())
    }
}

impl<T: Model + Ord> Model for BTreeSet<T> {
    fn shape(&self, out: &mut Shape) {
        list_shape(self.d(), self.iter(), out)
    }
    fn interp(v: &Val, e: &mut Errs) -> Option<BTreeSet<T>> {
        Some(list(v, e)?.into_iter().collect())
    }
    fn good(ch: &mut Ch, n: usize, odds: &mut usize) -> Val {
        list_tree::<T>(ch, n, odds)
    }
}

impl<T: Model + Eq + Hash> Model for HSet<T> {
    fn shape(&self, out: &mut Shape) {
        list_shape(self.d(), self.iter(), out)
    }
    fn interp(v: &Val, e: &mut Errs) -> Option<HSet<T>> {
        Some(list(v, e)?.into_iter().collect())
    }
    fn good(ch: &mut Ch, n: usize, odds: &mut usize) -> Val {
        list_tree::<T>(ch, n, odds)
    }
}

fn pairs<K: Model, V: Model>(v: &Val, e: &mut Errs) -> Option<Vec<(K, V)>> {
    match v {
        Val::Map(xs) => {
            let r: Vec<Option<(K, V)>> = xs
                .iter()
                .map(|(k, x)| {
                    let k = K::interp(k, e);
                    let x = V::interp(x, e);
                    Some((k?, x?))
                })
                .collect();
            r.into_iter().collect()
        }
        _ => wrong(e, UNEXPECTED),
    }
}

fn map_tree<K: Model, V: Model>(ch: &mut Ch, n: usize, odds: &mut usize) -> Val {
    let k = ch.pick(n + 1);
    Val::Map(
        (0..k)
            .map(|_| {
                let k = K::tree(ch, 1, odds);
                (k, V::tree(ch, less(n), odds))
            })
            .collect(),
    )
}

impl<K: Model + Ord, V: Model> Model for BTreeMap<K, V> {
    fn shape(&self, out: &mut Shape) {
        out.push((Ev::Ms, self.d()));
        for (k, v) in self {
            k.shape(out);
            v.shape(out);
        }
        out.push((Ev::Me, self.d()));
    }
    fn interp(v: &Val, e: &mut Errs) -> Option<BTreeMap<K, V>> {
        Some(pairs(v, e)?.into_iter().collect())
    }
    fn good(ch: &mut Ch, n: usize, odds: &mut usize) -> Val {
        map_tree::<K, V>(ch, n, odds)
    }
}

impl<K: Model + Eq + Hash, V: Model> Model for HMap<K, V> {
    fn shape(&self, out: &mut Shape) {
        out.push((Ev::Ms, self.d()));
        for (k, v) in self {
            k.shape(out);
            v.shape(out);
        }
        out.push((Ev::Me, self.d()));
    }
    fn interp(v: &Val, e: &mut Errs) -> Option<HMap<K, V>> {
        Some(pairs(v, e)?.into_iter().collect())
    }
    fn good(ch: &mut Ch, n: usize, odds: &mut usize) -> Val {
        map_tree::<K, V>(ch, n, odds)
    }
}

macro_rules! tuples {
    ($len:expr; $($n:ident $i:tt)+) => {
        impl<$($n: Model),+> Model for ($($n,)+) {
            fn shape(&self, out: &mut Shape) {
                out.push((Ev::Ss, self.d()));
                $(self.$i.shape(out);)+
                out.push((Ev::Se, self.d()));
            }
            #[allow(non_snake_case)]
            fn interp(v: &Val, e: &mut Errs) -> Option<($($n,)+)> {
                let xs = match v {
                    Val::Seq(xs) => xs,
                    _ => return wrong(e, UNEXPECTED),
                };
                if xs.len() != $len {
                    e.push(ErrorKind::WrongLength);
                }
                $(let $n = xs.get($i).and_then(|x| $n::interp(x, e));)+
                if xs.len() != $len {
                    return None;
                }
                Some(($($n?,)+))
            }
            fn good(ch: &mut Ch, n: usize, odds: &mut usize) -> Val {
                // a wrong length is a misfit; long tuples: only the lengths next to the right one
                let mut k = $len;
                if *odds > 0 && ch.flag() {
                    *odds -= 1;
                    k = if $len <= 3 { ch.pick($len + 2) } else { $len - 1 + ch.pick(3) };
                }
                let mut v = vec![$($n::tree(ch, less(n), odds)),+];
                while v.len() > k {
                    v.pop();
                }
                while v.len() < k {
                    v.push(odd(ch));
                }
                Val::Seq(v)
            }
        }
    };
}
tuples!(1; A 0);
tuples!(2; A 0 B 1);
tuples!(3; A 0 B 1 C 2);
tuples!(4; A 0 B 1 C 2 D 3);
tuples!(5; A 0 B 1 C 2 D 3 E 4);
tuples!(6; A 0 B 1 C 2 D 3 E 4 F 5);
tuples!(7; A 0 B 1 C 2 D 3 E 4 F 5 G 6);
tuples!(8; A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7);
tuples!(9; A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8);
tuples!(10; A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9);
tuples!(11; A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10);
tuples!(12; A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7 I 8 J 9 K 10 L 11);

/// Passes all types of the menu to a macro.
#[macro_export]
macro_rules! std_types {
    ($m:ident) => { $m! {
        (), bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, char, String,
        Option<()>, Option<bool>, Option<u8>, Option<i64>, Option<f32>, Option<String>, Option<char>, Option<Option<u16>>,
        Box<()>, Box<u16>, Box<String>, Box<Box<i8>>, Option<Box<u32>>, Box<Option<u16>>, Box<Option<Box<bool>>>,
        Vec<()>, Vec<bool>, Vec<u8>, Vec<i8>, Vec<u16>, Vec<u64>, Vec<f64>, Vec<char>, Vec<String>,
        Vec<Vec<u8>>, Vec<Vec<u16>>, Vec<Vec<Vec<bool>>>, Vec<Option<u8>>, Option<Vec<u8>>, Option<Vec<u16>>, Box<Vec<u8>>, Vec<Box<u8>>, Vec<Option<Vec<u8>>>,
        [u8; 0], [u8; 1], [u8; 3], [i8; 2], [u16; 0], [u16; 1], [u16; 2], [bool; 3], [String; 2], [Vec<bool>; 2], [Vec<u8>; 2], [[u8; 2]; 2], [Option<u8>; 2], [Option<i32>; 2], [[i8; 2]; 2], [Box<u8>; 2], [(); 2],
        Vec<[u8; 2]>, Vec<[u16; 2]>, Option<[u8; 2]>, Option<[char; 2]>, Box<[u8; 2]>, Box<[u32; 2]>, [(bool, char); 2], Option<Box<[String; 1]>>,
        (u8,), (u8, bool), (u8, i16, String), (bool, bool, bool, bool), (u8, u8, u8, u8, u8), (Vec<u8>, [u8; 2]),
        (Vec<bool>, Vec<bool>), Vec<(u8, bool)>, Option<(u8, bool)>, ((u8, bool), (char, String)), (Option<u8>, Option<bool>), Box<(u8, Box<u8>)>,
        BTreeSet<u8>, BTreeSet<()>, BTreeSet<String>, BTreeSet<Vec<u8>>, BTreeSet<Vec<u16>>, BTreeSet<Option<i32>>, BTreeSet<(u8, bool)>, BTreeSet<Box<char>>, BTreeSet<BTreeSet<u8>>,
        HSet<u8>, HSet<String>, HSet<Vec<u8>>, HSet<Vec<i16>>, HSet<Option<bool>>, HSet<[u16; 2]>, Vec<BTreeSet<u8>>, Option<HSet<char>>, Box<HSet<bool>>,
        BTreeMap<String, u32>, BTreeMap<u32, String>, BTreeMap<bool, Vec<u8>>, BTreeMap<Vec<u8>, u8>, BTreeMap<Option<u8>, Option<u8>>, BTreeMap<(u8, bool), char>,
        BTreeMap<String, Vec<bool>>, BTreeMap<BTreeMap<u8, bool>, BTreeMap<u8, bool>>, BTreeMap<char, (u8, bool)>, BTreeMap<Box<i16>, Box<bool>>, BTreeMap<[u8; 2], [u8; 2]>, BTreeMap<(), ()>, BTreeMap<Vec<u16>, Vec<u16>>,
        HMap<String, u32>, HMap<char, bool>, HMap<u8, Vec<u16>>, HMap<String, HMap<char, bool>>, HMap<Box<char>, Option<u8>>, HMap<Vec<u8>, Vec<u8>>, HMap<(u8, u8), bool>, HMap<Option<bool>, i8>,
        Option<BTreeMap<String, u8>>, Option<HMap<u8, u8>>, Vec<BTreeMap<char, bool>>, Vec<HMap<u8, bool>>, Box<BTreeMap<String, u8>>, Box<HMap<u8, u8>>, [BTreeMap<char, u8>; 2],
        (BTreeMap<char, u8>, Vec<bool>, Option<u8>), Option<Box<Vec<Option<Box<bool>>>>>, BTreeMap<String, Option<Vec<Option<u8>>>>, Vec<Option<(u16, Option<String>)>>,
    } };
}

/// Types with too many components for full nesting.
#[macro_export]
macro_rules! std_types_long {
    ($m:ident) => { $m! {
        (bool, bool, bool, bool, bool, bool), (bool, bool, bool, bool, bool, bool, bool), (bool, bool, bool, bool, bool, bool, bool, bool),
        (bool, bool, bool, bool, bool, bool, bool, bool, bool), (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool),
        (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool), (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool),
    } };
}
