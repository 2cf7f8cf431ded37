//! Exhaustive generators of Rust values.
use mc_core::{Ch, Fx};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hash};

pub type Bh = BuildHasherDefault<Fx>;
pub type HMap<K, V> = HashMap<K, V, Bh>;
pub type HSet<T> = HashSet<T>;

/// `w` is the number of alternatives leaves have (0 = everything interesting),
/// `n` is the maximum length of collections.
#[derive(Clone, Copy)]
pub struct Scope {
    pub w: usize,
    pub n: usize,
}

impl Scope {
    pub fn inner(self) -> Scope {
        Scope {
            w: if self.w == 0 || self.w > 3 { 3 } else { self.w.min(2) },
            n: self.n.saturating_sub(1).max(1),
        }
    }
}

pub trait Gen: Sized {
    fn gen(ch: &mut Ch, s: Scope) -> Self;
}

fn pick<T: Clone>(ch: &mut Ch, s: Scope, xs: &[T]) -> T {
    let n = if s.w == 0 { xs.len() } else { s.w.min(xs.len()) };
    xs[ch.pick(n)].clone()
}

impl Gen for () {
    fn gen(_: &mut Ch, _: Scope) {}
}
impl Gen for bool {
    fn gen(ch: &mut Ch, _: Scope) -> bool {
        ch.flag()
    }
}

macro_rules! ints {
    ($($t:ty)*) => {$(
        impl Gen for $t {
            fn gen(ch: &mut Ch, s: Scope) -> $t {
                if s.w != 0 {
                    return pick(ch, s, &[0, <$t>::MAX, <$t>::MIN, 1, 7]);
                }
                // all powers of two and their neighbours, both signs
                let b = <$t>::BITS as usize;
                let one: i128 = 1;
                let v = (one << ch.pick(b + 1)) + ch.pick(5) as i128 - 2;
                let v = if ch.flag() { -v } else { v };
                <$t>::try_from(v).unwrap_or(42)
            }
        }
    )*};
}
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);

impl Gen for f64 {
    fn gen(ch: &mut Ch, s: Scope) -> f64 {
        if s.w != 0 {
            return pick(ch, s, &[0.0, -1.5, 1e300, 0.1, 3.0]);
        }
        match ch.pick(2) {
            0 => {
                let m: u64 = ch.of(&[
                    0, 1, 2, 0xfffffffffffff, 0x8000000000000, 0x5555555555555, 0xaaaaaaaaaaaaa,
                    0x123456789abcd, 0x999999999999a, 0x3333333333333, 0x4000000000000, 0x921fb54442d18,
                ]);
                let f = f64::from_bits((ch.pick(2047) as u64) << 52 | m);
                if ch.flag() { -f } else { f }
            }
            _ => {
                let e = ch.pick(634) as i32 - 325;
                let f: f64 = format!("1e{}", e).parse().unwrap();
                f64::from_bits((f.to_bits() as i64 + ch.pick(3) as i64 - 1).max(0) as u64)
            }
        }
    }
}

impl Gen for f32 {
    fn gen(ch: &mut Ch, s: Scope) -> f32 {
        if s.w != 0 {
            return pick(ch, s, &[0.0, -1.5, 0.1, 1e30, 3.0]);
        }
        let m: u32 = ch.of(&[0, 1, 2, 0x7fffff, 0x400000, 0x555555, 0x2aaaaa, 0x4ccccd, 0x19999a, 0x490fdb]);
        let f = f32::from_bits((ch.pick(255) as u32) << 23 | m);
        if ch.flag() { -f } else { f }
    }
}

impl Gen for char {
    fn gen(ch: &mut Ch, s: Scope) -> char {
        if s.w != 0 {
            return pick(ch, s, &['a', '"', '\u{1f600}', '\0', '\\']);
        }
        loop {
            let c = ch.pick(0x1100) as u32 * 256 + ch.of(&[0, 1, 8, 9, 10, 13, 0x1f, 0x22, 0x5c, 0x7f, 0x80, 0xff]);
            return char::from_u32(c).unwrap_or('x');
        }
    }
}

impl Gen for String {
    fn gen(ch: &mut Ch, s: Scope) -> String {
        if s.w != 0 {
            return pick(ch, s, &["", "a\"\\\n\u{1f600}", "key", "\u{0}", "1"]).to_string();
        }
        let n = ch.pick(4);
        (0..n)
            .map(|_| ch.of(&['a', '"', '\\', '\n', '\u{1}', '\u{7f}', 'é', '\u{2028}', '\u{1f600}', '/', '\t', 'u']))
            .collect()
    }
}

impl<T: Gen> Gen for Option<T> {
    fn gen(ch: &mut Ch, s: Scope) -> Option<T> {
        if ch.flag() {
            Some(T::gen(ch, s))
        } else {
            None
        }
    }
}

impl<T: Gen> Gen for Box<T> {
    fn gen(ch: &mut Ch, s: Scope) -> Box<T> {
        Box::new(T::gen(ch, s))
    }
}

impl<T: Gen> Gen for Vec<T> {
    fn gen(ch: &mut Ch, s: Scope) -> Vec<T> {
        let n = ch.pick(s.n + 1);
        (0..n).map(|_| T::gen(ch, s.inner())).collect()
    }
}

impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen(ch: &mut Ch, s: Scope) -> [T; N] {
        std::array::from_fn(|_| T::gen(ch, s.inner()))
    }
}

impl<T: Gen + Ord> Gen for BTreeSet<T> {
    fn gen(ch: &mut Ch, s: Scope) -> BTreeSet<T> {
        let n = ch.pick(s.n + 1);
        (0..n).map(|_| T::gen(ch, s.inner())).collect()
    }
}

impl<T: Gen + Eq + Hash> Gen for HSet<T> {
    fn gen(ch: &mut Ch, s: Scope) -> HSet<T> {
        let n = ch.pick(s.n + 1);
        (0..n).map(|_| T::gen(ch, s.inner())).collect()
    }
}

impl<K: Gen + Ord, V: Gen> Gen for BTreeMap<K, V> {
    fn gen(ch: &mut Ch, s: Scope) -> BTreeMap<K, V> {
        let n = ch.pick(s.n + 1);
        (0..n).map(|_| (K::gen(ch, s.inner()), V::gen(ch, s.inner()))).collect()
    }
}

impl<K: Gen + Eq + Hash, V: Gen> Gen for HMap<K, V> {
    fn gen(ch: &mut Ch, s: Scope) -> HMap<K, V> {
        let n = ch.pick(s.n + 1);
        (0..n).map(|_| (K::gen(ch, s.inner()), V::gen(ch, s.inner()))).collect()
    }
}

macro_rules! tuples {
    ($($n:ident)+) => {
        impl<$($n: Gen),+> Gen for ($($n,)+) {
            fn gen(ch: &mut Ch, s: Scope) -> Self {
                let s = s.inner();
                ($($n::gen(ch, s),)+)
            }
        }
    };
}
tuples!(A);
tuples!(A B);
tuples!(A B C);
tuples!(A B C D);
tuples!(A B C D E);
tuples!(A B C D E F);
tuples!(A B C D E F G);
tuples!(A B C D E F G H);
tuples!(A B C D E F G H I);
tuples!(A B C D E F G H I J);
tuples!(A B C D E F G H I J K);
tuples!(A B C D E F G H I J K L);
