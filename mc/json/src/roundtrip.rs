//! C04: typed round trips through JSON.
use deser::{Deserialize, Serialize};
use mc_core::{ensure, fail, Ch, Obs, Res, Runner};
use mc_vals::gen::{Gen, HMap, HSet, Scope};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

fn trip<T: Serialize + Deserialize + PartialEq + Debug>(v: &T, obs: &mut Obs) -> Res {
    let s = match deser_json::to_string(v) {
        Ok(s) => s,
        Err(e) => fail!("{:?} cannot be written: {}", v, e),
    };
    obs.step(&s);
    obs.sample(|| format!("{} {}", std::any::type_name::<T>(), s));
    match deser_json::from_str::<T>(&s) {
        Ok(w) => ensure!(
            w == *v,
            "{}: {:?} written as {} read back as {:?}",
            std::any::type_name::<T>(),
            v,
            s,
            w
        ),
        Err(e) => fail!(
            "{}: {:?} written as {} does not read back: {}",
            std::any::type_name::<T>(),
            v,
            s,
            e
        ),
    }
    Ok(())
}

type Case = fn(&mut Ch, Scope, &mut Obs) -> Res;

fn one<T: Gen + Serialize + Deserialize + PartialEq + Debug>(ch: &mut Ch, s: Scope, o: &mut Obs) -> Res {
    trip(&T::gen(ch, s), o)
}

macro_rules! table {
    ($($t:ty),* $(,)?) => { &[$((stringify!($t), one::<$t> as Case)),*] };
}

const WIDE: &[(&str, Case)] = table![
    bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, char, String, (),
    Option<u8>, Option<i64>, Option<f64>, Option<String>, Option<bool>, Option<char>,
    Box<u64>, Box<String>, Box<f64>, Option<Box<i64>>, Box<Option<u16>>, Box<Box<i8>>,
];

const NARROW: &[(&str, Case)] = table![
    Vec<u16>, Vec<i8>, Vec<bool>, Vec<char>, Vec<String>, Vec<f64>, Vec<f32>, Vec<()>,
    Vec<Vec<u32>>, Vec<Vec<Vec<bool>>>, Vec<Option<u32>>, Option<Vec<u32>>, Option<Vec<Option<i8>>>,
    [u16; 0], [u16; 1], [u16; 2], [bool; 3], [String; 2], [Vec<bool>; 2], [Option<i32>; 2], [[i8; 2]; 2],
    Vec<[u16; 2]>, Option<[char; 2]>, Box<[u32; 2]>, [Box<i64>; 2], [(bool, char); 2],
    (u8,), (u8, bool), (u8, i16, String), (bool, bool, bool, bool), (u8, u8, u8, u8, u8),
    (bool, bool, bool, bool, bool, bool), (bool, bool, bool, bool, bool, bool, bool),
    (bool, bool, bool, bool, bool, bool, bool, bool), (bool, bool, bool, bool, bool, bool, bool, bool, bool),
    (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool),
    (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool),
    (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, u8),
    (Vec<bool>, Vec<bool>), Vec<(u8, bool)>, Option<(u8, bool)>, ((u8, bool), (char, String)), (Option<u8>, Option<bool>),
    BTreeSet<u8>, BTreeSet<String>, BTreeSet<Vec<u16>>, BTreeSet<Option<i32>>, BTreeSet<(u8, bool)>, BTreeSet<Box<char>>,
    HSet<u8>, HSet<String>, HSet<Vec<i16>>, HSet<Option<bool>>, HSet<[u16; 2]>, Vec<BTreeSet<u8>>, Option<HSet<char>>,
    BTreeMap<String, u32>, BTreeMap<char, u32>, BTreeMap<String, Vec<bool>>, BTreeMap<String, Option<i8>>,
    BTreeMap<String, BTreeMap<String, bool>>, BTreeMap<char, (u8, bool)>, BTreeMap<Box<String>, Box<bool>>,
    BTreeMap<String, [u16; 2]>, BTreeMap<String, ()>,
    HMap<String, u32>, HMap<char, bool>, HMap<String, Vec<u16>>, HMap<String, HMap<char, bool>>, HMap<Box<char>, Option<u8>>,
    Option<BTreeMap<String, u8>>, Vec<BTreeMap<char, bool>>, Box<BTreeMap<String, u8>>, [BTreeMap<char, u8>; 2],
    (BTreeMap<char, u8>, Vec<bool>, Option<u8>), Option<Box<Vec<Option<Box<bool>>>>>, BTreeMap<String, Option<Vec<Option<u8>>>>,
    Vec<Option<(u16, Option<String>)>>, Option<BTreeSet<Option<u8>>>, Box<(Box<u8>, Box<Option<bool>>)>,
];

/// Sizes beyond 16 bits.
const BIG: &[usize] = &[4097, 65535, 65536, 65537, 100_000];

pub fn c04(r: &mut Runner) {
    r.section(
        "leaves",
        &format!("{} types: all integer boundaries +-2, all binary exponents x mantissas, characters of all blocks, strings of <= 3 characters over 12 classes", WIDE.len()),
        |ch, o| {
            let f = WIDE[ch.pick(WIDE.len())].1;
            f(ch, Scope { w: 0, n: 3 }, o)
        },
    );
    let s = r.b(Scope { w: 2, n: 3 }, Scope { w: 3, n: 4 });
    r.section(
        "containers",
        &format!("{} nested types, collections of <= {} elements, {} values per leaf", NARROW.len(), s.n, s.w),
        |ch, o| {
            let f = NARROW[ch.pick(NARROW.len())].1;
            f(ch, s, o)
        },
    );
    let max = r.b(300, 1100);
    r.section(
        "lengths",
        &format!("vectors, sets, maps and strings of every length up to {}, and 4097, 65535..65537, 100000", max),
        |ch, o| {
            let n = ch.pick(max + 6);
            let n = if n <= max { n } else { BIG[n - max - 1] };
            match ch.pick(6) {
                0 => trip(&(0..n as u32).collect::<Vec<_>>(), o),
                1 => trip(&(0..n as i32).map(|x| x - 7).collect::<BTreeSet<_>>(), o),
                2 => trip(&(0..n).map(|x| (x.to_string(), x % 2 == 0)).collect::<BTreeMap<_, _>>(), o),
                3 => trip(&(0..n).map(|x| (x.to_string(), vec![x as i64; x % 3])).collect::<HMap<_, _>>(), o),
                4 => trip(&"é\n".repeat(n), o),
                _ => trip(&(0..n).map(|x| if x % 3 == 0 { None } else { Some(vec![x as u64; x % 4]) }).collect::<Vec<_>>(), o),
            }
        },
    );
    let max = r.b(5, 6);
    r.section(
        "permutations",
        &format!("sequences, sets and maps of <= {} elements in every order (repetitions included)", max),
        |ch, o| {
            let n = ch.pick(max + 1);
            let v: Vec<u16> = (0..n).map(|_| ch.pick(n) as u16).collect();
            match ch.pick(5) {
                0 => trip(&v, o),
                1 => trip(&v.iter().map(|&x| x as u8 as char).collect::<HSet<_>>(), o),
                2 => trip(&v.iter().enumerate().map(|(i, &x)| (x as u8 as char, i)).collect::<HMap<_, _>>(), o),
                3 => trip(&v.iter().enumerate().map(|(i, &x)| (x.to_string(), vec![i; x as usize])).collect::<BTreeMap<_, _>>(), o),
                _ => trip(&v.iter().map(|&x| vec![Some(x), None]).collect::<BTreeSet<_>>(), o),
            }
        },
    );
    r.section(
        "long-strings",
        "strings with runs of 12 x 12 characters behind prefixes of 43 lengths up to 8193",
        |ch, o| {
            const C: &[char] = &['a', '"', '\\', '\n', '\u{1}', '\u{7f}', 'é', '\u{2028}', '\u{1f600}', '/', '\t', 'u'];
            let n = ch.of(crate::reader::LENGTHS);
            let (x, y) = (ch.of(C), ch.of(C));
            let s = format!("{}{}{}{}", "a".repeat(n), x, y, if ch.flag() { "" } else { "tail" });
            match ch.pick(3) {
                0 => trip(&s, o),
                1 => trip(&vec![s.clone(), String::new(), s], o),
                _ => trip(&[(s.clone(), s)].into_iter().collect::<BTreeMap<_, _>>(), o),
            }
        },
    );
    let max = r.b(300, 1100);
    r.section(
        "depths",
        &format!("recursive values nested up to {} deep (boxes, optionals, sequences, maps)", max),
        |ch, o| {
            let n = ch.pick(max + 1);
            let k = ch.pick(4);
            let mut t = Tree::Leaf;
            for i in 0..n {
                t = match if k == 3 { i % 3 } else { k } {
                    0 => Tree::Seq(vec![t, Tree::Leaf]),
                    1 => Tree::Map([("k".to_string(), t), (String::new(), Tree::Leaf)].into_iter().collect()),
                    _ => Tree::Seq(vec![Tree::Leaf, Tree::Map(BTreeMap::new()), t]),
                };
            }
            trip(&t, o)
        },
    );
}

/// A recursive value with hand written (de)serialization: null, sequence or map.
#[derive(PartialEq, Debug)]
enum Tree {
    Leaf,
    Seq(Vec<Tree>),
    Map(BTreeMap<String, Tree>),
}

impl Serialize for Tree {
    fn serialize(&self, st: &deser::ser::SerializerState) -> Result<deser::ser::Chunk<'_>, deser::Error> {
        match self {
            Tree::Leaf => Ok(deser::ser::Chunk::Atom(deser::Atom::Null)),
            Tree::Seq(v) => v.serialize(st),
            Tree::Map(v) => v.serialize(st),
        }
    }
}

impl Deserialize for Tree {
    fn deserialize_into(out: &mut Option<Self>) -> deser::de::SinkHandle<'_> {
        deser::de::SinkHandle::boxed(TreeSink { out, elem: None, key: None, seq: vec![], map: BTreeMap::new(), is_map: false })
    }
}

struct TreeSink<'a> {
    out: &'a mut Option<Tree>,
    elem: Option<Tree>,
    key: Option<String>,
    seq: Vec<Tree>,
    map: BTreeMap<String, Tree>,
    is_map: bool,
}

impl TreeSink<'_> {
    fn flush(&mut self) {
        if let Some(t) = self.elem.take() {
            match self.key.take() {
                Some(k) => {
                    self.map.insert(k, t);
                }
                None => self.seq.push(t),
            }
        }
    }
}

impl deser::de::Sink for TreeSink<'_> {
    fn atom(&mut self, _: deser::Atom, _: &deser::de::DeserializerState) -> Result<(), deser::Error> {
        *self.out = Some(Tree::Leaf);
        Ok(())
    }
    fn map(&mut self, _: &deser::de::DeserializerState) -> Result<(), deser::Error> {
        self.is_map = true;
        Ok(())
    }
    fn seq(&mut self, _: &deser::de::DeserializerState) -> Result<(), deser::Error> {
        Ok(())
    }
    fn next_key(&mut self, _: &deser::de::DeserializerState) -> Result<deser::de::SinkHandle<'_>, deser::Error> {
        self.flush();
        Ok(Deserialize::deserialize_into(&mut self.key))
    }
    fn next_value(&mut self, _: &deser::de::DeserializerState) -> Result<deser::de::SinkHandle<'_>, deser::Error> {
        if !self.is_map {
            self.flush();
        }
        Ok(Deserialize::deserialize_into(&mut self.elem))
    }
    fn finish(&mut self, _: &deser::de::DeserializerState) -> Result<(), deser::Error> {
        // also called for an atom
        if self.out.is_none() {
            self.flush();
            *self.out = Some(if self.is_map { Tree::Map(std::mem::take(&mut self.map)) } else { Tree::Seq(std::mem::take(&mut self.seq)) });
        }
        Ok(())
    }
}
