//! Targets with derived implementations, and ones that look into their slots.
use crate::ide::{go, DStyle, ExpDe, Tr, ROOT};
use crate::track::{call, Op};
use crate::{Leaf, Val};
use deser::de::{DeserializerState, Sink, SinkHandle};
use deser::{Atom, Deserialize, Error, ErrorKind};

// ------------------------------------------------------------ derived types

#[derive(Deserialize)]
pub struct P2 {
    pub a: Tr,
    pub b: Tr,
}
#[derive(Deserialize)]
pub struct PO {
    pub a: Option<Tr>,
    pub b: Vec<Tr>,
}
#[derive(Deserialize)]
#[deser(rename = "Aliased")]
pub struct PA {
    #[deser(alias = "b", alias = "c")]
    pub a: Tr,
}
#[derive(Deserialize)]
pub struct FI {
    pub a: Tr,
}
#[derive(Deserialize)]
pub struct FJ {
    pub b: Option<Tr>,
}
#[derive(Deserialize)]
pub struct PF {
    #[deser(flatten)]
    pub p: FI,
    #[deser(flatten)]
    pub q: FJ,
    pub c: Tr,
}
#[derive(Deserialize)]
pub struct FC {
    #[deser(flatten)]
    pub f: FI,
    pub c: Option<P2>,
}
#[derive(Deserialize)]
pub struct PN {
    pub b: P2,
    #[deser(flatten)]
    pub f: FC,
}
#[derive(Deserialize)]
pub struct PB {
    pub a: Box<Tr>,
    #[deser(flatten)]
    pub f: Box<FJ>,
}
#[derive(Deserialize)]
#[deser(default)]
pub struct PD {
    pub a: Tr,
    pub b: Option<Tr>,
}
impl Default for PD {
    fn default() -> PD {
        PD { a: Tr::new(77), b: Some(Tr::new(78)) }
    }
}
fn made() -> Tr {
    Tr::new(79)
}
#[derive(Deserialize)]
pub struct PM {
    #[deser(default = "made")]
    pub a: Tr,
    #[deser(rename = "c")]
    pub b: NT,
}
#[derive(Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub struct NT(pub Tr);
#[derive(Deserialize)]
pub struct NP(pub P2);
#[derive(Deserialize)]
pub struct NF(pub PF);
#[derive(Deserialize)]
pub struct NO(pub Option<Tr>);
#[derive(Deserialize)]
pub struct G<T> {
    pub a: T,
    #[deser(flatten)]
    pub f: FJ,
}

/// What a type accepts.
#[derive(Clone, Debug)]
pub enum K {
    Any,
    Opt(Box<K>),
    List(Box<K>),
    /// name, members with their names and whether they must be there
    Rec(&'static str, Vec<(Vec<&'static str>, K, bool)>),
}

pub trait Shape: Deserialize {
    fn kind() -> K;
}

macro_rules! rec {
    ($t:ty, $name:expr, $($m:tt)*) => {
        impl Shape for $t {
            fn kind() -> K {
                let mut v = vec![];
                rec!(@ v, $($m)*);
                K::Rec($name, v)
            }
        }
    };
    (@ $v:ident,) => {};
    (@ $v:ident, flat $t:ty; $($m:tt)*) => {
        match <$t as Shape>::kind() {
            K::Rec(_, m) => $v.extend(m),
            _ => unreachable!(),
        }
        rec!(@ $v, $($m)*);
    };
    (@ $v:ident, opt $($n:literal)+ : $t:ty; $($m:tt)*) => {
        $v.push((vec![$($n),+], <$t as Shape>::kind(), false));
        rec!(@ $v, $($m)*);
    };
    (@ $v:ident, $($n:literal)+ : $t:ty; $($m:tt)*) => {
        $v.push((vec![$($n),+], <$t as Shape>::kind(), true));
        rec!(@ $v, $($m)*);
    };
}

rec!(P2, "P2", "a": Tr; "b": Tr;);
rec!(PO, "PO", opt "a": Option<Tr>; "b": Vec<Tr>;);
rec!(PA, "Aliased", "a" "b" "c": Tr;);
rec!(FI, "FI", "a": Tr;);
rec!(FJ, "FJ", opt "b": Option<Tr>;);
rec!(PF, "PF", flat FI; flat FJ; "c": Tr;);
rec!(FC, "FC", flat FI; opt "c": Option<P2>;);
rec!(PN, "PN", "b": P2; flat FC;);
rec!(PB, "PB", "a": Box<Tr>; flat Box<FJ>;);
rec!(PD, "PD", opt "a": Tr; opt "b": Option<Tr>;);
rec!(PM, "PM", opt "a": Tr; "c": NT;);
rec!(G<Tr>, "G", "a": Tr; flat FJ;);
rec!(G<PF>, "G", "a": PF; flat FJ;);
rec!(G<Option<Box<P2>>>, "G", opt "a": Option<Box<P2>>; flat FJ;);

macro_rules! same {
    ($($t:ty => $of:ty),*) => { $(impl Shape for $t { fn kind() -> K { <$of as Shape>::kind() } })* };
}
same!(NT => Tr, NP => P2, NF => PF, NO => Option<Tr>);
impl Shape for Tr {
    fn kind() -> K {
        K::Any
    }
}
impl<T: Shape> Shape for Option<T> {
    fn kind() -> K {
        K::Opt(Box::new(T::kind()))
    }
}
impl<T: Shape> Shape for Vec<T> {
    fn kind() -> K {
        K::List(Box::new(T::kind()))
    }
}
impl<T: Shape> Shape for Box<T> {
    fn kind() -> K {
        T::kind()
    }
}

/// A name that is not checked.
pub const ANY_NAME: &str = "*";

/// What has to happen when the value is sent to a sink of this kind; an error
/// ends it.
pub fn expect(k: &K, v: &Val, depth: usize, outer: Option<&str>, e: &mut ExpDe) -> Result<(), ErrorKind> {
    let own = |x: &str| Some(x.to_string());
    match (k, v) {
        (K::Any, _) => go(v, DStyle::Owned, ROOT, depth, outer, &[], e),
        (K::Opt(_), Val::L(Leaf::Null)) => e.after.push((e.calls.len(), depth, outer.map(|x| x.to_string()))),
        (K::Opt(k), _) => return expect(k, v, depth, outer, e),
        (K::List(k), Val::Seq(xs)) => {
            e.after.push((e.calls.len(), depth + 1, own(ANY_NAME)));
            for x in xs {
                expect(k, x, depth + 1, Some(ANY_NAME), e)?;
            }
            e.after.push((e.calls.len(), depth, outer.map(|x| x.to_string())));
        }
        (K::Rec(name, ms), Val::Map(xs)) => {
            e.after.push((e.calls.len(), depth + 1, own(name)));
            let mut sent = vec![false; ms.len()];
            for (key, x) in xs {
                let key = match key {
                    Val::L(Leaf::Str(k)) => k,
                    _ => return Err(ErrorKind::Unexpected),
                };
                e.after.push((e.calls.len(), depth + 1, own(name)));
                match ms.iter().position(|m| m.0.contains(&key.as_str())) {
                    Some(i) => {
                        sent[i] = true;
                        expect(&ms[i].1, x, depth + 1, Some(name), e)?;
                    }
                    None => go(x, DStyle::Null, ROOT, depth + 1, Some(name), &[], e),
                }
            }
            if sent.iter().zip(ms).any(|(s, m)| !s && m.2) {
                return Err(ErrorKind::MissingField);
            }
            e.after.push((e.calls.len(), depth, outer.map(|x| x.to_string())));
        }
        _ => return Err(ErrorKind::Unexpected),
    }
    Ok(())
}

// ------------------------------------------- targets that look at their slot

/// A value whose sink uses its slot until it is dropped. 0: looks at it, 1:
/// replaces what is in it, 2: puts a value into it at the start and works on
/// that one.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct Look<const M: usize>(pub Tr);

impl<const M: usize> std::hash::Hash for Look<M> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}

enum At<'a, const M: usize> {
    Slot(&'a mut Option<Look<M>>),
    Place(&'a mut Look<M>),
}

struct LSink<'a, const M: usize> {
    at: At<'a, M>,
    kid: Option<Look<M>>,
}

impl<'a, const M: usize> LSink<'a, M> {
    fn look(&mut self) {
        match self.at {
            At::Slot(ref s) => {
                if let Some(x) = s.as_ref() {
                    x.0.check()
                }
            }
            At::Place(ref p) => p.0.check(),
        }
        if let Some(x) = &self.kid {
            x.0.check()
        }
    }
    fn put(&mut self, x: u64) {
        match self.at {
            At::Slot(ref mut s) => **s = Some(Look(Tr::new(x))),
            At::Place(ref mut p) => p.0 = Tr::new(x),
        }
    }
}

impl<'a, const M: usize> Drop for LSink<'a, M> {
    fn drop(&mut self) {
        self.look();
        match self.at {
            At::Slot(ref mut s) => {
                if M == 1 {
                    if let Some(x) = s.take() {
                        **s = Some(Look(Tr::new(x.0.val)));
                    }
                }
            }
            At::Place(ref mut p) => p.0 = Tr::new(p.0.val),
        }
    }
}

impl<const M: usize> Deserialize for Look<M> {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        let at = if M == 2 {
            At::Place(out.insert(Look(Tr::new(1000))))
        } else {
            At::Slot(out)
        };
        SinkHandle::boxed(LSink { at, kid: None })
    }
}

impl<'a, const M: usize> Sink for LSink<'a, M> {
    fn atom(&mut self, atom: Atom, _: &DeserializerState) -> Result<(), Error> {
        self.look();
        call(Op::Atom, 1)?;
        self.put(match atom {
            Atom::U64(x) => x,
            _ => 0,
        });
        Ok(())
    }
    fn map(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.look();
        self.put(500);
        call(Op::Map, 1)
    }
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.look();
        self.put(501);
        call(Op::Seq, 1)
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.look();
        call(Op::KeySink, 1)?;
        self.kid = None;
        Ok(Deserialize::deserialize_into(&mut self.kid))
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.look();
        call(Op::ValueSink, 1)?;
        self.kid = None;
        Ok(Deserialize::deserialize_into(&mut self.kid))
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.look();
        call(Op::Done, 1)
    }
}

#[derive(Deserialize)]
pub struct NL<const M: usize>(pub Look<M>);
#[derive(Deserialize)]
pub struct NOL<const M: usize>(pub Option<Look<M>>);
#[derive(Deserialize)]
pub struct LF<const M: usize> {
    pub b: Option<Look<M>>,
}
#[derive(Deserialize)]
pub struct LS<const M: usize> {
    pub a: Box<Option<Look<M>>>,
    #[deser(flatten)]
    pub f: LF<M>,
}

// ------------------------------------------------------------------ streams

/// All values for a kind with at most `n` members and elements in all; keys
/// are the known names and an unknown one.
pub fn gen_val(ch: &mut mc_core::Ch, k: &K, n: &mut usize, depth: usize) -> Val {
    match k {
        K::Any => crate::ide::de_tree(ch, n, depth, &mut |ch| if ch.flag() { Leaf::Null } else { Leaf::U64(1) }),
        K::Opt(k) => {
            if ch.flag() {
                Val::L(Leaf::Null)
            } else {
                gen_val(ch, k, n, depth)
            }
        }
        K::List(k) => {
            let mut v = vec![];
            while *n > 0 && ch.flag() {
                *n -= 1;
                v.push(gen_val(ch, k, n, depth.saturating_sub(1)));
            }
            Val::Seq(v)
        }
        K::Rec(_, ms) => {
            let mut names: Vec<(&str, usize)> = vec![];
            for (i, m) in ms.iter().enumerate() {
                names.extend(m.0.iter().map(|x| (*x, i)));
            }
            let mut v = vec![];
            while *n > 0 && ch.flag() {
                *n -= 1;
                let c = ch.pick(names.len() + 1);
                let (name, x) = match names.get(c) {
                    Some((name, i)) => (*name, gen_val(ch, &ms[*i].1, n, depth.saturating_sub(1))),
                    None => ("zz", gen_val(ch, &K::Any, n, depth.saturating_sub(1))),
                };
                v.push((Val::L(Leaf::s(name)), x));
            }
            Val::Map(v)
        }
    }
}

/// A complete value for a kind: every member once, in rotated order.
pub fn full_val(k: &K, turn: usize, leaf: &dyn Fn() -> Val) -> Val {
    match k {
        K::Any => leaf(),
        K::Opt(k) => full_val(k, turn, leaf),
        K::List(k) => Val::Seq(vec![full_val(k, turn, leaf), full_val(k, turn + 1, leaf)]),
        K::Rec(_, ms) => Val::Map(
            (0..ms.len())
                .map(|i| {
                    let m = &ms[(i + turn) % ms.len()];
                    (Val::L(Leaf::s(m.0[turn % m.0.len()])), full_val(&m.1, turn / 2, leaf))
                })
                .collect(),
        ),
    }
}
