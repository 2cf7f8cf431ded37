//! Values, event logs and the JSON reference model shared by the harnesses.
use deser::de::{Deserialize, DeserializerState, Sink, SinkHandle};
use deser::ser::{
    Chunk, MapEmitter, SeqEmitter, Serialize, SerializeDriver, SerializeHandle, SerializerState,
    StructEmitter,
};
use deser::{Atom, Error, Event};
use std::borrow::Cow;
use std::cell::RefCell;
use std::hash::{Hash, Hasher};

pub mod direct;
pub mod dtree;
pub mod dty;
pub mod gen;
pub mod ide;
pub mod iser;
pub mod json;
pub mod judge;
pub mod model;
pub mod track;

// ----------------------------------------------------------------- leaves

/// An atom with value semantics. Floats compare numerically, except that NaN
/// equals NaN.
#[derive(Clone, Debug)]
pub enum Leaf {
    Null,
    Bool(bool),
    Str(String),
    Bytes(Vec<u8>),
    Char(char),
    U64(u64),
    I64(i64),
    F64(f64),
}

impl PartialEq for Leaf {
    fn eq(&self, o: &Leaf) -> bool {
        use Leaf::*;
        match (self, o) {
            (Null, Null) => true,
            (Bool(a), Bool(b)) => a == b,
            (Str(a), Str(b)) => a == b,
            (Bytes(a), Bytes(b)) => a == b,
            (Char(a), Char(b)) => a == b,
            (U64(a), U64(b)) => a == b,
            (I64(a), I64(b)) => a == b,
            (F64(a), F64(b)) => a == b || (a.is_nan() && b.is_nan()),
            _ => false,
        }
    }
}

impl Hash for Leaf {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self {
            Leaf::Null => h.write_u64(1),
            Leaf::Bool(x) => h.write_u64(2 + *x as u64),
            Leaf::Str(x) => {
                h.write_u64(4);
                x.hash(h)
            }
            Leaf::Bytes(x) => {
                h.write_u64(5);
                x.hash(h)
            }
            Leaf::Char(x) => {
                h.write_u64(6);
                h.write_u32(*x as u32)
            }
            Leaf::U64(x) => {
                h.write_u64(7);
                h.write_u64(*x)
            }
            Leaf::I64(x) => {
                h.write_u64(8);
                h.write_u64(*x as u64)
            }
            Leaf::F64(x) => {
                h.write_u64(9);
                h.write_u64((*x + 0.0).to_bits())
            }
        }
    }
}

impl Leaf {
    pub fn of(a: &Atom) -> Leaf {
        match *a {
            Atom::Null => Leaf::Null,
            Atom::Bool(x) => Leaf::Bool(x),
            Atom::Str(ref x) => Leaf::Str(x.to_string()),
            Atom::Bytes(ref x) => Leaf::Bytes(x.to_vec()),
            Atom::Char(x) => Leaf::Char(x),
            Atom::U64(x) => Leaf::U64(x),
            Atom::I64(x) => Leaf::I64(x),
            Atom::F64(x) => Leaf::F64(x),
            ref x => panic!("unknown atom {:?}", x),
        }
    }
    pub fn atom(&self) -> Atom<'_> {
        match *self {
            Leaf::Null => Atom::Null,
            Leaf::Bool(x) => Atom::Bool(x),
            Leaf::Str(ref x) => Atom::Str(Cow::Borrowed(x)),
            Leaf::Bytes(ref x) => Atom::Bytes(Cow::Borrowed(x)),
            Leaf::Char(x) => Atom::Char(x),
            Leaf::U64(x) => Atom::U64(x),
            Leaf::I64(x) => Atom::I64(x),
            Leaf::F64(x) => Atom::F64(x),
        }
    }
    /// What error texts call it.
    pub fn name(&self) -> &'static str {
        match self {
            Leaf::Null => "null",
            Leaf::Bool(_) => "bool",
            Leaf::Str(_) => "string",
            Leaf::Bytes(_) => "bytes",
            Leaf::Char(_) => "char",
            Leaf::U64(_) => "unsigned integer",
            Leaf::I64(_) => "signed integer",
            Leaf::F64(_) => "float",
        }
    }
    pub fn s(x: &str) -> Leaf {
        Leaf::Str(x.to_string())
    }
}

// ----------------------------------------------------------------- events

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Ev {
    A(Leaf),
    Ms,
    Me,
    Ss,
    Se,
}

impl Ev {
    pub fn of(e: &Event) -> Ev {
        match e {
            Event::Atom(a) => Ev::A(Leaf::of(a)),
            Event::MapStart => Ev::Ms,
            Event::MapEnd => Ev::Me,
            Event::SeqStart => Ev::Ss,
            Event::SeqEnd => Ev::Se,
        }
    }
    pub fn event(&self) -> Event<'_> {
        match self {
            Ev::A(l) => Event::Atom(l.atom()),
            Ev::Ms => Event::MapStart,
            Ev::Me => Event::MapEnd,
            Ev::Ss => Event::SeqStart,
            Ev::Se => Event::SeqEnd,
        }
    }
}

pub fn show(evs: &[Ev]) -> String {
    let mut o = String::new();
    for (i, e) in evs.iter().enumerate() {
        if i > 0 {
            o.push(' ');
        }
        if o.len() > 600 {
            o.push_str("...");
            break;
        }
        match e {
            Ev::A(Leaf::U64(x)) => o.push_str(&format!("{}u", x)),
            Ev::A(Leaf::I64(x)) => o.push_str(&format!("{}i", x)),
            Ev::A(Leaf::F64(x)) => o.push_str(&format!("{:?}f", x)),
            Ev::A(Leaf::Str(x)) => o.push_str(&format!("{:?}", x)),
            Ev::A(Leaf::Bytes(x)) => o.push_str(&format!("bytes{:?}", x)),
            Ev::A(Leaf::Char(x)) => o.push_str(&format!("{:?}", x)),
            Ev::A(Leaf::Bool(x)) => o.push_str(&format!("{}", x)),
            Ev::A(Leaf::Null) => o.push_str("null"),
            Ev::Ms => o.push('{'),
            Ev::Me => o.push('}'),
            Ev::Ss => o.push('['),
            Ev::Se => o.push(']'),
        }
    }
    o
}

// ----------------------------------------------------------------- values

#[derive(Clone, Debug, PartialEq, Hash)]
pub enum Val {
    L(Leaf),
    Seq(Vec<Val>),
    Map(Vec<(Val, Val)>),
}

impl Val {
    pub fn events(&self, out: &mut Vec<Ev>) {
        match self {
            Val::L(l) => out.push(Ev::A(l.clone())),
            Val::Seq(v) => {
                out.push(Ev::Ss);
                for x in v {
                    x.events(out);
                }
                out.push(Ev::Se);
            }
            Val::Map(v) => {
                out.push(Ev::Ms);
                for (k, x) in v {
                    k.events(out);
                    x.events(out);
                }
                out.push(Ev::Me);
            }
        }
    }
    pub fn evs(&self) -> Vec<Ev> {
        let mut v = vec![];
        self.events(&mut v);
        v
    }
    pub fn show(&self) -> String {
        show(&self.evs())
    }
    /// Parses a complete, balanced event sequence.
    pub fn parse(evs: &[Ev]) -> Option<Val> {
        fn go(evs: &[Ev], i: &mut usize) -> Option<Val> {
            let e = evs.get(*i)?;
            *i += 1;
            match e {
                Ev::A(l) => Some(Val::L(l.clone())),
                Ev::Ss => {
                    let mut v = vec![];
                    while *evs.get(*i)? != Ev::Se {
                        v.push(go(evs, i)?);
                    }
                    *i += 1;
                    Some(Val::Seq(v))
                }
                Ev::Ms => {
                    let mut v = vec![];
                    while *evs.get(*i)? != Ev::Me {
                        let k = go(evs, i)?;
                        let x = go(evs, i)?;
                        v.push((k, x));
                    }
                    *i += 1;
                    Some(Val::Map(v))
                }
                Ev::Se | Ev::Me => None,
            }
        }
        let mut i = 0;
        let v = go(evs, &mut i)?;
        if i == evs.len() {
            Some(v)
        } else {
            None
        }
    }
}

/// Serialize `Val` as itself with borrowed handles.
impl Serialize for Val {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk, Error> {
        Ok(match self {
            Val::L(l) => Chunk::Atom(l.atom()),
            Val::Seq(v) => Chunk::Seq(Box::new(ValSeq(v.iter()))),
            Val::Map(v) => {
                if v.iter().all(|(k, _)| matches!(k, Val::L(Leaf::Str(_)))) && v.len() % 2 == 1 {
                    Chunk::Struct(Box::new(ValStruct(v.iter())))
                } else {
                    Chunk::Map(Box::new(ValMap(v.iter(), None)))
                }
            }
        })
    }
}

struct ValSeq<'a>(std::slice::Iter<'a, Val>);
impl<'a> SeqEmitter for ValSeq<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        Ok(self.0.next().map(SerializeHandle::to))
    }
}
struct ValMap<'a>(std::slice::Iter<'a, (Val, Val)>, Option<&'a Val>);
impl<'a> MapEmitter for ValMap<'a> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        Ok(self.0.next().map(|(k, v)| {
            self.1 = Some(v);
            SerializeHandle::to(k)
        }))
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle<'_>, Error> {
        Ok(SerializeHandle::to(self.1.take().expect("value before key")))
    }
}
struct ValStruct<'a>(std::slice::Iter<'a, (Val, Val)>);
impl<'a> StructEmitter for ValStruct<'a> {
    fn next(
        &mut self,
        _: &SerializerState,
    ) -> Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error> {
        Ok(self.0.next().map(|(k, v)| match k {
            Val::L(Leaf::Str(s)) => (Cow::Borrowed(s.as_str()), SerializeHandle::to(v)),
            _ => unreachable!(),
        }))
    }
}

/// The events the serialization of a value produces.
pub fn events_of(v: &dyn Serialize) -> Result<Vec<Ev>, Error> {
    let mut d = SerializeDriver::new(v);
    let mut out = vec![];
    while let Some((e, _, _)) = d.next()? {
        out.push(Ev::of(&e));
    }
    Ok(out)
}


// ---------------------------------------------------------------- recorder

thread_local! {
    static LOG: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
}

/// A target type that accepts everything and logs the events it stands for.
pub struct Rec;

impl Deserialize for Rec {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        SinkHandle::boxed(RecSink { out, kind: 0 })
    }
}

struct RecSink<'a> {
    out: &'a mut Option<Rec>,
    kind: u8,
}

struct RecSub {
    kind: u8,
}

fn log(e: Ev) {
    LOG.with(|l| l.borrow_mut().push(e));
}

/// Clears and returns the log.
pub fn take_log() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

pub fn clear_log() {
    LOG.with(|l| l.borrow_mut().clear())
}

pub fn log_eq(x: &[Ev]) -> bool {
    LOG.with(|l| &l.borrow()[..] == x)
}

macro_rules! rec {
    () => {
        fn atom(&mut self, atom: Atom, _: &DeserializerState) -> Result<(), Error> {
            log(Ev::A(Leaf::of(&atom)));
            Ok(())
        }
        fn map(&mut self, _: &DeserializerState) -> Result<(), Error> {
            self.kind = 1;
            log(Ev::Ms);
            Ok(())
        }
        fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
            self.kind = 2;
            log(Ev::Ss);
            Ok(())
        }
        fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
            Ok(SinkHandle::boxed(RecSub { kind: 0 }))
        }
        fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
            Ok(SinkHandle::boxed(RecSub { kind: 0 }))
        }
    };
}

impl<'a> Sink for RecSink<'a> {
    rec!();
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        match self.kind {
            1 => log(Ev::Me),
            2 => log(Ev::Se),
            _ => {}
        }
        *self.out = Some(Rec);
        Ok(())
    }
}

impl Sink for RecSub {
    rec!();
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        match self.kind {
            1 => log(Ev::Me),
            2 => log(Ev::Se),
            _ => {}
        }
        Ok(())
    }
}

// --------------------------------------------------------------- collector

/// A target that collects any value.
#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Any(pub Val);

impl Deserialize for Any {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        SinkHandle::boxed(AnySink {
            out,
            key: None,
            el: None,
            acc: None,
        })
    }
}

struct AnySink<'a> {
    out: &'a mut Option<Any>,
    key: Option<Any>,
    el: Option<Any>,
    acc: Option<Val>,
}

impl<'a> AnySink<'a> {
    fn flush(&mut self) {
        match self.acc.as_mut() {
            Some(Val::Seq(v)) => {
                if let Some(x) = self.el.take() {
                    v.push(x.0);
                }
            }
            Some(Val::Map(v)) => {
                if let (Some(k), Some(x)) = (self.key.take(), self.el.take()) {
                    v.push((k.0, x.0));
                }
            }
            _ => {}
        }
    }
}

impl<'a> Sink for AnySink<'a> {
    fn atom(&mut self, atom: Atom, _: &DeserializerState) -> Result<(), Error> {
        self.acc = Some(Val::L(Leaf::of(&atom)));
        Ok(())
    }
    fn map(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.acc = Some(Val::Map(vec![]));
        Ok(())
    }
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.acc = Some(Val::Seq(vec![]));
        Ok(())
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.flush();
        Ok(Any::deserialize_into(&mut self.key))
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        if let Some(Val::Seq(_)) = self.acc {
            self.flush();
        }
        Ok(Any::deserialize_into(&mut self.el))
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.flush();
        *self.out = self.acc.take().map(Any);
        Ok(())
    }
}

impl Serialize for Any {
    fn serialize(&self, s: &SerializerState) -> Result<Chunk<'_>, Error> {
        self.0.serialize(s)
    }
}

// ------------------------------------------------------------- enumeration

/// Shapes: enumerates all trees with at most `budget` nodes. Leaves are given by
/// `leaf`, map keys by `key`.
pub fn tree(
    ch: &mut mc_core::Ch,
    budget: &mut usize,
    depth: usize,
    leaf: &mut dyn FnMut(&mut mc_core::Ch) -> Val,
    key: &mut dyn FnMut(&mut mc_core::Ch) -> Val,
) -> Val {
    let kinds = if depth == 0 || *budget == 0 { 1 } else { 3 };
    match ch.pick(kinds) {
        0 => leaf(ch),
        1 => {
            let mut v = vec![];
            while *budget > 0 && ch.flag() {
                *budget -= 1;
                v.push(tree(ch, budget, depth - 1, leaf, key));
            }
            Val::Seq(v)
        }
        _ => {
            let mut v = vec![];
            while *budget > 0 && ch.flag() {
                *budget -= 1;
                let k = key(ch);
                v.push((k, tree(ch, budget, depth - 1, leaf, key)));
            }
            Val::Map(v)
        }
    }
}
