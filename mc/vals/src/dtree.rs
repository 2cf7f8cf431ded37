//! Trees of serializable values built from derived types, standard containers
//! and wrappers, with an instrumented layer around every node.
use crate::iser::Desc;
use crate::model::D;
use crate::track::{bad, born, call, died, used, used_mut, Op};
use crate::Ev;
use deser::ser::{Chunk, MapEmitter, SeqEmitter, SerializeHandle, SerializerState, StructEmitter};
use deser::{Descriptor, Error, Serialize};
use mc_core::Ch;
use std::borrow::Cow;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sh {
    Leaf,
    Key,
    Unit,
    Nothing,
    Just,
    Boxed,
    New,
    New2,
    Vecs,
    Arr2,
    Tup2,
    Tup3,
    BMap,
    ISeq,
    IMap,
    IStruct,
    S1,
    S2,
    FOnly,
    FFirst,
    FLast,
    FMid,
    FTwo,
    FThree,
    FGap,
    Skip,
    SkipF,
    Opts,
    OptsF,
    Gen,
}

use Sh::*;

/// How instrumented emitters hand out what they contain.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Give {
    Borrowed,
    Owned,
    Slot,
    OwnedRef,
}

pub const GIVES: [Give; 4] = [Give::Borrowed, Give::Owned, Give::Slot, Give::OwnedRef];

pub struct Node {
    pub sh: Sh,
    pub kids: Vec<Node>,
    pub id: u64,
    pub give: Give,
    desc: Desc,
    key: String,
}

impl Node {
    pub fn new(sh: Sh, kids: Vec<Node>) -> Node {
        Node { sh, kids, id: 0, give: Give::Borrowed, desc: Desc(String::new()), key: String::new() }
    }
    pub fn number(&mut self) {
        fn go(n: &mut Node, i: &mut u64) {
            *i += 1;
            n.id = *i;
            n.desc = Desc(format!("i{}", n.id));
            n.key = format!("k{}", n.id);
            for k in &mut n.kids {
                go(k, i);
            }
        }
        let mut i = 0;
        go(self, &mut i);
    }
    /// One way of handing out for all emitters, or ways in turn.
    pub fn gives(&mut self, base: usize, step: usize) {
        fn go(n: &mut Node, base: usize, step: usize, i: &mut usize) {
            n.give = GIVES[(base + step * *i) % 4];
            *i += 1;
            for k in &mut n.kids {
                go(k, base, step, i);
            }
        }
        go(self, base, step, &mut 0);
    }
    pub fn show(&self) -> String {
        let k: Vec<String> = self.kids.iter().take(20).map(|x| x.show()).collect();
        if self.kids.is_empty() {
            format!("{:?}", self.sh)
        } else {
            format!("{:?}({})", self.sh, k.join(" "))
        }
    }
    fn struct_like(&self) -> bool {
        match self.sh {
            Boxed | New | New2 => self.kids[0].struct_like(),
            s => s.is_struct(),
        }
    }
    pub fn is_optional(&self) -> bool {
        match self.sh {
            Unit | Nothing => true,
            Boxed | New | New2 => self.kids[0].is_optional(),
            _ => false,
        }
    }
    fn low(&self) -> bool {
        matches!(self.sh, Leaf | Nothing) || self.sh == Just && self.kids[0].low()
    }
}

impl Sh {
    fn is_struct(self) -> bool {
        !self.fields().is_empty() || self == IStruct
    }
    /// (name, flattened, skipped if low) per nested value.
    fn fields(self) -> &'static [(&'static str, bool, bool)] {
        match self {
            S1 => &[("a", false, false)],
            S2 => &[("a", false, false), ("b", false, false)],
            FOnly => &[("", true, false)],
            FFirst => &[("", true, false), ("a", false, false)],
            FLast => &[("a", false, false), ("", true, false)],
            FMid => &[("a", false, false), ("", true, false), ("b", false, false)],
            FTwo => &[("", true, false), ("", true, false)],
            FThree => &[("", true, false), ("", true, false), ("", true, false), ("a", false, false)],
            FGap => &[("", true, false), ("a", false, false), ("", true, false)],
            Skip => &[("a", false, true), ("b", false, false), ("c", false, true)],
            SkipF => &[("a", false, true), ("", true, true), ("b", false, true)],
            Opts => &[("a", false, false), ("b", false, true), ("c", false, false)],
            OptsF => &[("a", false, false), ("", true, false), ("b", false, false)],
            Gen => &[("x-y", false, false), ("", true, false)],
            _ => &[],
        }
    }
    fn skip_opt(self) -> bool {
        matches!(self, Opts | OptsF)
    }
}

// ------------------------------------------------------------ derived types

/// The instrumented layer.
pub struct Dy<'a> {
    node: &'a Node,
    uid: u64,
    inner: Box<dyn Serialize + 'a>,
}

fn low(d: &Dy) -> bool {
    d.node.low()
}

#[derive(Serialize)]
struct DNew<'a>(Dy<'a>);
#[derive(Serialize)]
struct DNew2<T>(T);
#[derive(Serialize)]
struct DS1<'a> {
    a: Dy<'a>,
}
#[derive(Serialize)]
struct DS2<'a> {
    a: Dy<'a>,
    b: Dy<'a>,
}
#[derive(Serialize)]
struct DFOnly<'a> {
    #[deser(flatten)]
    f: Dy<'a>,
}
#[derive(Serialize)]
struct DFFirst<'a> {
    #[deser(flatten)]
    f: Dy<'a>,
    a: Dy<'a>,
}
#[derive(Serialize)]
struct DFLast<'a> {
    a: Dy<'a>,
    #[deser(flatten)]
    f: Dy<'a>,
}
#[derive(Serialize)]
struct DFMid<'a> {
    a: Dy<'a>,
    #[deser(flatten)]
    f: Dy<'a>,
    b: Dy<'a>,
}
#[derive(Serialize)]
struct DFTwo<'a> {
    #[deser(flatten)]
    f: Dy<'a>,
    #[deser(flatten)]
    g: Dy<'a>,
}
#[derive(Serialize)]
struct DFThree<'a> {
    #[deser(flatten)]
    f: Dy<'a>,
    #[deser(flatten)]
    g: Box<Dy<'a>>,
    #[deser(flatten)]
    h: Dy<'a>,
    a: Dy<'a>,
}
#[derive(Serialize)]
struct DFGap<'a> {
    #[deser(flatten)]
    f: Dy<'a>,
    a: Dy<'a>,
    #[deser(flatten)]
    g: Dy<'a>,
}
#[derive(Serialize)]
struct DSkip<'a> {
    #[deser(skip_serializing_if = "low")]
    a: Dy<'a>,
    b: Dy<'a>,
    #[deser(skip_serializing_if = "low")]
    c: Dy<'a>,
}
#[derive(Serialize)]
struct DSkipF<'a> {
    #[deser(skip_serializing_if = "low")]
    a: Dy<'a>,
    #[deser(flatten, skip_serializing_if = "low")]
    f: Dy<'a>,
    #[deser(skip_serializing_if = "low")]
    b: Dy<'a>,
}
#[derive(Serialize)]
#[deser(skip_serializing_optionals)]
struct DOpts<'a> {
    a: Dy<'a>,
    #[deser(skip_serializing_if = "low")]
    b: Dy<'a>,
    c: Dy<'a>,
}
#[derive(Serialize)]
#[deser(skip_serializing_optionals)]
struct DOptsF<'a> {
    a: Dy<'a>,
    #[deser(flatten)]
    f: Dy<'a>,
    b: Dy<'a>,
}
#[derive(Serialize)]
#[deser(rename_all = "kebab-case", rename = "Gen Eric")]
struct DGen<T, U> {
    x_y: T,
    #[deser(flatten)]
    u_v: U,
}

fn name_of(sh: Sh) -> Option<&'static str> {
    Some(match sh {
        S1 => "DS1",
        S2 => "DS2",
        FOnly => "DFOnly",
        FFirst => "DFFirst",
        FLast => "DFLast",
        FMid => "DFMid",
        FTwo => "DFTwo",
        FThree => "DFThree",
        FGap => "DFGap",
        Skip => "DSkip",
        SkipF => "DSkipF",
        Opts => "DOpts",
        OptsF => "DOptsF",
        Gen => "Gen Eric",
        _ => return None,
    })
}

/// An instrumented container.
struct Inst<'a> {
    node: &'a Node,
    uid: u64,
    kids: Vec<Dy<'a>>,
}

struct Em<'b, 'a> {
    inst: &'b Inst<'a>,
    uid: u64,
    pos: usize,
    slot: Option<Dy<'a>>,
}

impl Drop for Em<'_, '_> {
    fn drop(&mut self) {
        died(self.uid);
    }
}

impl<'b, 'a> Em<'b, 'a> {
    fn enter(&mut self, op: Op) -> Result<bool, Error> {
        used_mut(self.uid);
        used(self.inst.uid);
        call(op, self.inst.node.id)?;
        Ok(self.pos < self.inst.node.kids.len())
    }
    fn give(&mut self) -> SerializeHandle<'_> {
        let i = self.pos;
        self.pos += 1;
        let k = &self.inst.node.kids[i];
        match self.inst.node.give {
            Give::Borrowed => SerializeHandle::to(&self.inst.kids[i]),
            Give::OwnedRef => SerializeHandle::boxed(&self.inst.kids[i]),
            Give::Owned => SerializeHandle::boxed(k.build_in(self.uid)),
            Give::Slot => {
                self.slot = None;
                self.slot = Some(k.build());
                SerializeHandle::to(self.slot.as_ref().unwrap())
            }
        }
    }
}

impl SeqEmitter for Em<'_, '_> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        Ok(if self.enter(Op::Next)? { Some(self.give()) } else { None })
    }
}
impl MapEmitter for Em<'_, '_> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        if self.pos % 2 == 1 {
            bad("key asked instead of value".into());
        }
        Ok(if self.enter(Op::NextKey)? { Some(self.give()) } else { None })
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle<'_>, Error> {
        if self.pos % 2 == 0 {
            bad("value asked instead of key".into());
        }
        self.enter(Op::NextValue)?;
        Ok(self.give())
    }
}
impl StructEmitter for Em<'_, '_> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error> {
        if !self.enter(Op::Next)? {
            return Ok(None);
        }
        let k: &Node = &self.inst.node.kids[self.pos];
        let key = if self.pos % 2 == 0 { Cow::Borrowed(k.key.as_str()) } else { Cow::Owned(k.key.clone()) };
        Ok(Some((key, self.give())))
    }
}

impl Serialize for Inst<'_> {
    fn descriptor(&self) -> &dyn Descriptor {
        &self.node.desc
    }
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        let em = Box::new(Em { inst: self, uid: born("emitter", self.uid), pos: 0, slot: None });
        Ok(match self.node.sh {
            ISeq => Chunk::Seq(em),
            IMap => Chunk::Map(em),
            _ => Chunk::Struct(em),
        })
    }
}

impl Node {
    pub fn build(&self) -> Dy<'_> {
        self.build_in(0)
    }
    fn build_in(&self, parent: u64) -> Dy<'_> {
        let uid = born("value", parent);
        let k = |i: usize| self.kids[i].build();
        let inner: Box<dyn Serialize + '_> = match self.sh {
            Leaf => Box::new(self.id),
            Key => Box::new(self.key.clone()),
            Unit => Box::new(()),
            Nothing => Box::new(None::<Dy>),
            Just => Box::new(Some(k(0))),
            Boxed => Box::new(Box::new(k(0))),
            New => Box::new(DNew(k(0))),
            New2 => Box::new(DNew2(DNew2(Box::new(k(0))))),
            Vecs => Box::new(self.kids.iter().map(|x| x.build()).collect::<Vec<_>>()),
            Arr2 => Box::new([k(0), k(1)]),
            Tup2 => Box::new((k(0), k(1))),
            Tup3 => Box::new((k(0), Box::new(k(1)), k(2))),
            BMap => Box::new(self.kids.chunks_exact(2).map(|c| (c[0].build(), c[1].build())).collect::<BTreeMap<_, _>>()),
            ISeq | IMap | IStruct => Box::new(Inst {
                node: self,
                uid,
                kids: if matches!(self.give, Give::Borrowed | Give::OwnedRef) { self.kids.iter().map(|x| x.build()).collect() } else { vec![] },
            }),
            S1 => Box::new(DS1 { a: k(0) }),
            S2 => Box::new(DS2 { a: k(0), b: k(1) }),
            FOnly => Box::new(DFOnly { f: k(0) }),
            FFirst => Box::new(DFFirst { f: k(0), a: k(1) }),
            FLast => Box::new(DFLast { a: k(0), f: k(1) }),
            FMid => Box::new(DFMid { a: k(0), f: k(1), b: k(2) }),
            FTwo => Box::new(DFTwo { f: k(0), g: k(1) }),
            FThree => Box::new(DFThree { f: k(0), g: Box::new(k(1)), h: k(2), a: k(3) }),
            FGap => Box::new(DFGap { f: k(0), a: k(1), g: k(2) }),
            Skip => Box::new(DSkip { a: k(0), b: k(1), c: k(2) }),
            SkipF => Box::new(DSkipF { a: k(0), f: k(1), b: k(2) }),
            Opts => Box::new(DOpts { a: k(0), b: k(1), c: k(2) }),
            OptsF => Box::new(DOptsF { a: k(0), f: k(1), b: k(2) }),
            Gen => Box::new(DGen { x_y: Some(Box::new(k(0))), u_v: DNew2(k(1)) }),
        };
        Dy { node: self, uid, inner }
    }
}

impl Drop for Dy<'_> {
    fn drop(&mut self) {
        died(self.uid);
    }
}

impl Serialize for Dy<'_> {
    fn descriptor(&self) -> &dyn Descriptor {
        used(self.uid);
        self.inner.descriptor()
    }
    fn serialize(&self, state: &SerializerState) -> Result<Chunk<'_>, Error> {
        used(self.uid);
        call(Op::Serialize, self.node.id)?;
        state.get_mut::<Open>().0.push(self.node.id);
        look("the start", self.node.id, state);
        self.inner.serialize(state)
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        used(self.uid);
        self.inner.finish(state)?;
        look("the end", self.node.id, state);
        let top = state.get_mut::<Open>().0.pop();
        if top != Some(self.node.id) && CHECK.with(|c| c.get()) {
            bad(format!("end of #{} while {:?} is open", self.node.id, top));
        }
        call(Op::Finish, self.node.id)
    }
    fn is_optional(&self) -> bool {
        self.inner.is_optional()
    }
}

impl PartialEq for Dy<'_> {
    fn eq(&self, o: &Self) -> bool {
        self.node.id == o.node.id
    }
}
impl Eq for Dy<'_> {}
impl PartialOrd for Dy<'_> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Dy<'_> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.node.id.cmp(&o.node.id)
    }
}

thread_local! {
    static CHECK: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}

/// Is called at the start and end of values.
pub type Look = fn(&str, u64, &SerializerState);
thread_local! {
    static LOOK: std::cell::Cell<Option<Look>> = const { std::cell::Cell::new(None) };
}
pub fn observe(f: Option<Look>) {
    LOOK.with(|l| l.set(f));
}
fn look(what: &str, id: u64, state: &SerializerState) {
    if let Some(f) = LOOK.with(|l| l.get()) {
        f(what, id, state)
    }
}

/// A step to a nested value.
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    I(u64),
    K(String),
}

/// Whether the ends of values are checked against what is open.
pub fn set_check(on: bool) {
    CHECK.with(|c| c.set(on));
}

/// State set by values at their start and undone at their end.
#[derive(Default, Debug)]
pub struct Open(pub Vec<u64>);

// -------------------------------------------------------------- expectation

#[derive(Clone, Debug, PartialEq)]
pub struct X {
    pub ev: Ev,
    pub d: D,
    pub depth: usize,
    pub top: Option<D>,
}

fn named(n: &str) -> D {
    D { name: Some(n.into()), precision: None, unordered: false }
}

fn d_of<T: Serialize>(v: &T) -> D {
    D::of(v.descriptor())
}

impl Node {
    /// The descriptor the value shows.
    pub fn d(&self) -> D {
        match self.sh {
            Leaf => d_of(&0u64),
            Key => d_of(&String::new()),
            Unit => d_of(&()),
            Nothing | Just => d_of(&None::<u64>),
            Boxed | New | New2 => self.kids[0].d(),
            Vecs => d_of(&Vec::<u64>::new()),
            Arr2 => d_of(&[0u64; 2]),
            Tup2 => d_of(&(0u64, 0u64)),
            Tup3 => d_of(&(0u64, 0u64, 0u64)),
            BMap => d_of(&BTreeMap::<u64, u64>::new()),
            ISeq | IMap | IStruct => D::of(&self.desc),
            sh => named(name_of(sh).unwrap()),
        }
    }

    pub fn expect(&self) -> Vec<X> {
        let mut o = vec![];
        self.go(0, None, None, &mut o);
        o
    }

    fn go(&self, depth: usize, top: Option<&D>, vis: Option<&D>, o: &mut Vec<X>) {
        // the outermost descriptor counts
        let me = vis.cloned().unwrap_or_else(|| self.d());
        let x = |ev| X { ev, d: me.clone(), depth, top: top.cloned() };
        let inside = |ev| X { ev, d: me.clone(), depth: depth + 1, top: Some(me.clone()) };
        match self.sh {
            Leaf => o.push(x(Ev::A(crate::Leaf::U64(self.id)))),
            Key => o.push(x(Ev::A(crate::Leaf::Str(self.key.clone())))),
            Unit | Nothing => o.push(x(Ev::A(crate::Leaf::Null))),
            Just | Boxed | New | New2 => self.kids[0].go(depth, top, Some(&me), o),
            Vecs | Arr2 | Tup2 | Tup3 | ISeq => {
                o.push(inside(Ev::Ss));
                for k in &self.kids {
                    k.go(depth + 1, Some(&me), None, o);
                }
                o.push(x(Ev::Se));
            }
            BMap | IMap => {
                o.push(inside(Ev::Ms));
                for k in &self.kids {
                    k.go(depth + 1, Some(&me), None, o);
                }
                o.push(x(Ev::Me));
            }
            _ => {
                o.push(inside(Ev::Ms));
                self.members(false, &mut |name, k, wrap| {
                    o.push(X { d: named("str"), ..inside(Ev::A(crate::Leaf::Str(name.to_string()))) });
                    k.go(depth + 1, Some(&me), wrap.as_ref(), o);
                });
                o.push(x(Ev::Me));
            }
        }
    }

    /// The members of a struct with flattened ones in place.
    fn members(&self, skip_opt: bool, f: &mut dyn FnMut(&str, &Node, Option<D>)) {
        match self.sh {
            Boxed | New | New2 => return self.kids[0].members(skip_opt, f),
            IStruct => {
                for k in &self.kids {
                    if !(skip_opt && k.is_optional()) {
                        f(&k.key, k, None);
                    }
                }
                return;
            }
            _ => {}
        }
        let skip_opt = skip_opt || self.sh.skip_opt();
        for ((name, flat, pred), k) in self.sh.fields().iter().zip(&self.kids) {
            if *pred && k.low() {
                continue;
            }
            if *flat {
                k.members(skip_opt, f);
                continue;
            }
            if skip_opt && k.is_optional() {
                continue;
            }
            f(name, k, if self.sh == Gen { Some(d_of(&None::<u64>)) } else { None });
        }
    }

    /// Where every value is, other than flattened ones.
    pub fn places(&self, at: &[Step], o: &mut Vec<(u64, Vec<Step>)>) {
        let then = |s: Step| [at, &[s]].concat();
        o.push((self.id, at.to_vec()));
        match self.sh {
            Leaf | Key | Unit | Nothing => {}
            Just | Boxed | New | New2 => self.kids[0].places(at, o),
            Vecs | Arr2 | Tup2 | Tup3 | ISeq => {
                for (i, k) in self.kids.iter().enumerate() {
                    k.places(&then(Step::I(i as u64)), o);
                }
            }
            BMap | IMap => {
                for c in self.kids.chunks_exact(2) {
                    c[0].places(at, o);
                    c[1].places(&then(Step::K(c[0].key.clone())), o);
                }
            }
            _ => self.members(false, &mut |name, k, _| k.places(&then(Step::K(name.to_string())), o)),
        }
    }

    /// Start and end callbacks.
    pub fn calls(&self) -> Vec<(Op, u64)> {
        fn go(n: &Node, skip_opt: bool, o: &mut Vec<(Op, u64)>) {
            o.push((Op::Serialize, n.id));
            match n.sh {
                // transparent for a surrounding struct
                Boxed | New | New2 => go(&n.kids[0], skip_opt, o),
                IStruct => {
                    for k in &n.kids {
                        if !(skip_opt && k.is_optional()) {
                            go(k, false, o);
                        }
                    }
                }
                sh if sh.is_struct() => {
                    let skip_opt = skip_opt || sh.skip_opt();
                    for ((_, flat, pred), k) in sh.fields().iter().zip(&n.kids) {
                        if *pred && k.low() || !*flat && skip_opt && k.is_optional() {
                            continue;
                        }
                        go(k, *flat && skip_opt, o);
                    }
                }
                _ => {
                    for k in &n.kids {
                        go(k, false, o);
                    }
                }
            }
            o.push((Op::Finish, n.id));
        }
        let mut o = vec![];
        go(self, false, &mut o);
        o
    }
}

// ---------------------------------------------------------------- generator

const ALL: &[Sh] = &[
    Leaf, Nothing, Unit, ISeq, IMap, IStruct, Vecs, BMap, Just, Boxed, New, New2, S1, FOnly, S2, Arr2, Tup2, FFirst, FLast, FTwo, Gen, FMid, FGap, Skip, SkipF, Opts, OptsF, Tup3, FThree,
];
const FLAT: &[Sh] = &[IStruct, Boxed, New, New2, S1, FOnly, S2, FFirst, FLast, FTwo, Gen, FMid, FGap, Skip, SkipF, Opts, OptsF, FThree];

fn arity(s: Sh) -> usize {
    match s {
        Just | Boxed | New | New2 => 1,
        Arr2 | Tup2 => 2,
        Tup3 => 3,
        s => s.fields().len(),
    }
}

/// All trees with at most `budget` nested values. Wrappers are not nested
/// directly in each other. `few` leaves out some of the leaves.
pub fn dtree(ch: &mut Ch, budget: &mut usize, depth: usize, few: bool) -> Node {
    node(ch, budget, depth, few, false, false)
}

fn node(ch: &mut Ch, budget: &mut usize, depth: usize, few: bool, flat: bool, wrapped: bool) -> Node {
    let list = if flat { FLAT } else { ALL };
    let n = list.iter().filter(|s| allowed(**s, *budget, depth, few, flat, wrapped)).count();
    let i = ch.pick(n);
    let sh = *list.iter().filter(|s| allowed(**s, *budget, depth, few, flat, wrapped)).nth(i).unwrap();
    let mut kids = vec![];
    match sh {
        ISeq | Vecs | IStruct => {
            while *budget > 0 && depth > 0 && ch.flag() {
                *budget -= 1;
                kids.push(node(ch, budget, depth - 1, few, false, false));
            }
        }
        IMap | BMap => {
            while *budget > 1 && depth > 0 && ch.flag() {
                *budget -= 2;
                let k = Node::new(Key, vec![]);
                kids.push(k);
                kids.push(node(ch, budget, depth - 1, few, false, false));
            }
        }
        Just | Boxed | New | New2 => {
            *budget -= 1;
            kids.push(node(ch, budget, depth - 1, few, flat, true));
        }
        _ => {
            *budget -= arity(sh);
            for i in 0..arity(sh) {
                let fl = sh.fields().get(i).map_or(false, |f| f.1);
                kids.push(node(ch, budget, depth - 1, few, fl, false));
            }
        }
    }
    let n = Node::new(sh, kids);
    debug_assert!(!flat || n.struct_like());
    n
}

fn allowed(s: Sh, budget: usize, depth: usize, few: bool, flat: bool, wrapped: bool) -> bool {
    let a = arity(s);
    if a > 0 && (depth == 0 || budget < a) {
        return false;
    }
    match s {
        Just => !wrapped && !flat,
        // one wrapper may stand in another one only at the expense of variety
        Boxed | New | New2 => !wrapped,
        Unit => !few,
        _ => true,
    }
}

/// Chains of the given shapes.
pub fn dladder(pattern: &[usize], depth: usize) -> Node {
    let leaf = || Node::new(Leaf, vec![]);
    let mut n = leaf();
    for i in (0..depth).rev() {
        n = match pattern[i % pattern.len()] {
            0 => Node::new(S1, vec![n]),
            1 => Node::new(New, vec![n]),
            2 => Node::new(FFirst, vec![Node::new(S2, vec![n, leaf()]), leaf()]),
            3 => Node::new(FLast, vec![n, Node::new(IStruct, vec![])]),
            4 => Node::new(Vecs, vec![leaf(), n]),
            5 => Node::new(FMid, vec![leaf(), Node::new(FOnly, vec![Node::new(IStruct, vec![n])]), leaf()]),
            6 => Node::new(Just, vec![n]),
            _ => Node::new(OptsF, vec![Node::new(Nothing, vec![]), Node::new(S2, vec![Node::new(Nothing, vec![]), n]), leaf()]),
        };
    }
    n.number();
    n
}
