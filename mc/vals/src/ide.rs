//! Instrumented sinks and drop-tracked deserializable values.
use crate::iser::Desc;
use crate::track::{bad, born, call, died, used, used_mut, Op};
use crate::{Ev, Leaf, Val};
use deser::de::{Deserialize, DeserializerState, Sink, SinkHandle};
use deser::{Atom, Descriptor, Error};
use std::cell::{Cell, RefCell};
use std::hash::{Hash, Hasher};

/// How the sink of a nested value is handed to the driver.
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum DStyle {
    /// box owned by the driver, borrowing from its parent
    Owned,
    /// reference into a slot of the parent which the next request overwrites
    Slot,
    /// the null sink
    Null,
    /// `Option<Tr>` into a slot of the parent
    Opt,
    /// `Box<Tr>` into a slot of the parent
    Boxed,
    /// `Option<Box<Tr>>`
    OptBoxed,
}

pub const DSTYLES: [DStyle; 6] = [
    DStyle::Owned,
    DStyle::Slot,
    DStyle::Opt,
    DStyle::Boxed,
    DStyle::OptBoxed,
    DStyle::Null,
];

#[derive(Clone, Default)]
struct Ctx {
    pos: u64,
    parent: u64,
    depth: usize,
    outer: Option<String>,
    anon: bool,
}

thread_local! {
    static NEXT: RefCell<Option<Ctx>> = const { RefCell::new(None) };
    static STY: RefCell<Vec<DStyle>> = const { RefCell::new(Vec::new()) };
    static CUR: Cell<usize> = const { Cell::new(0) };
    static GOT: RefCell<Vec<(u64, Leaf)>> = const { RefCell::new(Vec::new()) };
    static KEEP: Cell<bool> = const { Cell::new(true) };
    static CHECK: Cell<bool> = const { Cell::new(true) };
}

thread_local! {
    static OBSERVE: Cell<Option<Observer>> = const { Cell::new(None) };
}

/// Called at the start of every callback.
pub type Observer = fn(&str, u64, &DeserializerState);

pub fn observe(f: Option<Observer>) {
    OBSERVE.with(|o| o.set(f));
}

/// Styles in the order in which sinks are requested; the rest is `Owned`.
pub fn set_styles(s: &[DStyle]) {
    STY.with(|x| {
        let mut x = x.borrow_mut();
        x.clear();
        x.extend_from_slice(s)
    });
    CUR.with(|c| c.set(0));
    NEXT.with(|n| *n.borrow_mut() = None);
    GOT.with(|g| g.borrow_mut().clear());
}

/// Whether received atoms are recorded.
pub fn keep_atoms(on: bool) {
    KEEP.with(|k| k.set(on));
}

/// Whether sinks check the protocol and the visible state. After an error or a
/// panic nothing is promised about these, only about lifetimes.
pub fn set_check(on: bool) {
    CHECK.with(|k| k.set(on));
}

/// Reads what is visible and refuses descriptors of dead sinks.
pub fn probe(state: &DeserializerState) {
    if let Some(d) = state.top_descriptor() {
        if d.name().map_or(false, |x| x.is_empty()) {
            bad("the descriptor of a dropped sink is visible".into());
        }
    }
}

pub fn take_atoms() -> Vec<(u64, Leaf)> {
    GOT.with(|g| std::mem::take(&mut *g.borrow_mut()))
}

pub fn release() {
    STY.with(|x| *x.borrow_mut() = Vec::new());
    GOT.with(|x| *x.borrow_mut() = Vec::new());
    NEXT.with(|x| *x.borrow_mut() = None);
}

fn next_style() -> DStyle {
    let i = CUR.with(|c| {
        let i = c.get();
        c.set(i + 1);
        i
    });
    STY.with(|s| s.borrow().get(i).copied().unwrap_or(DStyle::Owned))
}

pub const ROOT: u64 = 1;

pub fn child_pos(pos: u64, idx: u32) -> u64 {
    let mut z = pos.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add((idx as u64 + 1).wrapping_mul(0xD1B5_4A32_D192_ED03));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn name_of(pos: u64) -> String {
    format!("s{:x}", pos)
}

/// An instrumented sink. It accepts everything.
pub struct TSink<'a> {
    uid: u64,
    cx: Ctx,
    desc: Desc,
    idx: u32,
    stage: u8,
    val: u64,
    slot: Option<Box<TSink<'static>>>,
    slot_opt: Option<Option<Tr>>,
    slot_box: Option<Box<Tr>>,
    slot_ob: Option<Option<Box<Tr>>>,
    out: Option<&'a mut Option<Tr>>,
}

impl<'a> Drop for TSink<'a> {
    fn drop(&mut self) {
        died(self.uid);
        self.desc.0.clear();
        self.slot = None;
    }
}

impl<'a> TSink<'a> {
    fn make(cx: Ctx, out: Option<&'a mut Option<Tr>>) -> TSink<'a> {
        TSink {
            uid: born("sink", cx.parent),
            desc: Desc(name_of(cx.pos)),
            cx,
            idx: 0,
            stage: 0,
            val: 0,
            slot: None,
            slot_opt: None,
            slot_box: None,
            slot_ob: None,
            out,
        }
    }
    pub fn root() -> TSink<'a> {
        TSink::make(
            Ctx {
                pos: ROOT,
                ..Ctx::default()
            },
            None,
        )
    }

    fn look(&self, state: &DeserializerState, what: &str, outside: bool, inside: bool) {
        used_mut(self.uid);
        if let Some(f) = OBSERVE.with(|o| o.get()) {
            f(what, self.cx.pos, state);
        }
        if !CHECK.with(|k| k.get()) {
            probe(state);
            return;
        }
        if self.cx.anon {
            return;
        }
        let top = state.top_descriptor().and_then(|d| d.name());
        let d = state.depth();
        let ok_out = d == self.cx.depth && top == self.cx.outer.as_deref();
        let ok_in = d == self.cx.depth + 1 && top == Some(self.desc.0.as_str());
        if !((outside && ok_out) || (inside && ok_in)) {
            bad(format!(
                "during {} of a sink at depth {}: visible depth {} innermost {:?}",
                what, self.cx.depth, d, top
            ));
        }
    }

    fn stage(&mut self, from: &[u8], to: u8, what: &str) {
        if !from.contains(&self.stage) && CHECK.with(|k| k.get()) {
            bad(format!("{} called on a sink in stage {}", what, self.stage));
        }
        self.stage = to;
    }

    fn sub(&mut self) -> SinkHandle<'_> {
        let cx = Ctx {
            pos: child_pos(self.cx.pos, self.idx),
            parent: self.uid,
            depth: self.cx.depth + 1,
            outer: Some(self.desc.0.clone()),
            anon: self.cx.anon,
        };
        self.idx += 1;
        let set = |cx| NEXT.with(|n| *n.borrow_mut() = Some(cx));
        // the previous element goes away when the next one starts
        match next_style() {
            DStyle::Owned => SinkHandle::boxed(TSink::make(cx, None)),
            DStyle::Slot => {
                self.slot = None;
                self.slot = Some(Box::new(TSink::make(Ctx { parent: 0, ..cx }, None)));
                SinkHandle::to(&mut **self.slot.as_mut().unwrap())
            }
            DStyle::Null => SinkHandle::null(),
            DStyle::Opt => {
                self.slot_opt = None;
                set(cx);
                Deserialize::deserialize_into(&mut self.slot_opt)
            }
            DStyle::Boxed => {
                self.slot_box = None;
                set(cx);
                Deserialize::deserialize_into(&mut self.slot_box)
            }
            DStyle::OptBoxed => {
                self.slot_ob = None;
                set(cx);
                Deserialize::deserialize_into(&mut self.slot_ob)
            }
        }
    }
}

impl<'a> Sink for TSink<'a> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        self.look(state, "atom", true, false);
        self.stage(&[0], 1, "atom");
        if KEEP.with(|k| k.get()) {
            GOT.with(|g| g.borrow_mut().push((self.cx.pos, Leaf::of(&atom))));
        }
        if let Atom::U64(x) = atom {
            self.val = x;
        }
        call(Op::Atom, self.cx.pos)
    }
    fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.look(state, "map", true, false);
        self.stage(&[0], 2, "map");
        call(Op::Map, self.cx.pos)
    }
    fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.look(state, "seq", true, false);
        self.stage(&[0], 4, "seq");
        call(Op::Seq, self.cx.pos)
    }
    fn next_key(&mut self, state: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.look(state, "next_key", false, true);
        self.stage(&[2], 3, "next_key");
        call(Op::KeySink, self.cx.pos)?;
        Ok(self.sub())
    }
    fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.look(state, "next_value", false, true);
        let to = if self.stage == 4 { 4 } else { 2 };
        self.stage(&[3, 4], to, "next_value");
        call(Op::ValueSink, self.cx.pos)?;
        Ok(self.sub())
    }
    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        let cont = self.stage == 2 || self.stage == 4;
        self.look(state, "finish", true, cont);
        self.stage(&[1, 2, 4], 9, "finish");
        call(Op::Done, self.cx.pos)?;
        if let Some(out) = self.out.as_mut() {
            **out = Some(Tr::new(self.val));
        }
        Ok(())
    }
    fn descriptor(&self) -> &dyn Descriptor {
        used(self.uid);
        &self.desc
    }
}

/// A drop-tracked value. Its number is the unsigned integer it was made from.
pub struct Tr {
    uid: u64,
    magic: u64,
    pub val: u64,
    heap: Box<u64>,
}

const MAGIC: u64 = 0x7261_636b_6564_2121;

impl Tr {
    pub fn new(val: u64) -> Tr {
        let uid = born("value", 0);
        Tr {
            uid,
            magic: MAGIC ^ uid,
            val,
            heap: Box::new(uid),
        }
    }
    pub fn check(&self) {
        if self.magic != MAGIC ^ self.uid || *self.heap != self.uid {
            bad("corrupted value in the result".into());
        }
        used(self.uid);
    }
}

impl Drop for Tr {
    fn drop(&mut self) {
        if self.magic != MAGIC ^ self.uid {
            // do not run the destructor of the box: this is not a value
            std::mem::forget(std::mem::replace(&mut self.heap, Box::new(0)));
            bad("dropped memory that is not a value".into());
            return;
        }
        self.magic = 0;
        died(self.uid);
    }
}

impl PartialEq for Tr {
    fn eq(&self, o: &Tr) -> bool {
        self.val == o.val
    }
}
impl Eq for Tr {}
impl PartialOrd for Tr {
    fn partial_cmp(&self, o: &Tr) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tr {
    fn cmp(&self, o: &Tr) -> std::cmp::Ordering {
        self.val.cmp(&o.val)
    }
}
impl Hash for Tr {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.val.hash(h)
    }
}

impl Deserialize for Tr {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        let cx = NEXT.with(|n| n.borrow_mut().take()).unwrap_or(Ctx {
            pos: ROOT,
            anon: true,
            ..Ctx::default()
        });
        SinkHandle::boxed(TSink::make(cx, Some(out)))
    }
}

/// Makes the next `Tr::deserialize_into` a proper root.
pub fn root_next() {
    NEXT.with(|n| {
        *n.borrow_mut() = Some(Ctx {
            pos: ROOT,
            ..Ctx::default()
        })
    });
}

// ------------------------------------------------------------- expectation

#[derive(Default, Debug)]
pub struct ExpDe {
    pub calls: Vec<(Op, u64)>,
    pub atoms: Vec<(u64, Leaf)>,
    /// after each event: callbacks made, visible depth, innermost descriptor
    pub after: Vec<(usize, usize, Option<String>)>,
    pub requested: usize,
}

/// What has to happen when the events of `v` are sent.
pub fn expect_de(v: &Val, root: DStyle, styles: &[DStyle]) -> ExpDe {
    let mut e = ExpDe::default();
    go(v, root, ROOT, 0, None, styles, &mut e);
    e
}

/// Adds what happens in an anonymous or proper sink at `pos`.
pub fn go(v: &Val, style: DStyle, pos: u64, depth: usize, outer: Option<&str>, styles: &[DStyle], e: &mut ExpDe) {
    let null = style == DStyle::Null;
    let me = if null { None } else { Some(name_of(pos)) };
    let mut sub = |x: &Val, i: u32, op: Op, e: &mut ExpDe| {
        let st = if null {
            DStyle::Null
        } else {
            e.calls.push((op, pos));
            let st = styles.get(e.requested).copied().unwrap_or(DStyle::Owned);
            e.requested += 1;
            st
        };
        go(x, st, child_pos(pos, i), depth + 1, me.as_deref(), styles, e)
    };
    match v {
        Val::L(l) => {
            let skip = null || (*l == Leaf::Null && matches!(style, DStyle::Opt | DStyle::OptBoxed));
            if !skip {
                e.calls.push((Op::Atom, pos));
                e.calls.push((Op::Done, pos));
                e.atoms.push((pos, l.clone()));
            }
            e.after.push((e.calls.len(), depth, outer.map(|x| x.to_string())));
        }
        Val::Seq(xs) => {
            if !null {
                e.calls.push((Op::Seq, pos));
            }
            e.after.push((e.calls.len(), depth + 1, me.clone()));
            for (i, x) in xs.iter().enumerate() {
                sub(x, i as u32, Op::ValueSink, e);
            }
            if !null {
                e.calls.push((Op::Done, pos));
            }
            e.after.push((e.calls.len(), depth, outer.map(|x| x.to_string())));
        }
        Val::Map(xs) => {
            if !null {
                e.calls.push((Op::Map, pos));
            }
            e.after.push((e.calls.len(), depth + 1, me.clone()));
            for (i, (k, x)) in xs.iter().enumerate() {
                sub(k, 2 * i as u32, Op::KeySink, e);
                sub(x, 2 * i as u32 + 1, Op::ValueSink, e);
            }
            if !null {
                e.calls.push((Op::Done, pos));
            }
            e.after.push((e.calls.len(), depth, outer.map(|x| x.to_string())));
        }
    }
}

/// Number of nested values of a tree.
pub fn size(v: &Val) -> usize {
    match v {
        Val::L(_) => 0,
        Val::Seq(x) => x.iter().map(|x| 1 + size(x)).sum(),
        Val::Map(x) => x.iter().map(|(k, x)| 2 + size(k) + size(x)).sum(),
    }
}

/// All trees of at most `budget` nested values, keys included.
pub fn de_tree(ch: &mut mc_core::Ch, budget: &mut usize, depth: usize, leaf: &mut dyn FnMut(&mut mc_core::Ch) -> Leaf) -> Val {
    let kinds = if depth == 0 { 1 } else { 3 };
    match ch.pick(kinds) {
        0 => Val::L(leaf(ch)),
        1 => {
            let mut v = vec![];
            while *budget > 0 && ch.flag() {
                *budget -= 1;
                v.push(de_tree(ch, budget, depth - 1, leaf));
            }
            Val::Seq(v)
        }
        _ => {
            let mut v = vec![];
            while *budget > 1 && ch.flag() {
                *budget -= 2;
                let k = de_tree(ch, budget, depth - 1, leaf);
                v.push((k, de_tree(ch, budget, depth - 1, leaf)));
            }
            Val::Map(v)
        }
    }
}

/// Which events the driver may be sent next.
#[derive(Clone, Hash, PartialEq, Debug)]
pub struct Pda {
    /// per open container: map expecting a key / map expecting a value / seq
    pub stack: Vec<u8>,
    pub done: bool,
}

impl Pda {
    pub fn new() -> Pda {
        Pda {
            stack: vec![],
            done: false,
        }
    }
    fn value(&mut self) {
        match self.stack.last_mut() {
            None => self.done = true,
            Some(x) => {
                if *x < 2 {
                    *x ^= 1
                }
            }
        }
    }
    /// Whether the event can occur; advances if so.
    pub fn accept(&mut self, e: &Ev) -> bool {
        if self.done {
            return false;
        }
        match e {
            Ev::A(_) => self.value(),
            Ev::Ms => self.stack.push(0),
            Ev::Ss => self.stack.push(2),
            Ev::Me => {
                if self.stack.last() != Some(&0) {
                    return false;
                }
                self.stack.pop();
                self.value();
            }
            Ev::Se => {
                if self.stack.last() != Some(&2) {
                    return false;
                }
                self.stack.pop();
                self.value();
            }
        }
        true
    }
}

/// A deep value with the given repeating pattern.
pub fn ladder(p: &[usize], depth: usize) -> Val {
    let leaf = |n| Val::L(Leaf::U64(n));
    let mut v = leaf(0);
    for i in (0..depth).rev() {
        v = match p[i % p.len()] {
            0 => Val::Seq(vec![v]),
            1 => Val::Map(vec![(leaf(1), v)]),
            2 => Val::Map(vec![(v, leaf(2))]),
            3 => Val::Seq(vec![leaf(3), v, leaf(4)]),
            _ => Val::Map(vec![(leaf(5), leaf(6)), (leaf(7), v), (leaf(8), leaf(9))]),
        };
    }
    v
}

pub fn pattern(ch: &mut mc_core::Ch) -> Vec<usize> {
    let n = 1 + ch.pick(2);
    (0..n).map(|_| ch.pick(5)).collect()
}

pub fn wide(k: usize, n: usize) -> Val {
    let leaf = |n: usize| Val::L(Leaf::U64(n as u64));
    match k {
        0 => Val::Seq((0..n).map(leaf).collect()),
        1 => Val::Map((0..n).map(|x| (leaf(x), leaf(x + 1))).collect()),
        _ => Val::Seq(
            (0..n)
                .map(|x| match x % 3 {
                    0 => Val::Seq(vec![leaf(x)]),
                    1 => Val::Map(vec![(leaf(x), Val::Seq(vec![]))]),
                    _ => leaf(x),
                })
                .collect(),
        ),
    }
}
