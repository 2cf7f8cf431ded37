//! Instrumented serializable values.
use crate::track::{bad, born, call, died, used, used_mut, Op};
use crate::{Ev, Leaf};
use deser::ser::{
    Chunk, MapEmitter, SeqEmitter, Serialize, SerializeHandle, SerializerState, StructEmitter,
};
use deser::{Descriptor, Error};
use mc_core::Ch;
use std::borrow::Cow;
use std::cell::Cell;

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Kind {
    Leaf,
    Seq,
    Map,
    Struct,
}

/// How a nested value is handed to the driver.
#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Style {
    /// reference into the value tree
    Borrowed,
    /// box owned by the driver
    Owned,
    /// reference into a slot of the emitter which is overwritten by the next call
    Slot,
    OwnedBox,
    OwnedSome,
    OwnedRef,
    OwnedSomeBoxRef,
    SlotSome,
}

pub const STYLES: [Style; 8] = [
    Style::Borrowed,
    Style::Owned,
    Style::Slot,
    Style::OwnedBox,
    Style::OwnedSome,
    Style::OwnedRef,
    Style::OwnedSomeBoxRef,
    Style::SlotSome,
];

#[derive(Clone)]
pub struct Desc(pub String);

impl Descriptor for Desc {
    fn name(&self) -> Option<&str> {
        Some(&self.0)
    }
    fn precision(&self) -> Option<usize> {
        Some(self.0.len())
    }
    fn unordered(&self) -> bool {
        self.0.len() % 2 == 0
    }
}

thread_local! {
    static OBSERVE: Cell<Option<Observer>> = const { Cell::new(None) };
}

/// Called at the start of every callback.
pub type Observer = fn(&str, u64, &SerializerState);

pub fn observe(f: Option<Observer>) {
    OBSERVE.with(|o| o.set(f));
}

/// A value tree. Children of maps alternate between keys and values.
pub struct Spec {
    pub id: u64,
    pub kind: Kind,
    pub leaf: Leaf,
    pub style: Style,
    pub keystyle: u8,
    pub kids: Vec<Spec>,
    pub names: Vec<String>,
    pub desc: Desc,
    pub depth: usize,
    /// the name of the innermost container around it
    pub outer: Option<String>,
    /// whether callbacks check the visible state
    pub check_state: bool,
}

impl Spec {
    pub fn new(kind: Kind, leaf: Leaf, kids: Vec<Spec>) -> Spec {
        let names = if kind == Kind::Struct {
            (0..kids.len()).map(|i| format!("f{}", i)).collect()
        } else {
            vec![]
        };
        Spec {
            id: 0,
            kind,
            leaf,
            style: Style::Borrowed,
            keystyle: 0,
            kids,
            names,
            desc: Desc(String::new()),
            depth: 0,
            outer: None,
            check_state: true,
        }
    }

    /// The descriptor name visible from outside.
    pub fn visible(&self) -> String {
        match self.style {
            Style::OwnedSome | Style::OwnedSomeBoxRef | Style::SlotSome => "optional".into(),
            _ => self.desc.0.clone(),
        }
    }

    /// Numbers the nodes in traversal order.
    pub fn number(&mut self) -> &mut Spec {
        fn go(s: &mut Spec, n: &mut u64, depth: usize, outer: Option<String>) {
            *n += 1;
            s.id = *n;
            s.desc = Desc(format!("n{}", n));
            s.depth = depth;
            s.outer = outer;
            let me = Some(s.visible());
            for k in s.kids.iter_mut() {
                go(k, n, depth + 1, me.clone());
            }
        }
        let mut n = 0;
        go(self, &mut n, 0, None);
        self
    }

    pub fn set_check(&mut self, on: bool) {
        self.check_state = on;
        for k in self.kids.iter_mut() {
            k.set_check(on);
        }
    }

    pub fn show(&self) -> String {
        let st = match self.style {
            Style::Borrowed => "",
            Style::Owned => "o",
            Style::Slot => "s",
            Style::OwnedBox => "b",
            Style::OwnedSome => "?",
            Style::OwnedRef => "&",
            Style::OwnedSomeBoxRef => "?b&",
            Style::SlotSome => "s?",
        };
        let k: Vec<String> = self.kids.iter().take(40).map(|x| x.show()).collect();
        match self.kind {
            Kind::Leaf => format!("{}{}", st, crate::show(&[Ev::A(self.leaf.clone())])),
            Kind::Seq => format!("{}[{}]", st, k.join(" ")),
            Kind::Map => format!("{}{{{}}}", st, k.join(" ")),
            Kind::Struct => format!("{}<{}>", st, k.join(" ")),
        }
    }

    /// Expected events with the descriptor name, and afterwards visible depth
    /// and innermost descriptor.
    pub fn expect(&self, out: &mut Vec<Expect>) {
        let me = self.visible();
        let above = Expect {
            ev: Ev::Ms,
            name: me.clone(),
            depth: self.depth,
            top: self.outer.clone(),
        };
        let (open, close) = match self.kind {
            Kind::Leaf => {
                out.push(Expect {
                    ev: Ev::A(self.leaf.clone()),
                    ..above
                });
                return;
            }
            Kind::Seq => (Ev::Ss, Ev::Se),
            _ => (Ev::Ms, Ev::Me),
        };
        out.push(Expect {
            ev: open,
            name: me.clone(),
            depth: self.depth + 1,
            top: Some(me.clone()),
        });
        for (i, k) in self.kids.iter().enumerate() {
            if self.kind == Kind::Struct {
                out.push(Expect {
                    ev: Ev::A(Leaf::Str(self.names[i].clone())),
                    name: STR_NAME.into(),
                    depth: self.depth + 1,
                    top: Some(me.clone()),
                });
            }
            k.expect(out);
        }
        out.push(Expect { ev: close, ..above });
    }

    /// Expected start and end callbacks.
    pub fn calls(&self, out: &mut Vec<(Op, u64)>) {
        out.push((Op::Serialize, self.id));
        for k in &self.kids {
            k.calls(out);
        }
        out.push((Op::Finish, self.id));
    }

    fn check(&self, state: &SerializerState, what: &str, inside: bool) {
        if let Some(f) = OBSERVE.with(|o| o.get()) {
            f(what, self.id, state);
        }
        if !self.check_state {
            return;
        }
        let depth = self.depth + inside as usize;
        let top = state.top_descriptor().and_then(|d| d.name());
        let me = self.visible();
        let want = if inside { Some(me.as_str()) } else { self.outer.as_deref() };
        if state.depth() != depth || top != want {
            bad(format!(
                "during {} of n{}: depth {} innermost {:?}, expected {} {:?}",
                what,
                self.id,
                state.depth(),
                top,
                depth,
                want
            ));
        }
    }

    fn start<'a>(&'a self, uid: u64, state: &SerializerState) -> Result<Chunk<'a>, Error> {
        self.check(state, "serialize", false);
        call(Op::Serialize, self.id)?;
        let em = || Emitter {
            spec: self,
            node: uid,
            uid: born("emitter", uid),
            pos: 0,
            slot: None,
            slot2: None,
            key: String::new(),
        };
        Ok(match self.kind {
            Kind::Leaf => Chunk::Atom(self.leaf.atom()),
            Kind::Seq => Chunk::Seq(Box::new(em())),
            Kind::Map => Chunk::Map(Box::new(em())),
            Kind::Struct => Chunk::Struct(Box::new(em())),
        })
    }

    fn end(&self, state: &SerializerState) -> Result<(), Error> {
        self.check(state, "finish", false);
        call(Op::Finish, self.id)
    }
}

/// Descriptor name of struct keys (checked against the real one at startup).
pub const STR_NAME: &str = "str";

#[derive(Clone, PartialEq, Debug)]
pub struct Expect {
    pub ev: Ev,
    pub name: String,
    pub depth: usize,
    pub top: Option<String>,
}

impl Serialize for Spec {
    fn descriptor(&self) -> &dyn Descriptor {
        &self.desc
    }
    fn serialize(&self, state: &SerializerState) -> Result<Chunk<'_>, Error> {
        self.start(0, state)
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        self.end(state)
    }
}

/// A tracked value that lives only as long as the driver needs it.
pub struct Own<'s> {
    spec: &'s Spec,
    uid: u64,
    desc: Desc,
}

impl<'s> Own<'s> {
    pub fn new(spec: &'s Spec, parent: u64) -> Own<'s> {
        Own {
            spec,
            uid: born("value", parent),
            desc: spec.desc.clone(),
        }
    }
}

impl<'s> Drop for Own<'s> {
    fn drop(&mut self) {
        died(self.uid);
        self.desc.0.clear();
    }
}

impl<'s> Serialize for Own<'s> {
    fn descriptor(&self) -> &dyn Descriptor {
        &self.desc
    }
    fn serialize(&self, state: &SerializerState) -> Result<Chunk<'_>, Error> {
        used(self.uid);
        self.spec.start(self.uid, state)
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        used_mut(self.uid);
        self.spec.end(state)
    }
}

struct Emitter<'a> {
    spec: &'a Spec,
    node: u64,
    uid: u64,
    pos: usize,
    slot: Option<Own<'a>>,
    slot2: Option<Option<Own<'a>>>,
    key: String,
}

impl<'a> Drop for Emitter<'a> {
    fn drop(&mut self) {
        died(self.uid);
    }
}

impl<'a> Emitter<'a> {
    fn enter(&mut self, op: Op, state: &SerializerState) -> Result<(), Error> {
        used_mut(self.uid);
        if self.node != 0 {
            used(self.node);
        }
        self.spec.check(state, "emitter call", true);
        call(op, self.spec.id)
    }
    fn hand_out(&mut self) -> SerializeHandle<'_> {
        let k = &self.spec.kids[self.pos];
        self.pos += 1;
        match k.style {
            Style::Borrowed => SerializeHandle::to(k),
            Style::Owned => SerializeHandle::boxed(Own::new(k, self.uid)),
            Style::Slot => {
                self.slot = None;
                self.slot = Some(Own::new(k, 0));
                SerializeHandle::to(self.slot.as_ref().unwrap())
            }
            Style::OwnedBox => SerializeHandle::boxed(Box::new(Own::new(k, self.uid))),
            Style::OwnedSome => SerializeHandle::boxed(Some(Own::new(k, self.uid))),
            Style::OwnedRef => SerializeHandle::boxed(k),
            Style::OwnedSomeBoxRef => SerializeHandle::boxed(Some(Box::new(k))),
            Style::SlotSome => {
                self.slot2 = None;
                self.slot2 = Some(Some(Own::new(k, 0)));
                SerializeHandle::to(self.slot2.as_ref().unwrap())
            }
        }
    }
}

impl<'a> SeqEmitter for Emitter<'a> {
    fn next(&mut self, state: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        self.enter(Op::Next, state)?;
        if self.pos == self.spec.kids.len() {
            return Ok(None);
        }
        Ok(Some(self.hand_out()))
    }
}

impl<'a> MapEmitter for Emitter<'a> {
    fn next_key(&mut self, state: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
        self.enter(Op::NextKey, state)?;
        if self.pos >= self.spec.kids.len() {
            return Ok(None);
        }
        if self.pos % 2 == 1 {
            bad("key asked instead of value".into());
        }
        Ok(Some(self.hand_out()))
    }
    fn next_value(&mut self, state: &SerializerState) -> Result<SerializeHandle<'_>, Error> {
        self.enter(Op::NextValue, state)?;
        if self.pos % 2 == 0 || self.pos >= self.spec.kids.len() {
            bad("value asked instead of key".into());
            return Ok(SerializeHandle::boxed(()));
        }
        Ok(self.hand_out())
    }
}

impl<'a> StructEmitter for Emitter<'a> {
    fn next(
        &mut self,
        state: &SerializerState,
    ) -> Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error> {
        self.enter(Op::Next, state)?;
        if self.pos == self.spec.kids.len() {
            return Ok(None);
        }
        let k = &self.spec.kids[self.pos];
        let name = &self.spec.names[self.pos];
        // a key borrowed from the emitter itself prevents other borrows, so
        // only styles that do not touch the emitter can be combined with it
        if self.spec.keystyle == 2
            && matches!(k.style, Style::Borrowed | Style::Owned | Style::OwnedBox | Style::OwnedRef | Style::OwnedSome)
        {
            self.pos += 1;
            self.key = name.clone();
            let h = match k.style {
                Style::Borrowed => SerializeHandle::to(k),
                Style::Owned => SerializeHandle::boxed(Own::new(k, self.uid)),
                Style::OwnedBox => SerializeHandle::boxed(Box::new(Own::new(k, self.uid))),
                Style::OwnedSome => SerializeHandle::boxed(Some(Own::new(k, self.uid))),
                _ => SerializeHandle::boxed(k),
            };
            return Ok(Some((Cow::Borrowed(&self.key), h)));
        }
        let key = match self.spec.keystyle {
            0 => Cow::Borrowed(name.as_str()),
            _ => Cow::Owned(name.clone()),
        };
        Ok(Some((key, self.hand_out())))
    }
}

/// All trees with at most `budget` nested values.
pub fn spec_tree(ch: &mut Ch, budget: &mut usize, depth: usize, leaf: &mut dyn FnMut(&mut Ch) -> Leaf) -> Spec {
    let kinds = if depth == 0 { 1 } else { 4 };
    match ch.pick(kinds) {
        0 => Spec::new(Kind::Leaf, leaf(ch), vec![]),
        k => {
            let kind = [Kind::Seq, Kind::Map, Kind::Struct][k - 1];
            let mut kids = vec![];
            while *budget > 0 && ch.flag() {
                *budget -= 1;
                if kind == Kind::Map {
                    kids.push(spec_tree(ch, budget, depth - 1, leaf));
                    if *budget == 0 {
                        kids.push(Spec::new(Kind::Leaf, leaf(ch), vec![]));
                        break;
                    }
                    *budget -= 1;
                }
                kids.push(spec_tree(ch, budget, depth - 1, leaf));
            }
            Spec::new(kind, Leaf::Null, kids)
        }
    }
}

/// Chooses a style for every nested value.
pub fn styles_all(ch: &mut Ch, s: &mut Spec, styles: &[Style]) {
    if s.kind == Kind::Struct {
        s.keystyle = ch.pick(3) as u8;
    }
    for k in s.kids.iter_mut() {
        k.style = ch.of(styles);
        styles_all(ch, k, styles);
    }
}

/// One style for all nested values, or styles in turn.
pub fn styles_cycle(ch: &mut Ch, s: &mut Spec) {
    let base = ch.pick(STYLES.len());
    let step = ch.pick(4);
    let ks = ch.pick(3) as u8;
    fn go(s: &mut Spec, n: &mut usize, base: usize, step: usize, ks: u8) {
        s.keystyle = ((ks as usize + *n * (step & 1)) % 3) as u8;
        for k in s.kids.iter_mut() {
            k.style = STYLES[(base + *n * step) % STYLES.len()];
            *n += 1;
            go(k, n, base, step, ks);
        }
    }
    let mut n = 0;
    go(s, &mut n, base, step, ks);
}

/// A chain or comb of containers with the given repeating pattern.
pub fn ladder(pattern: &[usize], depth: usize) -> Spec {
    let leaf = |n| Spec::new(Kind::Leaf, Leaf::U64(n), vec![]);
    let mut s = leaf(0);
    for i in (0..depth).rev() {
        s = match pattern[i % pattern.len()] {
            0 => Spec::new(Kind::Seq, Leaf::Null, vec![s]),
            1 => Spec::new(Kind::Map, Leaf::Null, vec![leaf(1), s]),
            2 => Spec::new(Kind::Map, Leaf::Null, vec![s, leaf(2)]),
            3 => Spec::new(Kind::Struct, Leaf::Null, vec![s]),
            _ => Spec::new(Kind::Seq, Leaf::Null, vec![leaf(3), s, leaf(4)]),
        };
    }
    s
}

pub fn wide(kind: usize, n: usize) -> Spec {
    let leaf = |n: usize| Spec::new(Kind::Leaf, Leaf::U64(n as u64), vec![]);
    match kind {
        0 => Spec::new(Kind::Seq, Leaf::Null, (0..n).map(leaf).collect()),
        1 => Spec::new(Kind::Map, Leaf::Null, (0..2 * n).map(leaf).collect()),
        2 => Spec::new(Kind::Struct, Leaf::Null, (0..n).map(leaf).collect()),
        _ => Spec::new(
            Kind::Seq,
            Leaf::Null,
            (0..n)
                .map(|x| match x % 3 {
                    0 => Spec::new(Kind::Seq, Leaf::Null, vec![leaf(x)]),
                    1 => Spec::new(Kind::Map, Leaf::Null, vec![leaf(x), leaf(x)]),
                    _ => Spec::new(Kind::Struct, Leaf::Null, vec![leaf(x)]),
                })
                .collect(),
        ),
    }
}

pub fn pattern(ch: &mut Ch) -> Vec<usize> {
    let n = 1 + ch.pick(2);
    (0..n).map(|_| ch.pick(5)).collect()
}

pub fn set_uniform(s: &mut Spec, st: Style, ks: u8) {
    s.keystyle = ks;
    for k in s.kids.iter_mut() {
        k.style = st;
        set_uniform(k, st, ks);
    }
}
