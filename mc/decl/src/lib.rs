//! Declarations of structs and enums as data, their reference semantics, and
//! the derived types that are compared with them.
use deser::de::{Deserialize, DeserializeDriver};
use deser::ser::{Serialize, SerializeDriver};
use deser::{ErrorKind, Event};
use mc_core::{ensure, fail, guard, hash, Ch, Obs, Res};
pub use mc_vals::Val;
use mc_vals::{Ev, Leaf};
use std::cell::RefCell;
use std::fmt::Debug;

pub enum Ty {
    U64,
    Bool,
    Str,
    Unit,
    Opt(&'static Ty),
    Vec(&'static Ty),
    Box(&'static Ty),
    Struct(&'static Decl),
    Enum(&'static EnumDecl),
}

pub struct Field {
    pub ident: &'static str,
    /// The serialized name.
    pub name: &'static str,
    pub aliases: &'static [&'static str],
    pub ty: Ty,
    /// The field's own default and the number it is logged under.
    pub default: Option<(fn() -> Val, u32)>,
    pub skip: Option<fn(&Val) -> bool>,
    pub flat: bool,
}

pub struct Decl {
    /// The announced type name.
    pub name: &'static str,
    /// The declaration as it was written.
    pub text: &'static str,
    pub fields: &'static [Field],
    pub cdefault: Option<(fn() -> Val, u32)>,
    pub skip_opt: bool,
}

pub struct EnumDecl {
    pub text: &'static str,
    pub variants: &'static [(&'static str, &'static [&'static str])],
}

/// Field values and values in general are kept as trees: options as null or
/// their content, structs as the sequence of their fields, enums as the number
/// of the variant.
pub trait F: Sized {
    fn make(v: &Val) -> Self;
    fn see(&self) -> Val;
}

fn l(v: &Val) -> &Leaf {
    match v {
        Val::L(l) => l,
        _ => panic!("not a leaf: {:?}", v),
    }
}
pub fn items(v: &Val) -> &[Val] {
    match v {
        Val::Seq(v) => v,
        _ => panic!("not a sequence: {:?}", v),
    }
}
impl F for u64 {
    fn make(v: &Val) -> u64 {
        match l(v) {
            Leaf::U64(n) => *n,
            x => panic!("{:?}", x),
        }
    }
    fn see(&self) -> Val {
        Val::L(Leaf::U64(*self))
    }
}
impl F for bool {
    fn make(v: &Val) -> bool {
        matches!(l(v), Leaf::Bool(true))
    }
    fn see(&self) -> Val {
        Val::L(Leaf::Bool(*self))
    }
}
impl F for String {
    fn make(v: &Val) -> String {
        match l(v) {
            Leaf::Str(n) => n.clone(),
            x => panic!("{:?}", x),
        }
    }
    fn see(&self) -> Val {
        Val::L(Leaf::s(self))
    }
}
impl F for () {
    fn make(_: &Val) {}
    fn see(&self) -> Val {
        Val::L(Leaf::Null)
    }
}
impl<T: F> F for Option<T> {
    fn make(v: &Val) -> Option<T> {
        match v {
            Val::L(Leaf::Null) => None,
            v => Some(T::make(v)),
        }
    }
    fn see(&self) -> Val {
        match self {
            None => Val::L(Leaf::Null),
            Some(x) => x.see(),
        }
    }
}
impl<T: F> F for Vec<T> {
    fn make(v: &Val) -> Vec<T> {
        items(v).iter().map(T::make).collect()
    }
    fn see(&self) -> Val {
        Val::Seq(self.iter().map(T::see).collect())
    }
}
impl<T: F> F for Box<T> {
    fn make(v: &Val) -> Box<T> {
        Box::new(T::make(v))
    }
    fn see(&self) -> Val {
        (**self).see()
    }
}

pub fn num(n: u64) -> Val {
    Val::L(Leaf::U64(n))
}
pub fn boolean(b: bool) -> Val {
    Val::L(Leaf::Bool(b))
}
pub fn text(s: &str) -> Val {
    Val::L(Leaf::s(s))
}
pub fn null() -> Val {
    Val::L(Leaf::Null)
}
pub fn list(v: Vec<Val>) -> Val {
    Val::Seq(v)
}
pub fn index(v: &Val) -> usize {
    match l(v) {
        Leaf::U64(n) => *n as usize,
        x => panic!("{:?}", x),
    }
}
/// Low values are skipped by the skip predicates of the declarations.
pub fn is_low(v: &Val) -> bool {
    match v {
        Val::L(Leaf::U64(0)) | Val::L(Leaf::Null) | Val::L(Leaf::Bool(false)) => true,
        Val::L(Leaf::Str(s)) => s.is_empty(),
        Val::Seq(v) => v.first().map_or(true, is_low),
        _ => false,
    }
}
pub fn low<T: F>(v: &T) -> bool {
    is_low(&v.see())
}

pub fn is_high(v: &Val) -> bool {
    !is_low(v)
}
pub fn high<T: F>(v: &T) -> bool {
    is_high(&v.see())
}
pub fn is_any(_: &Val) -> bool {
    true
}
pub fn any<T: F>(_: &T) -> bool {
    true
}
pub fn is_never(_: &Val) -> bool {
    false
}
pub fn never<T: F>(_: &T) -> bool {
    false
}
pub fn is_null(v: &Val) -> bool {
    matches!(v, Val::L(Leaf::Null))
}
pub fn is_nothing(v: &Val) -> bool {
    match v {
        Val::L(Leaf::Str(s)) => s.is_empty(),
        Val::Seq(v) => v.is_empty(),
        _ => false,
    }
}

pub trait Subject: F + Serialize + Deserialize {
    const DECL: &'static Decl;
}
pub trait EnumSubject: F + Serialize + Deserialize {
    const DECL: &'static EnumDecl;
}

thread_local! {
    static CALLED: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
}
/// Called by every default function.
pub fn called(n: u32) {
    CALLED.with(|c| c.borrow_mut().push(n));
}

/// The defaults the last deserialization used.
pub fn calls() -> Vec<u32> {
    CALLED.with(|c| c.borrow().clone())
}

pub enum Any {
    Struct(&'static Decl),
    Enum(&'static EnumDecl),
}

/// A derived type behind plain functions.
pub struct Entry {
    pub group: &'static str,
    pub any: Any,
    ser: fn(&Val) -> Result<Traced, String>,
    de: fn(&[Ev]) -> Result<Val, (Option<ErrorKind>, String)>,
}

#[derive(Debug, PartialEq)]
pub struct Traced {
    pub events: Vec<Ev>,
    pub root: Option<String>,
    /// The names announced with map starts.
    pub maps: Vec<Option<String>>,
    pub optional: bool,
}

fn ser_of<T: F + Serialize>(v: &Val) -> Result<Traced, String> {
    let v = T::make(v);
    guard(|| {
        let mut t = Traced {
            events: vec![],
            root: v.descriptor().name().map(|x| x.into()),
            maps: vec![],
            optional: v.is_optional(),
        };
        let mut d = SerializeDriver::new(&v);
        while let Some((e, desc, _)) = d.next().map_err(|e| e.to_string())? {
            if let Event::MapStart = e {
                t.maps.push(desc.name().map(|x| x.into()));
            }
            t.events.push(Ev::of(&e));
        }
        Ok(t)
    })
    .unwrap_or_else(|m| Err(format!("panic {}", m)))
}

fn de_of<T: F + Deserialize>(evs: &[Ev]) -> Result<Val, (Option<ErrorKind>, String)> {
    CALLED.with(|c| c.borrow_mut().clear());
    let mut out: Option<T> = None;
    guard(|| {
        let mut d = DeserializeDriver::new(&mut out);
        for e in evs {
            d.emit(e.event()).map_err(|e| (Some(e.kind()), e.to_string()))?;
        }
        Ok(())
    })
    .unwrap_or_else(|m| Err((None, format!("panic {}", m))))?;
    match out {
        Some(v) => Ok(v.see()),
        None => Err((None, "no value".into())),
    }
}

impl Entry {
    pub const fn new<T: Subject>(group: &'static str) -> Entry {
        Entry {
            group,
            any: Any::Struct(T::DECL),
            ser: ser_of::<T>,
            de: de_of::<T>,
        }
    }
    pub const fn new_enum<T: EnumSubject>(group: &'static str) -> Entry {
        Entry {
            group,
            any: Any::Enum(T::DECL),
            ser: ser_of::<T>,
            de: de_of::<T>,
        }
    }
    pub fn decl(&self) -> &'static Decl {
        match self.any {
            Any::Struct(d) => d,
            _ => panic!("not a struct"),
        }
    }
    pub fn de(&self, evs: &[Ev]) -> Result<Val, (Option<ErrorKind>, String)> {
        (self.de)(evs)
    }
    pub fn ser(&self, v: &Val) -> Result<Traced, String> {
        (self.ser)(v)
    }
    pub fn text(&self) -> &'static str {
        match self.any {
            Any::Struct(d) => d.text,
            Any::Enum(d) => d.text,
        }
    }
}

// ------------------------------------------------------- reference semantics

/// Why a value tree does not fit.
#[derive(Debug, PartialEq, Clone)]
pub enum Bad {
    Misfit,
    /// any of these names
    Missing(Vec<String>),
}

pub fn interp(ty: &Ty, v: &Val) -> Result<Val, Bad> {
    match (ty, v) {
        (Ty::U64, Val::L(Leaf::U64(_))) | (Ty::Bool, Val::L(Leaf::Bool(_))) | (Ty::Str, Val::L(Leaf::Str(_))) | (Ty::Unit, Val::L(Leaf::Null)) => Ok(v.clone()),
        (Ty::Opt(_), Val::L(Leaf::Null)) => Ok(v.clone()),
        (Ty::Opt(t), v) | (Ty::Box(t), v) => interp(t, v),
        (Ty::Vec(t), Val::Seq(xs)) => Ok(Val::Seq(xs.iter().map(|x| interp(t, x)).collect::<Result<_, _>>()?)),
        (Ty::Struct(d), Val::Map(xs)) => {
            let mut s = State::new(d);
            for (k, x) in xs {
                match k {
                    Val::L(Leaf::Str(k)) => s.member(k, x)?,
                    _ => return Err(Bad::Misfit),
                }
            }
            s.finish()
        }
        (Ty::Enum(d), Val::L(Leaf::Str(s))) => match d.variants.iter().position(|(n, a)| n == s || a.contains(&&s[..])) {
            Some(i) => Ok(Val::L(Leaf::U64(i as u64))),
            None => Err(Bad::Misfit),
        },
        _ => Err(Bad::Misfit),
    }
}

enum Slot {
    Own(Option<Val>),
    Flat(Box<State>),
}
pub struct State {
    d: &'static Decl,
    slots: Vec<Slot>,
}

fn strip(ty: &'static Ty) -> &'static Ty {
    match ty {
        Ty::Box(t) => strip(t),
        t => t,
    }
}
fn flat_decl(f: &'static Field) -> &'static Decl {
    match strip(&f.ty) {
        Ty::Struct(d) => d,
        _ => panic!("flattened field {} is no struct", f.ident),
    }
}

impl State {
    pub fn new(d: &'static Decl) -> State {
        State {
            d,
            slots: d.fields.iter().map(|f| if f.flat { Slot::Flat(Box::new(State::new(flat_decl(f)))) } else { Slot::Own(None) }).collect(),
        }
    }
    fn knows(&self, key: &str) -> bool {
        self.d.fields.iter().zip(&self.slots).any(|(f, s)| match s {
            Slot::Own(_) => f.name == key || f.aliases.contains(&key),
            Slot::Flat(s) => s.knows(key),
        })
    }
    pub fn member(&mut self, key: &str, v: &Val) -> Result<(), Bad> {
        for (f, s) in self.d.fields.iter().zip(&mut self.slots) {
            if let Slot::Own(o) = s {
                if f.name == key || f.aliases.contains(&key) {
                    *o = Some(interp(&f.ty, v)?);
                    return Ok(());
                }
            }
        }
        for s in &mut self.slots {
            if let Slot::Flat(s) = s {
                if s.knows(key) {
                    return s.member(key, v);
                }
            }
        }
        Ok(())
    }
    pub fn finish(self) -> Result<Val, Bad> {
        let mut missing = vec![];
        let v = self.close(&mut missing);
        if missing.is_empty() {
            Ok(v)
        } else {
            Err(Bad::Missing(missing))
        }
    }
    fn close(self, missing: &mut Vec<String>) -> Val {
        let cd = self.d.cdefault.map(|x| (x.0)());
        let mut out = vec![];
        for (i, (f, s)) in self.d.fields.iter().zip(self.slots).enumerate() {
            out.push(match s {
                Slot::Flat(s) => s.close(missing),
                Slot::Own(Some(v)) => v,
                Slot::Own(None) => match (f.default, &cd, &f.ty) {
                    (Some(d), _, _) => (d.0)(),
                    (None, Some(cd), _) => items(cd)[i].clone(),
                    (None, None, Ty::Opt(_)) => Val::L(Leaf::Null),
                    _ => {
                        missing.push(f.name.into());
                        Val::L(Leaf::Null)
                    }
                },
            });
        }
        Val::Seq(out)
    }
    /// Logged defaults that are needed at the top level. (Those of values
    /// sent for fields are not known here, `all` tells what they may be.)
    pub fn needed(&self, out: &mut Vec<u32>) {
        let mut all = true;
        for (f, s) in self.d.fields.iter().zip(&self.slots) {
            match s {
                Slot::Flat(s) => s.needed(out),
                Slot::Own(Some(_)) => {}
                Slot::Own(None) => match f.default {
                    Some((_, n)) => out.push(n),
                    None => all = false,
                },
            }
        }
        if let (Some((_, n)), false) = (self.d.cdefault, all) {
            out.push(n);
        }
    }
    pub fn own_defaults(&self, out: &mut Vec<u32>) {
        for (f, s) in self.d.fields.iter().zip(&self.slots) {
            if let Slot::Flat(s) = s {
                s.own_defaults(out);
            }
            out.extend(f.default.map(|x| x.1));
        }
        out.extend(self.d.cdefault.map(|x| x.1));
    }
}

/// The events a value serializes to. Maps announce names in `maps`.
pub fn emit(ty: &'static Ty, v: &Val, out: &mut Vec<Ev>, maps: &mut Vec<Option<String>>) {
    match (ty, v) {
        (Ty::Opt(_), Val::L(Leaf::Null)) => out.push(Ev::A(Leaf::Null)),
        (Ty::Opt(t), v) => {
            // options have descriptors of their own
            let n = maps.len();
            emit(t, v, out, maps);
            if let (Ty::Struct(_), Some(m)) = (strip(t), maps.get_mut(n)) {
                *m = None;
            }
        }
        (Ty::Box(t), v) => emit(t, v, out, maps),
        (Ty::Vec(t), v) => {
            out.push(Ev::Ss);
            for x in items(v) {
                emit(t, x, out, maps);
            }
            out.push(Ev::Se);
        }
        (Ty::Struct(d), v) => {
            out.push(Ev::Ms);
            maps.push(Some(d.name.into()));
            members(d, v, d.skip_opt, out, maps);
            out.push(Ev::Me);
        }
        (Ty::Enum(d), v) => match v {
            Val::L(Leaf::U64(n)) => out.push(Ev::A(Leaf::s(d.variants[*n as usize].0))),
            v => panic!("{:?}", v),
        },
        (_, v) => out.push(Ev::A(l(v).clone())),
    }
}

fn optional(ty: &Ty, v: &Val) -> bool {
    match ty {
        Ty::Opt(t) => *v == Val::L(Leaf::Null) || optional(t, v),
        Ty::Box(t) => optional(t, v),
        Ty::Unit => true,
        _ => false,
    }
}

fn members(d: &'static Decl, v: &Val, skip_opt: bool, out: &mut Vec<Ev>, maps: &mut Vec<Option<String>>) {
    for (f, v) in d.fields.iter().zip(items(v)) {
        if f.skip.map_or(false, |s| s(v)) {
            continue;
        }
        if f.flat {
            let i = flat_decl(f);
            members(i, v, skip_opt || i.skip_opt, out, maps);
            continue;
        }
        if skip_opt && optional(&f.ty, v) {
            continue;
        }
        out.push(Ev::A(Leaf::s(f.name)));
        emit(&f.ty, v, out, maps);
    }
}

// ------------------------------------------------------------------- menus

/// Values of a field.
pub fn values(ty: &'static Ty) -> Vec<Val> {
    let n = |x: u64| Val::L(Leaf::U64(x));
    let s = |x: &str| Val::L(Leaf::s(x));
    match ty {
        Ty::U64 => vec![n(1), n(0)],
        Ty::Bool => vec![Val::L(Leaf::Bool(true)), Val::L(Leaf::Bool(false))],
        Ty::Str => vec![s("x"), s("")],
        Ty::Unit => vec![Val::L(Leaf::Null)],
        Ty::Opt(t) => {
            let mut v = values(t);
            v.push(Val::L(Leaf::Null));
            v
        }
        Ty::Box(t) => values(t),
        Ty::Vec(t) => {
            let v = values(t);
            vec![Val::Seq(v.iter().take(1).cloned().collect()), Val::Seq(vec![])]
        }
        Ty::Enum(d) => (0..d.variants.len()).map(|i| n(i as u64)).collect(),
        Ty::Struct(d) => {
            // all fields at their first, their second, their last value
            let m: Vec<Vec<Val>> = d.fields.iter().map(|f| values(&f.ty)).collect();
            let mut out: Vec<Val> = vec![];
            for k in 0..m.iter().map(|x| x.len()).max().unwrap_or(1) {
                out.push(Val::Seq(m.iter().enumerate().map(|(i, x)| x[(k + i) % x.len()].clone()).collect()));
            }
            out
        }
    }
}

/// What may be sent for a field: fitting values first.
pub fn sendable(ty: &'static Ty) -> Vec<Val> {
    let n = |x: u64| Val::L(Leaf::U64(x));
    let s = |x: &str| Val::L(Leaf::s(x));
    match ty {
        Ty::U64 => vec![n(5), n(6), s("5")],
        Ty::Bool => vec![Val::L(Leaf::Bool(true)), Val::L(Leaf::Bool(false)), n(1)],
        Ty::Str => vec![s("q"), s("w"), n(1)],
        Ty::Unit => vec![Val::L(Leaf::Null), n(1)],
        Ty::Opt(t) => {
            let mut v = vec![sendable(t)[0].clone(), Val::L(Leaf::Null)];
            v.extend(sendable(t).last().cloned());
            v
        }
        Ty::Box(t) => sendable(t),
        Ty::Vec(t) => vec![Val::Seq(vec![sendable(t)[0].clone()]), Val::Seq(vec![]), Val::Map(vec![])],
        Ty::Enum(d) => {
            let mut v: Vec<Val> = d.variants.iter().flat_map(|(n, a)| std::iter::once(n).chain(a.iter())).take(3).map(|x| s(x)).collect();
            v.push(s("no variant"));
            v
        }
        Ty::Struct(d) => {
            let mut full = vec![];
            let mut rev = vec![];
            for f in d.fields {
                let v = sendable(&f.ty);
                if !f.flat {
                    full.push((s(f.name), v[0].clone()));
                    rev.insert(0, (s(f.aliases.first().unwrap_or(&f.name)), v[1 % v.len()].clone()));
                }
            }
            vec![Val::Map(full), Val::Map(rev), Val::Map(vec![]), n(1)]
        }
    }
}

/// The names something can be sent under, and what for.
pub fn keys(d: &'static Decl) -> Vec<(String, Option<&'static Ty>)> {
    fn go(d: &'static Decl, out: &mut Vec<(String, Option<&'static Ty>)>) {
        for f in d.fields {
            if f.flat {
                go(flat_decl(f), out);
                continue;
            }
            for n in std::iter::once(&f.name).chain(f.aliases) {
                if !out.iter().any(|x| x.0 == *n) {
                    out.push((n.to_string(), Some(&f.ty)));
                }
            }
        }
    }
    let mut out = vec![];
    go(d, &mut out);
    out
}

/// Names close to the known ones that are not known.
pub fn strangers(d: &'static Decl) -> Vec<String> {
    fn go(d: &'static Decl, out: &mut Vec<String>) {
        for f in d.fields {
            if f.flat {
                go(flat_decl(f), out);
            }
            out.push(f.ident.into());
        }
    }
    let known = keys(d);
    let mut v = vec![];
    go(d, &mut v);
    v.push("zz".into());
    v.retain(|x| !known.iter().any(|k| k.0 == *x));
    v.sort();
    v.dedup();
    v
}

// ------------------------------------------------------------------- checks

pub fn outcome(x: &Result<Val, (Option<ErrorKind>, String)>) -> String {
    match x {
        Ok(v) => v.show(),
        Err(e) => format!("error {}", e.1),
    }
}

/// Deserializes members and compares with the reference.
pub fn check_de(e: &Entry, members: &[(Val, Val)], o: &mut Obs) -> Res {
    let d = e.decl();
    let evs = Val::Map(members.to_vec()).evs();
    let got = e.de(&evs);
    let mut s = State::new(d);
    let mut bad = None;
    for (k, v) in members {
        if let Val::L(Leaf::Str(k)) = k {
            if let Err(b) = s.member(k, v) {
                bad = Some(b);
                break;
            }
        }
    }
    let (mut needed, mut own) = (vec![], vec![]);
    s.needed(&mut needed);
    s.own_defaults(&mut own);
    let want = match bad {
        Some(b) => Err(b),
        None => s.finish(),
    };
    o.step_h(hash(&(d.text, format!("{:?}", want))));
    let what = || format!("{}\n from {}", d.text, mc_vals::show(&evs));
    o.sample(what);
    match (&want, &got) {
        (Ok(w), Ok(g)) if w == g => {
            o.class("filled");
            let calls = CALLED.with(|c| c.borrow().clone());
            if let Some(n) = calls.iter().find(|c| own.contains(c) && !needed.contains(c)) {
                fail!("{}: default function {} was called although everything it is for was sent", what(), n);
            }
            Ok(())
        }
        (Err(Bad::Misfit), Err((Some(_), _))) => {
            o.class("misfit");
            Ok(())
        }
        (Err(Bad::Missing(names)), Err((Some(ErrorKind::MissingField), m))) => {
            o.class("missing");
            ensure!(names.iter().any(|n| m.contains(&format!("'{}'", n)) || m.contains(&n[..]) && n.len() > 2), "{}: the error names none of {:?}: {}", what(), names, m);
            Ok(())
        }
        _ => fail!("{}: {}, expected {:?}", what(), outcome(&got), want.map(|x| x.show())),
    }
}

pub fn check_ser(e: &Entry, v: &Val, o: &mut Obs) -> Res {
    let d = e.decl();
    let (mut want, mut maps) = (vec![], vec![]);
    let got = e.ser(v);
    // the declaration as a type
    want.push(Ev::Ms);
    maps.push(Some(d.name.to_string()));
    members(d, v, d.skip_opt, &mut want, &mut maps);
    want.push(Ev::Me);
    o.step_h(hash(&(d.text, &want)));
    let what = || format!("{}\n with fields {}", d.text, v.show());
    o.sample(what);
    match got {
        Ok(t) => {
            ensure!(t.events == want, "{}: {} instead of {}", what(), mc_vals::show(&t.events), mc_vals::show(&want));
            let same = t.maps.len() == maps.len() && t.maps.iter().zip(&maps).all(|(a, b)| b.is_none() || a == b);
            ensure!(same && t.root.as_deref() == Some(d.name), "{}: announced as {:?} with {:?} instead of {:?}", what(), t.root, t.maps, maps);
            ensure!(!t.optional, "{}: says it is optional", what());
            Ok(())
        }
        Err(m) => fail!("{}: {}", what(), m),
    }
}

/// All values of a struct; two values per field if there are more than
/// `limit`; if there are still more, those that differ in at most two fields
/// from one of two values.
pub fn pick_value(ch: &mut Ch, d: &'static Decl, limit: usize) -> Val {
    fn fields(d: &'static Decl) -> usize {
        d.fields.iter().map(|f| if f.flat { fields(flat_decl(f)) } else { 1 }).sum()
    }
    fn go(ch: &mut Ch, d: &'static Decl, few: bool, fixed: &mut dyn FnMut() -> Option<bool>) -> Val {
        Val::Seq(
            d.fields
                .iter()
                .map(|f| {
                    if f.flat {
                        return go(ch, flat_decl(f), few, fixed);
                    }
                    let mut v = values(&f.ty);
                    if let Some(last) = fixed() {
                        return if last { v.pop().unwrap() } else { v.remove(0) };
                    }
                    if few {
                        let last = v.pop().unwrap();
                        v.truncate(1);
                        if v.first() != Some(&last) {
                            v.push(last);
                        }
                    }
                    ch.of(&v)
                })
                .collect(),
        )
    }
    let n = fields(d);
    let few = 3usize.saturating_pow(n as u32) > limit;
    if 2usize.saturating_pow(n as u32) > limit {
        let base = ch.flag();
        let i = ch.pick(n);
        let j = i + ch.pick(n - i);
        let mut at = 0;
        let mut fixed = move || {
            at += 1;
            Some((at - 1 == i || at - 1 == j) != base)
        };
        return go(ch, d, few, &mut fixed);
    }
    go(ch, d, few, &mut || None)
}

/// All sequences of members, as long as `limit` allows.
pub fn pick_members(ch: &mut Ch, d: &'static Decl, limit: usize, misfits: bool) -> Vec<(Val, Val)> {
    let mut menu: Vec<(Val, Val)> = vec![];
    for (k, ty) in keys(d) {
        let mut vs = sendable(ty.unwrap());
        if !misfits {
            vs.truncate(2);
        }
        for v in vs {
            menu.push((Val::L(Leaf::s(&k)), v));
        }
    }
    for (i, k) in strangers(d).into_iter().enumerate() {
        let v = [Val::L(Leaf::U64(9)), Val::Map(vec![(Val::L(Leaf::s("a")), Val::Seq(vec![Val::L(Leaf::U64(1))]))])][i % 2].clone();
        menu.push((Val::L(Leaf::s(&k)), v));
    }
    let mut max = 1;
    while max < 5 && menu.len().saturating_pow(max as u32 + 1) <= limit {
        max += 1;
    }
    let n = ch.pick(max + 1);
    (0..n).map(|_| ch.of(&menu)).collect()
}

/// Permutations of all fields sent once, which may be longer.
pub fn pick_complete(ch: &mut Ch, d: &'static Decl) -> Vec<(Val, Val)> {
    let mut rest: Vec<(String, Option<&'static Ty>)> = vec![];
    fn go(d: &'static Decl, out: &mut Vec<(String, Option<&'static Ty>)>) {
        for f in d.fields {
            if f.flat {
                go(flat_decl(f), out);
            } else if !out.iter().any(|x| x.0 == f.name) {
                out.push((f.name.into(), Some(&f.ty)));
            }
        }
    }
    go(d, &mut rest);
    let mut out = vec![];
    while !rest.is_empty() {
        // all orders of up to five, rotations of more
        let i = if rest.len() <= 5 { ch.pick(rest.len()) } else { 0 };
        let (k, t) = rest.remove(i);
        let vs = sendable(t.unwrap());
        let v = vs[out.len() % vs.len().min(2)].clone();
        out.push((Val::L(Leaf::s(&k)), v));
    }
    out
}

/// A derived type of a shape the descriptions above do not cover: the value
/// has to become this and back.
pub fn shape<T: Serialize + Deserialize + PartialEq + Debug>(v: T, want: &str, o: &mut Obs) -> Res {
    let evs = match mc_vals::events_of(&v) {
        Ok(e) => e,
        Err(e) => fail!("{:?}: {}", v, e),
    };
    o.step_h(hash(&evs));
    o.sample(|| format!("{:?}", v));
    ensure!(mc_vals::show(&evs) == want, "{:?} serializes as {}, expected {}", v, mc_vals::show(&evs), want);
    let mut out: Option<T> = None;
    let r = guard(|| {
        let mut d = DeserializeDriver::new(&mut out);
        for e in &evs {
            d.emit(e.event())?;
        }
        Ok::<(), deser::Error>(())
    });
    match r {
        Ok(Ok(())) => {}
        r => fail!("{:?} from {}: {:?}", v, want, r.map(|x| x.map_err(|e| e.to_string()))),
    }
    ensure!(out.as_ref() == Some(&v), "{:?} came back as {:?}", v, out);
    Ok(())
}

pub fn ser_only(v: &dyn Serialize, want: &str, o: &mut Obs) -> Res {
    let evs = match mc_vals::events_of(v) {
        Ok(e) => e,
        Err(e) => fail!("{}: {}", want, e),
    };
    o.step_h(hash(&evs));
    ensure!(mc_vals::show(&evs) == want, "serializes as {}, expected {}", mc_vals::show(&evs), want);
    Ok(())
}

/// A type that accepts nothing.
pub fn refuse<T: Deserialize>(text: &str, o: &mut Obs) -> Res {
    for l in [Leaf::Null, Leaf::U64(0), Leaf::s(text.trim_matches('"')), Leaf::Bool(true)] {
        let evs = [Ev::A(l)];
        o.step_h(hash(&evs[..]));
        let r = guard(|| {
            let mut out: Option<T> = None;
            DeserializeDriver::new(&mut out).emit(evs[0].event()).map_err(|_| ())?;
            Ok::<bool, ()>(out.is_some())
        });
        ensure!(matches!(r, Ok(Err(())) | Ok(Ok(false))), "{} was accepted", mc_vals::show(&evs));
    }
    Ok(())
}
