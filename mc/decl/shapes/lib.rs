//! Declarations of all supported shapes in surroundings that are easy to get
//! wrong. All of them have to compile and to survive the round trip.
#![allow(warnings)]
use deser::{Deserialize, Serialize};
use mc_core::{Obs, Res};
use mc_decl::{refuse, shape, ser_only};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

pub type Case = (&'static str, fn(&mut Obs) -> Res);

macro_rules! declare {
    ($($(#[$m:meta])* $item:item)*) => {
        $(#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)] $(#[$m])* $item)*
    };
}

declare! {
    pub struct Empty {}
    struct One { a: u64 }
    struct Gen<T> { t: T }
    struct Gen2<T, U> { t: T, u: Vec<U> }
    struct Bound<T: Clone + Debug, U> where U: PartialEq + Debug, { t: T, u: Option<U> }
    struct DefaultParam<T = u64> { t: T }
    struct Const<const N: usize> { a: [u64; N] }
    struct ConstAnd<T, const N: usize, const B: bool> { a: [T; N], b: T }
    struct NewGen<T>(T);
    struct NewBound<T>(Vec<T>) where T: Clone;
    struct NewConst<const N: usize>([u8; N]);
    struct NewVec(Vec<Option<u64>>);
    struct NewMap<K: Ord, V>(BTreeMap<K, V>);
    struct Nested<T> { g: Gen<NewGen<T>>, v: Vec<Gen2<T, T>> }
    struct Flat<T> { #[deser(flatten)] t: T, z: u64 }
    struct FlatBoth<T, U> { #[deser(flatten)] t: Gen<T>, #[deser(flatten)] u: U }
    struct Def<T: Default> { #[deser(default)] t: T, #[deser(default = "some_default")] u: u64 }
    struct SkipIf<T> { #[deser(skip_serializing_if = "Option::is_none", default)] t: Option<T>, #[deser(default = "Vec::new", skip_serializing_if = "Vec::is_empty")] v: Vec<T> }
    struct Recursive { v: Vec<Recursive>, n: Option<Box<Recursive>> }
    struct RecursiveGen<T> { t: T, n: Option<Box<RecursiveGen<T>>> }
    struct Static<T: 'static> { t: T }
    struct RelaxedParam<T: Sized + Send + Sync> { t: T }
    enum Never {}
    enum Single { Only }
    enum Values { A = 5, B = 1, C = -3 }
    enum Optional { None, Some, Ok, Err, Default, String }
    enum r#enum { r#fn, r#Type, Plain }
    struct r#struct { r#type: u64, r#fn: Option<u64>, r#match: r#enum, normal: u64 }
    struct r#loop(r#enum);
    struct Alloc { s: std::string::String, b: ::std::boxed::Box<u64>, m: std::collections::HashMap<String, u64> }
    struct Tuples { a: (u64, bool), b: ((u64,), [(u64, u64); 2]) }
    struct Units { u: () , v: Vec<()> }
    struct Parens { a: (u64), b: (Option<(u64)>) }
    // names that derived code could be using itself
    struct Names {
        slot: u64, key: u64, sink: u64, state: u64, __state: u64, index: u64, data: u64, value: u64, s: u64, __key: u64, __default: u64, __slot: u64,
        nested_emitter: u64, nested_emitter_exhausted: u64, field_slot: u64, field_key: u64, __other: u64, __sink: u64, __handle: u64, __index: u64, field: u64, val: u64, other: u64,
        atom: u64, map: u64, seq: u64, finish: u64, next: u64, descriptor: u64, deser: u64, std: u64, core: u64, take: u64,
    }
    struct NamesFlat { slot: u64, #[deser(flatten)] key: Names2, nested_emitter: Option<u64>, #[deser(flatten)] sink: Names3, index: u64, data: u64, nested_emitter_exhausted: bool, field_slot: u64 }
    struct Names2 { state: u64, __state: u64 }
    struct Names3 { __other: Option<u64> }
}

fn some_default() -> u64 {
    7
}

/// Everything derived at once and with defaults for everything.
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone, Default)]
#[deser(default)]
struct DefAll<T: Default> {
    t: T,
    u: Vec<u64>,
    #[deser(default = "some_default")]
    slot: u64,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
#[deser(default = "gen_default")]
struct DefPath<T: From<u8>> {
    t: T,
    r#type: u64,
}
fn gen_default<T: From<u8>>() -> DefPath<T> {
    DefPath { t: T::from(3), r#type: 9 }
}

// Attributes of others, visibilities, comments.
/// documented
#[derive(Debug)]
#[derive(Serialize)]
#[derive(Deserialize, PartialEq)]
#[repr(C)]
#[allow(non_snake_case)]
#[doc(hidden)]
pub(crate) struct Decorated {
    /// a field
    #[allow(dead_code)]
    #[cfg(all())]
    pub(crate) a: u64,
    #[cfg(any())]
    gone: NoSuchType,
    #[deser(rename = "b b")]
    /** another */
    #[deser(alias = "c")]
    pub(self) b: u64,
    pub r#d: u64,
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[repr(u8)]
#[non_exhaustive]
pub enum DecoratedEnum {
    /// a variant
    #[deser(rename = "x")]
    #[allow(dead_code)]
    A = 1,
    #[cfg(any())]
    Gone,
    #[cfg(all())]
    B,
}
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct DecoratedNew(
    /// the content
    #[allow(dead_code)]
    pub(crate) u64,
);
#[derive(Serialize, Deserialize, Debug, PartialEq)]
#[deser()]
struct EmptyAttrs {
    #[deser()]
    a: u64,
    #[deser(rename = "bb",)]
    b: u64,
}

// Made by macros.
macro_rules! made {
    ($name:ident, $field:ident : $ty:ty, $e:ident { $($v:ident),* }, $n:ident($nt:ty)) => {
        #[derive(Serialize, Deserialize, Debug, PartialEq)]
        pub struct $name { $field: $ty, own: Option<$ty>, slot: Vec<$ty> }
        #[derive(Serialize, Deserialize, Debug, PartialEq)]
        #[deser(rename_all = "UPPERCASE")]
        pub enum $e { $($v),* , Own }
        #[derive(Serialize, Deserialize, Debug, PartialEq)]
        pub struct $n($nt);
    };
}
made!(Made, key: Vec<u64>, MadeEnum { Ab, Cd }, MadeNew(Option<Vec<u64>>));

// Other things with the names of the prelude.
mod shadow {
    use ::mc_core::{Obs, Res};
    #[derive(::deser::Serialize, ::deser::Deserialize, Debug, PartialEq, Default)]
    pub struct Box {
        pub a: u64,
    }
    #[derive(::deser::Serialize, ::deser::Deserialize, Debug, PartialEq)]
    pub struct String(pub u64);
    #[derive(::deser::Serialize, ::deser::Deserialize, Debug, PartialEq)]
    pub enum Option {
        None,
        Some,
    }
    #[derive(::deser::Serialize, ::deser::Deserialize, Debug, PartialEq)]
    pub struct Vec<Result> {
        pub r: Result,
    }
    #[derive(::deser::Serialize, ::deser::Deserialize, Debug, PartialEq)]
    pub struct Result<Option, String> {
        pub b: Option,
        #[deser(flatten)]
        pub c: Vec<String>,
    }
    pub trait Default {}
    pub trait Sink {}
    pub trait Serialize {}
    pub trait Deserialize {}
    pub struct Atom;
    pub struct Chunk;
    pub struct Descriptor;
    pub struct SinkHandle;
    pub struct Error;
    pub struct ErrorKind;
    pub enum Cow {}
    pub enum StrCow {}
    pub fn Some(_: u8) {}
    pub fn Ok(_: u8) {}
    pub fn Err(_: u8) {}
    pub const None: u8 = 1;
    pub mod deser {}
    pub mod std {}
    pub mod core {}
    #[derive(::deser::Serialize, ::deser::Deserialize, Debug, PartialEq)]
    #[deser(skip_serializing_optionals)]
    pub struct Uses {
        pub b: Box,
        pub s: String,
        pub o: Option,
        #[deser(default = "seven")]
        pub n: u64,
        #[deser(flatten)]
        pub f: Vec<u64>,
        #[deser(rename = "x", alias = "y")]
        pub p: ::std::option::Option<bool>,
    }
    fn seven() -> u64 {
        7
    }
    pub fn check(o: &mut Obs) -> Res {
        mc_decl::shape(
            Uses { b: Box { a: 1 }, s: String(2), o: Option::Some, n: 3, f: Vec { r: 4 }, p: ::std::option::Option::Some(true) },
            r#"{ "b" { "a" 1u } "s" 2u "o" "Some" "n" 3u "r" 4u "x" true }"#,
            o,
        )?;
        mc_decl::shape(Result { b: 1u64, c: Vec { r: 2u64 } }, r#"{ "b" 1u "r" 2u }"#, o)
    }
}

// Names of traits and methods of the user must not get in the way.
trait Ext {
    fn borrow_mut(&mut self) -> u8 {
        1
    }
    fn descriptor(&self) -> u8 {
        1
    }
    fn is_optional(&self) -> u8 {
        1
    }
    fn serialize(&self) -> u8 {
        1
    }
    fn deserialize_into(&self) -> u8 {
        1
    }
}
impl Ext for WithMethods {}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct WithMethods {
    a: u64,
    #[deser(flatten)]
    b: One,
}
impl WithMethods {
    fn serialize(&self) -> u8 {
        1
    }
    fn deserialize_into(&self) -> u8 {
        1
    }
    fn finish(&self) -> u8 {
        1
    }
    fn default() -> u8 {
        2
    }
}

// Only serializable shapes.
#[derive(Serialize)]
struct Ref<'a> {
    s: &'a str,
    v: &'a Vec<u64>,
}
#[derive(Serialize)]
struct RefGen<'a, 'b: 'a, T: 'a, U> {
    t: &'a T,
    u: &'b U,
    o: Option<&'a T>,
}
#[derive(Serialize)]
struct RefNew<'a, T>(&'a T);
#[derive(Serialize)]
struct RefFlat<'a, T> {
    #[deser(flatten)]
    t: &'a Gen<T>,
    #[deser(flatten, skip_serializing_if = "never")]
    b: Box<Gen2<&'a T, u64>>,
}
fn never<T>(_: &T) -> bool {
    false
}
#[derive(Serialize)]
struct Where<'a, T>
where
    T: Clone,
    Vec<T>: Debug,
    &'a T: Debug,
{
    t: &'a [T; 2],
}

// The same names elsewhere.
mod other {
    #[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq)]
    #[deser(rename_all = "UPPERCASE")]
    pub struct One {
        pub a: bool,
    }
    pub mod deeper {
        #[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq)]
        pub struct One(pub super::One);
    }
}

fn in_function(o: &mut Obs) -> Res {
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    struct Local<T> {
        a: T,
    }
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    struct One(bool);
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    enum Option {
        Some,
    }
    {
        #[derive(Serialize, Deserialize, Debug, PartialEq)]
        struct One {
            b: Option,
        }
        shape(One { b: Option::Some }, r#"{ "b" "Some" }"#, o)?;
    }
    shape(Local { a: 1u64 }, r#"{ "a" 1u }"#, o)?;
    shape(One(true), "true", o)
}

fn fields(names: &[&str]) -> String {
    format!("{{ {} }}", names.iter().enumerate().map(|(i, n)| format!("{:?} {}u", n, i)).collect::<Vec<_>>().join(" "))
}

pub const CASES: &[Case] = &[
    ("empty struct", |o| shape(Empty {}, "{ }", o)),
    ("one field", |o| shape(One { a: 1 }, r#"{ "a" 1u }"#, o)),
    ("generic", |o| {
        shape(Gen { t: 1u64 }, r#"{ "t" 1u }"#, o)?;
        shape(Gen { t: Some(Gen { t: vec!["x".to_string()] }) }, r#"{ "t" { "t" [ "x" ] } }"#, o)
    }),
    ("two parameters", |o| shape(Gen2 { t: true, u: vec![1u64] }, r#"{ "t" true "u" [ 1u ] }"#, o)),
    ("bounds", |o| shape(Bound { t: 1u64, u: Some(2u64) }, r#"{ "t" 1u "u" 2u }"#, o)),
    ("default parameter", |o| {
        shape::<DefaultParam>(DefaultParam { t: 1 }, r#"{ "t" 1u }"#, o)?;
        shape::<DefaultParam<bool>>(DefaultParam { t: true }, r#"{ "t" true }"#, o)
    }),
    ("const parameter", |o| {
        shape(Const { a: [1, 2, 3] }, r#"{ "a" [ 1u 2u 3u ] }"#, o)?;
        shape(ConstAnd::<u64, 1, true> { a: [1], b: 2 }, r#"{ "a" [ 1u ] "b" 2u }"#, o)
    }),
    ("newtypes", |o| {
        shape(NewGen(1u64), "1u", o)?;
        shape(NewGen(NewGen(vec![1u64])), "[ 1u ]", o)?;
        shape(NewBound(vec![true]), "[ true ]", o)?;
        shape(NewVec(vec![None, Some(1)]), "[ null 1u ]", o)?;
        shape(NewMap(BTreeMap::from([("k".to_string(), 1u64)])), r#"{ "k" 1u }"#, o)?;
        shape(NewGen(Empty {}), "{ }", o)
    }),
    ("generics nested", |o| shape(Nested { g: Gen { t: NewGen(1u64) }, v: vec![Gen2 { t: 2, u: vec![3] }] }, r#"{ "g" { "t" 1u } "v" [ { "t" 2u "u" [ 3u ] } ] }"#, o)),
    ("generic flattened", |o| {
        shape(Flat { t: One { a: 1 }, z: 2 }, r#"{ "a" 1u "z" 2u }"#, o)?;
        shape(Flat { t: Gen { t: true }, z: 2 }, r#"{ "t" true "z" 2u }"#, o)?;
        shape(FlatBoth { t: Gen { t: 1u64 }, u: One { a: 2 } }, r#"{ "t" 1u "a" 2u }"#, o)
    }),
    ("generic defaults", |o| {
        shape(Def { t: 1u64, u: 2 }, r#"{ "t" 1u "u" 2u }"#, o)?;
        shape(SkipIf { t: Some(1u64), v: vec![2] }, r#"{ "t" 1u "v" [ 2u ] }"#, o)?;
        shape(SkipIf::<u64> { t: None, v: vec![] }, "{ }", o)?;
        shape(DefAll { t: 1u64, u: vec![], slot: 1 }, r#"{ "t" 1u "u" [ ] "slot" 1u }"#, o)?;
        shape(DefPath { t: 1u64, r#type: 2 }, r#"{ "t" 1u "type" 2u }"#, o)
    }),
    ("recursive", |o| {
        let r = || Recursive { v: vec![], n: None };
        shape(Recursive { v: vec![r()], n: Some(Box::new(r())) }, r#"{ "v" [ { "v" [ ] "n" null } ] "n" { "v" [ ] "n" null } }"#, o)?;
        shape(RecursiveGen { t: 1u64, n: Some(Box::new(RecursiveGen { t: 2, n: None })) }, r#"{ "t" 1u "n" { "t" 2u "n" null } }"#, o)
    }),
    ("static and auto trait bounds", |o| {
        shape(Static { t: 1u64 }, r#"{ "t" 1u }"#, o)?;
        shape(RelaxedParam { t: 1u64 }, r#"{ "t" 1u }"#, o)
    }),
    ("enums", |o| {
        shape(Single::Only, r#""Only""#, o)?;
        shape(Values::A, r#""A""#, o)?;
        shape(Values::B, r#""B""#, o)?;
        shape(Values::C, r#""C""#, o)?;
        shape(vec![Optional::None, Optional::Some, Optional::Ok, Optional::Err, Optional::Default, Optional::String], r#"[ "None" "Some" "Ok" "Err" "Default" "String" ]"#, o)?;
        refuse::<Never>(r#""x""#, o)
    }),
    ("raw identifiers", |o| {
        shape(r#struct { r#type: 1, r#fn: Some(2), r#match: r#enum::r#fn, normal: 3 }, r#"{ "type" 1u "fn" 2u "match" "fn" "normal" 3u }"#, o)?;
        shape(r#loop(r#enum::r#Type), r#""Type""#, o)?;
        shape(r#loop(r#enum::Plain), r#""Plain""#, o)
    }),
    ("qualified types", |o| shape(Alloc { s: "x".into(), b: Box::new(1), m: HashMap::from([("k".to_string(), 1)]) }, r#"{ "s" "x" "b" 1u "m" { "k" 1u } }"#, o)),
    ("tuples, units, parentheses", |o| {
        shape(Tuples { a: (1, true), b: ((2,), [(3, 4), (5, 6)]) }, r#"{ "a" [ 1u true ] "b" [ [ 2u ] [ [ 3u 4u ] [ 5u 6u ] ] ] }"#, o)?;
        shape(Units { u: (), v: vec![(), ()] }, r#"{ "u" null "v" [ null null ] }"#, o)?;
        shape(Parens { a: 1, b: Some(2) }, r#"{ "a" 1u "b" 2u }"#, o)
    }),
    ("field names", |o| {
        shape(
            Names {
                slot: 0, key: 1, sink: 2, state: 3, __state: 4, index: 5, data: 6, value: 7, s: 8, __key: 9, __default: 10, __slot: 11, nested_emitter: 12, nested_emitter_exhausted: 13,
                field_slot: 14, field_key: 15, __other: 16, __sink: 17, __handle: 18, __index: 19, field: 20, val: 21, other: 22, atom: 23, map: 24, seq: 25, finish: 26, next: 27,
                descriptor: 28, deser: 29, std: 30, core: 31, take: 32,
            },
            &fields(&[
                "slot", "key", "sink", "state", "__state", "index", "data", "value", "s", "__key", "__default", "__slot", "nested_emitter", "nested_emitter_exhausted", "field_slot", "field_key",
                "__other", "__sink", "__handle", "__index", "field", "val", "other", "atom", "map", "seq", "finish", "next", "descriptor", "deser", "std", "core", "take",
            ]),
            o,
        )?;
        shape(
            NamesFlat { slot: 0, key: Names2 { state: 1, __state: 2 }, nested_emitter: Some(3), sink: Names3 { __other: Some(4) }, index: 5, data: 6, nested_emitter_exhausted: true, field_slot: 8 },
            r#"{ "slot" 0u "state" 1u "__state" 2u "nested_emitter" 3u "__other" 4u "index" 5u "data" 6u "nested_emitter_exhausted" true "field_slot" 8u }"#,
            o,
        )
    }),
    ("other attributes", |o| {
        shape(Decorated { a: 1, b: 2, r#d: 3 }, r#"{ "a" 1u "b b" 2u "d" 3u }"#, o)?;
        shape(DecoratedEnum::A, r#""x""#, o)?;
        shape(DecoratedEnum::B, r#""B""#, o)?;
        shape(DecoratedNew(1), "1u", o)?;
        shape(EmptyAttrs { a: 1, b: 2 }, r#"{ "a" 1u "bb" 2u }"#, o)
    }),
    ("macros", |o| {
        shape(Made { key: vec![1], own: None, slot: vec![vec![2]] }, r#"{ "key" [ 1u ] "own" null "slot" [ [ 2u ] ] }"#, o)?;
        shape(MadeEnum::Ab, r#""AB""#, o)?;
        shape(MadeEnum::Own, r#""OWN""#, o)?;
        shape(MadeNew(Some(vec![1])), "[ 1u ]", o)
    }),
    ("shadowed names", |o| shadow::check(o)),
    ("methods of the user", |o| shape(WithMethods { a: 1, b: One { a: 2 } }, r#"{ "a" 1u "a" 2u }"#, o).or_else(|_| {
        // the own field takes what is sent last, so this one does not come back
        ser_only(&WithMethods { a: 1, b: One { a: 2 } }, r#"{ "a" 1u "a" 2u }"#, o)
    })),
    ("borrowed fields", |o| {
        ser_only(&Ref { s: "x", v: &vec![1] }, r#"{ "s" "x" "v" [ 1u ] }"#, o)?;
        ser_only(&RefGen { t: &1u64, u: &true, o: Some(&2) }, r#"{ "t" 1u "u" true "o" 2u }"#, o)?;
        ser_only(&RefNew(&Some(1u64)), "1u", o)?;
        ser_only(&RefFlat { t: &Gen { t: 1u64 }, b: Box::new(Gen2 { t: &2u64, u: vec![3] }) }, r#"{ "t" 1u "t" 2u "u" [ 3u ] }"#, o)?;
        ser_only(&Where { t: &[1u64, 2] }, r#"{ "t" [ 1u 2u ] }"#, o)
    }),
    ("same names elsewhere", |o| {
        shape(other::One { a: true }, r#"{ "A" true }"#, o)?;
        shape(other::deeper::One(other::One { a: true }), r#"{ "A" true }"#, o)
    }),
    ("in functions", in_function),
];
