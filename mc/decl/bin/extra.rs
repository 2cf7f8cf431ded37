//! Hand-written parts of the checks.
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, Serialize, SerializeDriver, SerializeHandle, SerializerState, StructEmitter};
use deser::{Error, Event};
use mc_core::{ensure, fail, guard, hash, Ch, Obs, Res, Runner};
use mc_decl::*;
use mc_vals::{events_of, show, Ev, Leaf};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

// ---------------------------------------------------------- unknown members

fn leaf(i: usize) -> Val {
    match i % 9 {
        0 => null(),
        1 => num(3),
        2 => text("a_a"),
        3 => Val::L(Leaf::Bool(true)),
        4 => Val::L(Leaf::I64(-1)),
        5 => Val::L(Leaf::F64(1.5)),
        6 => Val::L(Leaf::Char('x')),
        7 => Val::L(Leaf::Bytes(vec![1, 0xff])),
        _ => text(""),
    }
}

/// All shapes of lists of trees with exactly `n` nodes.
fn forests(n: usize, at: usize, rot: usize) -> Vec<Vec<Val>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for k in 1..=n {
        for t in trees(k, at, rot) {
            for mut rest in forests(n - k, at + k, rot) {
                rest.insert(0, t.clone());
                out.push(rest);
            }
        }
    }
    out
}
fn trees(n: usize, at: usize, rot: usize) -> Vec<Val> {
    if n == 1 {
        return vec![leaf(at + rot), Val::Seq(vec![]), Val::Map(vec![])];
    }
    let mut out = vec![];
    for f in forests(n - 1, at + 1, rot) {
        out.push(Val::Seq(f.clone()));
        let keys = ["a_a", "a", "zz", "b", "k"];
        out.push(Val::Map(f.into_iter().enumerate().map(|(i, v)| (if (i + rot) % 4 == 3 { num(i as u64) } else { text(keys[(i + at + rot) % 5]) }, v)).collect()));
    }
    out
}

pub fn unknown_values(n: usize) -> Vec<Val> {
    let mut out: Vec<Val> = (0..9).map(leaf).collect();
    for k in 1..=n {
        for rot in 0..3 {
            for t in trees(k, 0, rot) {
                if !out.contains(&t) {
                    out.push(t);
                }
            }
        }
    }
    if n > 2 {
        out.push(Val::Seq((0..600).map(|i| leaf(i)).collect()));
        out.push(Val::Map((0..600).map(|i| (text(["a_a", "p", "zz"][i % 3]), leaf(i))).collect()));
        let mut s = num(1);
        let mut m = num(1);
        for i in 0..200 {
            s = Val::Seq(vec![s]);
            m = if i % 2 == 0 { Val::Map(vec![(text("a_a"), m)]) } else { Val::Seq(vec![null(), m]) };
        }
        out.push(s);
        out.push(m);
        // containers as keys
        out.push(Val::Map(vec![(Val::Seq(vec![num(1), Val::Map(vec![])]), text("v")), (Val::Map(vec![(num(1), num(2))]), Val::Seq(vec![]))]));
    }
    out
}

pub fn check_skip(ch: &mut Ch, e: &Entry, m: Vec<(Val, Val)>, vals: &[Val], o: &mut Obs) -> Res {
    let d = e.decl();
    let known = keys(d);
    let mut names = strangers(d);
    for x in ["", "a_a ", "A"] {
        if !known.iter().any(|k| k.0 == x) && !names.iter().any(|k| k == x) {
            names.push(x.into());
        }
    }
    // the names rotate with the values, every position is tried
    let vi = ch.pick(vals.len());
    let at = ch.pick(m.len() + 1);
    let name = names[(vi + at) % names.len()].clone();
    let plain = Val::Map(m.clone()).evs();
    let mut with = m;
    with.insert(at, (text(&name), vals[vi].clone()));
    let with = Val::Map(with).evs();
    let a = e.de(&plain);
    let ca = mc_decl::calls();
    let b = e.de(&with);
    let cb = mc_decl::calls();
    o.step_h(hash(&(d.text, &with)));
    let cut = |s: String| s.chars().take(600).collect::<String>();
    o.sample(|| cut(format!("{} from {}", d.text, show(&with))));
    o.class(if a.is_ok() { "value" } else { "missing" });
    ensure!(a == b && ca == cb, "{}\n from {}: {}, but without the member {:?}: {}", d.text, cut(show(&with)), cut(outcome(&b)), name, cut(outcome(&a)));
    Ok(())
}

fn into_null(evs: &[Ev]) -> Result<(), String> {
    guard(|| {
        let mut d = DeserializeDriver::from_sink(SinkHandle::null());
        for e in evs {
            d.emit(e.event()).map_err(|e| e.to_string())?;
        }
        Ok(())
    })
    .unwrap_or_else(|m| Err(format!("panic {}", m)))
}

pub fn null_sink(r: &mut Runner) {
    let vals = unknown_values(r.b(6, 7));
    r.section("null sink", &format!("{} values (all trees of up to {} nodes, deep and wide ones)", vals.len(), r.b(6, 7)), |ch, o| {
        let v = ch.of(&vals);
        let evs = v.evs();
        o.step_h(hash(&evs));
        if let Err(m) = into_null(&evs) {
            fail!("the null sink refuses {}: {}", show(&evs).chars().take(600).collect::<String>(), m);
        }
        Ok(())
    });
    let deep = r.b(20_000, 100_000);
    r.section("null sink, long and deep", &format!("sequences and maps of up to {0} members, nestings of up to {0}", deep), |ch, o| {
        let n = [1_000, deep][ch.pick(2)];
        let mut evs = vec![];
        match ch.pick(4) {
            0 => {
                evs.push(Ev::Ss);
                (0..n).for_each(|i| evs.push(Ev::A(Leaf::U64(i as u64))));
                evs.push(Ev::Se);
            }
            1 => {
                evs.push(Ev::Ms);
                (0..2 * n).for_each(|i| evs.push(Ev::A(Leaf::U64(i as u64))));
                evs.push(Ev::Me);
            }
            2 => {
                (0..n).for_each(|_| evs.push(Ev::Ss));
                (0..n).for_each(|_| evs.push(Ev::Se));
            }
            _ => {
                (0..n).for_each(|_| {
                    evs.push(Ev::Ms);
                    evs.push(Ev::A(Leaf::s("k")));
                });
                evs.push(Ev::A(Leaf::Null));
                (0..n).for_each(|_| evs.push(Ev::Me));
            }
        }
        o.step_h(hash(&evs));
        if let Err(m) = into_null(&evs) {
            fail!("the null sink refuses {} events starting with {}: {}", evs.len(), show(&evs[..4]), m);
        }
        Ok(())
    });
}

#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq, Clone)]
struct Pt {
    x: u64,
    #[deser(default)]
    y: Vec<u64>,
}
#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq, Clone)]
struct Wrap {
    p: Pt,
    #[deser(flatten)]
    q: Flat,
    o: Option<Pt>,
}
#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq, Clone)]
struct Flat {
    w: u64,
    #[deser(flatten)]
    v: Flat2,
}
#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq, Clone)]
struct Flat2 {
    #[deser(default)]
    f: Option<Pt>,
}
#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq, Clone)]
struct New<T>(T);

fn target<T: Deserialize + Debug>(evs: &[Ev]) -> Result<String, String> {
    guard(|| {
        let mut out: Option<T> = None;
        {
            let mut d = DeserializeDriver::new(&mut out);
            for e in evs {
                d.emit(e.event()).map_err(|e| format!("{:?} {}", e.kind(), e))?;
            }
        }
        Ok(format!("{:?}", out))
    })
    .unwrap_or_else(|m| Err(format!("panic {}", m)))
}

fn json<T: Deserialize + Debug>(evs: &[Ev]) -> Result<String, String> {
    let t = text_of(&Val::parse(evs).unwrap());
    match guard(|| deser_json::from_str::<T>(&t)) {
        Ok(Ok(v)) => Ok(format!("Some({:?})", v)),
        Ok(Err(e)) => Err(e.to_string()),
        Err(m) => Err(format!("panic {}", m)),
    }
}

/// JSON text of a value; what JSON cannot express becomes something it can.
fn text_of(v: &Val) -> String {
    match v {
        Val::L(l) => match l {
            Leaf::Null => "null".into(),
            Leaf::Bool(b) => b.to_string(),
            Leaf::Str(s) => format!("{:?}", s),
            Leaf::Char(c) => format!("{:?}", c.to_string()),
            Leaf::Bytes(_) => "[1,255]".into(),
            Leaf::U64(n) => n.to_string(),
            Leaf::I64(n) => n.to_string(),
            Leaf::F64(n) => format!("{:?}", n),
        },
        Val::Seq(v) => format!("[{}]", v.iter().map(text_of).collect::<Vec<_>>().join(",")),
        Val::Map(v) => format!(
            "{{{}}}",
            v.iter()
                .map(|(k, v)| {
                    let k = match k {
                        Val::L(Leaf::Str(s)) => format!("{:?}", s),
                        k => format!("{:?}", k.show()),
                    };
                    format!("{}:{}", k, text_of(v))
                })
                .collect::<Vec<_>>()
                .join(",")
        ),
    }
}

type Parse = fn(&[Ev]) -> Result<String, String>;

pub fn nested(r: &mut Runner, vals: &[Val]) {
    // values and the maps in them that belong to derived structs
    let pt = || Val::Map(vec![(text("x"), num(1)), (text("y"), list(vec![num(2)]))]);
    let wrap = || Val::Map(vec![(text("w"), num(5)), (text("p"), pt()), (text("f"), pt()), (text("o"), pt())]);
    type W = (&'static str, Val, Parse, Parse);
    let cases: Vec<W> = vec![
        ("Pt", pt(), target::<Pt>, json::<Pt>),
        ("Option<Pt>", pt(), target::<Option<Pt>>, json::<Option<Pt>>),
        ("Box<Pt>", pt(), target::<Box<Pt>>, json::<Box<Pt>>),
        ("New<Pt>", pt(), target::<New<Pt>>, json::<New<Pt>>),
        ("Vec<Pt>", list(vec![pt(), pt()]), target::<Vec<Pt>>, json::<Vec<Pt>>),
        ("(u64, Pt)", list(vec![num(1), pt()]), target::<(u64, Pt)>, json::<(u64, Pt)>),
        ("[Pt; 2]", list(vec![pt(), pt()]), target::<[Pt; 2]>, json::<[Pt; 2]>),
        ("Wrap", wrap(), target::<Wrap>, json::<Wrap>),
        ("Vec<Option<Wrap>>", list(vec![null(), wrap()]), target::<Vec<Option<Wrap>>>, json::<Vec<Option<Wrap>>>),
    ];
    /// All maps of the value with something inserted at all places.
    fn inserted(v: &Val, x: &(Val, Val), out: &mut Vec<Val>) {
        match v {
            Val::L(_) => {}
            Val::Seq(xs) => {
                for i in 0..xs.len() {
                    let mut sub = vec![];
                    inserted(&xs[i], x, &mut sub);
                    for s in sub {
                        let mut c = xs.clone();
                        c[i] = s;
                        out.push(Val::Seq(c));
                    }
                }
            }
            Val::Map(xs) => {
                for i in 0..=xs.len() {
                    let mut c = xs.clone();
                    c.insert(i, x.clone());
                    out.push(Val::Map(c));
                }
                for i in 0..xs.len() {
                    let mut sub = vec![];
                    inserted(&xs[i].1, x, &mut sub);
                    for s in sub {
                        let mut c = xs.clone();
                        c[i].1 = s;
                        out.push(Val::Map(c));
                    }
                }
            }
        }
    }
    r.section("nested", &format!("{} types x all maps in a value x all positions x {} values, from events and from JSON", cases.len(), vals.len()), |ch, o| {
        let (name, base, t, j) = &cases[ch.pick(cases.len())];
        let x = (text(["unknown", "X", "", "yy", "q", "v"][ch.pick(6)]), ch.of(vals));
        let mut all = vec![];
        inserted(base, &x, &mut all);
        let with = ch.of(&all);
        let from_json = ch.flag();
        let parse = if from_json { j } else { t };
        let evs = with.evs();
        o.step_h(hash(&(name, &evs, from_json)));
        let (a, b) = (parse(&base.evs()), parse(&evs));
        ensure!(a.is_ok(), "{} from {}: {:?}", name, base.show(), a);
        ensure!(a == b, "{} from {}: {:?}, without the member {:?}", name, show(&evs).chars().take(600).collect::<String>(), b, a);
        Ok(())
    });
}

// ----------------------------------------------------------------- newtypes

#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq, Clone, Copy, PartialOrd, Eq, Ord)]
enum Kind {
    A,
    B,
}
#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq, Clone)]
#[deser(rename = "Renamed", rename_all = "UPPERCASE", skip_serializing_optionals)]
struct Attr<T>(T);
#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq, Clone)]
struct Plain(u64);
#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq, Clone)]
#[deser(skip_serializing_optionals)]
struct Holder<T> {
    a: u64,
    w: T,
}
#[derive(deser::Serialize, deser::Deserialize, Debug, PartialEq, Clone)]
#[deser(skip_serializing_optionals)]
struct HolderNew<T> {
    a: u64,
    w: New<T>,
}

fn look<T: Serialize>(v: &T) -> Result<(Vec<String>, bool, Option<String>, Option<usize>, bool), String> {
    guard(|| {
        let mut evs = vec![];
        let mut d = SerializeDriver::new(v);
        while let Some((e, desc, _)) = d.next().map_err(|e| e.to_string())? {
            evs.push(format!("{} {:?} {:?} {}", show(&[Ev::of(&e)]), desc.name(), desc.precision(), desc.unordered()));
        }
        let d = v.descriptor();
        Ok((evs, v.is_optional(), d.name().map(|x| x.to_string()), d.precision(), d.unordered()))
    })
    .unwrap_or_else(|m| Err(format!("panic {}", m)))
}

trait Case: Sync {
    fn name(&self) -> String;
    fn values(&self) -> usize;
    fn ser(&self, i: usize) -> Res;
    fn de(&self, evs: &[Ev], o: &mut Obs) -> Res;
    fn events(&self, i: usize) -> Vec<Ev>;
}
struct Of<T>(&'static str, Vec<T>);
impl<T: Serialize + Deserialize + Debug + Clone + Sync + PartialEq> Case for Of<T> {
    fn name(&self) -> String {
        self.0.into()
    }
    fn values(&self) -> usize {
        self.1.len()
    }
    fn events(&self, i: usize) -> Vec<Ev> {
        events_of(&self.1[i]).unwrap()
    }
    fn ser(&self, i: usize) -> Res {
        let v = &self.1[i];
        let want = look(v);
        ensure!(want.is_ok(), "{:?}: {:?}", v, want);
        for (n, got) in [("newtype", look(&New(v.clone()))), ("newtype with attributes", look(&Attr(v.clone()))), ("newtype of newtype", look(&New(New(v.clone()))))] {
            ensure!(want == got, "{} of {:?}: {:?} instead of {:?}", n, v, got, want);
        }
        let (a, b) = (look(&Holder { a: 1, w: v.clone() }), look(&HolderNew { a: 1, w: New(v.clone()) }));
        let fix = |x: Result<(Vec<String>, bool, Option<String>, Option<usize>, bool), String>| x.map(|x| x.0.join("|").replace("HolderNew", "Holder"));
        let (a, b) = (fix(a), fix(b));
        ensure!(a == b, "newtype of {:?} as a field of a struct without optionals: {:?} instead of {:?}", v, b, a);
        Ok(())
    }
    fn de(&self, evs: &[Ev], o: &mut Obs) -> Res {
        let a = target::<T>(evs);
        o.class(if a.is_ok() { "accepted" } else { "refused" });
        for (n, b) in [("New", target::<New<T>>(evs)), ("Attr", target::<Attr<T>>(evs))] {
            let want = a.clone().map(|x| if x == "None" { x } else { format!("Some({}({}))", n, x.strip_prefix("Some(").unwrap().strip_suffix(')').unwrap()) });
            ensure!(want == b, "{}<{}> from {}: {:?}, expected {:?}", n, self.0, show(evs), b, want);
        }
        Ok(())
    }
}

pub fn newtypes(r: &mut Runner) {
    let pt = Pt { x: 1, y: vec![] };
    let cases: Vec<Box<dyn Case>> = vec![
        Box::new(Of("u8", vec![0u8, 255])),
        Box::new(Of("u64", vec![0u64, u64::MAX])),
        Box::new(Of("i64", vec![0i64, -1, i64::MIN])),
        Box::new(Of("f32", vec![0.5f32])),
        Box::new(Of("f64", vec![0.5f64, 1e300])),
        Box::new(Of("bool", vec![true, false])),
        Box::new(Of("char", vec!['a', '"'])),
        Box::new(Of("()", vec![()])),
        Box::new(Of("String", vec![String::new(), "x".into()])),
        Box::new(Of("Option<u64>", vec![None, Some(1u64)])),
        Box::new(Of("Option<()>", vec![None, Some(())])),
        Box::new(Of("Option<Vec<u64>>", vec![None, Some(vec![1u64])])),
        Box::new(Of("Box<u64>", vec![Box::new(1u64)])),
        Box::new(Of("Vec<u8>", vec![vec![], vec![1u8, 2]])),
        Box::new(Of("Vec<u64>", vec![vec![], vec![1u64, 2]])),
        Box::new(Of("Vec<Option<u64>>", vec![vec![None, Some(2u64)]])),
        Box::new(Of("BTreeMap", vec![BTreeMap::new(), BTreeMap::from([("k".to_string(), 1u64)])])),
        Box::new(Of("BTreeSet", vec![BTreeSet::from([1u64, 2])])),
        Box::new(Of("(u8, bool)", vec![(1u8, true)])),
        Box::new(Of("[u64; 2]", vec![[1u64, 2]])),
        Box::new(Of("Pt", vec![pt.clone(), Pt { x: 0, y: vec![3] }])),
        Box::new(Of("Wrap", vec![Wrap { p: pt.clone(), q: Flat { w: 1, v: Flat2 { f: None } }, o: None }])),
        Box::new(Of("Kind", vec![Kind::A, Kind::B])),
        Box::new(Of("Plain", vec![Plain(1)])),
        Box::new(Of("New<Option<Pt>>", vec![New(Some(pt)), New(None)])),
    ];
    r.section("newtypes: values", &format!("{} types x values x newtype, with attributes, nested, as field", cases.len()), |ch, o| {
        let c = &cases[ch.pick(cases.len())];
        let i = ch.pick(c.values());
        o.step_h(hash(&(c.name(), i)));
        o.sample(|| c.name());
        c.ser(i)
    });
    r.section("newtypes: targets", &format!("{0} types x events of the values of {0} types", cases.len()), |ch, o| {
        let c = &cases[ch.pick(cases.len())];
        let s = &cases[ch.pick(cases.len())];
        let evs = s.events(ch.pick(s.values()));
        o.step_h(hash(&(c.name(), &evs)));
        c.de(&evs, o)
    });
}

// ------------------------------------------------------------------ pairing

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
fn log(s: String) {
    LOG.with(|l| l.borrow_mut().push(s));
}
fn logged() -> Vec<String> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// A struct with up to two members that logs when its serialization starts
/// and ends.
#[derive(Default)]
struct Spy {
    id: usize,
    members: Vec<(&'static str, u64)>,
}
struct SpyEmitter<'a>(&'a Spy, usize);
impl<'a> StructEmitter for SpyEmitter<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle<'_>)>, Error> {
        let i = self.1;
        self.1 += 1;
        Ok(self.0.members.get(i).map(|(k, v)| (Cow::Borrowed(*k), SerializeHandle::to(v))))
    }
}
impl Serialize for Spy {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk<'_>, Error> {
        log(format!("<{}", self.id));
        Ok(Chunk::Struct(Box::new(SpyEmitter(self, 0))))
    }
    fn finish(&self, _: &SerializerState) -> Result<(), Error> {
        log(format!("{}>", self.id));
        Ok(())
    }
}
impl Deserialize for Spy {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        SinkHandle::boxed(SpySink { out, slots: [None, None], key: None })
    }
}
/// Knows `s0` and `s1`.
struct SpySink<'a> {
    out: &'a mut Option<Spy>,
    slots: [Option<u64>; 2],
    key: Option<String>,
}
impl<'a> Sink for SpySink<'a> {
    fn map(&mut self, _: &DeserializerState) -> Result<(), Error> {
        Ok(())
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        Ok(Deserialize::deserialize_into(&mut self.key))
    }
    fn next_value(&mut self, s: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        let k = self.key.take().unwrap();
        Ok(self.value_for_key(&k, s)?.unwrap_or_else(SinkHandle::null))
    }
    fn value_for_key(&mut self, k: &str, _: &DeserializerState) -> Result<Option<SinkHandle<'_>>, Error> {
        Ok(match k {
            "s0" => Some(Deserialize::deserialize_into(&mut self.slots[0])),
            "s1" => Some(Deserialize::deserialize_into(&mut self.slots[1])),
            _ => None,
        })
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        log(format!("finish {:?}", self.slots));
        let members = ["s0", "s1"].iter().zip(&self.slots).filter_map(|(k, v)| v.map(|v| (*k, v))).collect();
        *self.out = Some(Spy { id: 0, members });
        Ok(())
    }
}

fn skip(s: &Spy) -> bool {
    s.id == 99
}

#[derive(deser::Serialize, deser::Deserialize)]
struct P1 {
    a: Option<u64>,
    #[deser(flatten)]
    s: Spy,
    b: Option<u64>,
}
#[derive(deser::Serialize)]
struct P2 {
    #[deser(flatten, skip_serializing_if = "skip")]
    s: Spy,
    #[deser(flatten)]
    t: Box<Spy>,
}
#[derive(deser::Serialize, deser::Deserialize)]
struct P3 {
    #[deser(flatten)]
    m: Mid,
    #[deser(flatten)]
    z: Mid2,
}
#[derive(deser::Serialize, deser::Deserialize)]
#[deser(skip_serializing_optionals)]
struct Mid {
    #[deser(flatten)]
    s: Spy,
    x: Option<u64>,
}
#[derive(deser::Serialize, deser::Deserialize)]
struct Mid2 {
    y: Option<u64>,
}
#[derive(deser::Serialize)]
struct P4<'a> {
    #[deser(flatten)]
    s: &'a Spy,
    v: Vec<P2>,
    #[deser(flatten)]
    t: &'a Spy,
}

/// Serializes and logs events between the notifications.
fn run(v: &dyn Serialize) -> Vec<String> {
    logged();
    let r = guard(|| {
        let mut d = SerializeDriver::new(v);
        loop {
            match d.next() {
                Ok(Some((e, _, _))) => match e {
                    Event::Atom(_) => log(show(&[Ev::of(&e)])),
                    _ => log(show(&[Ev::of(&e)])),
                },
                Ok(None) => break,
                Err(e) => {
                    log(format!("error {}", e));
                    break;
                }
            }
        }
    });
    if let Err(m) = r {
        log(format!("panic {}", m));
    }
    logged()
}

fn at(x: &str) -> String {
    show(&[Ev::A(Leaf::s(x))])
}
fn an(x: u64) -> String {
    show(&[Ev::A(Leaf::U64(x))])
}
fn own(k: &str, v: Option<u64>, out: &mut Vec<String>) {
    out.push(at(k));
    out.push(v.map_or_else(|| show(&[Ev::A(Leaf::Null)]), an));
}
fn spy(s: &Spy, out: &mut Vec<String>) {
    out.push(format!("<{}", s.id));
    for (k, v) in &s.members {
        own(k, Some(*v), out);
    }
    out.push(format!("{}>", s.id));
}
fn p2(p: &P2, out: &mut Vec<String>) {
    out.push(show(&[Ev::Ms]));
    if !skip(&p.s) {
        spy(&p.s, out);
    }
    spy(&p.t, out);
    out.push(show(&[Ev::Me]));
}

pub fn pairing(r: &mut Runner) {
    let gen = |ch: &mut Ch, id: usize| Spy { id, members: (0..ch.pick(3)).map(|i| (["s0", "s1"][i], i as u64)).collect() };
    let some = |ch: &mut Ch, n: u64| if ch.flag() { Some(n) } else { None };
    r.section("notifications: serialization", "5 outer structs x flattened structs with 0..2 members x optional own fields x skipping", |ch, o| {
        let mut want = vec![];
        let got = match ch.pick(4) {
            0 => {
                let p = P1 { a: some(ch, 7), s: gen(ch, 1), b: some(ch, 8) };
                want.push(show(&[Ev::Ms]));
                own("a", p.a, &mut want);
                spy(&p.s, &mut want);
                own("b", p.b, &mut want);
                want.push(show(&[Ev::Me]));
                run(&p)
            }
            1 => {
                let id = [1, 99][ch.pick(2)];
                let p = P2 { s: gen(ch, id), t: Box::new(gen(ch, 2)) };
                p2(&p, &mut want);
                run(&p)
            }
            2 => {
                let p = P3 { m: Mid { s: gen(ch, 3), x: some(ch, 4) }, z: Mid2 { y: some(ch, 5) } };
                want.push(show(&[Ev::Ms]));
                spy(&p.m.s, &mut want);
                if p.m.x.is_some() {
                    own("x", p.m.x, &mut want);
                }
                own("y", p.z.y, &mut want);
                want.push(show(&[Ev::Me]));
                run(&p)
            }
            _ => {
                let (s, t) = (gen(ch, 5), gen(ch, 6));
                let n = ch.pick(3);
                let p = P4 {
                    s: &s,
                    v: (0..n).map(|i| P2 { s: gen(ch, [10, 99][i % 2]), t: Box::new(gen(ch, 20 + i)) }).collect(),
                    t: &t,
                };
                want.push(show(&[Ev::Ms]));
                spy(p.s, &mut want);
                want.push(at("v"));
                want.push(show(&[Ev::Ss]));
                for x in &p.v {
                    p2(x, &mut want);
                }
                want.push(show(&[Ev::Se]));
                spy(p.t, &mut want);
                want.push(show(&[Ev::Me]));
                run(&p)
            }
        };
        o.step_h(hash(&want));
        o.sample(|| want.join(" "));
        ensure!(got == want, "notifications and events {}\ninstead of {}", got.join(" "), want.join(" "));
        Ok(())
    });
    r.section("notifications: deserialization", "2 outer structs x all sequences of up to 4 members out of 5", |ch, o| {
        let outer = ch.pick(2);
        let names = if outer == 0 { ["a", "s0", "b", "s1", "unknown"] } else { ["x", "s0", "y", "s1", "unknown"] };
        let n = ch.pick(5);
        let mut evs = vec![Ev::Ms];
        let mut last: BTreeMap<&str, u64> = BTreeMap::new();
        for i in 0..n {
            let k = ch.of(&names);
            evs.push(Ev::A(Leaf::s(k)));
            evs.push(Ev::A(Leaf::U64(i as u64)));
            last.insert(k, i as u64);
        }
        evs.push(Ev::Me);
        logged();
        o.step_h(hash(&(outer, &evs)));
        let get = |k: &str| last.get(k).copied();
        let (own, s) = if outer == 0 {
            let mut out: Option<P1> = None;
            drive(&mut out, &evs)?;
            let p = out.unwrap();
            ([p.a, p.b], p.s)
        } else {
            let mut out: Option<P3> = None;
            drive(&mut out, &evs)?;
            let p = out.unwrap();
            ([p.m.x, p.z.y], p.m.s)
        };
        let want = vec![format!("finish {:?}", [get("s0"), get("s1")])];
        let got = logged();
        ensure!(got == want, "from {}: the flattened struct saw {:?}, expected {:?}", show(&evs), got, want);
        ensure!(own == [get(names[0]), get(names[2])], "from {}: own fields {:?}", show(&evs), own);
        let m: Vec<(&str, u64)> = ["s0", "s1"].iter().filter_map(|k| get(k).map(|v| (*k, v))).collect();
        ensure!(s.members == m, "from {}: flattened members {:?}", show(&evs), s.members);
        Ok(())
    });
}

fn drive<T: Deserialize>(out: &mut Option<T>, evs: &[Ev]) -> Res {
    let r = guard(|| {
        let mut d = DeserializeDriver::new(out);
        for e in evs {
            d.emit(e.event())?;
        }
        Ok::<(), Error>(())
    });
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => fail!("from {}: {}", show(evs), e),
        Err(m) => fail!("from {}: panic {}", show(evs), m),
    }
}
