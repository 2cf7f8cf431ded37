//! C22: shared state of serializations and deserializations.
use deser::de::{DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, SeqEmitter, Serialize, SerializeDriver, SerializeHandle, SerializerState};
use deser::{Atom, Error, Event};
use mc_core::{ensure, fail, guard, hash, Ch, Obs, Res, Runner};
use std::cell::RefCell;
use std::fmt::Debug;

trait Cell: Default + Debug + 'static {
    const INIT: u64;
    fn get(&self) -> u64;
    fn set(&mut self, x: u64);
}

macro_rules! cell {
    ($t:ty, $init:expr, $i:tt) => {
        impl Cell for $t {
            const INIT: u64 = $init;
            fn get(&self) -> u64 {
                self.$i as u64
            }
            fn set(&mut self, x: u64) {
                self.$i = x as _;
            }
        }
    };
}

mod a {
    #[derive(Default, Debug)]
    pub struct State(pub u64);
    pub mod inner {
        #[derive(Default, Debug)]
        pub struct State(pub u64);
    }
}
mod b {
    #[derive(Default, Debug)]
    pub struct State(pub u64);
}
#[derive(Debug)]
struct Starts(u64);
impl Default for Starts {
    fn default() -> Starts {
        Starts(99)
    }
}
#[derive(Debug, Default)]
struct Gen<T>(u64, std::marker::PhantomData<T>);
impl<T: Debug + Default + 'static> Cell for Gen<T> {
    const INIT: u64 = 0;
    fn get(&self) -> u64 {
        self.0
    }
    fn set(&mut self, x: u64) {
        self.0 = x
    }
}
#[derive(Debug, Default)]
struct Big(u64, [u64; 9]);
#[derive(Debug, Default)]
struct Tiny(u16);
cell!(a::State, 0, 0);
cell!(a::inner::State, 0, 0);
cell!(b::State, 0, 0);
cell!(Starts, 99, 0);
cell!(Big, 0, 0);
cell!(Tiny, 0, 0);
impl Cell for u64 {
    const INIT: u64 = 0;
    fn get(&self) -> u64 {
        *self
    }
    fn set(&mut self, x: u64) {
        *self = x
    }
}
impl Cell for u32 {
    const INIT: u64 = 0;
    fn get(&self) -> u64 {
        *self as u64
    }
    fn set(&mut self, x: u64) {
        *self = x as u32
    }
}
impl Cell for Vec<u8> {
    const INIT: u64 = 0;
    fn get(&self) -> u64 {
        self.len() as u64
    }
    fn set(&mut self, x: u64) {
        self.resize(x as usize, 1)
    }
}
impl Cell for Option<u64> {
    const INIT: u64 = 1000;
    fn get(&self) -> u64 {
        self.unwrap_or(1000)
    }
    fn set(&mut self, x: u64) {
        *self = Some(x)
    }
}

/// Both kinds of state.
enum St<'a, 'b> {
    S(&'a SerializerState<'b>),
    D(&'a DeserializerState<'b>),
}

fn read<T: Cell>(s: &St) -> u64 {
    match s {
        St::S(s) => s.get::<T>().get(),
        St::D(s) => s.get::<T>().get(),
    }
}
fn read_mut<T: Cell>(s: &St) -> u64 {
    match s {
        St::S(s) => s.get_mut::<T>().get(),
        St::D(s) => s.get_mut::<T>().get(),
    }
}
fn write<T: Cell>(s: &St, x: u64) {
    match s {
        St::S(s) => s.get_mut::<T>().set(x),
        St::D(s) => s.get_mut::<T>().set(x),
    }
}
/// Two types read at the same time.
fn both<T: Cell, U: Cell>(s: &St) -> (u64, u64) {
    // make sure both exist before holding one
    let _ = (read::<T>(s), read::<U>(s));
    match s {
        St::S(s) => {
            let (a, b) = (s.get::<T>(), s.get::<U>());
            (a.get(), b.get())
        }
        St::D(s) => {
            let (a, b) = (s.get::<T>(), s.get::<U>());
            (a.get(), b.get())
        }
    }
}

struct Ty {
    name: &'static str,
    init: u64,
    read: fn(&St) -> u64,
    read_mut: fn(&St) -> u64,
    write: fn(&St, u64),
    with: fn(&St) -> (u64, u64),
}

macro_rules! ty {
    ($t:ty, $name:expr) => {
        Ty { name: $name, init: <$t>::INIT, read: read::<$t>, read_mut: read_mut::<$t>, write: write::<$t>, with: both::<$t, a::State> }
    };
}
macro_rules! types {
    ($($t:ty),*) => { vec![$(ty!($t, stringify!($t))),*] };
}

/// One of many types that only differ in a number.
#[derive(Default, Debug)]
struct Nth<const N: usize>(u64);
impl<const N: usize> Cell for Nth<N> {
    const INIT: u64 = 0;
    fn get(&self) -> u64 {
        self.0
    }
    fn set(&mut self, x: u64) {
        self.0 = x
    }
}

/// Types that hold nothing but what they are.
#[derive(Default, Debug)]
struct Empty;
#[derive(Default, Debug)]
struct Void;
impl Cell for Empty {
    const INIT: u64 = 7;
    fn get(&self) -> u64 {
        7
    }
    fn set(&mut self, _: u64) {}
}
impl Cell for Void {
    const INIT: u64 = 8;
    fn get(&self) -> u64 {
        8
    }
    fn set(&mut self, _: u64) {}
}

#[repr(align(128))]
#[derive(Default, Debug)]
struct Aligned(u64);
impl Cell for Aligned {
    const INIT: u64 = 0;
    fn get(&self) -> u64 {
        assert_eq!(self as *const Aligned as usize % 128, 0);
        self.0
    }
    fn set(&mut self, x: u64) {
        self.0 = x
    }
}

/// Types that cannot be told apart by their names.
fn twins() -> Vec<Ty> {
    macro_rules! twin {
        () => {{
            #[derive(Default, Debug)]
            struct Twin(u64);
            cell!(Twin, 0, 0);
            ty!(Twin, "Twin")
        }};
    }
    vec![twin!(), twin!(), twin!()]
}

/// Number of types that are used in all pairs.
const PAIRED: usize = 15;
/// First of the numbered ones.
const NUMBERED: usize = PAIRED + 3;

static TYPES: std::sync::LazyLock<Vec<Ty>> = std::sync::LazyLock::new(|| {
    let mut v: Vec<Ty> = types!(a::State, b::State, a::inner::State, Starts, Gen<u8>, Gen<u16>, Big, Tiny, u64, u32, Vec<u8>, Option<u64>);
    v.extend(twins());
    assert_eq!(v.len(), PAIRED);
    v.extend(types!(Empty, Void, Aligned));
    macro_rules! row {
        ($r:literal: $($c:literal)*) => { $(v.push(ty!(Nth<{ $r * 20 + $c }>, concat!("Nth ", $r, "/", $c)));)* };
    }
    macro_rules! rows {
        ($($r:literal)*) => { $(row!($r: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19);)* };
    }
    rows!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14);
    v
});

/// What one run has seen. Index: type.
type Seen = Vec<Option<u64>>;

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Act {
    No,
    Read(usize),
    ReadMut(usize),
    Write(usize),
    Both(usize),
}

thread_local! {
    static SCRIPT: RefCell<Vec<Act>> = const { RefCell::new(Vec::new()) };
    static RUNS: RefCell<Vec<Seen>> = const { RefCell::new(Vec::new()) };
    static NEXT: RefCell<(usize, u64)> = const { RefCell::new((0, 0)) };
    static BAD: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn begin(script: Vec<Act>, runs: usize) {
    SCRIPT.with(|s| *s.borrow_mut() = script);
    RUNS.with(|r| *r.borrow_mut() = vec![vec![None; TYPES.len()]; runs]);
    NEXT.with(|n| *n.borrow_mut() = (0, 0));
    BAD.with(|b| *b.borrow_mut() = None);
}

fn act(run: usize, a: Act, st: &St) {
    let fresh = NEXT.with(|n| {
        n.borrow_mut().1 += 1;
        n.borrow().1
    });
    let expect = |t: usize| RUNS.with(|r| r.borrow()[run][t]).unwrap_or(TYPES[t].init);
    let check = |t: usize, got: u64, how: &str| {
        let want = expect(t);
        if got != want {
            BAD.with(|b| {
                let mut b = b.borrow_mut();
                if b.is_none() {
                    *b = Some(format!("run {}: {} {} gives {}, expected {}", run, how, TYPES[t].name, got, want))
                }
            });
        }
        RUNS.with(|r| r.borrow_mut()[run][t] = Some(want));
    };
    match a {
        Act::No => {}
        Act::Read(t) => check(t, (TYPES[t].read)(st), "reading"),
        Act::ReadMut(t) => check(t, (TYPES[t].read_mut)(st), "reading exclusively"),
        Act::Write(t) => {
            (TYPES[t].write)(st, fresh + 1);
            let x = if (PAIRED..PAIRED + 2).contains(&t) { TYPES[t].init } else { fresh + 1 };
            RUNS.with(|r| r.borrow_mut()[run][t] = Some(x));
        }
        Act::Both(t) => {
            let (x, y) = (TYPES[t].with)(st);
            check(t, x, "reading both");
            check(0, y, "reading both");
        }
    }
}

/// The next scripted action, at whatever place this is.
fn step(run: usize, st: &St) {
    let i = NEXT.with(|n| {
        let i = n.borrow().0;
        n.borrow_mut().0 += 1;
        i
    });
    let a = SCRIPT.with(|s| s.borrow().get(i).copied().unwrap_or(Act::No));
    act(run, a, st);
}

/// Everything is still as it was left.
fn final_check(run: usize, st: &St) {
    for t in 0..NUMBERED {
        act(run, Act::Read(t), st);
    }
}

struct Node {
    run: usize,
    kids: Vec<Node>,
}

impl Node {
    fn new(run: usize) -> Node {
        let leaf = || Node { run, kids: vec![] };
        Node {
            run,
            kids: vec![leaf(), Node { run, kids: vec![leaf()] }],
        }
    }
}

impl Serialize for Node {
    fn serialize(&self, s: &SerializerState) -> Result<Chunk<'_>, Error> {
        step(self.run, &St::S(s));
        if self.kids.is_empty() {
            return Ok(Chunk::Atom(Atom::Null));
        }
        struct E<'a>(usize, std::slice::Iter<'a, Node>);
        impl<'a> SeqEmitter for E<'a> {
            fn next(&mut self, s: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
                step(self.0, &St::S(s));
                Ok(self.1.next().map(SerializeHandle::to))
            }
        }
        Ok(Chunk::Seq(Box::new(E(self.run, self.kids.iter()))))
    }
    fn finish(&self, s: &SerializerState) -> Result<(), Error> {
        step(self.run, &St::S(s));
        Ok(())
    }
}

struct NSink(usize);

impl Sink for NSink {
    fn atom(&mut self, _: Atom, s: &DeserializerState) -> Result<(), Error> {
        step(self.0, &St::D(s));
        Ok(())
    }
    fn map(&mut self, s: &DeserializerState) -> Result<(), Error> {
        step(self.0, &St::D(s));
        Ok(())
    }
    fn seq(&mut self, s: &DeserializerState) -> Result<(), Error> {
        step(self.0, &St::D(s));
        Ok(())
    }
    fn next_key(&mut self, s: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        step(self.0, &St::D(s));
        Ok(SinkHandle::boxed(NSink(self.0)))
    }
    fn next_value(&mut self, s: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        step(self.0, &St::D(s));
        Ok(SinkHandle::boxed(NSink(self.0)))
    }
    fn finish(&mut self, s: &DeserializerState) -> Result<(), Error> {
        step(self.0, &St::D(s));
        Ok(())
    }
}

const DE: &[fn() -> Event<'static>] = &[
    || Event::SeqStart,
    || 1u64.into(),
    || Event::MapStart,
    || "k".into(),
    || 2u64.into(),
    || Event::MapEnd,
    || Event::SeqEnd,
];

enum Run<'a> {
    S(SerializeDriver<'a>),
    D(DeserializeDriver<'a>, usize),
}

impl<'a> Run<'a> {
    fn new(kind: usize, id: usize, nodes: &'a [Node]) -> Run<'a> {
        if kind == 0 {
            Run::S(SerializeDriver::new(&nodes[id]))
        } else {
            Run::D(DeserializeDriver::from_sink(SinkHandle::boxed(NSink(id))), 0)
        }
    }
    /// One step; false when there are none left.
    fn go(&mut self) -> Result<bool, Error> {
        match self {
            Run::S(d) => Ok(d.next()?.is_some()),
            Run::D(d, i) => {
                d.emit(DE[*i]())?;
                *i += 1;
                Ok(*i < DE.len())
            }
        }
    }
    fn state<R>(&self, f: impl FnOnce(&St) -> R) -> R {
        match self {
            Run::S(d) => f(&St::S(d.state())),
            Run::D(d, _) => f(&St::D(d.state())),
        }
    }
}

/// Places where a single run calls user code.
fn single(ch: &mut Ch, kind: usize, script: Vec<Act>, outside: Act, o: &mut Obs) -> Res {
    let at = ch.pick(3) * 3;
    o.step_h(hash(&(kind, &script, outside, at)));
    begin(script.clone(), 1);
    let nodes = [Node::new(0)];
    let r = guard(|| -> Result<(), Error> {
        let mut r = Run::new(kind, 0, &nodes);
        let mut i = 0;
        loop {
            if i == at {
                r.state(|s| act(0, outside, s));
            }
            i += 1;
            if !r.go()? {
                break;
            }
        }
        r.state(|s| final_check(0, s));
        Ok(())
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => fail!("script {:?}: error {}", script, e),
        Err(m) => fail!("script {:?}, outside {:?}: panic {}", script, outside, m),
    }
    match BAD.with(|b| b.borrow_mut().take()) {
        Some(m) => fail!("script {:?}, {:?} from outside after {} steps: {}", script, outside, at, m),
        None => Ok(()),
    }
}

fn acts(t: usize, u: usize) -> [Act; 6] {
    [Act::Read(t), Act::Write(t), Act::Read(u), Act::Write(u), Act::ReadMut(t), Act::No]
}

pub fn c22(r: &mut Runner) {
    let len = r.b(5, 6);
    r.section(
        "histories",
        &format!("all ordered pairs of 15 state types (same names in other modules or even the same one, generic, with other defaults) x all scripts of {} accesses in consecutive callbacks x access from outside at 3 places; serialization and deserialization; 18 types (empty and over-aligned ones included) read at the end", len),
        |ch, o| {
            let kind = ch.pick(2);
            let t = ch.pick(PAIRED);
            let u = ch.pick(PAIRED);
            let al = acts(t, u);
            let script: Vec<Act> = (0..len).map(|_| al[ch.pick(4)]).collect();
            let out = al[ch.pick(2)];
            o.sample(|| format!("{} {} {:?}", TYPES[t].name, TYPES[u].name, script));
            single(ch, kind, script, out, o)
        },
    );
    r.section("three types", "all sets of 3 types out of 15, 4 accesses of 3 types with and without exclusive reads and simultaneous reads", |ch, o| {
        let kind = ch.pick(2);
        let t = ch.pick(PAIRED);
        let u = ch.pick(PAIRED);
        let w = ch.pick(PAIRED);
        if !(t < u && u < w) {
            return Ok(());
        }
        let al = [Act::Write(t), Act::Write(u), Act::Write(w), Act::ReadMut(t), Act::Read(u), Act::Both(t), Act::Both(w)];
        let script: Vec<Act> = (0..4).map(|_| ch.of(&al)).collect();
        single(ch, kind, script, Act::Read(w), o)
    });
    r.section("positions", "every single write in every callback (1st to 20th) followed by every single read in every later one, 15 types", |ch, o| {
        let kind = ch.pick(2);
        let t = ch.pick(PAIRED);
        let i = ch.pick(20);
        let j = i + 1 + ch.pick(20 - i);
        let mut script = vec![Act::No; 21];
        script[i] = Act::Write(t);
        script[j] = Act::Read(t);
        single(ch, kind, script, Act::No, o)
    });
    let n = r.b(5, 6);
    r.section(
        "interleavings",
        &format!("two or three runs (every mixture of serializations and deserializations) x all interleavings of their first {} steps x all accesses of one type per step from inside and outside", n),
        |ch, o| {
            let runs = 2 + ch.pick(2);
            let kinds: Vec<usize> = (0..runs).map(|_| ch.pick(2)).collect();
            let t = ch.of(&[0, 3, 4]);
            let order: Vec<usize> = (0..n).map(|_| ch.pick(runs)).collect();
            let script: Vec<Act> = (0..n).map(|_| if ch.flag() { Act::Write(t) } else { Act::Read(t) }).collect();
            o.step_h(hash(&(&kinds, t, &order, &script)));
            begin(vec![], runs);
            let nodes: Vec<Node> = (0..runs).map(Node::new).collect();
            let r = guard(|| -> Result<(), Error> {
                let mut rs: Vec<Run> = (0..runs).map(|i| Run::new(kinds[i], i, &nodes)).collect();
                for (k, i) in order.iter().enumerate() {
                    // alternate between access from the callback and from outside
                    if k % 2 == 0 {
                        SCRIPT.with(|s| *s.borrow_mut() = vec![script[k]]);
                        NEXT.with(|n| n.borrow_mut().0 = 0);
                        rs[*i].go()?;
                        SCRIPT.with(|s| s.borrow_mut().clear());
                    } else {
                        rs[*i].state(|s| act(*i, script[k], s));
                        rs[*i].go()?;
                    }
                }
                for (i, r) in rs.iter().enumerate() {
                    r.state(|s| final_check(i, s));
                }
                Ok(())
            });
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => fail!("error {}", e),
                Err(m) => fail!("runs {:?} order {:?} script {:?}: panic {}", kinds, order, script, m),
            }
            match BAD.with(|b| b.borrow_mut().take()) {
                Some(m) => fail!("runs {:?} order {:?} script {:?}: {}", kinds, order, script, m),
                None => Ok(()),
            }
        },
    );
    r.section("many types", "n types for n <= 40, 63..65, 127..129, 255..257, 300, first used in 5 orders by reading, writing or exclusive reading, then written in 5 orders, read after every write or at the end; serialization and deserialization", |ch, o| {
        let kind = ch.pick(2);
        let n = {
            let i = ch.pick(52);
            if i <= 40 { i } else { [63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 299][i - 41] }
        };
        let orders = |k: usize| -> Vec<usize> {
            (0..n)
                .map(|i| match k {
                    0 => i,
                    1 => n - 1 - i,
                    2 => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 },
                    3 => i ^ 1,
                    _ => (i + n / 2) % n,
                })
                .filter(|i| *i < n)
                .collect()
        };
        let (p, q, how, often) = (ch.pick(5), ch.pick(5), ch.pick(3), ch.flag());
        o.step_h(hash(&(kind, n, p, q, how, often)));
        begin(vec![], 1);
        let nodes = [Node::new(0)];
        let r = guard(|| -> Result<(), Error> {
            let mut r = Run::new(kind, 0, &nodes);
            for i in orders(p) {
                let t = NUMBERED + i;
                r.state(|s| act(0, [Act::Read(t), Act::Write(t), Act::ReadMut(t)][how], s));
            }
            r.go()?;
            for (k, i) in orders(q).into_iter().enumerate() {
                r.state(|s| act(0, Act::Write(NUMBERED + i), s));
                if often {
                    r.state(|s| act(0, Act::Read(NUMBERED + (k * 7) % n), s));
                }
            }
            while r.go()? {}
            r.state(|s| {
                for i in 0..n {
                    act(0, Act::Read(NUMBERED + i), s);
                    act(0, Act::Both(NUMBERED + i), s);
                }
                final_check(0, s)
            });
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => fail!("error {}", e),
            Err(m) => fail!("{} types: panic {}", n, m),
        }
        match BAD.with(|b| b.borrow_mut().take()) {
            Some(m) => fail!("{} types in order {}, written in order {}: {}", n, p, q, m),
            None => Ok(()),
        }
    });
    r.section("long runs", "a write in the nth callback and reads in later ones, runs of n callbacks for n = 50, 128, 300, 1100, 70000, with or without writes of the other types in between", |ch, o| {
        let kind = ch.pick(2);
        let n = ch.of(&[50, 128, 300, 1100, 70000]);
        let t = ch.pick(PAIRED + 3);
        let at = ch.of(&[0, 1, n / 2, n.min(65_000) - 2]);
        let noise = ch.flag();
        let script: Vec<Act> = (0..n).map(|i| if i == at { Act::Write(t) } else if noise && i % 3 == 0 { Act::Write(NUMBERED + i % 300) } else { Act::Read(t) }).collect();
        o.step_h(hash(&(kind, n, t, at, noise)));
        begin(script, 1);
        let nodes: Vec<Node> = vec![Node { run: 0, kids: (0..n).map(|_| Node { run: 0, kids: vec![] }).collect() }];
        let r = guard(|| -> Result<(), Error> {
            if kind == 0 {
                let mut d = SerializeDriver::new(&nodes[0]);
                while d.next()?.is_some() {}
                final_check(0, &St::S(d.state()));
            } else {
                let mut d = DeserializeDriver::from_sink(SinkHandle::boxed(NSink(0)));
                d.emit(Event::SeqStart)?;
                for _ in 0..n {
                    d.emit(Atom::Null)?;
                }
                final_check(0, &St::D(d.state()));
            }
            Ok(())
        });
        ensure!(matches!(r, Ok(Ok(()))), "{:?}", r.map(|x| x.map_err(|x| x.to_string())));
        match BAD.with(|b| b.borrow_mut().take()) {
            Some(m) => fail!("run of {} callbacks, {} written at {}: {}", n, TYPES[t].name, at, m),
            None => Ok(()),
        }
    });
    r.section("successive runs", "2 to 4 runs one after the other, each of any kind, completed or abandoned after any step, 15 types", |ch, o| {
        let runs = 2 + ch.pick(2);
        let t = ch.pick(PAIRED);
        begin(vec![], runs);
        let nodes: Vec<Node> = (0..runs).map(Node::new).collect();
        let mut how = vec![];
        for i in 0..runs {
            let kind = ch.pick(2);
            let stop = ch.pick(8);
            how.push((kind, stop));
            SCRIPT.with(|s| *s.borrow_mut() = vec![Act::Write(t); 30]);
            NEXT.with(|n| n.borrow_mut().0 = 0);
            let r = guard(|| -> Result<(), Error> {
                let mut r = Run::new(kind, i, &nodes);
                r.state(|s| final_check(i, s));
                for _ in 0..stop {
                    if !r.go()? {
                        break;
                    }
                }
                r.state(|s| final_check(i, s));
                Ok(())
            });
            ensure!(matches!(r, Ok(Ok(()))), "{:?}: {:?}", how, r.map(|x| x.map_err(|x| x.to_string())));
        }
        o.step_h(hash(&(t, &how)));
        match BAD.with(|b| b.borrow_mut().take()) {
            Some(m) => fail!("runs {:?} on {}: {}", how, TYPES[t].name, m),
            None => Ok(()),
        }
    });
    let m = r.b(40, 300);
    r.section("runs of many types", &format!("3 runs one after the other or each inside the one before, that use k1, k2 <= {} and 20 types: k1 and k2 equal or one of them out of 16 counts; completed or abandoned, serialization and deserialization", m), |ch, o| {
        let k = ch.pick(m + 1);
        let other = ch.of(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 14, 15, 16, 17, 28, usize::MAX]);
        let other = if other == usize::MAX { k } else { other };
        let counts = if ch.flag() { [k, other, 20] } else { [other, k, 20] };
        let (kind, kind2, whole, inside) = (ch.pick(2), ch.pick(2), ch.flag(), ch.flag());
        o.step_h(hash(&(counts, kind, kind2, whole, inside)));
        begin(vec![], 3);
        let nodes: Vec<Node> = (0..3).map(Node::new).collect();
        let kinds = [kind, kind2, kind];
        let r = guard(|| -> Result<(), Error> {
            let mut open: Vec<Run> = vec![];
            for i in 0..3 {
                let mut r = Run::new(kinds[i], i, &nodes);
                r.state(|s| {
                    for t in 0..counts[i] {
                        act(i, Act::Read(NUMBERED + t), s);
                    }
                    for t in 0..counts[i] {
                        act(i, Act::Write(NUMBERED + t), s);
                    }
                });
                if whole {
                    while r.go()? {}
                }
                r.state(|s| {
                    for t in 0..counts[i] {
                        act(i, Act::Read(NUMBERED + t), s);
                    }
                });
                if inside {
                    open.push(r);
                }
            }
            for (i, mut r) in open.into_iter().enumerate() {
                r.state(|s| {
                    for t in 0..counts[i] {
                        act(i, Act::Read(NUMBERED + t), s);
                    }
                });
            }
            Ok(())
        });
        ensure!(matches!(r, Ok(Ok(()))), "{:?}: {:?}", counts, r.map(|x| x.map_err(|x| x.to_string())));
        match BAD.with(|b| b.borrow_mut().take()) {
            Some(m) => fail!("runs of {:?} types, whole {}, nested {}: {}", counts, whole, inside, m),
            None => Ok(()),
        }
    });
}
