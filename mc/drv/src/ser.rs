//! C10, C11 and the serialization half of C14, C15 and C16.
use deser::ser::{
    Chunk, MapEmitter, SeqEmitter, Serialize, SerializeDriver, SerializeHandle, SerializerState,
};
use deser::{Atom, Descriptor, Error};
use mc_core::{ensure, fail, guard, hash, live, Ch, Obs, Res, Runner};
use mc_vals::dtree::{dladder, dtree, Node, X};
use mc_vals::gen::{HMap, HSet, Scope};
use mc_vals::iser::{
    ladder, pattern, set_uniform, spec_tree, styles_all, styles_cycle, wide, Expect, Kind, Own, Spec, Style, STYLES,
};
use mc_vals::model::{Model, D};
use mc_vals::track::{self, Op};
use mc_vals::{Ev, Leaf};
use std::collections::{BTreeMap, BTreeSet};

/// The root of a traversal.
pub enum Root<'a> {
    Ref(&'a Spec),
    Own(Own<'a>),
    Boxed(Box<Own<'a>>),
    Some(Option<Own<'a>>),
}

impl<'a> Root<'a> {
    pub fn pick(ch: &mut Ch, s: &'a Spec) -> Root<'a> {
        match ch.pick(3) {
            0 => Root::Ref(s),
            1 => Root::Own(Own::new(s, 0)),
            _ => Root::Boxed(Box::new(Own::new(s, 0))),
        }
    }
    pub fn get(&self) -> &dyn Serialize {
        match self {
            Root::Ref(x) => *x,
            Root::Own(x) => x,
            Root::Boxed(x) => x,
            Root::Some(x) => x,
        }
    }
}

pub fn name_d(name: &str) -> D {
    // what iser::Desc answers
    if name == "optional" || name == mc_vals::iser::STR_NAME {
        D {
            name: Some(name.into()),
            precision: None,
            unordered: false,
        }
    } else {
        D {
            name: Some(name.into()),
            precision: Some(name.len()),
            unordered: name.len() % 2 == 0,
        }
    }
}

pub fn any_leaf(ch: &mut Ch) -> Leaf {
    match ch.pick(8) {
        0 => Leaf::Null,
        1 => Leaf::Bool(true),
        2 => Leaf::s("x"),
        3 => Leaf::Bytes(vec![1, 2]),
        4 => Leaf::Char('y'),
        5 => Leaf::U64(u64::MAX),
        6 => Leaf::I64(-3),
        _ => Leaf::F64(1.5),
    }
}

pub fn one_leaf(_: &mut Ch) -> Leaf {
    Leaf::U64(7)
}

pub fn two_leaf(ch: &mut Ch) -> Leaf {
    if ch.flag() {
        Leaf::s("ab")
    } else {
        Leaf::U64(7)
    }
}

fn badness() -> Res {
    match track::badness() {
        Some(b) => fail!("{}", b),
        None => Ok(()),
    }
}

/// Full traversal with all visible information compared.
fn traverse(v: &dyn Serialize, exp: &[Expect], what: &str, obs: &mut Obs) -> Res {
    let exp: Vec<X> = exp.iter().map(|e| X { ev: e.ev.clone(), d: name_d(&e.name), depth: e.depth, top: e.top.as_deref().map(name_d) }).collect();
    traverse_d(v, &exp, what, obs)
}

fn traverse_d(v: &dyn Serialize, exp: &[X], what: &str, obs: &mut Obs) -> Res {
    let mut d = SerializeDriver::new(v);
    ensure!(d.state().depth() == 0, "depth before the start");
    ensure!(d.state().top_descriptor().is_none(), "descriptor before the start");
    let mut h = 0u64;
    for (i, e) in exp.iter().enumerate() {
        let (ev, depth, top) = match d.next() {
            Err(x) => fail!("{}: unprovoked error {}", what, x),
            Ok(None) => fail!("{}: stream ends after {} events", what, i),
            Ok(Some((ev, desc, state))) => {
                let g = Ev::of(&ev);
                ensure!(g == e.ev, "{}: event {} is {:?}, expected {:?}", what, i, g, e.ev);
                let dd = D::of(desc);
                ensure!(
                    dd == e.d,
                    "{}: event {} has descriptor {:?}, expected {:?}",
                    what,
                    i,
                    dd,
                    e.d
                );
                (g, state.depth(), state.top_descriptor().map(D::of))
            }
        };
        ensure!(
            depth == e.depth,
            "{}: depth {} after event {}, expected {}",
            what,
            depth,
            i,
            e.depth
        );
        ensure!(
            top == e.top,
            "{}: innermost descriptor {:?} after event {}, expected {:?}",
            what,
            top,
            i,
            e.top
        );
        ensure!(d.state().depth() == depth, "state() and next() disagree");
        ensure!(
            d.state().top_descriptor().map(D::of) == top,
            "state() and next() disagree"
        );
        h = hash(&(h, &ev, depth));
        obs.step_h(h);
    }
    for _ in 0..3 {
        match d.next() {
            Err(x) => fail!("{}: error {} at the end", what, x),
            Ok(Some((ev, _, _))) => fail!("{}: {:?} after the end", what, Ev::of(&ev)),
            Ok(None) => {}
        }
        ensure!(d.state().depth() == 0, "{}: depth not 0 at the end", what);
        ensure!(d.state().top_descriptor().is_none(), "{}: descriptor left at the end", what);
    }
    Ok(())
}

fn exp_of(s: &Spec) -> Vec<Expect> {
    let mut e = vec![];
    s.expect(&mut e);
    e
}

fn typed<T: Model>(ch: &mut Ch, s: Scope, o: &mut Obs) -> Res {
    let v = T::gen(ch, s);
    let mut want = vec![];
    v.shape(&mut want);
    let mut first: Option<Vec<(Ev, D, usize)>> = None;
    for _ in 0..2 {
        let mut d = SerializeDriver::new(&v);
        let mut got = vec![];
        let mut h = 0;
        loop {
            match d.next() {
                Err(x) => fail!("{:?}: error {}", v, x),
                Ok(None) => break,
                Ok(Some((e, dd, st))) => {
                    let e = Ev::of(&e);
                    let depth = st.depth();
                    h = hash(&(h, &e));
                    o.step_h(h);
                    let dd = D::of(dd);
                    if matches!(e, Ev::Ms | Ev::Ss) {
                        ensure!(
                            st.top_descriptor().map(D::of) == Some(dd.clone()),
                            "{:?}: wrong innermost descriptor",
                            v
                        );
                    }
                    got.push((e, dd, depth));
                }
            }
        }
        let mut depth = 0;
        ensure!(
            got.len() == want.len(),
            "{}: {:?} gives {}",
            std::any::type_name::<T>(),
            v,
            mc_vals::show(&got.iter().map(|x| x.0.clone()).collect::<Vec<_>>())
        );
        for (g, w) in got.iter().zip(want.iter()) {
            match w.0 {
                Ev::Ms | Ev::Ss => depth += 1,
                Ev::Me | Ev::Se => depth -= 1,
                _ => {}
            }
            ensure!(
                g.0 == w.0 && g.1 == w.1 && g.2 == depth,
                "{}: {:?}: got {:?}, expected {:?} at depth {}",
                std::any::type_name::<T>(),
                v,
                g,
                w,
                depth
            );
        }
        match &first {
            None => first = Some(got),
            Some(f) => ensure!(*f == got, "{:?}: second traversal differs", v),
        }
    }
    o.sample(|| format!("{:?}", v));
    Ok(())
}

type Case = fn(&mut Ch, Scope, &mut Obs) -> Res;
macro_rules! cases { ($($t:ty),* $(,)?) => { &[$(typed::<$t> as Case),*] }; }
const STD: &[Case] = mc_vals::std_types!(cases);
const LONG: &[Case] = mc_vals::std_types_long!(cases);

pub fn c10(r: &mut Runner) {
    c10_derived(r);
    let n = r.b(4, 5);
    r.section(
        "trees",
        &format!("all trees of <= {} nested values (seq, map with any keys, struct), nesting <= 3, 2 leaves, all handle styles in 4 x 8 rotations, 3 root styles; two traversals each", n),
        |ch, o| {
            let mut b = n;
            let mut s = spec_tree(ch, &mut b, 3, &mut two_leaf);
            styles_cycle(ch, &mut s);
            s.number();
            let exp = exp_of(&s);
            track::reset(&[]);
            let root = Root::pick(ch, &s);
            o.sample(|| s.show());
            for _ in 0..2 {
                traverse(root.get(), &exp, &s.show(), o)?;
            }
            drop(root);
            badness()?;
            ensure!(track::alive() == 0, "left over: {}", track::alive_text());
            Ok(())
        },
    );
    r.section(
        "leaves",
        "all trees of <= 2 nested values, all kinds of leaf, borrowed and owned",
        |ch, o| {
            let mut b = 2;
            let mut s = spec_tree(ch, &mut b, 2, &mut any_leaf);
            let st = ch.of(&[Style::Borrowed, Style::Owned, Style::OwnedSome]);
            let ks = ch.pick(2) as u8;
            set_uniform(&mut s, st, ks);
            s.number();
            track::reset(&[]);
            traverse(&s, &exp_of(&s), &s.show(), o)?;
            badness()
        },
    );
    let depths: Vec<usize> = r.b(
        vec![1, 2, 3, 8, 63, 64, 126, 127, 128, 129, 130, 255, 256, 257, 1000],
        vec![1, 2, 3, 8, 16, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1000, 3000],
    );
    r.section(
        "deep",
        &format!("nesting patterns of period <= 2 over seq, map value, map key, struct, comb; depths {:?}; all handle styles", depths),
        |ch, o| {
            let p = pattern(ch);
            let mut s = ladder(&p, ch.of(&depths));
            if ch.flag() {
                styles_cycle(ch, &mut s);
            } else {
                let st = ch.of(&STYLES);
                let ks = ch.pick(3) as u8;
                set_uniform(&mut s, st, ks);
            }
            s.number();
            track::reset(&[]);
            o.sample(|| s.show());
            traverse(&s, &exp_of(&s), &format!("pattern {:?}", p), o)?;
            badness()
        },
    );
    let widths: Vec<usize> = (0..r.b(70, 300)).chain([127, 128, 129, 1000, 3000]).chain(if SMALL { vec![] } else { vec![4097, 65537] }).collect();
    r.section(
        "wide",
        "containers with n elements for n <= 70 (thorough 300), 127..129, 1000, 3000, 4097, 65537; 4 kinds, all handle styles",
        |ch, o| {
            let k = ch.pick(4);
            let mut s = wide(k, ch.of(&widths));
            let st = ch.of(&STYLES);
            let ks = ch.pick(3) as u8;
            set_uniform(&mut s, st, ks);
            s.number();
            track::reset(&[]);
            traverse(&s, &exp_of(&s), &format!("wide {}", k), o)?;
            badness()
        },
    );
    let sc = r.b(Scope { w: 2, n: 2 }, Scope { w: 2, n: 3 });
    r.section(
        "std",
        &format!("{} standard types, all values with collections of <= {} elements and 2 values per leaf", STD.len(), sc.n),
        |ch, o| STD[ch.pick(STD.len())](ch, sc, o),
    );
    let sc = Scope { w: 1, n: r.b(3, 4) };
    r.section(
        "std long",
        &format!("the same types, collections of <= {} elements, 1 value per leaf", sc.n),
        |ch, o| STD[ch.pick(STD.len())](ch, sc, o),
    );
    r.section("std leaves", "16 primitive types, all boundary values", |ch, o| {
        STD[ch.pick(16)](ch, Scope { w: 0, n: 2 }, o)
    });
    r.section("tuples", "tuples of 6 to 12 booleans, all values", |ch, o| {
        LONG[ch.pick(LONG.len())](ch, Scope { w: 2, n: 2 }, o)
    });
}

/// A tree of derived types, standard containers and wrappers.
pub fn derived(ch: &mut Ch, budget: usize, few: bool, gives: bool) -> Node {
    let mut b = budget;
    let mut n = dtree(ch, &mut b, budget, few);
    n.number();
    if gives {
        n.gives(ch.pick(4), ch.pick(2));
    } else {
        n.gives(1, 1);
    }
    n
}

/// Patterns of nested derived types.
pub fn derived_ladder(ch: &mut Ch, depths: &[usize], period: usize) -> (String, Node) {
    let n = 1 + ch.pick(period);
    let p: Vec<usize> = (0..n).map(|_| ch.pick(8)).collect();
    let depth = ch.of(depths);
    let mut n = dladder(&p, depth);
    n.gives(ch.pick(4), ch.pick(2));
    (format!("{:?} nested {} deep", p, depth), n)
}

const LADDER: &[usize] = &[1, 2, 3, 7, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600];

fn derived_traversal(n: &Node, what: &str, path: bool, o: &mut Obs) -> Res {
    let want = n.expect();
    track::reset(&[]);
    for _ in 0..2 {
        let root = n.build();
        if path {
            traverse_d(&deser_path::PathSerializable::wrap(&root), &want, what, o)?;
        } else {
            traverse_d(&root, &want, what, o)?;
        }
    }
    badness()
}

fn c10_derived(r: &mut Runner) {
    let n = r.b(4, 5);
    r.section(
        "derived trees",
        &format!("all trees of <= {} nested values over 29 derived structs, newtypes, flattened structs, standard containers and wrappers, instrumented at every node; 4 ways of handing out values", n),
        |ch, o| {
            let n = derived(ch, n, true, false);
            o.sample(|| n.show());
            derived_traversal(&n, &n.show(), false, o)
        },
    );
    let n = r.b(3, 4);
    r.section("derived handles", &format!("the same with <= {} nested values, more leaves, 8 assignments of ways of handing out, with and without path tracking", n), |ch, o| {
        let n = derived(ch, n, false, true);
        let p = ch.flag();
        derived_traversal(&n, &n.show(), p, o)
    });
    r.section("derived deep", "8 shapes of nesting with period <= 2, 17 depths up to 600", |ch, o| {
        let (what, n) = derived_ladder(ch, LADDER, 2);
        let p = ch.flag();
        derived_traversal(&n, &what, p, o)
    });
}

fn derived_calls(n: &Node, what: &str, path: bool, o: &mut Obs) -> Res {
    let want = n.calls();
    track::reset(&[]);
    let root = n.build();
    if path {
        compare_calls(&deser_path::PathSerializable::wrap(&root), &want, what, o)?;
    } else {
        compare_calls(&root, &want, what, o)?;
    }
    drop(root);
    badness()
}

fn c11_derived(r: &mut Runner) {
    let n = r.b(4, 5);
    r.section(
        "derived trees",
        &format!("all trees of <= {} nested values over 29 derived structs, newtypes, flattened structs, standard containers and wrappers; state set at the start of every value and undone at its end", n),
        |ch, o| {
            let n = derived(ch, n, true, false);
            o.sample(|| n.show());
            derived_calls(&n, &n.show(), false, o)
        },
    );
    let n = r.b(3, 4);
    r.section("derived handles", &format!("the same with <= {} nested values, more leaves, 8 assignments of ways of handing out, with and without path tracking", n), |ch, o| {
        let n = derived(ch, n, false, true);
        let p = ch.flag();
        derived_calls(&n, &n.show(), p, o)
    });
    r.section("derived deep", "8 shapes of nesting with period <= 2, 17 depths up to 600", |ch, o| {
        let (what, n) = derived_ladder(ch, LADDER, 2);
        let p = ch.flag();
        derived_calls(&n, &what, p, o)
    });
}

fn c14_derived(r: &mut Runner) {
    let n = r.b(3, 4);
    r.section(
        "ser derived",
        &format!("all trees of <= {} nested values over 29 derived types, containers and wrappers, every callback failing in turn, driver and JSON writer, with and without path tracking", n),
        |ch, o| {
            let n = derived(ch, n, true, true);
            let what = n.show();
            o.sample(|| what.clone());
            track::reset(&[]);
            let root = n.build();
            if ch.flag() {
                faulty_in(ch, &deser_path::PathSerializable::wrap(&root), &what, o)
            } else {
                faulty_in(ch, &root, &what, o)
            }
        },
    );
    let (ds, per) = r.b((vec![1, 33, 129], 1), (vec![1, 33, 127, 128, 129, 257], 2));
    r.section("ser derived deep", &format!("8 shapes of nesting with period <= {}, depths {:?}, every callback failing in turn", per, ds), |ch, o| {
        let (what, n) = derived_ladder(ch, &ds, per);
        track::reset(&[]);
        let root = n.build();
        faulty_in(ch, &root, &what, o)
    });
}

fn derived_lifetimes(ch: &mut Ch, n: &Node, what: &str, path: bool, o: &mut Obs) -> Res {
    track::reset(&[]);
    let mut steps = 0;
    {
        let root = n.build();
        let mut d = SerializeDriver::new(&root);
        while let Ok(Some(_)) = d.next() {
            steps += 1;
        }
    }
    let calls = track::calls() as usize;
    let p = plan(ch, steps, calls.max(1));
    let (mut events, mut failed) = (0, false);
    o.step_h(hash(&(steps, calls, what)));
    o.sample(|| what.to_string());
    // after a failure only lifetimes matter, not what is open
    mc_vals::dtree::set_check(p.stop.is_some());
    let r = balanced(&|| what.to_string(), || {
        track::reset(&p.faults);
        let root = n.build();
        if path {
            execute(&deser_path::PathSerializable::wrap(&root), &p, &mut events, &mut failed);
        } else {
            execute(&root, &p, &mut events, &mut failed);
        }
        drop(root);
        Ok(())
    });
    mc_vals::dtree::set_check(true);
    r
}

fn derived_endings(r: &mut Runner) {
    let n = if SMALL { r.b(2, 3) } else { r.b(3, 4) };
    let gives = r.thorough && !SMALL;
    r.section(
        "ser derived",
        &format!("all trees of <= {} nested values over 29 derived types, containers and wrappers x stop after every step, every callback failing (alone or with a later one) or panicking, then 0..4 further steps, with and without path tracking", n),
        |ch, o| {
            let n = derived(ch, n, true, gives);
            let p = ch.flag();
            derived_lifetimes(ch, &n, &n.show(), p, o)
        },
    );
    let (ds, per) = if SMALL { (vec![9], 1) } else { r.b((vec![65], 1), (vec![33, 65, 129, 257], 2)) };
    r.section("ser derived deep", &format!("8 shapes of nesting with period <= {}, depths {:?}, same endings", per, ds), |ch, o| {
        let (what, n) = derived_ladder(ch, &ds, per);
        derived_lifetimes(ch, &n, &what, false, o)
    });
}

// ------------------------------------------------------------------- C11

/// Start and end callbacks of a full traversal.
fn start_end(v: &dyn Serialize) -> Result<Vec<(Op, u64)>, Error> {
    let mut d = SerializeDriver::new(v);
    while d.next()?.is_some() {}
    d.next()?;
    drop(d);
    Ok(track::take_log()
        .into_iter()
        .filter(|x| matches!(x.0, Op::Serialize | Op::Finish))
        .collect())
}

fn compare_calls(v: &dyn Serialize, want: &[(Op, u64)], what: &str, o: &mut Obs) -> Res {
    track::take_log();
    let got = match start_end(v) {
        Ok(x) => x,
        Err(e) => fail!("{}: unprovoked error {}", what, e),
    };
    let mut h = 0;
    for x in &got {
        h = hash(&(h, x));
        o.step_h(h);
    }
    if got != want {
        let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        fail!(
            "{}: callback {} is {:?}, expected {:?}",
            what,
            i,
            got.get(i),
            want.get(i)
        );
    }
    Ok(())
}

/// An instrumented element for standard containers.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct El(pub u64, pub Vec<El>);

impl Serialize for El {
    fn serialize(&self, state: &SerializerState) -> Result<Chunk<'_>, Error> {
        track::call(Op::Serialize, self.0)?;
        // what is set at the start has to be visible to exactly the contents
        state.get_mut::<Open>().0.push(self.0);
        if self.1.is_empty() {
            Ok(Chunk::Atom(Atom::U64(self.0)))
        } else {
            struct E<'a>(std::slice::Iter<'a, El>);
            impl<'a> SeqEmitter for E<'a> {
                fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle<'_>>, Error> {
                    Ok(self.0.next().map(SerializeHandle::to))
                }
            }
            Ok(Chunk::Seq(Box::new(E(self.1.iter()))))
        }
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        let top = state.get_mut::<Open>().0.pop();
        if top != Some(self.0) {
            track::bad(format!("end of {} while {:?} is open", self.0, top));
        }
        track::call(Op::Finish, self.0)
    }
}

#[derive(Default, Debug)]
pub struct Open(pub Vec<u64>);

fn el_calls(x: &El, out: &mut Vec<(Op, u64)>) {
    out.push((Op::Serialize, x.0));
    for k in &x.1 {
        el_calls(k, out);
    }
    out.push((Op::Finish, x.0));
}

/// A standard container of instrumented elements, with the elements in order.
pub fn container(ch: &mut Ch, n: usize) -> (String, Box<dyn Serialize>, Vec<El>) {
    let els: Vec<El> = (0..n as u64)
        .map(|i| {
            let k = (i + 1) * 100;
            if i % 2 == 1 {
                El(k, vec![El(k + 1, vec![]), El(k + 2, vec![El(k + 3, vec![])])])
            } else {
                El(k, vec![])
            }
        })
        .collect();
    let e = els.clone();
    let leak = |x: &Vec<El>| -> &'static Vec<El> { Box::leak(Box::new(x.clone())) };
    let get = |i: usize| e[i % e.len().max(1)].clone();
    let pairs: BTreeMap<El, El> = e.chunks_exact(2).map(|c| (c[0].clone(), c[1].clone())).collect();
    let even: Vec<El> = e[..e.len() / 2 * 2].to_vec();
    let k = ch.pick(21);
    let (name, v, order): (&str, Box<dyn Serialize>, Vec<El>) = match k {
        0 => ("Vec", Box::new(e.clone()), e),
        1 => ("Vec<Option>", Box::new(e.iter().cloned().map(Some).collect::<Vec<_>>()), e),
        2 => ("Vec<Box>", Box::new(e.iter().cloned().map(Box::new).collect::<Vec<_>>()), e),
        3 => ("BTreeSet", Box::new(e.iter().cloned().collect::<std::collections::BTreeSet<_>>()), e),
        4 => {
            let s: std::collections::HashSet<El> = e.iter().cloned().collect();
            let o = s.iter().cloned().collect();
            ("HashSet", Box::new(s), o)
        }
        5 => ("BTreeMap", Box::new(pairs), even),
        6 => {
            let m: HMap<El, El> = pairs.into_iter().collect();
            let o = m.iter().flat_map(|(a, b)| [a.clone(), b.clone()]).collect();
            ("HashMap", Box::new(m), o)
        }
        7 if n > 0 => ("tuple1", Box::new((get(0),)), vec![get(0)]),
        8 if n > 1 => ("tuple2", Box::new((get(0), get(1))), vec![get(0), get(1)]),
        9 if n > 1 => ("array2", Box::new([get(0), get(1)]), vec![get(0), get(1)]),
        10 => ("slice", Box::new(&leak(&e)[..]), e),
        11 => ("Vec<&>", Box::new(leak(&e).iter().collect::<Vec<&El>>()), e),
        12 => ("Vec<&mut>", Box::new(leak(&e).clone().leak().iter_mut().collect::<Vec<&mut El>>()), e),
        13 if n > 0 => ("Option", Box::new(Some(get(0))), vec![get(0)]),
        14 if n > 0 => ("Box<Option<Box>>", Box::new(Box::new(Some(Box::new(get(0))))), vec![get(0)]),
        15 => ("None", Box::new(None::<El>), vec![]),
        16 => (
            "Vec<Option<Box<&>>>",
            Box::new(leak(&e).iter().map(|x| Some(Box::new(x))).collect::<Vec<_>>()),
            e,
        ),
        17 => (
            "BTreeMap<Option,Vec>",
            Box::new(
                e.chunks_exact(2)
                    .map(|c| (Some(c[0].clone()), vec![c[1].clone()]))
                    .collect::<BTreeMap<_, _>>(),
            ),
            even,
        ),
        18 => ("Box<Vec>", Box::new(Box::new(e.clone())), e),
        19 => ("Option<Vec>", Box::new(Some(e.clone())), e),
        20 => ("(Vec,Vec)", Box::new((e.clone(), vec![Some(e.clone())])), [e.clone(), e].concat()),
        _ => ("Vec", Box::new(e.clone()), e),
    };
    (format!("{} of {}", name, n), v, order)
}

pub fn c11(r: &mut Runner) {
    c11_derived(r);
    let n = r.b(5, 6);
    r.section(
        "trees",
        &format!("all trees of <= {} nested values, nesting <= 3, all handle styles in rotation, 3 root styles", n),
        |ch, o| {
            let mut b = n;
            let mut s = spec_tree(ch, &mut b, 3, &mut one_leaf);
            styles_cycle(ch, &mut s);
            s.number();
            let mut want = vec![];
            s.calls(&mut want);
            track::reset(&[]);
            let root = Root::pick(ch, &s);
            o.sample(|| s.show());
            compare_calls(root.get(), &want, &s.show(), o)?;
            drop(root);
            badness()
        },
    );
    let n2 = r.b(3, 4);
    r.section(
        "styles",
        &format!("all trees of <= {} nested values x every assignment of {} handle styles", n2, r.b(5, 8)),
        |ch, o| {
            let mut b = n2;
            let mut s = spec_tree(ch, &mut b, 3, &mut one_leaf);
            styles_all(ch, &mut s, if n2 == 3 { &[Style::Owned, Style::Slot, Style::OwnedBox, Style::SlotSome, Style::OwnedSomeBoxRef] } else { &STYLES });
            s.number();
            let mut want = vec![];
            s.calls(&mut want);
            track::reset(&[]);
            compare_calls(&s, &want, &s.show(), o)?;
            badness()
        },
    );
    r.section(
        "path",
        &format!("all trees of <= {} nested values, wrapped for path tracking", n - 1),
        |ch, o| {
            let mut b = n - 1;
            let mut s = spec_tree(ch, &mut b, 3, &mut two_leaf);
            styles_cycle(ch, &mut s);
            s.number();
            let mut want = vec![];
            s.calls(&mut want);
            track::reset(&[]);
            let root = Root::pick(ch, &s);
            compare_calls(&deser_path::PathSerializable::wrap(root.get()), &want, &s.show(), o)?;
            drop(root);
            badness()
        },
    );
    let m = r.b(6, 40);
    r.section(
        "containers",
        &format!("21 standard containers, references, boxes and optionals of 0..{} instrumented elements, plain and path tracked; state set at the start and undone at the end", m),
        |ch, o| {
            let n = ch.pick(m);
            let (what, v, els) = container(ch, n);
            let mut want = vec![];
            for x in &els {
                el_calls(x, &mut want);
            }
            track::reset(&[]);
            o.sample(|| what.clone());
            if ch.flag() {
                compare_calls(&deser_path::PathSerializable::wrap(&*v), &want, &what, o)?;
            } else {
                compare_calls(&*v, &want, &what, o)?;
            }
            badness()
        },
    );
    r.section(
        "deep",
        "nesting patterns of period <= 2, depths 1, 127..129, 1000; 4 style rotations",
        |ch, o| {
            let p = pattern(ch);
            let mut s = ladder(&p, ch.of(&[1, 127, 128, 129, 1000]));
            let st = ch.of(&[Style::Borrowed, Style::Owned, Style::Slot, Style::SlotSome]);
            set_uniform(&mut s, st, 0);
            s.number();
            let mut want = vec![];
            s.calls(&mut want);
            track::reset(&[]);
            compare_calls(&s, &want, &format!("{:?}", p), o)?;
            badness()
        },
    );
    r.section("wide", "containers of n elements, n <= 40, 127..129, 1000, 4097, 65537", |ch, o| {
        let k = ch.pick(4);
        let n = ch.pick(if SMALL { 44 } else { 46 });
        let mut s = wide(k, if n < 40 { n } else { [127, 128, 129, 1000, 4097, 65537][n - 40] });
        let st = ch.of(&STYLES);
        set_uniform(&mut s, st, 0);
        s.number();
        let mut want = vec![];
        s.calls(&mut want);
        track::reset(&[]);
        compare_calls(&s, &want, "wide", o)?;
        badness()
    });
}

// ------------------------------------------------------------------- C14

/// One value with every callback failing in turn.
fn faulty(ch: &mut Ch, v: &dyn Serialize, what: &str, o: &mut Obs) -> Res {
    track::reset(&[]);
    faulty_in(ch, v, what, o)
}

/// The same for values that are registered already.
fn faulty_in(ch: &mut Ch, v: &dyn Serialize, what: &str, o: &mut Obs) -> Res {
    track::rearm(&[]);
    let mut counts = vec![];
    let mut events = vec![];
    {
        let mut d = SerializeDriver::new(v);
        loop {
            let e = match d.next() {
                Err(e) => fail!("{}: error {} although no callback failed", what, e),
                Ok(e) => e.map(|x| Ev::of(&x.0)),
            };
            counts.push(track::calls());
            let end = e.is_none();
            events.push(e);
            if end {
                break;
            }
        }
    }
    let log = track::take_log();
    badness()?;
    if log.is_empty() {
        return Ok(());
    }
    let n = ch.pick(log.len()) as u32;
    match ch.pick(2) {
        0 => {
            track::rearm(&[n]);
            let mut d = SerializeDriver::new(v);
            for (i, want) in events.iter().enumerate() {
                let r = d.next().map(|x| x.map(|x| Ev::of(&x.0)));
                o.step_h(hash(&(i, counts[i], n)));
                match r {
                    Ok(x) => {
                        ensure!(
                            counts[i] <= n,
                            "{}: callback {} {:?} failed but the step returns {:?}",
                            what,
                            n,
                            log[n as usize],
                            x
                        );
                        ensure!(x == *want, "{}: event {} differs before the fault", what, i);
                    }
                    Err(e) => {
                        ensure!(
                            counts[i] > n,
                            "{}: error {} before callback {} failed",
                            what,
                            e,
                            n
                        );
                        ensure!(
                            track::is_fault(&e, n),
                            "{}: callback {} failed with {:?}, got {:?}",
                            what,
                            n,
                            track::fault_error(n),
                            e
                        );
                        let got = track::take_log();
                        ensure!(
                            got[..] == log[..n as usize + 1],
                            "{}: callbacks after callback {} failed: {:?}",
                            what,
                            n,
                            &got[got.len().min(n as usize + 1)..]
                        );
                        drop(d);
                        ensure!(track::take_log().is_empty(), "callbacks while dropping");
                        o.class("fault surfaced");
                        return badness();
                    }
                }
            }
            fail!("{}: callback {} {:?} failed but nothing is reported", what, n, log[n as usize]);
        }
        _ => {
            track::rearm(&[n]);
            let r = deser_json::to_string(v);
            let fired = !track::fired().is_empty();
            match r {
                Ok(s) => ensure!(!fired, "{}: callback {} failed but JSON {} was written", what, n, s),
                Err(e) if fired => {
                    ensure!(
                        track::is_fault(&e, n),
                        "{}: JSON writer: callback {} failed with {:?}, got {:?}",
                        what,
                        n,
                        track::fault_error(n),
                        e
                    );
                    ensure!(track::calls() == n + 1, "{}: JSON writer: callbacks after the error", what);
                    o.class("fault surfaced through JSON");
                }
                Err(_) => {}
            }
            badness()
        }
    }
}

pub fn c14(r: &mut Runner) {
    c14_derived(r);
    let n = r.b(3, 4);
    r.section(
        "ser trees",
        &format!("all trees of <= {} nested values, all handle styles in rotation, every callback failing in turn, driver and JSON writer", n),
        |ch, o| {
            let mut b = n;
            let mut s = spec_tree(ch, &mut b, 3, &mut |_| Leaf::s("k"));
            styles_cycle(ch, &mut s);
            s.number();
            let what = s.show();
            o.sample(|| what.clone());
            faulty(ch, &s, &what, o)
        },
    );
    r.section(
        "ser path",
        &format!("the same under path tracking, <= {} nested values", n),
        |ch, o| {
            let mut b = n;
            let mut s = spec_tree(ch, &mut b, 3, &mut |_| Leaf::s("k"));
            let st = ch.of(&[Style::Borrowed, Style::Owned, Style::SlotSome]);
            set_uniform(&mut s, st, 0);
            s.number();
            let what = s.show();
            let p = deser_path::PathSerializable::wrap(&s);
            faulty(ch, &p, &what, o)
        },
    );
    r.section(
        "ser containers",
        "21 standard containers of 0..6 instrumented elements, every callback failing in turn, driver and JSON writer",
        |ch, o| {
            let n = ch.pick(6);
            let (what, v, _) = container(ch, n);
            o.sample(|| what.clone());
            faulty(ch, &*v, &what, o)
        },
    );
    r.section("ser deep", "nesting depth 128, 129 and 200, 5 patterns, every callback failing in turn", |ch, o| {
        let p = [ch.pick(5)];
        let mut s = ladder(&p, ch.of(&[128, 129, 200]));
        let st = ch.of(&[Style::Borrowed, Style::Slot]);
        set_uniform(&mut s, st, 0);
        s.number();
        faulty(ch, &s, &format!("{:?}", p), o)
    });
}

// -------------------------------------------------------------- C15 and C16

/// The address sanitizer makes everything slower.
pub const SMALL: bool = cfg!(feature = "asan");

/// Runs `f`, which creates and drops a driver, and takes stock afterwards.
pub fn balanced(what: &dyn Fn() -> String, f: impl FnOnce() -> Res) -> Res {
    track::reset(&[]);
    track::release();
    let before = live();
    let r = f();
    let (bad, left, names) = (track::badness(), track::alive(), track::alive_text());
    track::release();
    mc_vals::ide::release();
    let after = live();
    r?;
    if let Some(b) = bad {
        fail!("{}: {}", what(), b);
    }
    ensure!(left == 0, "{}: never dropped: {}", what(), names);
    ensure!(
        before == after,
        "{}: {} blocks ({} bytes) leaked",
        what(),
        after.0 - before.0,
        after.1 - before.1
    );
    Ok(())
}

pub struct Plan {
    faults: Vec<u32>,
    panic: Option<u32>,
    /// stop after so many steps
    stop: Option<usize>,
    /// further steps after an error or a panic
    more: usize,
}

fn execute(v: &dyn Serialize, p: &Plan, events: &mut usize, failed: &mut bool) {
    for f in [p.panic] {
        if let Some(n) = f {
            track::panic_at(n);
        }
    }
    track::with(|_| ());
    let mut d = SerializeDriver::new(v);
    let mut more = p.more;
    let mut i = 0;
    loop {
        if p.stop == Some(i) {
            break;
        }
        i += 1;
        let r = guard(|| d.next().map(|x| x.map(|x| drop(Ev::of(&x.0)))).map_err(|e| drop(e)));
        match r {
            Ok(Ok(Some(_))) => *events += 1,
            Ok(Ok(None)) => break,
            Ok(Err(())) | Err(_) => {
                *failed = true;
                if more == 0 {
                    break;
                }
                more -= 1;
            }
        }
    }
    drop(d);
}

fn plan(ch: &mut Ch, events: usize, calls: usize) -> Plan {
    let mut p = Plan {
        faults: vec![],
        panic: None,
        stop: None,
        more: 0,
    };
    match ch.pick(4) {
        0 => p.stop = Some(ch.pick(events + 2)),
        1 => {
            p.faults.push(ch.pick(calls) as u32);
            p.more = ch.pick(3);
        }
        2 => {
            let n = ch.pick(calls) as u32;
            p.faults.push(n);
            p.faults.push(n + 1 + ch.pick(2) as u32);
            p.more = 4;
        }
        _ => {
            p.panic = Some(ch.pick(calls) as u32);
            p.more = ch.pick(2);
        }
    }
    p
}

fn lifetimes(ch: &mut Ch, s: &Spec, o: &mut Obs) -> Res {
    let mut exp = vec![];
    s.expect(&mut exp);
    // the number of callbacks is known from a dry run
    track::reset(&[]);
    {
        let mut d = SerializeDriver::new(s);
        while let Ok(Some(_)) = d.next() {}
    }
    let calls = track::calls() as usize;
    let p = plan(ch, exp.len(), calls);
    let rk = ch.pick(3);
    let mut events = 0;
    let mut failed = false;
    let r = balanced(&|| s.show(), || {
        track::reset(&p.faults);
        let root = match rk {
            0 => Root::Ref(s),
            1 => Root::Own(Own::new(s, 0)),
            _ => Root::Some(Some(Own::new(s, 0))),
        };
        execute(root.get(), &p, &mut events, &mut failed);
        drop(root);
        Ok(())
    });
    o.step_h(hash(&(events, failed, s.kids.len())));
    o.class(if failed { "failed" } else if p.stop.is_some() { "stopped" } else { "completed" });
    r
}

pub fn c16(r: &mut Runner) {
    derived_endings(r);
    let n = if SMALL { 2 } else { 3 };
    let st = r.b(vec![Style::Owned, Style::Slot], vec![Style::Owned, Style::Slot, Style::SlotSome, Style::OwnedSomeBoxRef]);
    r.section(
        "ser styles",
        &format!("all trees of <= {} nested values x all assignments of {} handle styles x stop after every step, every callback failing (alone, or with a later one) or panicking, then 0..2 further steps; 3 roots", n, st.len()),
        |ch, o| {
            let mut b = n;
            let mut s = spec_tree(ch, &mut b, 3, &mut one_leaf);
            styles_all(ch, &mut s, &st);
            s.set_check(false);
            s.number();
            o.sample(|| s.show());
            lifetimes(ch, &s, o)
        },
    );
    let n = if SMALL { 2 } else { r.b(2, 3) };
    r.section("ser rotations", &format!("all trees of <= {} nested values x styles in rotation x the same endings", n), |ch, o| {
        let mut b = n;
        let mut s = spec_tree(ch, &mut b, 3, &mut one_leaf);
        styles_cycle(ch, &mut s);
        s.set_check(false);
        s.number();
        lifetimes(ch, &s, o)
    });
    let ds = if SMALL { vec![r.b(17, 130)] } else { r.b(vec![129], vec![63, 64, 65, 127, 128, 129, 255, 256, 257, 600]) };
    r.section("ser deep", &format!("nesting depths {:?}, 5 patterns, 2 styles, stop after every step or failing in every callback", ds), |ch, o| {
        let mut s = ladder(&[ch.pick(5)], ch.of(&ds));
        let st = ch.of(&[Style::Owned, Style::SlotSome]);
        set_uniform(&mut s, st, 2);
        s.set_check(false);
        s.number();
        lifetimes(ch, &s, o)
    });
}

pub fn c15(r: &mut Runner) {
    derived_endings(r);
    let n = r.b(2, 3);
    r.section("ser", &format!("all trees of <= {} nested values x styles in rotation x stop after every step, every callback failing or panicking, then 0..2 further steps; allocation balance", n), |ch, o| {
        let mut b = n;
        let mut s = spec_tree(ch, &mut b, 3, &mut one_leaf);
        styles_cycle(ch, &mut s);
        s.set_check(false);
        s.number();
        o.sample(|| s.show());
        lifetimes(ch, &s, o)
    });
    r.section("ser path", "21 standard containers of 0..5 elements under path tracking: stop after every step or every callback failing", |ch, o| {
        let n = ch.pick(6);
        let (what, v, _) = container(ch, n);
        track::reset(&[]);
        let mut steps = 0;
        {
            let mut d = SerializeDriver::new(&*v);
            while let Ok(Some(_)) = d.next() {
                steps += 1;
            }
        }
        let calls = track::calls() as usize;
        let p = plan(ch, steps, calls.max(1));
        let path = ch.flag();
        let (mut events, mut failed) = (0, false);
        o.step_h(hash(&(steps, calls)));
        balanced(&|| what.clone(), || {
            track::reset(&p.faults);
            if path {
                execute(&deser_path::PathSerializable::wrap(&*v), &p, &mut events, &mut failed);
            } else {
                execute(&*v, &p, &mut events, &mut failed);
            }
            Ok(())
        })
    });
}
