//! C24: byte sequences.
use crate::rebuild::relay;
use mc_vals::judge::{feed, judge};
use deser::ser::Serialize;
use deser::ErrorKind;
use mc_core::{ensure, fail, hash, Ch, Obs, Res, Runner};
use mc_vals::gen::{HMap, HSet, Scope};
use mc_vals::model::Model;
use mc_vals::{events_of, Ev, Leaf, Val};
use std::collections::{BTreeMap, BTreeSet};

fn pattern(ch: &mut Ch, n: usize) -> Vec<u8> {
    match ch.pick(4) {
        0 => (0..n).map(|x| (x * 7 + 1) as u8).collect(),
        1 => vec![0; n],
        2 => vec![255; n],
        _ => (0..n).map(|x| if x % 2 == 0 { 128 } else { 127 }).collect(),
    }
}

fn one(v: &dyn Serialize, want: &[u8], what: &str, o: &mut Obs) -> Res {
    let e = match events_of(v) {
        Ok(e) => e,
        Err(e) => fail!("{}: error {}", what, e),
    };
    o.step_h(hash(&(what, want)));
    ensure!(e == [Ev::A(Leaf::Bytes(want.to_vec()))], "{} {:?} serializes as {}", what, want, mc_vals::show(&e));
    Ok(())
}

fn array<const N: usize>(ch: &mut Ch, o: &mut Obs) -> Res {
    let x: [u8; N] = pattern(ch, N).try_into().unwrap();
    one(&x, &x, "byte array", o)?;
    one(&&x, &x, "reference to byte array", o)?;
    one(&Box::new(x), &x, "boxed byte array", o)?;
    one(&Some(x), &x, "optional byte array", o)?;
    let back = |evs: Vec<Ev>| -> Res {
        let mut out: Option<[u8; N]> = None;
        match feed(&evs, &mut out) {
            Ok(Ok(())) if out == Some(x) => Ok(()),
            r => fail!("[u8; {}] from {}: {:?} {:?}", N, mc_vals::show(&evs), r, out),
        }
    };
    back(vec![Ev::A(Leaf::Bytes(x.to_vec()))])?;
    back(Val::Seq(x.iter().map(|x| Val::L(Leaf::U64(*x as u64))).collect()).evs())?;
    back(Val::Seq(x.iter().map(|x| Val::L(Leaf::I64(*x as i64))).collect()).evs())?;
    // other lengths
    let n = ch.pick(N + 3);
    let y = pattern(ch, n);
    {
        judge::<[u8; N]>(&Val::L(Leaf::Bytes(y.clone())), o, None)?;
        judge::<[u8; N]>(&Val::Seq(y.iter().map(|x| Val::L(Leaf::U64(*x as u64))).collect()), o, None)?;
        judge::<Vec<[u8; N]>>(&Val::Seq(vec![Val::L(Leaf::Bytes(y.clone()))]), o, None)?;
        judge::<Option<[u8; N]>>(&Val::L(Leaf::Bytes(y)), o, None)?;
    }
    Ok(())
}

macro_rules! arrays { ($($n:literal)*) => { &[$(array::<$n> as fn(&mut Ch, &mut Obs) -> Res),*] }; }
const ARRAYS: &[fn(&mut Ch, &mut Obs) -> Res] = arrays!(0 1 2 3 4 5 6 7 8 9 15 16 17 31 32 33 63 64 65);

/// Other element types reject bytes and serialize as sequences.
fn other<T: Model + Clone>(ch: &mut Ch, o: &mut Obs) -> Res {
    let name = std::any::type_name::<T>();
    let is_byte = T::unbyte(&[]).is_some();
    let n = ch.pick(5);
    let b = Val::L(Leaf::Bytes(pattern(ch, n)));
    let t = T::gen(ch, Scope { w: 2, n: 1 });
    if is_byte {
        return Ok(());
    }
    o.step_h(hash(&(name, n)));
    fn rejects<X: Model>(v: &Val) -> Res {
        let mut out: Option<X> = None;
        match feed(&v.evs(), &mut out) {
            Ok(Err(e)) => {
                ensure!(e.kind() == ErrorKind::Unexpected, "{} from {}: {}", std::any::type_name::<X>(), v.show(), e);
                Ok(())
            }
            r => fail!("{} from {}: {:?} {:?}", std::any::type_name::<X>(), v.show(), r, out),
        }
    }
    rejects::<Vec<T>>(&b)?;
    rejects::<[T; 0]>(&b)?;
    rejects::<[T; 1]>(&b)?;
    rejects::<[T; 3]>(&b)?;
    rejects::<Option<Vec<T>>>(&b)?;
    rejects::<Box<[T; 2]>>(&b)?;
    rejects::<Vec<Vec<T>>>(&Val::Seq(vec![b.clone()]))?;
    let mut item = vec![];
    t.shape(&mut item);
    let mut want = vec![Ev::Ss];
    for _ in 0..n {
        want.extend(item.iter().map(|x| x.0.clone()));
    }
    want.push(Ev::Se);
    let v: Vec<T> = (0..n).map(|_| t.clone()).collect();
    let is = |s: &dyn Serialize, what: &str| -> Res {
        match events_of(s) {
            Ok(e) if e == want => Ok(()),
            r => fail!("{} of {}: {:?}, expected {}", what, name, r.map(|x| mc_vals::show(&x)).map_err(|x| x.to_string()), mc_vals::show(&want)),
        }
    };
    is(&v, "vector")?;
    is(&&v[..], "slice")?;
    is(&Box::new(v.clone()), "boxed vector")?;
    is(&Some(v.clone()), "optional vector")?;
    match n {
        0 => is(&<[T; 0]>::try_from(v).unwrap_or_else(|_| unreachable!()), "array"),
        1 => is(&<[T; 1]>::try_from(v).unwrap_or_else(|_| unreachable!()), "array"),
        2 => is(&<[T; 2]>::try_from(v).unwrap_or_else(|_| unreachable!()), "array"),
        3 => is(&<[T; 3]>::try_from(v).unwrap_or_else(|_| unreachable!()), "array"),
        _ => is(&<[T; 4]>::try_from(v).unwrap_or_else(|_| unreachable!()), "array"),
    }
}

/// Elements that look like bytes without being bytes.
#[derive(deser::Serialize, deser::Deserialize, Clone, Debug, PartialEq)]
struct New(u8);
#[derive(deser::Serialize, deser::Deserialize, Clone, Debug, PartialEq)]
#[repr(transparent)]
struct Twice(New);
#[derive(deser::Serialize, deser::Deserialize, Clone, Debug, PartialEq)]
struct Gen<T>(T);
#[derive(deser::Serialize, deser::Deserialize, Clone, Debug, PartialEq)]
struct Field {
    x: u8,
}
#[derive(deser::Serialize, deser::Deserialize, Clone, Debug, PartialEq)]
enum Two {
    A,
    B,
}
/// Byte sequences in derived newtypes.
#[derive(deser::Serialize, deser::Deserialize, Clone, Debug, PartialEq)]
struct Blob(Vec<u8>);
#[derive(deser::Serialize, deser::Deserialize, Clone, Debug, PartialEq)]
struct Four([u8; 4]);

fn alike<T: Serialize + deser::Deserialize + Clone + PartialEq + std::fmt::Debug>(t: T, item: &[Ev], ch: &mut Ch, o: &mut Obs) -> Res {
    let name = std::any::type_name::<T>();
    let n = ch.pick(5);
    let bytes = [Ev::A(Leaf::Bytes(pattern(ch, n)))];
    o.step_h(hash(&(name, n, &bytes)));
    fn rejects<X: deser::Deserialize + std::fmt::Debug>(evs: &[Ev]) -> Res {
        let mut out: Option<X> = None;
        match feed(evs, &mut out) {
            Ok(Err(e)) if e.kind() == ErrorKind::Unexpected => Ok(()),
            r => fail!("{} from {}: {:?} {:?}", std::any::type_name::<X>(), mc_vals::show(evs), r, out),
        }
    }
    rejects::<Vec<T>>(&bytes)?;
    rejects::<[T; 0]>(&bytes)?;
    rejects::<[T; 1]>(&bytes)?;
    rejects::<[T; 2]>(&bytes)?;
    rejects::<[T; 4]>(&bytes)?;
    rejects::<Option<Vec<T>>>(&bytes)?;
    rejects::<Box<Vec<T>>>(&bytes)?;
    rejects::<Gen<Vec<T>>>(&bytes)?;
    rejects::<Gen<[T; 3]>>(&bytes)?;
    let seq = |n: usize| -> Vec<Ev> {
        let mut e = vec![Ev::Ss];
        (0..n).for_each(|_| e.extend_from_slice(item));
        e.push(Ev::Se);
        e
    };
    let want = seq(n);
    let is = |s: &dyn Serialize, want: &[Ev], what: &str| -> Res {
        match events_of(s) {
            Ok(e) if e == want => Ok(()),
            r => fail!("{} of {}: {:?}, expected {}", what, name, r.map(|x| mc_vals::show(&x)).map_err(|x| x.to_string()), mc_vals::show(want)),
        }
    };
    let v = vec![t.clone(); n];
    is(&v, &want, "vector")?;
    is(&&v[..], &want, "slice")?;
    is(&Gen(v.clone()), &want, "vector in a newtype")?;
    is(&v.iter().collect::<Vec<&T>>(), &want, "vector of references")?;
    is(&&v.iter().collect::<Vec<&T>>()[..], &want, "slice of references")?;
    is(&v.clone().iter_mut().collect::<Vec<&mut T>>(), &want, "vector of mutable references")?;
    is(&[t.clone(), t.clone()], &seq(2), "array")?;
    is(&[&t, &t, &t], &seq(3), "array of references")?;
    is(&Gen([t.clone()]), &seq(1), "array in a newtype")?;
    let mut out: Option<Vec<T>> = None;
    match feed(&want, &mut out) {
        Ok(Ok(())) if out.as_ref() == Some(&v) => {}
        r => fail!("Vec of {} from {}: {:?} {:?}", name, mc_vals::show(&want), r, out),
    }
    let mut out: Option<[T; 2]> = None;
    match (feed(&want, &mut out), n) {
        (Ok(Ok(())), 2) if out == Some([t.clone(), t]) => {}
        (Ok(Err(e)), n) if n != 2 && e.kind() == ErrorKind::WrongLength => {}
        (r, _) => fail!("array of {} from {}: {:?} {:?}", name, mc_vals::show(&want), r, out),
    }
    Ok(())
}

fn blobs(ch: &mut Ch, o: &mut Obs) -> Res {
    let n = ch.pick(6);
    let x = pattern(ch, n);
    one(&Blob(x.clone()), &x, "byte vector in a newtype", o)?;
    one(&Gen(x.clone()), &x, "byte vector in a generic newtype", o)?;
    one(&Gen(&x[..]), &x, "byte slice in a newtype", o)?;
    one(&Gen(Some(Box::new(Blob(x.clone())))), &x, "wrapped byte vector", o)?;
    let signed = ch.flag();
    let seq = Val::Seq(x.iter().map(|x| Val::L(if signed { Leaf::I64(*x as i64) } else { Leaf::U64(*x as u64) })).collect()).evs();
    for evs in [vec![Ev::A(Leaf::Bytes(x.clone()))], seq] {
        fn back<X: deser::Deserialize + PartialEq + std::fmt::Debug>(evs: &[Ev], want: Option<X>) -> Res {
            let mut out: Option<X> = None;
            match (feed(evs, &mut out), want) {
                (Ok(Ok(())), Some(w)) if out.as_ref() == Some(&w) => Ok(()),
                (Ok(Err(e)), None) if e.kind() == ErrorKind::WrongLength => Ok(()),
                (r, want) => fail!("{} from {}: {:?} {:?}, expected {:?}", std::any::type_name::<X>(), mc_vals::show(evs), r, out, want),
            }
        }
        back(&evs, Some(Blob(x.clone())))?;
        back(&evs, Some(Gen(x.clone())))?;
        back(&evs, Some(Gen(Some(Box::new(Blob(x.clone()))))))?;
        let four: Option<[u8; 4]> = x.clone().try_into().ok();
        back(&evs, four.map(Four))?;
        back(&evs, four.map(|x| Gen(Box::new(x))))?;
        if let Some(x) = four {
            one(&Four(x), &x, "byte array in a newtype", o)?;
            one(&Gen(&x), &x, "reference to a byte array in a newtype", o)?;
        }
    }
    Ok(())
}

type Case = fn(&mut Ch, &mut Obs) -> Res;
macro_rules! cases { ($($t:ty),* $(,)?) => { &[$(other::<$t> as Case),*] }; }
const OTHER: &[Case] = mc_vals::std_types!(cases);

pub fn c24(r: &mut Runner) {
    let m = r.b(400, 3000);
    r.section("vectors", &format!("byte vectors, slices and everything around them for every length <= {}, and 4097, 65535..65537, 2^20 + 1, 4 contents; back from bytes and from numbers", m), |ch, o| {
        let n = ch.pick(m + 6);
        let n = if n <= m { n } else { [4097, 65535, 65536, 65537, (1 << 20) + 1][n - m - 1] };
        let x = pattern(ch, n);
        one(&x, &x, "byte vector", o)?;
        one(&&x[..], &x, "byte slice", o)?;
        one(&&x, &x, "reference to byte vector", o)?;
        one(&Box::new(x.clone()), &x, "boxed byte vector", o)?;
        one(&Some(x.clone()), &x, "optional byte vector", o)?;
        match relay(&x, ch.flag()) {
            Ok(Some(y)) if y == x => {}
            r => fail!("byte vector {:?} comes back as {:?}", x, r),
        }
        let signed = ch.flag();
        judge::<Vec<u8>>(
            &Val::Seq(x.iter().map(|x| Val::L(if signed { Leaf::I64(*x as i64) } else { Leaf::U64(*x as u64) })).collect()),
            o,
            None,
        )?;
        judge::<Vec<u8>>(&Val::L(Leaf::Bytes(x.clone())), o, None)?;
        judge::<Vec<Vec<u8>>>(&Val::Seq(vec![Val::L(Leaf::Bytes(x.clone())), Val::L(Leaf::Bytes(x))]), o, None)
    });
    r.section("contents", "every byte vector of <= 2 bytes", |ch, o| {
        let n = ch.pick(3);
        let x: Vec<u8> = (0..n).map(|_| ch.pick(256) as u8).collect();
        one(&x, &x, "byte vector", o)?;
        judge::<Vec<u8>>(&Val::L(Leaf::Bytes(x.clone())), o, None)?;
        judge::<[u8; 1]>(&Val::L(Leaf::Bytes(x.clone())), o, None)?;
        judge::<[u8; 2]>(&Val::L(Leaf::Bytes(x.clone())), o, None)?;
        judge::<[u8; 2]>(&Val::Seq(x.iter().map(|x| Val::L(Leaf::U64(*x as u64))).collect()), o, None)
    });
    r.section("numbers", "sequences of <= 3 numbers out of -1..300, u64::MAX and others, into byte vectors and arrays", |ch, o| {
        let n = ch.pick(4);
        let v = Val::Seq((0..n).map(|_| Val::L(ch.of(&[Leaf::U64(0), Leaf::U64(255), Leaf::U64(256), Leaf::I64(-1), Leaf::I64(200), Leaf::U64(u64::MAX), Leaf::F64(1.0), Leaf::s("1"), Leaf::Null, Leaf::Bytes(vec![1])]))).collect());
        judge::<Vec<u8>>(&v, o, None)?;
        judge::<[u8; 2]>(&v, o, None)?;
        judge::<[u8; 3]>(&v, o, None)?;
        judge::<Option<Vec<u8>>>(&v, o, None)?;
        judge::<Box<[u8; 1]>>(&v, o, None)
    });
    r.section("arrays", "byte arrays of 19 lengths 0..65, all lengths of input up to 2 more", |ch, o| ARRAYS[ch.pick(ARRAYS.len())](ch, o));
    r.section("other elements", &format!("vectors, slices and arrays of {} element types: reject bytes of <= 4 bytes, serialize as sequences", OTHER.len()), |ch, o| {
        OTHER[ch.pick(OTHER.len())](ch, o)
    });
    r.section("alike elements", "vectors, slices and arrays of 11 types that resemble bytes (derived newtypes of u8, plain, nested and generic, boxed, optional, tuples and arrays of one byte, structs and enums): reject bytes of <= 4 bytes, serialize as sequences, also through references, and come back from them", |ch, o| {
        let (n, f) = (Ev::A(Leaf::U64(7)), Ev::A(Leaf::s("x")));
        match ch.pick(11) {
            0 => alike(New(7), &[n], ch, o),
            1 => alike(Twice(New(7)), &[n], ch, o),
            2 => alike(Gen(7u8), &[n], ch, o),
            3 => alike(Gen(New(7)), &[n], ch, o),
            4 => alike(Box::new(7u8), &[n], ch, o),
            5 => alike(Some(7u8), &[n], ch, o),
            6 => alike((7u8,), &[Ev::Ss, n, Ev::Se], ch, o),
            7 => alike([7u8], &[Ev::A(Leaf::Bytes(vec![7]))], ch, o),
            8 => alike(Field { x: 7 }, &[Ev::Ms, f, n, Ev::Me], ch, o),
            9 => match ch.flag() {
                false => alike(Two::A, &[Ev::A(Leaf::s("A"))], ch, o),
                true => alike(Two::B, &[Ev::A(Leaf::s("B"))], ch, o),
            },
            _ => alike(Gen(Box::new(Some(New(7)))), &[n], ch, o),
        }
    });
    r.section("newtypes of byte sequences", "byte vectors, slices and arrays of <= 5 bytes in derived newtypes, plain, generic and wrapped again: travel as bytes, back from bytes and from numbers", |ch, o| blobs(ch, o));
}
#[allow(unused)]
fn unused(_: HSet<u8>, _: BTreeSet<u8>, _: BTreeMap<u8, HMap<u8, u8>>) {}
