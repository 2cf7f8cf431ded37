//! Checks over generated declarations: C07, C08, C25, C27.
mod extra;

use mc_core::{ensure, fail, hash, CountingAlloc, Runner};
use mc_decl::*;
use mc_vals::{Ev, Leaf};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

fn groups() -> Vec<(&'static str, Vec<&'static Entry>)> {
    let all = [d0::ENTRIES, d1::ENTRIES, d2::ENTRIES, d3::ENTRIES, d4::ENTRIES, d5::ENTRIES, d6::ENTRIES, d7::ENTRIES];
    let mut out: Vec<(&'static str, Vec<&'static Entry>)> = vec![];
    for e in all.iter().flat_map(|x| x.iter()) {
        match out.iter_mut().find(|x| x.0 == e.group) {
            Some(g) => g.1.push(e),
            None => out.push((e.group, vec![e])),
        }
    }
    out
}

fn structs() -> Vec<(&'static str, Vec<&'static Entry>)> {
    groups().into_iter().filter(|g| matches!(g.1[0].any, Any::Struct(_))).collect()
}

fn fill(r: &mut Runner) {
    let limit = r.b(12_000, 200_000);
    for (g, es) in structs() {
        r.section(&format!("members: {}", g), &format!("{} declarations x all member sequences as long as there are at most {} each", es.len(), limit), |ch, o| {
            let e = ch.of(&es);
            let m = pick_members(ch, e.decl(), limit, true);
            check_de(e, &m, o)
        });
        r.section(&format!("complete: {}", g), &format!("{} declarations x all orders of all fields (rotations beyond five) x one field left out x one field sent again", es.len()), |ch, o| {
            let e = ch.of(&es);
            let mut m = pick_complete(ch, e.decl());
            let n = m.len();
            match ch.pick(3) {
                1 if n > 0 => {
                    m.remove(ch.pick(n));
                }
                2 if n > 0 => {
                    let again = m[ch.pick(n)].0.clone();
                    let k = keys(e.decl());
                    let ty = match &again {
                        Val::L(Leaf::Str(s)) => k.iter().find(|x| x.0 == *s).unwrap().1.unwrap(),
                        _ => unreachable!(),
                    };
                    // under any of its names
                    let names: Vec<&String> = k.iter().filter(|x| std::ptr::eq(x.1.unwrap(), ty)).map(|x| &x.0).collect();
                    let name = ch.of(&names).clone();
                    m.push((text(&name), sendable(ty)[1 % sendable(ty).len()].clone()));
                }
                _ => {}
            }
            check_de(e, &m, o)
        });
    }
}

fn fill_enums(r: &mut Runner) {
    for (g, es) in groups().into_iter().filter(|g| matches!(g.1[0].any, Any::Enum(_))) {
        let mut names: Vec<String> = vec!["".into(), "0".into(), "zzz".into(), "aa".into(), "AA".into(), "only_two".into(), "ONLYTWO".into(), "onlyTwo".into(), "bb".into(), "BB".into()];
        for e in &es {
            if let Any::Enum(d) = e.any {
                for (n, a) in d.variants {
                    names.push(n.to_string());
                    names.extend(a.iter().map(|x| x.to_string()));
                }
            }
        }
        names.sort();
        names.dedup();
        let mut sends: Vec<Val> = names.iter().map(|n| text(n)).collect();
        for l in [Leaf::Null, Leaf::U64(0), Leaf::I64(0), Leaf::F64(0.0), Leaf::Bool(true), Leaf::Char('A'), Leaf::Bytes(b"Aa".to_vec())] {
            sends.push(Val::L(l));
        }
        sends.push(list(vec![text("Aa")]));
        sends.push(Val::Map(vec![(text("Aa"), null())]));
        r.section(&format!("names: {}", g), &format!("{} enums x {} names and other values", es.len(), sends.len()), |ch, o| {
            let e = ch.of(&es);
            let v = ch.of(&sends);
            let d = match e.any {
                Any::Enum(d) => d,
                _ => unreachable!(),
            };
            let want = match &v {
                Val::L(Leaf::Str(s)) => d.variants.iter().position(|(n, a)| n == s || a.contains(&&s[..])),
                _ => None,
            };
            let got = e.de(&v.evs());
            o.step_h(hash(&(d.text, v.show())));
            match (want, &got) {
                (Some(i), Ok(g)) if *g == num(i as u64) => o.class("accepted"),
                (None, Err((Some(_), _))) => o.class("refused"),
                _ => fail!("{} from {}: {}, expected variant {:?}", d.text, v.show(), outcome(&got), want),
            }
            Ok(())
        });
    }
}

fn c07(r: &mut Runner) {
    fill(r);
    fill_enums(r);
}

fn emit_all(r: &mut Runner) {
    let limit = r.b(1_500, 30_000);
    for (g, es) in structs() {
        r.section(&format!("values: {}", g), &format!("{} declarations x all values of the fields' menus (two per field when more than {}, then all that differ in at most two fields)", es.len(), limit), |ch, o| {
            let e = ch.of(&es);
            let v = pick_value(ch, e.decl(), limit);
            check_ser(e, &v, o)
        });
    }
}

fn c08(r: &mut Runner) {
    emit_all(r);
    for (g, es) in groups().into_iter().filter(|g| matches!(g.1[0].any, Any::Enum(_))) {
        r.section(&format!("values: {}", g), &format!("{} enums x all variants", es.len()), |ch, o| {
            let e = ch.of(&es);
            let d = match e.any {
                Any::Enum(d) => d,
                _ => unreachable!(),
            };
            let i = ch.pick(d.variants.len());
            let t = match e.ser(&num(i as u64)) {
                Ok(t) => t,
                Err(m) => fail!("{} variant {}: {}", d.text, i, m),
            };
            o.step_h(hash(&(d.text, i)));
            let want = [Ev::A(Leaf::s(d.variants[i].0))];
            ensure!(t.events == want && !t.optional, "{} variant {}: {} instead of {}", d.text, i, mc_vals::show(&t.events), mc_vals::show(&want));
            Ok(())
        });
    }
    extra::newtypes(r);
}

fn c25(r: &mut Runner) {
    extra::null_sink(r);
    let all = structs();
    let quick = !r.thorough;
    let vals = extra::unknown_values(r.b(4, 5));
    for (g, es) in all {
        let simple = extra::unknown_values(2);
        let limit = r.b(60, 400);
        r.section(
            &format!("skipped: {}", g),
            &format!("{} declarations x all member sequences as long as there are at most {} x an unknown member at every position x {} values", es.len(), limit, simple.len()),
            |ch, o| {
                let e = ch.of(&es);
                let m = pick_members(ch, e.decl(), limit, false);
                extra::check_skip(ch, e, m, &simple, o)
            },
        );
        // the whole space of values for a few of them
        let few: Vec<&Entry> = es.iter().copied().step_by(if quick { 40 } else { 8 }).collect();
        r.section(
            &format!("values: {}", g),
            &format!("{} declarations x all fields sent x an unknown member at every position x {} values (all trees of up to {} nodes, deep and wide ones)", few.len(), vals.len(), r.b(4, 5)),
            |ch, o| {
                let e = ch.of(&few);
                let mut m = vec![];
                for (k, t) in keys(e.decl()) {
                    m.push((text(&k), sendable(t.unwrap())[0].clone()));
                }
                m.truncate(3);
                extra::check_skip(ch, e, m, &vals, o)
            },
        );
    }
    extra::nested(r, &vals);
}

fn c27(r: &mut Runner) {
    fill(r);
    emit_all(r);
    extra::pairing(r);
}

fn main() {
    mc_core::main(&[("C07", c07), ("C08", c08), ("C25", c25), ("C27", c27)]);
}
