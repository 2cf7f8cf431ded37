//! Checks names and shapes of generated declarations: C09.
use mc_core::{ensure, fail, hash, CountingAlloc, Runner};
use mc_decl::*;
use mc_vals::{Ev, Leaf};

#[global_allocator]
static A: CountingAlloc = CountingAlloc;

fn groups() -> Vec<(&'static str, Vec<&'static Entry>)> {
    let all = [d0::ENTRIES, d1::ENTRIES, d2::ENTRIES, d3::ENTRIES, d4::ENTRIES, d5::ENTRIES, d6::ENTRIES, d7::ENTRIES];
    let mut out: Vec<(&'static str, Vec<&'static Entry>)> = vec![];
    for e in all.iter().flat_map(|x| x.iter()) {
        match out.iter_mut().find(|x| x.0 == e.group) {
            Some(g) => g.1.push(e),
            None => out.push((e.group, vec![e])),
        }
    }
    out.sort_by_key(|x| x.0);
    out
}

/// All names of all declarations and variations of them.
fn candidates() -> Vec<String> {
    let mut out = vec![];
    for (_, es) in groups() {
        for e in es {
            match &e.any {
                Any::Struct(d) => {
                    for f in d.fields {
                        out.push(f.ident.to_string());
                        out.push(f.name.to_string());
                        out.extend(f.aliases.iter().map(|x| x.to_string()));
                    }
                }
                Any::Enum(d) => {
                    for (n, a) in d.variants {
                        out.push(n.to_string());
                        out.extend(a.iter().map(|x| x.to_string()));
                    }
                }
            }
        }
    }
    for i in 0..out.len() {
        let x = out[i].clone();
        out.push(x.to_uppercase());
        out.push(x.to_lowercase());
        out.push(x.replace('_', ""));
        out.push(format!("{} ", x));
        out.push(format!("r#{}", x));
        let mut c = x.chars();
        c.next_back();
        out.push(c.as_str().to_string());
    }
    out.sort();
    out.dedup();
    out
}

fn c09(r: &mut Runner) {
    r.section("shapes", &format!("{} hand-written shapes", shapes::CASES.len()), |ch, o| {
        let (name, f) = shapes::CASES[ch.pick(shapes::CASES.len())];
        o.sample(|| name.into());
        match mc_core::guard(|| f(o)) {
            Ok(r) => r.map_err(|mut e| {
                e.msg = format!("{}: {}", name, e.msg);
                e
            }),
            Err(m) => fail!("{}: panic {}", name, m),
        }
    });
    let cands = candidates();
    for (g, es) in groups() {
        if let Any::Struct(_) = es[0].any {
            let fields: usize = es.iter().map(|e| e.decl().fields.len()).sum();
            r.section(&format!("written: {}", g), &format!("{} structs with {} fields: all names in one value", es.len(), fields), |ch, o| {
                let e = ch.of(&es);
                let v = list((0..e.decl().fields.len()).map(|i| num(i as u64)).collect());
                check_ser(e, &v, o)
            });
            r.section(&format!("read: {}", g), &format!("{} structs with {} fields x {} names", es.len(), fields, cands.len()), |ch, o| {
                let e = ch.of(&es);
                let c = &cands[ch.pick(cands.len())];
                let d = e.decl();
                o.step_h(hash(&(d.text, c)));
                let want = d.fields.iter().position(|f| f.name == c || f.aliases.contains(&&c[..]));
                o.class(if want.is_some() { "known" } else { "unknown" });
                let got = e.de(&Val::Map(vec![(text(c), num(7))]).evs());
                let short: String = d.text.chars().take(300).collect();
                match got {
                    Ok(Val::Seq(v)) => {
                        for (i, v) in v.iter().enumerate() {
                            let w = if want == Some(i) { num(7) } else { null() };
                            ensure!(*v == w, "{:?} sent to {}: field {} (name {:?}, aliases {:?}) is {}", c, short, d.fields[i].ident, d.fields[i].name, d.fields[i].aliases, v.show());
                        }
                        Ok(())
                    }
                    got => fail!("{:?} sent to {}: {}", c, short, outcome(&got)),
                }
            });
            continue;
        }
        let d = |e: &Entry| match e.any {
            Any::Enum(d) => d,
            _ => unreachable!(),
        };
        let variants: usize = es.iter().map(|e| d(e).variants.len()).sum();
        r.section(&format!("written: {}", g), &format!("{} enums with {} variants", es.len(), variants), |ch, o| {
            let e = ch.of(&es);
            let i = ch.pick(d(e).variants.len());
            let t = match e.ser(&num(i as u64)) {
                Ok(t) => t,
                Err(m) => fail!("{} variant {}: {}", d(e).text, i, m),
            };
            o.step_h(hash(&(d(e).text, i)));
            let want = [Ev::A(Leaf::s(d(e).variants[i].0))];
            let short: String = d(e).text.chars().take(300).collect();
            ensure!(t.events == want, "{} variant {}: {} instead of {}", short, i, mc_vals::show(&t.events), mc_vals::show(&want));
            Ok(())
        });
        r.section(&format!("read: {}", g), &format!("{} enums with {} variants x {} names", es.len(), variants, cands.len()), |ch, o| {
            let e = ch.of(&es);
            let c = &cands[ch.pick(cands.len())];
            o.step_h(hash(&(d(e).text, c)));
            let want = d(e).variants.iter().position(|(n, a)| n == c || a.contains(&&c[..]));
            o.class(if want.is_some() { "known" } else { "unknown" });
            let got = e.de(&text(c).evs());
            let short: String = d(e).text.chars().take(300).collect();
            match (want, &got) {
                (Some(i), Ok(g)) if *g == num(i as u64) => Ok(()),
                (None, Err((Some(_), _))) => Ok(()),
                _ => fail!("{:?} sent to {}: {}, expected variant {:?}", c, short, outcome(&got), want),
            }
        });
    }
}

fn main() {
    mc_core::main(&[("C09", c09)]);
}
