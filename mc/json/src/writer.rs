//! C03: the JSON writer.
use deser::ErrorKind;
use mc_core::{ensure, fail, Ch, Obs, Res, Runner};
use mc_vals::json::parse;
use mc_vals::{show, tree, Ev, Leaf, Val};

fn supported(v: &Val) -> bool {
    match v {
        Val::L(Leaf::Bytes(_)) => false,
        Val::L(_) => true,
        Val::Seq(v) => v.iter().all(supported),
        Val::Map(v) => v
            .iter()
            .all(|(k, x)| matches!(k, Val::L(Leaf::Str(_)) | Val::L(Leaf::Char(_))) && supported(x)),
    }
}

/// Whether `got`, read from the output, is what `want` has to become.
fn denotes(want: &Ev, got: &Ev) -> bool {
    match (want, got) {
        (Ev::A(Leaf::Char(c)), Ev::A(Leaf::Str(s))) => {
            let mut i = s.chars();
            i.next() == Some(*c) && i.next().is_none()
        }
        (Ev::A(Leaf::U64(a)), Ev::A(Leaf::U64(b))) => a == b,
        (Ev::A(Leaf::I64(a)), Ev::A(Leaf::U64(b))) => *a >= 0 && *a as u64 == *b,
        (Ev::A(Leaf::I64(a)), Ev::A(Leaf::I64(b))) => a == b,
        (Ev::A(Leaf::F64(a)), got) if a.is_finite() => match got {
            Ev::A(Leaf::F64(b)) => a == b,
            Ev::A(Leaf::U64(b)) => *a == *b as f64,
            Ev::A(Leaf::I64(b)) => *a == *b as f64,
            _ => false,
        },
        (Ev::A(Leaf::F64(_)), got) => *got == Ev::A(Leaf::Null),
        (a, b) => a == b,
    }
}

/// Removes string contents, what is left must not contain whitespace.
fn has_space(text: &str) -> bool {
    let mut in_str = false;
    let mut esc = false;
    for b in text.bytes() {
        if in_str {
            if esc {
                esc = false;
            } else if b == b'\\' {
                esc = true;
            } else if b == b'"' {
                in_str = false;
            }
        } else if b == b'"' {
            in_str = true;
        } else if matches!(b, b' ' | b'\n' | b'\t' | b'\r') {
            return true;
        }
    }
    false
}

fn case(v: &Val, obs: &mut Obs) -> Res {
    let want = v.evs();
    for i in 0..want.len().min(64) {
        obs.step(&(&want[..i.min(12)], i));
    }
    obs.sample(|| show(&want));
    match deser_json::to_string(v) {
        Ok(s) => {
            obs.class("written");
            ensure!(supported(v), "unsupported value {} written as {}", show(&want), s);
            ensure!(!has_space(&s), "insignificant whitespace in {}", s);
            let got = match parse(s.as_bytes(), None) {
                Some(g) => g,
                None => fail!("value {} written as malformed {}", show(&want), s),
            };
            ensure!(
                want.len() == got.len() && want.iter().zip(&got).all(|(a, b)| denotes(a, b)),
                "value {} written as {}",
                show(&want),
                s
            );
        }
        Err(e) => {
            obs.class("unsupported");
            ensure!(!supported(v), "value {} refused: {}", show(&want), e);
            ensure!(
                e.kind() == ErrorKind::UnsupportedType,
                "value {} refused with {:?}",
                show(&want),
                e.kind()
            );
        }
    }
    Ok(())
}

fn leaf(ch: &mut Ch) -> Val {
    Val::L(match ch.pick(10) {
        0 => Leaf::Null,
        1 => Leaf::U64(7),
        2 => Leaf::s("x"),
        3 => Leaf::Bytes(vec![1]),
        4 => Leaf::Char('"'),
        5 => Leaf::I64(-3),
        6 => Leaf::F64(1.5),
        7 => Leaf::F64(f64::NAN),
        8 => Leaf::Bool(true),
        _ => Leaf::s(""),
    })
}

fn leaf2(ch: &mut Ch) -> Val {
    Val::L(match ch.pick(2) {
        0 => Leaf::U64(7),
        _ => Leaf::s("x"),
    })
}

fn key(ch: &mut Ch) -> Val {
    Val::L(match ch.pick(10) {
        0 => Leaf::s("k"),
        1 => Leaf::Char('c'),
        2 => Leaf::s("\n"),
        3 => Leaf::U64(1),
        4 => Leaf::I64(-1),
        5 => Leaf::Null,
        6 => Leaf::Bool(false),
        7 => Leaf::Bytes(b"k".to_vec()),
        8 => Leaf::F64(1.5),
        _ => return Val::Seq(vec![]),
    })
}

fn key2(ch: &mut Ch) -> Val {
    Val::L(match ch.pick(2) {
        0 => Leaf::s("k"),
        _ => Leaf::Char('c'),
    })
}

const CHARS: &[char] = &[
    '\0', '\u{1}', '\u{7}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{e}', '\u{1f}', ' ',
    '"', '\\', '/', 'a', 'u', '\u{7f}', '\u{80}', 'é', '€', '\u{2028}', '\u{ffff}', '😀',
];

pub fn c03(r: &mut Runner) {
    let (b, d) = r.b((3, 3), (4, 4));
    r.section(
        "trees",
        &format!("all values with <= {} members and depth <= {} over 10 leaves and 10 keys", b, d),
        |ch, o| {
            let mut n = b;
            let v = tree(ch, &mut n, d, &mut leaf, &mut key);
            case(&v, o)
        },
    );
    let (b, d) = r.b((6, 5), (8, 5));
    r.section(
        "shapes",
        &format!("all values with <= {} members and depth <= {} over 2 leaves and 2 keys", b, d),
        |ch, o| {
            let mut n = b;
            let v = tree(ch, &mut n, d, &mut leaf2, &mut key2);
            case(&v, o)
        },
    );
    r.section(
        "characters",
        "every scalar value as char, one-character string, inside a string and as key",
        |ch, o| {
            let hi = ch.pick(0x1100) as u32;
            let form = ch.pick(5);
            for lo in 0..256 {
                let c = match char::from_u32(hi * 256 + lo) {
                    Some(c) => c,
                    None => continue,
                };
                let v = match form {
                    0 => Val::L(Leaf::Char(c)),
                    1 => Val::L(Leaf::Str(c.to_string())),
                    2 => Val::L(Leaf::Str(format!("a{}b{}", c, c))),
                    3 => Val::Map(vec![(Val::L(Leaf::Char(c)), Val::L(Leaf::Null)); 2]),
                    _ => Val::Map(vec![(Val::L(Leaf::Str(format!("{}k", c))), Val::L(Leaf::Null))]),
                };
                case(&v, o)?;
            }
            Ok(())
        },
    );
    let n = r.b(4, 5);
    r.section(
        "strings",
        &format!("all strings of <= {} characters over {} classes, as value and key", n, CHARS.len()),
        |ch, o| {
            let as_key = ch.flag();
            let n = ch.pick(n + 1);
            let s: String = (0..n).map(|_| ch.of(CHARS)).collect();
            let l = Val::L(Leaf::Str(s));
            case(&if as_key { Val::Map(vec![(l, Val::Seq(vec![]))]) } else { l }, o)
        },
    );
    let n = r.b(80, 300);
    r.section(
        "string-positions",
        &format!("strings of length <= {} with a special character at every position", n),
        |ch, o| {
            let n = ch.pick(n + 1);
            let i = ch.pick(n + 1);
            let c = ch.of(CHARS);
            let s = format!("{}{}{}", "a".repeat(i), c, "é".repeat(n - i));
            case(&Val::Seq(vec![Val::L(Leaf::Str(s)), Val::L(Leaf::Null)]), o)
        },
    );
    r.section(
        "integers",
        "all powers of 2 and 10 and their digit multiples +-3 as u64 and i64, both signs",
        |ch, o| {
            let v: i128 = if ch.flag() {
                (1i128 << ch.pick(65)) + ch.pick(7) as i128 - 3
            } else {
                10i128.pow(ch.pick(20) as u32) * (1 + ch.pick(9) as i128) + ch.pick(7) as i128 - 3
            };
            let v = if ch.flag() { -v } else { v };
            let l = if ch.flag() {
                match u64::try_from(v) {
                    Ok(x) => Leaf::U64(x),
                    _ => return Ok(()),
                }
            } else {
                match i64::try_from(v) {
                    Ok(x) => Leaf::I64(x),
                    _ => return Ok(()),
                }
            };
            case(&Val::Seq(vec![Val::L(l.clone()), Val::L(l)]), o)
        },
    );
    r.section(
        "floats",
        "all 2048 binary exponents x 16 mantissas x sign, powers of ten and their neighbours, small integers and quarters",
        |ch, o| {
            let f = match ch.pick(3) {
                0 => {
                    let m: u64 = ch.of(&[
                        0, 1, 2, 0xfffffffffffff, 0x8000000000000, 0x5555555555555, 0xaaaaaaaaaaaaa,
                        0x123456789abcd, 0xfedcba9876543, 0x999999999999a, 0x3333333333333, 0x4000000000000,
                        0x921fb54442d18, 0x0000000080000, 0x7ffffffffffff, 0xc000000000000,
                    ]);
                    f64::from_bits((ch.pick(2048) as u64) << 52 | m)
                }
                1 => {
                    let e = ch.pick(634) as i32 - 325;
                    let f: f64 = format!("1e{}", e).parse().unwrap();
                    f64::from_bits((f.to_bits() as i64 + ch.pick(5) as i64 - 2).max(0) as u64)
                }
                _ => (ch.pick(4001) as f64 - 2000.0) / 4.0,
            };
            let f = if ch.flag() { -f } else { f };
            case(&Val::Map(vec![(Val::L(Leaf::s("f")), Val::L(Leaf::F64(f)))]), o)
        },
    );
    let max = r.b(600, 5000);
    r.section(
        "nesting",
        &format!("6 container patterns nested up to {} deep", max),
        |ch, o| {
            let n = ch.pick(max + 1);
            let pat = ch.of(&["s", "m", "sm", "ms", "ssm", "mms"]);
            let sib = ch.flag();
            let mut v = Val::L(Leaf::U64(1));
            for i in 0..n {
                let tail = if sib { vec![Val::L(Leaf::Null)] } else { vec![] };
                if pat.as_bytes()[i % pat.len()] == b's' {
                    let mut x = vec![v];
                    x.extend(tail);
                    v = Val::Seq(x);
                } else {
                    let mut x = vec![(Val::L(Leaf::s("k")), v)];
                    x.extend(tail.into_iter().map(|t| (Val::L(Leaf::s("t")), t)));
                    v = Val::Map(x);
                }
            }
            case(&v, o)
        },
    );
    let max = r.b(300, 1100);
    r.section(
        "widths",
        &format!("sequences and maps with 0-{} members, and 4097, 65535..65537, 100000", max),
        |ch, o| {
            let n = ch.pick(max + 6);
            let n = if n <= max { n } else { [4097, 65535, 65536, 65537, 100_000][n - max - 1] };
            let v = if ch.flag() {
                Val::Seq((0..n).map(|i| Val::L(Leaf::U64(i as u64))).collect())
            } else {
                Val::Map((0..n).map(|i| (Val::L(Leaf::Str(i.to_string())), Val::L(Leaf::I64(-(i as i64))))).collect())
            };
            case(&v, o)
        },
    );
    r.section(
        "long-strings",
        "24 x 24 characters in runs behind 43 prefix lengths up to 8193, 4 run shapes, as value and key",
        |ch, o| {
            let n = ch.of(crate::reader::LENGTHS);
            let fill = ch.of(&["a", "\u{20ac}", "\n"]);
            let as_key = ch.flag();
            let form = ch.pick(4);
            let x = ch.of(CHARS);
            let y = ch.of(CHARS);
            let tail = ["", "b", "cccccccccccccccccccccccccccccccccccccccc", "\\"][form];
            let s = match form {
                0 => format!("{}{}{}{}", fill.repeat(n), x, y, tail),
                1 => format!("{}{}{}{}{}", fill.repeat(n), x, y, x, tail),
                2 => format!("{}{}{}{}{}", x, fill.repeat(n), y, y, tail),
                _ => format!("{}{}bb{}{}", fill.repeat(n), x, y, tail),
            };
            let l = Val::L(Leaf::Str(s));
            case(&if as_key { Val::Map(vec![(l.clone(), Val::L(Leaf::Null)), (l, Val::Seq(vec![]))]) } else { l }, o)
        },
    );
    r.section(
        "huge-strings",
        "6 x 6 characters behind and before 5 fillings of 65534..65537, 131072 and 2^20 + 1 characters, as value and key",
        |ch, o| {
            let n = ch.of(&[65534usize, 65535, 65536, 65537, 131072, (1 << 20) + 1]);
            let fill = ch.of(&["a", "\u{20ac}", "\n", "\u{1}", "\u{1f600}"]);
            let c = ['a', '"', '\n', '\u{1f}', '\u{e9}', '\u{10ffff}'];
            let (x, y) = (ch.of(&c), ch.of(&c));
            let s = format!("{}{}{}", x, fill.repeat(n), y);
            let l = Val::L(Leaf::Str(s));
            case(&if ch.flag() { Val::Map(vec![(l.clone(), Val::L(Leaf::Null)), (Val::L(Leaf::s("b")), Val::Seq(vec![]))]) } else { Val::Seq(vec![l, Val::L(Leaf::Null)]) }, o)
        },
    );
    r.section(
        "irregular-members",
        "containers of 0-1025 members with one deviating member (28 values) at 6 places, in 5 surroundings",
        |ch, o| {
            const N: &[usize] = &[1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025];
            let n = ch.of(N);
            let at = ch.of(&[0, 1, n / 2, n.saturating_sub(2), n - 1]);
            let as_map = ch.flag();
            let base = ch.of(&[0u8, 1]);
            let dev = match ch.pick(3) {
                0 => leaf(ch),
                1 => Val::Seq(if ch.flag() { vec![leaf(ch)] } else { vec![] }),
                _ => Val::Map(if ch.flag() { vec![(key(ch), Val::L(Leaf::Null))] } else { vec![] }),
            };
            let mk = |i: usize| if i == at { dev.clone() } else if base == 0 { Val::L(Leaf::U64(i as u64)) } else { Val::Seq(vec![Val::L(Leaf::s("e\n"))]) };
            let v = if as_map {
                Val::Map((0..n).map(|i| (Val::L(Leaf::Str(format!("k{}", i))), mk(i))).collect())
            } else {
                Val::Seq((0..n).map(mk).collect())
            };
            let v = match ch.pick(4) {
                0 => v,
                1 => Val::Seq(vec![v.clone(), v]),
                2 => Val::Map(vec![(Val::L(Leaf::s("a")), v), (Val::L(Leaf::s("b")), Val::L(Leaf::Null))]),
                _ => Val::Seq(vec![Val::Map(vec![]), v, Val::Seq(vec![])]),
            };
            case(&v, o)
        },
    );
    let max = r.b(20, 40);
    r.section(
        "staircases",
        &format!("sequences of <= {} siblings that are each nested up to 140 deep, ascending, descending and alternating", max),
        |ch, o| {
            let n = 1 + ch.pick(max);
            let step = ch.of(&[1usize, 7, 13, 64, 127, 129]);
            let order = ch.pick(3);
            let sm = ch.flag();
            let nest = |d: usize| {
                let mut v = Val::L(Leaf::U64(d as u64));
                for i in 0..d {
                    v = if (i % 2 == 0) == sm { Val::Seq(vec![v]) } else { Val::Map(vec![(Val::L(Leaf::s("k")), v)]) };
                }
                v
            };
            let v = Val::Seq(
                (0..n)
                    .map(|i| {
                        nest(match order {
                            0 => i * step % 141,
                            1 => (n - i) * step % 141,
                            _ => if i % 2 == 0 { step } else { 0 },
                        })
                    })
                    .collect(),
            );
            case(&v, o)
        },
    );
}
