//! C01 (acceptance) and C02 (delivered value) of the JSON reader.
use mc_core::{ensure, fail, Ch, Obs, Res, Runner};
use mc_vals::json::parse;
use mc_vals::{clear_log, show, take_log, Ev, Leaf, Rec};

#[derive(Clone, Copy, PartialEq)]
enum What {
    Accept,
    Value,
}

fn quote(t: &[u8]) -> String {
    let mut s = String::new();
    for &b in t {
        for c in std::ascii::escape_default(b) {
            s.push(c as char);
        }
    }
    s
}

/// -0 may be delivered as any zero.
fn same(a: &Ev, b: &Ev) -> bool {
    fn zero(e: &Ev) -> bool {
        match e {
            Ev::A(Leaf::U64(0)) | Ev::A(Leaf::I64(0)) => true,
            Ev::A(Leaf::F64(x)) => *x == 0.0,
            _ => false,
        }
    }
    match (a, b) {
        (Ev::A(Leaf::I64(0)), x) => zero(x),
        _ => a == b,
    }
}

fn case(what: What, text: &[u8], obs: &mut Obs) -> Res {
    case_o(what, text, obs, true)
}

fn case_o(what: What, text: &[u8], obs: &mut Obs, states: bool) -> Res {
    let expected = if states {
        parse(text, Some(obs))
    } else {
        let r = parse(text, None);
        obs.step(&r.is_some());
        r
    };
    obs.sample(|| quote(text));
    if what == What::Value && expected.is_none() {
        obs.class("not a valid text");
        return Ok(());
    }
    clear_log();
    // str input goes through the other entry point
    let r = if let (true, Ok(s)) = (text.len() & 1 == 0, std::str::from_utf8(text)) {
        deser_json::from_str::<Rec>(s)
    } else {
        deser_json::Deserializer::new(text).deserialize::<Rec>()
    };
    match (&expected, &r) {
        (Some(_), Ok(_)) => obs.class("valid, accepted"),
        (None, Err(_)) => obs.class("invalid, rejected"),
        (Some(_), Err(e)) => fail!("valid text rejected: {} ({})", quote(text), e),
        (None, Ok(_)) => fail!(
            "invalid text accepted: {} as {}",
            quote(text),
            show(&take_log())
        ),
    }
    if what == What::Value {
        let got = take_log();
        let want = expected.unwrap();
        ensure!(
            got.len() == want.len() && want.iter().zip(&got).all(|(a, b)| same(a, b)),
            "text {} denotes {} but delivered {}",
            quote(text),
            show(&want),
            show(&got)
        );
    }
    Ok(())
}

// ------------------------------------------------------------- generators

const BYTES_WIDE: &[u8] = b"{}[],:\"\\ntfulrase0129-+.E/bd \n\r\t\x00\x0b\x1f\x7f\x80\xc3\xa9\xed\xf0'";
const BYTES_CORE: &[u8] = b"{}[],:\"\\ntu01-.e \x01\xc3\xa9";

fn strings(ch: &mut Ch, alphabet: &[u8], max: usize) -> Vec<u8> {
    let n = ch.pick(max + 1);
    (0..n).map(|_| ch.of(alphabet)).collect()
}

const TOKENS: &[&str] = &["[", "]", "{", "}", ",", ":", "\"a\"", "1", "null", "-2.5e1"];

fn tokens(ch: &mut Ch, max: usize) -> Vec<u8> {
    let n = ch.pick(max + 1);
    let mut t = vec![];
    for _ in 0..n {
        t.extend_from_slice(ch.of(TOKENS).as_bytes());
    }
    t
}

const TEMPLATES: &[&str] = &[
    "{\"a\":1,\"b\":[true,false,null]}",
    "[1,-2,3.5,4e5,-6E-7,8.9e+10]",
    " [ 1 , 2 ] ",
    "\t{\n\"k\"\r:\t\"v\" , \"k\" : { } }\n",
    "\"a\\n\\t\\r\\b\\f\\/\\\\\\\"z\"",
    "\"\\u0041\\u00e9\\ud83d\\ude00\\uFFFF\"",
    "\"\u{e9}\u{20ac}\u{1f600}x\"",
    "\"a\\n\u{e9}\u{20ac}\u{1f600}x\"",
    "[[],{},[[]],[{}],{\"\":[]}]",
    "{\"a\":{\"b\":{\"c\":[]}},\"d\":\"\"}",
    "-0",
    "0.0e0",
    "18446744073709551615",
    "[18446744073709551616,-9223372036854775808,-9223372036854775809]",
    "123456789012345678901234567890.5e-3",
    "true",
    "false",
    "null",
    "[null,true,\"\"]",
    "{\"\\u0061\":1}",
    "",
    "   ",
    "[\"abc\",\"def\\\\\",0]",
    "{\"a\":\"b\",\"c\":\"d\",\"e\":-1}",
];

fn mutate(ch: &mut Ch) -> Vec<u8> {
    let mut t = ch.of(TEMPLATES).as_bytes().to_vec();
    match ch.pick(5) {
        0 => {
            // replace
            if !t.is_empty() {
                let i = ch.pick(t.len());
                t[i] = ch.pick(256) as u8;
            }
        }
        1 => {
            let i = ch.pick(t.len() + 1);
            let b = ch.pick(256) as u8;
            t.insert(i, b);
        }
        2 => {
            if !t.is_empty() {
                let i = ch.pick(t.len());
                let j = i + 1 + ch.pick(t.len() - i);
                t.drain(i..j);
            }
        }
        3 => {
            // duplicate a range behind itself
            let i = ch.pick(t.len() + 1);
            let j = i + ch.pick(t.len() - i + 1);
            let x = t[i..j].to_vec();
            t.splice(j..j, x);
        }
        _ => {
            // swap two neighbours
            if t.len() > 1 {
                let i = ch.pick(t.len() - 1);
                t.swap(i, i + 1);
            }
        }
    }
    t
}

fn mutate2(ch: &mut Ch) -> Vec<u8> {
    let mut t = ch.of(TEMPLATES).as_bytes().to_vec();
    if t.len() < 2 {
        return t;
    }
    let i = ch.pick(t.len() - 1);
    let j = i + 1 + ch.pick((t.len() - i - 1).min(4));
    t[i] = ch.of(BYTES_WIDE);
    t[j] = ch.of(BYTES_WIDE);
    t
}

fn hex4(x: u32, upper: u8) -> String {
    match upper {
        0 => format!("{:04x}", x),
        1 => format!("{:04X}", x),
        _ => format!("{:04x}", x)
            .chars()
            .enumerate()
            .map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c })
            .collect(),
    }
}

const PLACES: &[(&str, &str)] = &[
    ("\"", "\""),
    ("\"x", "y\""),
    ("\"\\n\u{e9}", "\\u0000\""),
    ("{\"", "\":1}"),
    ("[\"a\",\"", "\",\"b\"]"),
];

fn escape_one(ch: &mut Ch) -> Vec<u8> {
    let (a, b) = ch.of(PLACES);
    let u = ch.pick(3) as u8;
    let x = ch.pick(65536) as u32;
    format!("{}\\u{}{}", a, hex4(x, u), b).into_bytes()
}

const UNITS: &[u32] = &[
    0, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xd801, 0xd83d, 0xdbfe, 0xdbff, 0xdc00,
    0xdc01, 0xde00, 0xdffe, 0xdfff, 0xe000, 0xfffe, 0xffff,
];

/// Two escapes: every first unit x boundary second units and vice versa.
fn escape_two(ch: &mut Ch) -> Vec<u8> {
    let (a, b) = ch.of(&PLACES[..3]);
    let (x, y) = if ch.flag() {
        (ch.pick(65536) as u32, ch.of(UNITS))
    } else {
        (ch.of(UNITS), ch.pick(65536) as u32)
    };
    format!("{}\\u{}\\u{}{}", a, hex4(x, 0), hex4(y, 1), b).into_bytes()
}

/// Every surrogate pair.
fn escape_pairs(ch: &mut Ch) -> Vec<u8> {
    let x = 0xd800 + ch.pick(0x400) as u32;
    let y = 0xdc00 + ch.pick(0x400) as u32;
    format!("\"\\u{}\\u{}\"", hex4(x, 0), hex4(y, 0)).into_bytes()
}

const ESC_PIECES: &[&str] = &[
    "\\", "u", "d", "8", "3", "D", "E", "0", "\"", "\\u", "\\ud83d", "\\ude00", "a", "\\n", "G",
];

fn escape_grammar(ch: &mut Ch, max: usize) -> Vec<u8> {
    let n = ch.pick(max + 1);
    let mut t = b"\"".to_vec();
    for _ in 0..n {
        t.extend_from_slice(ch.of(ESC_PIECES).as_bytes());
    }
    t.push(b'"');
    t
}

fn utf8_short(ch: &mut Ch) -> Vec<u8> {
    let esc = ch.flag();
    let n = 1 + ch.pick(3);
    let mut t = if esc { b"\"\\n".to_vec() } else { b"\"".to_vec() };
    for i in 0..n {
        t.push(if i == 0 {
            0x80 + ch.pick(128) as u8
        } else if i == 1 {
            ch.pick(256) as u8
        } else {
            ch.of(&[0x20u8, 0x22, 0x5c, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc2, 0xff])
        });
    }
    t.push(b'"');
    t
}

fn utf8_long(ch: &mut Ch) -> Vec<u8> {
    const C: &[u8] = &[0x20, 0x22, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff];
    let key = ch.flag();
    let mut t = if key { b"{\"".to_vec() } else { b"[\"".to_vec() };
    t.push(0xe0 + ch.pick(32) as u8);
    for _ in 0..3 {
        t.push(ch.of(C));
    }
    t.extend_from_slice(if key { b"\":0}" } else { b"\"]" });
    t
}

/// Every scalar value in raw form.
fn utf8_scalars(ch: &mut Ch) -> Vec<u8> {
    let hi = ch.pick(0x1100) as u32;
    let mut s = String::from("[\"");
    for lo in 0..256 {
        if let Some(c) = char::from_u32(hi * 256 + lo) {
            if c >= ' ' && c != '"' && c != '\\' {
                s.push(c);
            }
        }
    }
    s.push_str("\"]");
    s.into_bytes()
}

/// A special item at every position of a string of every length.
fn long_string(ch: &mut Ch, max: usize) -> Vec<u8> {
    const SPECIAL: &[&[u8]] = &[
        b"", b"\"", b"\\", b"\\n", b"\\\"", b"\\\\", b"\\u0041", b"\\ud83d\\ude00", b"\x00",
        b"\x1f", b"\x7f", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\x80", b"\xc3",
        b"\xff", b"/", b" ",
    ];
    let n = ch.pick(max + 1);
    let i = ch.pick(n + 1);
    let x = ch.of(SPECIAL);
    let y = if max <= 24 { ch.of(SPECIAL) } else { b"" };
    let mut t = vec![b'"'];
    t.extend(std::iter::repeat(b'a').take(i));
    t.extend_from_slice(x);
    t.extend(std::iter::repeat(b'b').take(n - i));
    t.extend_from_slice(y);
    t.push(b'"');
    t
}

const NUM_CONTEXT: &[(&str, &str)] = &[("", ""), ("[", "]"), ("[", ",0]"), ("{\"a\":", "}"), ("", " ")];

fn number_chars(ch: &mut Ch, max: usize) -> Vec<u8> {
    let (a, b) = ch.of(NUM_CONTEXT);
    let n = 1 + ch.pick(max);
    let mut t = a.as_bytes().to_vec();
    for _ in 0..n {
        t.push(ch.of(b"0159-+.eE"));
    }
    t.extend_from_slice(b.as_bytes());
    t
}

/// Integers around all interesting boundaries.
fn int_boundaries(ch: &mut Ch) -> Vec<u8> {
    let (a, b) = ch.of(NUM_CONTEXT);
    let neg = ch.flag();
    let v: i128 = match ch.pick(3) {
        0 => (1i128 << ch.pick(81)) + ch.pick(9) as i128 - 4,
        1 => {
            let e = ch.pick(25) as u32;
            10i128.pow(e) * (1 + ch.pick(9) as i128) + ch.pick(9) as i128 - 4
        }
        _ => u64::MAX as i128 * (1 + ch.pick(12) as i128) + ch.pick(25) as i128 - 12,
    };
    let tail = ch.of(&["", ".0", ".5", "e0", "e1", "E+2", "e-1", "0", "00000000000000000000"]);
    format!("{}{}{}{}{}", a, if neg { "-" } else { "" }, v.unsigned_abs(), tail, b).into_bytes()
}

/// Digit strings of every length with every position of the point and a set of
/// exponents.
fn digit_ladder(ch: &mut Ch, max: usize) -> Vec<u8> {
    let n = 1 + ch.pick(max);
    let fill = ch.of(b"0159");
    let first = ch.of(b"1920");
    let dot = ch.pick(4);
    let exp = ch.of(&[
        "", "e1", "e-1", "e22", "e-22", "e23", "e-23", "e308", "e-308", "e-330", "e-345", "e310",
        "e2147483647", "e-2147483647", "e2147483648", "e-2147483648", "e99999999999", "e-99999999999",
    ]);
    let mut t = vec![];
    if first == b'0' {
        t.extend_from_slice(b"0.");
        t.extend(std::iter::repeat(fill).take(n));
        t.push(b'7');
    } else {
        t.push(first);
        t.extend(std::iter::repeat(fill).take(n - 1));
        match dot {
            1 => t.extend_from_slice(b".0"),
            2 => t.extend_from_slice(b".000000000000000000000000000001"),
            3 => {
                let k = 1 + (n / 2).min(t.len() - 1);
                t.insert(k, b'.');
                t.push(b'3');
            }
            _ => {}
        }
    }
    t.extend_from_slice(exp.as_bytes());
    t
}

/// Significands x all decimal exponents.
fn exponents(ch: &mut Ch) -> Vec<u8> {
    const SIG: &[&str] = &[
        "0", "1", "9", "1.5", "17976931348623157", "1.7976931348623157", "1.7976931348623158",
        "1.7976931348623159", "179769313486231580793728971405301", "4.9", "2.4703282292062327",
        "2.4703282292062328", "24703282292062328", "2.2250738585072014", "2.2250738585072011",
        "9007199254740991", "9007199254740992", "9007199254740993", "9007199254740995",
        "90071992547409921", "18446744073709551615", "18446744073709551616", "0.000001",
        "123456.789", "1152921504606846976", "4503599627370496.5", "4503599627370497.5", "0.3",
        "5e-324,5", "8.5", "7205759403792793199999", "1.00000000000000011102230246251565",
        "1.00000000000000011102230246251566",
    ];
    let s = ch.of(SIG);
    let e = ch.pick(721) as i32 - 360;
    let form = ch.pick(3);
    let neg = if ch.flag() { "-" } else { "" };
    match form {
        0 => format!("{}{}e{}", neg, s, e),
        1 => format!("[{}{}E{:+}]", neg, s, e),
        _ => format!("{}{}e{}00", neg, s, e),
    }
    .into_bytes()
}

/// Exact decimal expansions half way between neighbouring doubles.
fn halfway(ch: &mut Ch, dense: bool) -> Vec<u8> {
    // values m * 2^e, half way is (2m+1) * 2^(e-1)
    let e = if dense {
        ch.pick(1076) as i32 - 1074
    } else {
        ch.of(&[-1074i32, -1073, -1060, -1022, -500, -100, -60, -53, -52, -51, -30, -10, -5, -2, -1, 0, 1, 2])
    };
    let e = if ch.flag() { (-e).min(970) } else { e };
    let m: u64 = ch.of(&[0x10000000000000, 0x10000000000001, 0x1fffffffffffff, 0x18000000000000, 0x15555555555555, 1, 2, 3]);
    let delta = ch.pick(3);
    // digits of (2m+1) * 2^(e-1)
    let mut big = Big::from(2 * m as u128 + 1);
    let mut frac = 0usize;
    if e >= 1 {
        for _ in 0..e - 1 {
            big.mul(2);
        }
    } else {
        // x * 2^-k = x * 5^k / 10^k
        let k = (1 - e) as usize;
        for _ in 0..k {
            big.mul(5);
        }
        frac = k;
    }
    let mut digits = big.digits();
    while digits.len() <= frac {
        digits.insert(0, b'0');
    }
    let point = digits.len() - frac;
    let mut t = digits;
    match delta {
        1 => {
            // slightly above
            if frac == 0 {
                t.push(b'.');
                t.extend_from_slice(b"0000000001");
            } else {
                t.push(b'1');
                t.insert(point, b'.');
            }
        }
        2 => {
            // slightly below: decrement the last digit (never 0 because odd)
            let l = t.len() - 1;
            t[l] -= 1;
            if frac > 0 {
                t.push(b'9');
                t.insert(point, b'.');
            }
        }
        _ => {
            if frac > 0 {
                t.insert(point, b'.');
            }
        }
    }
    t
}

/// Exponents around the limits of the integer types and exponents that cancel
/// long significands.
fn huge_exponents(ch: &mut Ch) -> Vec<u8> {
    const SIG: &[&str] = &[
        "0", "0.0", "0.00", "1", "9", "0.1", "0.001", "10", "100", "123.456",
        "0.0000000000000000000000000000000000", "18446744073709551615", "18446744073709551616",
        "184467440737095516150", "0.18446744073709551616", "9.99999999999999999999999999999",
        "0.00000000000000000000000000000000000001",
    ];
    const LIMITS: &[i128] = &[
        0, 10, 100, 300, 308, 309, 310, 320, 323, 324, 325, 326, 330, 340, 350, 400, 500, 999, 1000, 1 << 15, 1 << 16,
        1 << 31, 1 << 32, (1 << 31) - 308, 214748364, 214748365, 429496729, 429496730, 1 << 63, 1 << 64,
        922337203685477580, 1844674407370955161, 1 << 100,
    ];
    let (a, b) = ch.of(NUM_CONTEXT);
    let neg = if ch.flag() { "-" } else { "" };
    let s = ch.of(SIG);
    let e = ch.of(LIMITS) + ch.pick(5) as i128 - 2;
    let form = ch.of(&["e", "E+", "e-", "e00", "E-000", "e+0000000000000000000000000"]);
    if e < 0 {
        return b"0".to_vec();
    }
    format!("{}{}{}{}{}{}", a, neg, s, form, e, b).into_bytes()
}

/// Long significands whose exponent brings them back into range.
fn balanced_exponents(ch: &mut Ch) -> Vec<u8> {
    const L: &[i32] = &[
        1, 5, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 40, 64, 100, 127, 128, 200, 255, 256, 300, 307, 308, 309, 310, 320, 330, 340, 400, 500,
        767, 768, 769, 800, 1000, 1100, 2000,
    ];
    let n = ch.of(L);
    let zeros = "0".repeat(n as usize);
    let d = ch.of(&["1", "17", "9007199254740993", "179769313486231570"]);
    let off = ch.of(&[0i32, -1, 1, 15, -20, 290, 300, 307, 308, 309, -300, -308, -322, -323, -324, -325]);
    match ch.pick(4) {
        0 => format!("{}{}e{}", d, zeros, off - n),
        1 => format!("0.{}{}e{}", zeros, d, off + n),
        2 => format!("-{}.{}1e{}", d, zeros, off),
        _ => format!("0.{}e{}", zeros, off + n),
    }
    .into_bytes()
}

pub const LENGTHS: &[usize] = &[
    0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513,
    1000, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193,
];

/// Runs of escapes and other special items inside long strings.
fn long_runs(ch: &mut Ch) -> Vec<u8> {
    const SPECIAL: &[&str] = &[
        "\\n", "\\\"", "\\\\", "\\u0041", "\\ud83d\\ude00", "\u{e9}", "\u{20ac}", "\u{1f600}", "/", "\\u00e9", "\\/", "\\u0000",
    ];
    let before = ch.of(LENGTHS);
    let after = ch.of(&[0usize, 1, 40, 1100]);
    let x = ch.of(SPECIAL);
    let y = ch.of(SPECIAL);
    let fill = ch.of(&["a", "\\t"]);
    let form = ch.pick(4);
    let mut t = String::from(ch.of(&["[\"", "{\""]));
    let object = t.starts_with('{');
    t.push_str(&fill.repeat(before));
    match form {
        0 => t.push_str(x),
        1 => {
            t.push_str(x);
            t.push_str(y);
        }
        2 => {
            t.push_str(x);
            t.push_str("bc");
            t.push_str(y);
        }
        _ => {
            t.push_str(x);
            t.push_str(y);
            t.push_str(x);
            t.push_str(x);
        }
    }
    t.push_str(&"z".repeat(after));
    t.push_str(if object { "\":\"tail\"}" } else { "\",\"t\\nail\"]" });
    t.into_bytes()
}

/// Sizes beyond 16 bits.
fn huge(ch: &mut Ch) -> Vec<u8> {
    let n = ch.of(&[65535usize, 65536, 65537, (1 << 20) + 1]);
    let e = ch.pick(8);
    let sends = ["\"", "\\n\"", "\\u00e9z\"", "", "\n\"", "\\", "\\ud800\"", "\u{1f600}\""]; // of strings
    let ends = ["", " ", ",", "1", "]", "}", "x", "\0"];
    // exponents beyond 655360 are not exact in the reference
    let m = n.min(65537);
    match ch.pick(11) {
        0 => format!("\"{}{}", "a".repeat(n), sends[e]),
        1 => format!("[\"{}{},1]", "\\t".repeat(n), sends[e]),
        2 => format!("{{\"{}{}:1}}", "\u{e9}".repeat(n), sends[e]),
        3 => format!("[1{}{}", " ".repeat(n), ["]", ",2]", "\n]", "", "]]", "}", "x]", "\0]"][e]),
        4 => format!("[{}1{}", "1,".repeat(n), ["]", ",]", ",2]", "", "]]", "}", "x]", "\0]"][e]),
        5 => format!("{{{}\"k\":1{}", "\"k\":0,".repeat(n), ["}", ",}", ",\"l\":2}", "", "}}", "]", "x}", "\0}"][e]),
        6 => format!("1{}{}", "0".repeat(n), ends[e]),
        7 => format!("0.{}1{}", "0".repeat(n), ends[e]),
        8 => format!("1{}e-{}{}", "0".repeat(m), m - 3, ends[e]),
        9 => format!("0.{}1e{}{}", "0".repeat(m), m + 3, ends[e]),
        _ => format!("1e{}1{}", "0".repeat(n), ends[e]),
    }
    .into_bytes()
}

/// A defect at the very end of a string of any length.
fn long_defects(ch: &mut Ch) -> Vec<u8> {
    const BAD: &[&[u8]] = &[
        b"\x00", b"\x1f", b"\n", b"\\x", b"\\u12", b"\\ud800", b"\\ud800\\n", b"\\udc00", b"\x80", b"\xc3", b"\xed\xa0\x80", b"\xf4\x90\x80\x80",
        b"\xc0\x80", b"\xff", b"\xf0\x9f\x98",
    ];
    let n = ch.of(LENGTHS);
    let k = ch.of(&[0usize, 1, 2, 3, 8, 70, 1030]);
    let mut t = ch.of(&[&b"\""[..], b"{\"", b"\"\\n", b"\"\xc3\xa9"]).to_vec();
    let object = t[0] == b'{';
    t.extend(std::iter::repeat(b'a').take(n));
    t.extend_from_slice(ch.of(BAD));
    t.extend(std::iter::repeat(b'b').take(k));
    match ch.pick(2) {
        0 => t.extend_from_slice(if object { b"\":0}" } else { b"\"" }),
        _ => {}
    }
    t
}

/// Sequences of strings of very different lengths, as elements and members.
fn string_sequence(ch: &mut Ch, max: usize) -> Vec<u8> {
    let kinds: Vec<String> = vec![
        String::new(),
        "s".into(),
        "\\n".into(),
        "x\\u0041y".into(),
        "p".repeat(40),
        format!("{}\\t{}", "q".repeat(90), "r".repeat(50)),
        format!("{}\\\\", "w".repeat(1500)),
        format!("\u{20ac}{}", "v".repeat(300)),
    ];
    let n = 1 + ch.pick(max);
    let object = ch.flag();
    let mut t = String::from(if object { "{" } else { "[" });
    for i in 0..n {
        if i > 0 {
            t.push(',');
        }
        t.push_str(&format!("\"{}\"", kinds[ch.pick(kinds.len())]));
        if object {
            t.push_str(&format!(":\"{}\"", kinds[ch.pick(kinds.len())]));
        }
    }
    t.push_str(if object { "}" } else { "]" });
    t.into_bytes()
}

/// Containers with many members and one irregularity somewhere.
fn many_members(ch: &mut Ch, lengths: &[usize]) -> Vec<u8> {
    let n = ch.of(lengths);
    let outer = ch.pick(4);
    let object = ch.flag();
    let leaf = ch.of(&["1", "\"e\\n\"", "[]", "{\"k\":[2]}", "null", "-0.5"]);
    let at = ch.of(&[0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1), n]);
    let defect = ch.pick(8);
    let mut t = String::from(["", "[", "{\"o\":", "[3,"][outer]);
    t.push(if object { '{' } else { '[' });
    for i in 0..n {
        if i > 0 {
            t.push_str(if i == at && defect == 1 { ",," } else if i == at && defect == 2 { " " } else { "," });
        }
        if object {
            t.push_str(&format!("\"k{}\"", i % 700));
            t.push_str(if i == at && defect == 3 { "" } else if i == at && defect == 4 { "," } else { ":" });
        }
        t.push_str(if i == at && defect == 5 { "nul" } else { leaf });
    }
    if defect == 6 {
        t.push(',');
    }
    if defect != 7 {
        t.push(if object { '}' } else { ']' });
    }
    t.push_str(["", "]", "}", "]"][outer]);
    t.into_bytes()
}

/// Long runs of whitespace in every gap.
fn long_gaps(ch: &mut Ch) -> Vec<u8> {
    const T: &[&[&str]] = &[
        &["[", "1", ",", "-2.5", ",", "\"s\"", "]"],
        &["{", "\"a\"", ":", "1", ",", "\"b\"", ":", "[", "]", "}"],
        &["[", "[", "]", ",", "{", "}", "]"],
        &["null"],
        &["\"x\""],
        &["12"],
    ];
    let toks = ch.of(T);
    let g = ch.pick(toks.len() + 1);
    let n = ch.of(LENGTHS);
    let w = ch.of(&[" ", "\n", "\r", "\t", "\r\n", "\t \n", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\0"]);
    let mut t = String::new();
    for i in 0..=toks.len() {
        if i == g {
            t.push_str(&" ".repeat(n));
            t.push_str(&w.repeat(if n > 2000 { 1 } else { n }));
        }
        if i < toks.len() {
            t.push_str(toks[i]);
        }
    }
    t.into_bytes()
}

struct Big(Vec<u32>); // base 10^9, little endian
impl Big {
    fn from(mut x: u128) -> Big {
        let mut v = vec![];
        while x > 0 {
            v.push((x % 1_000_000_000) as u32);
            x /= 1_000_000_000;
        }
        Big(v)
    }
    fn mul(&mut self, k: u64) {
        let mut c = 0u64;
        for d in self.0.iter_mut() {
            let x = *d as u64 * k + c;
            *d = (x % 1_000_000_000) as u32;
            c = x / 1_000_000_000;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
    }
    fn digits(&self) -> Vec<u8> {
        let mut s = String::new();
        for (i, d) in self.0.iter().rev().enumerate() {
            if i == 0 {
                s.push_str(&d.to_string());
            } else {
                s.push_str(&format!("{:09}", d));
            }
        }
        s.into_bytes()
    }
}

/// Deep nesting with every kind of ending.
fn deep(ch: &mut Ch, depths: &[usize]) -> Vec<u8> {
    let n = ch.of(depths);
    let pat = ch.of(&["[", "{", "[{", "{[", "[[{", "{{["]);
    let end = ch.pick(7);
    let mut t = vec![];
    let mut close = vec![];
    for i in 0..n {
        let c = pat.as_bytes()[i % pat.len()];
        t.push(c);
        if c == b'{' {
            t.extend_from_slice(b"\"k\":");
            close.push(b'}');
        } else {
            close.push(b']');
        }
    }
    let k = close.len();
    match end {
        0 => t.extend_from_slice(b"1"),
        1 => t.extend_from_slice(b"{}"),
        2 => t.extend_from_slice(b"[]"),
        3 => {
            // wrong innermost closer
            t.extend_from_slice(b"1");
            if k > 0 {
                close[k - 1] ^= b'}' ^ b']';
            }
        }
        4 => {
            // wrong outermost closer
            t.extend_from_slice(b"1");
            if k > 0 {
                close[0] ^= b'}' ^ b']';
            }
        }
        5 => {
            t.extend_from_slice(b"1");
            close.insert(0, if pat.starts_with('[') { b']' } else { b'}' });
        }
        _ => {
            t.extend_from_slice(b"1");
            if k > 0 {
                close.remove(0);
            }
        }
    }
    close.reverse();
    t.extend_from_slice(&close);
    t
}

const LEAVES: &[&str] = &["1", "-1", "\"s\"", "null", "2.5", "true"];
const GAPS: &[&str] = &["", " ", "\n\r\t "];

/// Renders all small trees with one kind of gap between all tokens.
fn tree_text(ch: &mut Ch, budget: &mut usize, depth: usize, gap: &str, t: &mut String) {
    let kinds = if depth == 0 { 1 } else { 3 };
    match ch.pick(kinds) {
        0 => t.push_str(ch.of(LEAVES)),
        k => {
            t.push_str(if k == 1 { "[" } else { "{" });
            t.push_str(gap);
            let mut first = true;
            while *budget > 0 && ch.flag() {
                *budget -= 1;
                if !first {
                    t.push(',');
                    t.push_str(gap);
                }
                first = false;
                if k == 2 {
                    t.push_str(ch.of(&["\"\"", "\"a\"", "\"\\n\""]));
                    t.push_str(gap);
                    t.push(':');
                    t.push_str(gap);
                }
                tree_text(ch, budget, depth - 1, gap, t);
                t.push_str(gap);
            }
            t.push_str(if k == 1 { "]" } else { "}" });
        }
    }
}

fn sections(r: &mut Runner, what: What) {
    let acc = what == What::Accept;
    if acc {
        let n = r.b(4, 5);
        r.section(
            "bytes",
            &format!("all byte strings of length <= {} over {} byte classes", n, BYTES_WIDE.len()),
            |ch, o| case(what, &strings(ch, BYTES_WIDE, n), o),
        );
    }
    let n = if acc { r.b(6, 7) } else { r.b(5, 6) };
    r.section(
        "bytes-core",
        &format!("all byte strings of length <= {} over {} byte classes", n, BYTES_CORE.len()),
        |ch, o| case(what, &strings(ch, BYTES_CORE, n), o),
    );
    let n = if acc { r.b(7, 8) } else { r.b(6, 7) };
    r.section(
        "tokens",
        &format!("all token sequences of length <= {} over {} tokens", n, TOKENS.len()),
        |ch, o| case(what, &tokens(ch, n), o),
    );
    r.section(
        "mutations",
        "24 texts: every byte replaced by and preceded by each of 256 bytes, every range deleted or doubled, neighbours swapped",
        |ch, o| case(what, &mutate(ch), o),
    );
    if acc && r.thorough {
        r.section(
            "mutations-2",
            "24 texts: every two positions at distance <= 4 replaced by all pairs of byte classes",
            |ch, o| case(what, &mutate2(ch), o),
        );
    }
    r.section(
        "escape-one",
        "all 65536 \\u escapes x 5 places x letter case",
        |ch, o| case(what, &escape_one(ch), o),
    );
    r.section(
        "escape-two",
        "pairs of \\u escapes: all 65536 units x 20 boundary units, both orders, 3 places",
        |ch, o| case(what, &escape_two(ch), o),
    );
    r.section("escape-pairs", "all 1048576 surrogate pairs", |ch, o| {
        case(what, &escape_pairs(ch), o)
    });
    let n = r.b(5, 6);
    r.section(
        "escape-grammar",
        &format!("all sequences of <= {} of 15 escape fragments inside quotes", n),
        |ch, o| case(what, &escape_grammar(ch, n), o),
    );
    if acc {
        r.section(
            "utf8-short",
            "strings of 1-3 bytes >= 0x80 (all first two bytes, boundary third), with and without preceding escape",
            |ch, o| case(what, &utf8_short(ch), o),
        );
        r.section(
            "utf8-long",
            "all leading bytes 0xe0-0xff x 11^3 boundary continuations, as key and value",
            |ch, o| case(what, &utf8_long(ch), o),
        );
    }
    r.section("utf8-scalars", "all scalar values in raw form", |ch, o| {
        case_o(what, &utf8_scalars(ch), o, false)
    });
    r.section(
        "string-positions",
        "strings of length <= 16 with a special item at every position and one at the end",
        |ch, o| case(what, &long_string(ch, 16), o),
    );
    let n = r.b(100, 300);
    r.section(
        "string-lengths",
        &format!("strings of length <= {} with a special item at every position", n),
        |ch, o| case_o(what, &long_string(ch, n), o, false),
    );
    let n = if acc { r.b(6, 7) } else { r.b(6, 7) };
    r.section(
        "number-chars",
        &format!("all strings of length <= {} over 0159-+.eE in 5 contexts", n),
        |ch, o| case(what, &number_chars(ch, n), o),
    );
    r.section(
        "int-boundaries",
        "powers of 2 (<= 2^80) +-4, multiples of powers of 10 +-4, multiples of 2^64-1 +-12, both signs, 9 suffixes, 5 contexts",
        |ch, o| case(what, &int_boundaries(ch), o),
    );
    let n = r.b(48, 400);
    r.section(
        "digit-ladder",
        &format!("numbers with 1-{} digits x fill digit x point position x 18 exponents", n),
        |ch, o| case_o(what, &digit_ladder(ch, n), o, false),
    );
    r.section(
        "exponents",
        "33 significands x exponents -360..360 (and x100) x sign",
        |ch, o| case_o(what, &exponents(ch), o, false),
    );
    r.section(
        "huge-exponents",
        "17 significands x 165 exponents at the limits of the integer types x 6 forms x sign x 5 contexts",
        |ch, o| case_o(what, &huge_exponents(ch), o, false),
    );
    r.section(
        "balanced-exponents",
        "up to 2000 zeros before or behind 4 significands x 16 resulting magnitudes x 4 forms",
        |ch, o| case_o(what, &balanced_exponents(ch), o, false),
    );
    r.section(
        "long-runs",
        "12 x 12 special items in runs behind 43 prefix lengths up to 8193 (plain and escaped), 4 run shapes, 4 tails, key and value",
        |ch, o| case_o(what, &long_runs(ch), o, false),
    );
    if acc {
        r.section(
            "long-defects",
            "15 defects behind prefixes of 43 lengths up to 8193 and before 7 tails, 4 openings, terminated and not",
            |ch, o| case_o(what, &long_defects(ch), o, false),
        );
        r.section(
            "long-gaps",
            "runs of whitespace of 43 lengths up to 8193 followed by 11 blanks and non-blanks in every gap of 6 texts",
            |ch, o| case_o(what, &long_gaps(ch), o, false),
        );
    }
    let n = r.b(2, 3);
    r.section(
        "string-sequences",
        &format!("objects and arrays of <= {} strings out of 8 kinds (plain and escaped, 0 to 1500 bytes)", n),
        |ch, o| case_o(what, &string_sequence(ch, n), o, false),
    );
    r.section(
        "many-members",
        "containers of 0 to 5000 members x 6 leaves x 4 surroundings x 6 places x 7 defects",
        |ch, o| case_o(what, &many_members(ch, &[0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 5000]), o, false),
    );
    r.section(
        "huge",
        "strings, gaps, digits, exponents, arrays and objects of 65535..65537 and 2^20 + 1 items, 8 endings",
        |ch, o| case_o(what, &huge(ch), o, false),
    );
    let dense = r.thorough;
    r.section(
        "halfway",
        "exact decimal expansions of midpoints between neighbouring doubles and values just beside them",
        |ch, o| case_o(what, &halfway(ch, dense), o, false),
    );
    let mut depths: Vec<usize> = (0..=40).collect();
    depths.extend([63, 64, 65, 126, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097]);
    if r.thorough {
        depths.extend(41..=520);
        depths.extend([10000, 65535, 65536, 65537]);
    }
    let d = depths.clone();
    r.section(
        "nesting",
        &format!("6 container patterns x {} depths up to {} x 7 endings", d.len(), d.iter().max().unwrap()),
        move |ch, o| case_o(what, &deep(ch, &d), o, false),
    );
    let (b, d) = r.b((3, 3), (4, 4));
    r.section(
        "trees",
        &format!("all trees with <= {} members and depth <= {} x 6 leaves x 3 keys x 3 gaps", b, d),
        |ch, o| {
            let gap = ch.of(GAPS);
            let mut t = String::from(gap);
            let mut budget = b;
            tree_text(ch, &mut budget, d, gap, &mut t);
            t.push_str(gap);
            case(what, t.as_bytes(), o)
        },
    );
}

pub fn c01(r: &mut Runner) {
    sections(r, What::Accept);
}

pub fn c02(r: &mut Runner) {
    sections(r, What::Value);
    // every double is denoted by its shortest decimal form
    r.section(
        "doubles",
        "all 2047 binary exponents x 24 mantissas x sign in shortest and exact exponent form",
        |ch, o| {
            let m = ch.of(&MANTISSAS);
            let e = ch.pick(2047) as u64;
            let f = f64::from_bits(e << 52 | m);
            let s = if ch.flag() { "-" } else { "" };
            let t = match ch.pick(3) {
                0 => format!("{}{:e}", s, f),
                1 => format!("[{}{:?}]", s, f),
                _ => format!("{}{:.30e}", s, f),
            };
            let t = if t.contains('.') || t.contains('e') { t } else { format!("{}.0", t) };
            let want = Ev::A(Leaf::F64(if s.is_empty() { f } else { -f }));
            o.step(&t);
            clear_log();
            let r = deser_json::from_str::<Rec>(&t);
            ensure!(r.is_ok(), "{} rejected", t);
            let got = take_log();
            ensure!(got.contains(&want), "{} denotes {:?}, delivered {}", t, want, show(&got));
            Ok(())
        },
    );
}

const MANTISSAS: [u64; 24] = [
    0, 1, 2, 3, 0xf, 0x8000000000000, 0x8000000000001, 0x7ffffffffffff, 0xfffffffffffff,
    0xffffffffffffe, 0xaaaaaaaaaaaaa, 0x5555555555555, 0x123456789abcd, 0xfedcba9876543,
    0x1000000000, 0xfffffffff, 0x4000000000000, 0xc000000000000, 0x999999999999a,
    0x3333333333333, 0x921fb54442d18, 0x5bf0a8b145769, 0x6a09e667f3bcd, 0x0000100000000,
];
