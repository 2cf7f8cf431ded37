//! Reference model of JSON: a byte level push-down automaton for RFC 8259 that
//! also produces the events the text denotes.
use crate::{Ev, Leaf};
use mc_core::Obs;

#[derive(Clone, Copy, PartialEq, Hash, Debug)]
enum Mode {
    Value,
    ValueOrEnd,
    KeyOrEnd,
    Key,
    Colon,
    After,
    Done,
    Str,
    Esc,
    Hex(u8),
    LowBackslash,
    LowU,
    /// more continuation bytes: count, lower and upper bound of the next
    Utf8(u8, u8, u8),
    Lit(u8, u8),
    Minus,
    Zero,
    Int,
    Dot,
    Frac,
    E,
    ESign,
    Exp,
}

#[derive(Clone, Copy, PartialEq, Hash, Debug)]
enum Ctx {
    Seq,
    Map,
}

pub struct Machine {
    mode: Mode,
    stack: Vec<Ctx>,
    is_key: bool,
    text: Vec<u8>,
    hex: u32,
    high: Option<u32>,
    pub events: Vec<Ev>,
}

const LITS: [&[u8]; 3] = [b"null", b"true", b"false"];

/// The value a number lexeme denotes; `None` if it is infinite as a double.
pub fn number(lexeme: &str) -> Option<Leaf> {
    if lexeme.bytes().all(|b| b == b'-' || b.is_ascii_digit()) {
        let neg = lexeme.starts_with('-');
        let digits = lexeme.trim_start_matches('-').trim_start_matches('0');
        if digits.len() <= 20 {
            let v: i128 = if digits.is_empty() {
                0
            } else {
                digits.parse().unwrap()
            };
            if !neg && v <= u64::MAX as i128 {
                return Some(Leaf::U64(v as u64));
            }
            if neg && -v >= i64::MIN as i128 {
                return Some(Leaf::I64((-v) as i64));
            }
        }
    }
    let f: f64 = lexeme.parse().unwrap();
    if f.is_finite() {
        Some(Leaf::F64(f))
    } else {
        None
    }
}

impl Machine {
    pub fn new() -> Machine {
        Machine {
            mode: Mode::Value,
            stack: vec![],
            is_key: false,
            text: vec![],
            hex: 0,
            high: None,
            events: vec![],
        }
    }

    pub fn state_hash(&self) -> u64 {
        let n = self.stack.len();
        let top = &self.stack[n.saturating_sub(6)..];
        mc_core::hash(&(self.mode, self.is_key, top, self.high.is_some(), n.min(64)))
    }

    fn value_done(&mut self) {
        self.mode = if self.stack.is_empty() {
            Mode::Done
        } else {
            Mode::After
        };
    }

    fn end_number(&mut self) -> bool {
        let s = String::from_utf8(std::mem::take(&mut self.text)).unwrap();
        match number(&s) {
            Some(l) => {
                self.events.push(Ev::A(l));
                self.value_done();
                true
            }
            None => false,
        }
    }

    fn start_value(&mut self, b: u8) -> bool {
        self.mode = match b {
            b'{' => {
                self.stack.push(Ctx::Map);
                self.events.push(Ev::Ms);
                Mode::KeyOrEnd
            }
            b'[' => {
                self.stack.push(Ctx::Seq);
                self.events.push(Ev::Ss);
                Mode::ValueOrEnd
            }
            b'"' => {
                self.is_key = false;
                Mode::Str
            }
            b'n' => Mode::Lit(0, 1),
            b't' => Mode::Lit(1, 1),
            b'f' => Mode::Lit(2, 1),
            b'-' | b'0'..=b'9' => {
                self.text.push(b);
                match b {
                    b'-' => Mode::Minus,
                    b'0' => Mode::Zero,
                    _ => Mode::Int,
                }
            }
            _ => return false,
        };
        true
    }

    fn close(&mut self, c: Ctx) -> bool {
        if self.stack.pop() != Some(c) {
            return false;
        }
        self.events.push(if c == Ctx::Seq { Ev::Se } else { Ev::Me });
        self.value_done();
        true
    }

    fn push_char(&mut self, c: u32) -> bool {
        match char::from_u32(c) {
            Some(c) => {
                self.text
                    .extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
                self.mode = Mode::Str;
                true
            }
            None => false,
        }
    }

    /// Feeds one byte, false if no valid text starts like this.
    pub fn feed(&mut self, b: u8) -> bool {
        let ws = matches!(b, b' ' | b'\n' | b'\r' | b'\t');
        match self.mode {
            Mode::Value | Mode::Key | Mode::KeyOrEnd | Mode::ValueOrEnd | Mode::Colon
            | Mode::After | Mode::Done
                if ws =>
            {
                true
            }
            Mode::Value => self.start_value(b),
            Mode::ValueOrEnd => {
                if b == b']' {
                    self.close(Ctx::Seq)
                } else {
                    self.start_value(b)
                }
            }
            Mode::KeyOrEnd if b == b'}' => self.close(Ctx::Map),
            Mode::KeyOrEnd | Mode::Key => {
                self.is_key = true;
                self.mode = Mode::Str;
                b == b'"'
            }
            Mode::Colon => {
                self.mode = Mode::Value;
                b == b':'
            }
            Mode::After => match b {
                b',' => {
                    self.mode = match self.stack.last() {
                        Some(Ctx::Seq) => Mode::Value,
                        _ => Mode::Key,
                    };
                    true
                }
                b']' => self.close(Ctx::Seq),
                b'}' => self.close(Ctx::Map),
                _ => false,
            },
            Mode::Done => false,
            Mode::Str => match b {
                b'"' => {
                    let s = String::from_utf8(std::mem::take(&mut self.text)).unwrap();
                    self.events.push(Ev::A(Leaf::Str(s)));
                    if self.is_key {
                        self.is_key = false;
                        self.mode = Mode::Colon;
                    } else {
                        self.value_done();
                    }
                    true
                }
                b'\\' => {
                    self.mode = Mode::Esc;
                    true
                }
                0..=0x1f => false,
                0x20..=0x7f => {
                    self.text.push(b);
                    true
                }
                _ => {
                    self.text.push(b);
                    self.mode = match b {
                        0xc2..=0xdf => Mode::Utf8(1, 0x80, 0xbf),
                        0xe0 => Mode::Utf8(2, 0xa0, 0xbf),
                        0xe1..=0xec | 0xee | 0xef => Mode::Utf8(2, 0x80, 0xbf),
                        0xed => Mode::Utf8(2, 0x80, 0x9f),
                        0xf0 => Mode::Utf8(3, 0x90, 0xbf),
                        0xf1..=0xf3 => Mode::Utf8(3, 0x80, 0xbf),
                        0xf4 => Mode::Utf8(3, 0x80, 0x8f),
                        _ => return false,
                    };
                    true
                }
            },
            Mode::Utf8(n, lo, hi) => {
                self.text.push(b);
                self.mode = if n == 1 {
                    Mode::Str
                } else {
                    Mode::Utf8(n - 1, 0x80, 0xbf)
                };
                b >= lo && b <= hi
            }
            Mode::Esc => {
                let c = match b {
                    b'"' => b'"',
                    b'\\' => b'\\',
                    b'/' => b'/',
                    b'b' => 8,
                    b'f' => 12,
                    b'n' => 10,
                    b'r' => 13,
                    b't' => 9,
                    b'u' => {
                        self.hex = 0;
                        self.mode = Mode::Hex(4);
                        return true;
                    }
                    _ => return false,
                };
                self.text.push(c);
                self.mode = Mode::Str;
                true
            }
            Mode::Hex(n) => {
                let d = match (b as char).to_digit(16) {
                    Some(d) => d,
                    None => return false,
                };
                self.hex = self.hex * 16 + d;
                if n > 1 {
                    self.mode = Mode::Hex(n - 1);
                    return true;
                }
                let x = self.hex;
                match self.high.take() {
                    None if (0xd800..0xdc00).contains(&x) => {
                        self.high = Some(x);
                        self.mode = Mode::LowBackslash;
                        true
                    }
                    None => self.push_char(x),
                    Some(h) => {
                        if !(0xdc00..0xe000).contains(&x) {
                            return false;
                        }
                        self.push_char(0x10000 + ((h - 0xd800) << 10) + (x - 0xdc00))
                    }
                }
            }
            Mode::LowBackslash => {
                self.mode = Mode::LowU;
                b == b'\\'
            }
            Mode::LowU => {
                self.hex = 0;
                self.mode = Mode::Hex(4);
                b == b'u'
            }
            Mode::Lit(l, i) => {
                let w = LITS[l as usize];
                if w[i as usize] != b {
                    return false;
                }
                if i as usize + 1 == w.len() {
                    self.events.push(Ev::A(match l {
                        0 => Leaf::Null,
                        1 => Leaf::Bool(true),
                        _ => Leaf::Bool(false),
                    }));
                    self.value_done();
                } else {
                    self.mode = Mode::Lit(l, i + 1);
                }
                true
            }
            Mode::Minus | Mode::Zero | Mode::Int | Mode::Dot | Mode::Frac | Mode::E
            | Mode::ESign | Mode::Exp => {
                let next = match (self.mode, b) {
                    (Mode::Minus, b'0') => Some(Mode::Zero),
                    (Mode::Minus, b'1'..=b'9') => Some(Mode::Int),
                    (Mode::Int, b'0'..=b'9') => Some(Mode::Int),
                    (Mode::Zero | Mode::Int, b'.') => Some(Mode::Dot),
                    (Mode::Zero | Mode::Int | Mode::Frac, b'e' | b'E') => Some(Mode::E),
                    (Mode::Dot | Mode::Frac, b'0'..=b'9') => Some(Mode::Frac),
                    (Mode::E, b'+' | b'-') => Some(Mode::ESign),
                    (Mode::E | Mode::ESign | Mode::Exp, b'0'..=b'9') => Some(Mode::Exp),
                    _ => None,
                };
                if let Some(m) = next {
                    self.text.push(b);
                    self.mode = m;
                    return true;
                }
                matches!(self.mode, Mode::Zero | Mode::Int | Mode::Frac | Mode::Exp)
                    && self.end_number()
                    && self.feed(b)
            }
        }
    }

    /// End of input.
    pub fn finish(&mut self) -> bool {
        match self.mode {
            Mode::Done => true,
            Mode::Zero | Mode::Int | Mode::Frac | Mode::Exp if self.stack.is_empty() => {
                self.end_number()
            }
            _ => false,
        }
    }
}

/// Runs the automaton; `Some(events)` if the text is valid.
pub fn parse(text: &[u8], obs: Option<&mut Obs>) -> Option<Vec<Ev>> {
    let mut m = Machine::new();
    if let Some(o) = obs {
        for &b in text {
            if !m.feed(b) {
                o.step_h(!0);
                return None;
            }
            o.step_h(m.state_hash());
        }
    } else {
        for &b in text {
            if !m.feed(b) {
                return None;
            }
        }
    }
    if m.finish() {
        Some(m.events)
    } else {
        None
    }
}
