//! An instrumented sink for direct calls.
use crate::track;
use crate::Leaf;
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::{Atom, Descriptor, Error};
use mc_core::guard;
use std::borrow::Cow;
use std::cell::RefCell;

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static FAULT: RefCell<Option<usize>> = const { RefCell::new(None) };
    static CFG: RefCell<(usize, usize)> = const { RefCell::new((0, 0)) };
}

fn logged(s: String) -> Result<(), Error> {
    LOG.with(|l| l.borrow_mut().push(s));
    let n = LOG.with(|l| l.borrow().len()) - 1;
    if FAULT.with(|f| *f.borrow()) == Some(n) {
        return Err(track::fault_error(n as u32));
    }
    Ok(())
}

/// A target that records what its sink is asked.
#[derive(Debug, PartialEq, Clone, Default)]
pub struct It(pub Vec<String>);

struct Full;
impl Descriptor for Full {
    fn name(&self) -> Option<&str> {
        Some("Full")
    }
    fn precision(&self) -> Option<usize> {
        Some(41)
    }
    fn unordered(&self) -> bool {
        true
    }
}
struct Part;
impl Descriptor for Part {
    fn precision(&self) -> Option<usize> {
        Some(42)
    }
}

pub enum ItSink<'a> {
    Top(&'a mut Option<It>, Vec<String>),
    Under(&'a mut Vec<String>, &'static str),
}

impl<'a> ItSink<'a> {
    fn note(&mut self, s: String) -> Result<(), Error> {
        let s = match self {
            ItSink::Top(_, v) => {
                v.push(s.clone());
                s
            }
            ItSink::Under(v, w) => {
                let s = format!("{} {}", w, s);
                v.push(s.clone());
                s
            }
        };
        logged(s)
    }
    fn list(&mut self) -> &mut Vec<String> {
        match self {
            ItSink::Top(_, v) => v,
            ItSink::Under(v, _) => v,
        }
    }
}

impl Deserialize for It {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle<'_> {
        SinkHandle::boxed(ItSink::Top(out, vec![]))
    }
}

impl<'a> Sink for ItSink<'a> {
    fn atom(&mut self, a: Atom, s: &DeserializerState) -> Result<(), Error> {
        s.get_mut::<Vec<u8>>().push(1);
        self.note(format!("atom {:?}", Leaf::of(&a)))?;
        match CFG.with(|c| c.borrow().1) {
            0 => self.unexpected_atom(a, s),
            _ => Ok(()),
        }
    }
    fn map(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.note("map".into())
    }
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.note("seq".into())
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.note("next_key".into())?;
        Ok(SinkHandle::boxed(ItSink::Under(self.list(), "key")))
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle<'_>, Error> {
        self.note("next_value".into())?;
        Ok(SinkHandle::boxed(ItSink::Under(self.list(), "value")))
    }
    fn value_for_key(&mut self, key: &str, _: &DeserializerState) -> Result<Option<SinkHandle<'_>>, Error> {
        self.note(format!("value_for_key {}", key))?;
        Ok(if key == "no" { None } else { Some(SinkHandle::boxed(ItSink::Under(self.list(), "member"))) })
    }
    fn finish(&mut self, s: &DeserializerState) -> Result<(), Error> {
        let n = s.get::<Vec<u8>>().len();
        self.note(format!("finish {}", n))?;
        if let ItSink::Top(slot, v) = self {
            if CFG.with(|c| c.borrow().1) != 2 {
                **slot = Some(It(std::mem::take(v)));
            }
        }
        Ok(())
    }
    fn descriptor(&self) -> &dyn Descriptor {
        struct Nothing;
        impl Descriptor for Nothing {}
        match CFG.with(|c| c.borrow().0) {
            0 => &Full,
            1 => &Part,
            _ => &Nothing,
        }
    }
    fn expecting(&self) -> Cow<'_, str> {
        match CFG.with(|c| c.borrow().0) {
            0 => "a full thing".into(),
            1 => format!("a thing after {} calls", LOG.with(|l| l.borrow().len())).into(),
            2 => "".into(),
            _ => match self.descriptor().name() {
                Some(n) => n.to_string().into(),
                None => "compatible type".into(),
            },
        }
    }
}

/// Everything seen from calling a sink directly: the answers and the calls
/// it received.
pub fn calls_on<'a>(ops: &[usize], mk: impl FnOnce() -> SinkHandle<'a>) -> Result<(Vec<String>, Vec<String>), String> {
    LOG.with(|l| l.borrow_mut().clear());
    let mut seen = vec![];
    guard(|| {
        let mut unit: Option<()> = None;
        let d = DeserializeDriver::new(&mut unit);
        let st = d.state();
        let mut h = mk();
        let er = |e: Error| {
            use std::error::Error as _;
            format!("{:?} {} {:?} {:?}", e.kind(), e, e.source().map(|x| x.to_string()), st.get::<Vec<u8>>().len())
        };
        for c in ops {
            let r: Result<String, Error> = (|| {
                Ok(match c {
                    0 => format!("{:?}", h.atom(Atom::U64(7), st)?),
                    1 => format!("{:?}", h.atom(Atom::Str("x".into()), st)?),
                    2 => format!("{:?}", h.map(st)?),
                    3 => format!("{:?}", h.seq(st)?),
                    4 => {
                        let mut k = h.next_key(st)?;
                        k.atom(Atom::Null, st)?;
                        k.finish(st)?;
                        format!("{:?}", k.descriptor().name())
                    }
                    5 => {
                        let mut k = h.next_value(st)?;
                        k.map(st)?;
                        k.next_key(st)?.atom(Atom::Bool(true), st)?;
                        k.finish(st)?;
                        format!("{:?}", k.descriptor().name())
                    }
                    6 => match h.value_for_key("yes", st)? {
                        Some(mut k) => {
                            k.seq(st)?;
                            format!("{}", k.expecting())
                        }
                        None => "none".into(),
                    },
                    7 => match h.value_for_key("no", st)? {
                        Some(_) => "some".into(),
                        None => "none".into(),
                    },
                    8 => format!("{:?}", h.finish(st)?),
                    9 => {
                        let d = h.descriptor();
                        format!("{:?} {:?} {}", d.name(), d.precision(), d.unordered())
                    }
                    _ => h.expecting().into_owned(),
                })
            })();
            seen.push(r.unwrap_or_else(er));
        }
    })?;
    Ok((seen, LOG.with(|l| l.borrow().clone())))
}

/// The same for the sink of X, and what it leaves in the slot.
pub fn calls<X: Deserialize>(ops: &[usize], get: fn(X) -> Option<It>) -> Result<(Vec<String>, Vec<String>, Option<It>), String> {
    let mut out: Option<X> = None;
    let (a, b) = calls_on(ops, || X::deserialize_into(&mut out))?;
    Ok((a, b, out.and_then(get)))
}

/// What is announced (0..4), and whether atoms are rejected (0), accepted (1)
/// or accepted without giving a value (2); and which callback fails.
pub fn setup(cfg: (usize, usize), fault: Option<usize>) {
    CFG.with(|c| *c.borrow_mut() = cfg);
    FAULT.with(|f| *f.borrow_mut() = fault);
}
