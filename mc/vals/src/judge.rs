//! Event streams against the model of the type they are sent to.
use crate::model::{Errs, Model};
use crate::{Ev, Val};
use deser::de::{Deserialize, DeserializeDriver};
use deser::Error;
use mc_core::{ensure, fail, guard, hash, Obs, Res};

/// Feeds all events into the slot. Panics are violations.
pub fn feed<T: Deserialize>(evs: &[Ev], out: &mut Option<T>) -> Result<Result<(), Error>, String> {
    guard(|| {
        let mut d = DeserializeDriver::new(out);
        for e in evs {
            d.emit(e.event())?;
        }
        Ok(())
    })
}

/// Equality that also holds between NaNs.
pub fn same<T: Model>(a: &T, b: &T) -> bool {
    a == b || a.events() == b.events()
}

pub fn judge<T: Model>(v: &Val, o: &mut Obs, stale: Option<T>) -> Res {
    let name = std::any::type_name::<T>();
    let mut errs: Errs = vec![];
    let want = T::interp(v, &mut errs);
    let had = stale.is_some();
    let mut out: Option<T> = stale;
    o.step_h(hash(&(name, v)));
    match feed(&v.evs(), &mut out) {
        Err(m) => fail!("{} from {}: panic {}", name, v.show(), m),
        Ok(Ok(())) => {
            if !errs.is_empty() {
                fail!("{} from {}: gives {:?}, expected an error {:?}", name, v.show(), out, errs);
            }
            match (&out, &want) {
                (Some(a), Some(b)) if same(a, b) => {}
                _ => fail!("{} from {}: gives {:?}, expected {:?}", name, v.show(), out, want),
            }
            o.class("rebuilt");
        }
        Ok(Err(e)) => {
            ensure!(
                !errs.is_empty(),
                "{} from {}: error {} although it denotes {:?}",
                name,
                v.show(),
                e,
                want
            );
            ensure!(
                errs.contains(&e.kind()),
                "{} from {}: error {:?} {}, expected one of {:?}",
                name,
                v.show(),
                e.kind(),
                e,
                errs
            );
            if !had && !name.starts_with("core::option::Option") {
                ensure!(out.is_none(), "{} from {}: error {} but the slot holds {:?}", name, v.show(), e, out);
            }
            o.class("rejected");
        }
    }
    Ok(())
}
