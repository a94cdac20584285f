//! in src/markets/interestrate/volsurface.rs
//! Observers: attached at the end, every live one updated once in order, first failure returned.
use super::*;
use crate::patterns::observer::Observer;
use std::cell::RefCell;
use std::rc::Rc;

pub fn attach(m: &mut IRCapMarketData, o: Rc<RefCell<dyn Observer>>) {
    m.observers.get_mut().push(Rc::downgrade(&o));
}
pub fn notify(m: &IRCapMarketData) -> Result<()> {
    let mut live = Vec::new();
    for w in m.observers.borrow().iter() {
        if let Some(o) = w.upgrade() {
            live.push(o);
        }
    }
    for o in live {
        o.borrow_mut().update(m)?;
    }
    Ok(())
}
