//! A custom mechanism whose steps are closures installed by the test on the current thread.
use rsasl::mechanism::{Authentication, MechanismData};
use rsasl::prelude::*;
use rsasl::registry::{Matches, Named, Side};
use std::cell::{Cell, RefCell};
use std::io::Write;
use std::rc::Rc;

pub type StepFn = Rc<dyn Fn(&mut MechanismData, Option<&[u8]>, &mut dyn Write) -> Result<State, SessionError>>;
pub type LayerFn = Rc<dyn Fn(bool, &[u8], &mut dyn Write) -> Result<usize, SessionError>>;
thread_local! {
    static STEP: RefCell<Option<StepFn>> = const { RefCell::new(None) };
    static LAYER: RefCell<Option<LayerFn>> = const { RefCell::new(None) };
    static HAS_LAYER: Cell<bool> = const { Cell::new(false) };
}
pub fn set_step(f: impl Fn(&mut MechanismData, Option<&[u8]>, &mut dyn Write) -> Result<State, SessionError> + 'static) {
    STEP.with(|s| *s.borrow_mut() = Some(Rc::new(f)));
}
pub fn set_layer(has: bool, f: Option<LayerFn>) {
    HAS_LAYER.with(|h| h.set(has));
    LAYER.with(|s| *s.borrow_mut() = f);
}

pub struct Probe;
impl Authentication for Probe {
    fn step(&mut self, d: &mut MechanismData, i: Option<&[u8]>, w: &mut dyn Write) -> Result<State, SessionError> {
        let f = STEP.with(|s| s.borrow().clone()).expect("harness: probe step not set");
        f(d, i, w)
    }
    fn encode(&mut self, i: &[u8], w: &mut dyn Write) -> Result<usize, SessionError> {
        let f = LAYER.with(|s| s.borrow().clone()).expect("harness: probe layer not set");
        f(true, i, w)
    }
    fn decode(&mut self, i: &[u8], w: &mut dyn Write) -> Result<usize, SessionError> {
        let f = LAYER.with(|s| s.borrow().clone()).expect("harness: probe layer not set");
        f(false, i, w)
    }
    fn has_security_layer(&self) -> bool {
        HAS_LAYER.with(Cell::get)
    }
}
/// the same without overriding the layer methods
pub struct Bare;
impl Authentication for Bare {
    fn step(&mut self, d: &mut MechanismData, i: Option<&[u8]>, w: &mut dyn Write) -> Result<State, SessionError> {
        let f = STEP.with(|s| s.borrow().clone()).expect("harness: probe step not set");
        f(d, i, w)
    }
}
pub static PROBE: Mechanism = Mechanism::build(
    Mechname::const_new_unchecked(b"X-PROBE"),
    100,
    Some(|| Ok(Box::new(Probe))),
    Some(|_| Ok(Box::new(Probe))),
    Side::Client,
    |_| Some(Matches::<SelP>::name()),
    |_| true,
);
pub static BARE: Mechanism = Mechanism::build(
    Mechname::const_new_unchecked(b"X-BARE"),
    100,
    Some(|| Ok(Box::new(Bare))),
    Some(|_| Ok(Box::new(Bare))),
    Side::Server,
    |_| Some(Matches::<SelB>::name()),
    |_| true,
);
struct SelP;
impl Named for SelP {
    fn mech() -> &'static Mechanism {
        &PROBE
    }
}
struct SelB;
impl Named for SelB {
    fn mech() -> &'static Mechanism {
        &BARE
    }
}
