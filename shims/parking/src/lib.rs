//! Contract of `parking`: one binary token per pair; `park` blocks until the token is there and takes it.
use std::time::Duration;
use xworld::w;
/// Tokens live in the ghost world, indexed by pair.
#[derive(Debug)]
pub struct Parker { id: usize }
#[derive(Clone, Debug)]
pub struct Unparker { id: usize }
pub fn pair() -> (Parker, Unparker) {
    let id = w().parkers;
    xworld::bound!(id < xworld::NPARK, "BOUND parkers");
    w().parkers = id + 1;
    w().token[id] = false;
    (Parker { id }, Unparker { id })
}
impl Parker {
    pub fn new() -> Self { pair().0 }
    pub fn id(&self) -> usize { self.id }
    pub fn park(&self) { xworld::on_park(self.id); w().token[self.id] = false; }
    pub fn park_timeout(&self, d: Duration) -> bool {
        xworld::on_park_timeout(self.id, d);
        let t = w().token[self.id];
        w().token[self.id] = false;
        t
    }
    pub fn park_deadline(&self, t: xstd::time::Instant) -> bool { self.park_timeout(t.saturating_duration_since(xstd::time::Instant::now())) }
    pub fn unpark(&self) -> bool { self.unparker().unpark() }
    pub fn unparker(&self) -> Unparker { Unparker { id: self.id } }
}
impl Unparker {
    pub fn id(&self) -> usize { self.id }
    pub fn unpark(&self) -> bool {
        xworld::interfere();
        let old = w().token[self.id];
        w().token[self.id] = true;
        w().unparks[self.id] += 1;
        if let Some(f) = unsafe { xworld::ON_UNPARK } { f(self.id) }
        !old
    }
    pub fn will_unpark(&self, p: &Parker) -> bool { self.id == p.id }
    pub fn same_parker(&self, o: &Unparker) -> bool { self.id == o.id }
}
impl Default for Parker { fn default() -> Self { Parker::new() } }
use std::task::{RawWaker, RawWakerVTable, Waker};
impl From<Unparker> for Waker { fn from(u: Unparker) -> Waker { unsafe { Waker::from_raw(RawWaker::new(u.id as *const (), &VT)) } } }
unsafe fn vt_clone(p: *const ()) -> RawWaker { RawWaker::new(p, &VT) }
unsafe fn vt_wake(p: *const ()) { Unparker { id: p as usize }.unpark(); }
unsafe fn vt_drop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_wake, vt_wake, vt_drop);
