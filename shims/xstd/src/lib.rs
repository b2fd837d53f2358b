//! `std` with the items async-io synchronises or talks to the OS through replaced by contract stand-ins.
//!
//! Everything not overridden here is the real standard library.
#![allow(static_mut_refs)]
#![feature(min_specialization, arbitrary_self_types)]
pub use std::*;

pub mod cell;
pub mod io;
pub mod net;
pub mod os;
pub mod sync;
pub mod thread;
pub mod vawait;
pub mod vec;

pub mod collections {
    pub use std::collections::*;
    pub use crate::btree::BTreeMap;
    pub use crate::btree::LIMIT as MAP_LIMIT;
    pub mod btree_map { pub use std::collections::btree_map::*; pub use crate::btree::{BTreeMap, Entry as OccupiedEntry, MapEntry as Entry, VacantEntry}; }
}
pub mod time {
    pub use std::time::*;
    pub use crate::instant::Instant;
}
pub mod panic {
    pub use std::panic::*;
    /// Contract: runs the closure and contains its panic (ghost: `catch_depth` > 0 while it runs).
    pub fn catch_unwind<F: FnOnce() -> R, R>(f: F) -> std::thread::Result<R> {
        xworld::w().catch_depth += 1;
        let r = f();
        xworld::w().catch_depth -= 1;
        Ok(r)
    }
}
pub mod task {
    pub use std::task::*;
    pub use crate::sync::Wake;
}
pub mod process {
    pub use std::process::*;
}

mod instant {
    use std::time::Duration;
    use std::ops::*;
    #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct Instant { pub secs: i64, pub nanos: u32 }
    const G: u32 = 1_000_000_000;
    impl Instant {
        pub fn now() -> Instant { let (secs, nanos) = xworld::clock_read(); Instant { secs, nanos } }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            let mut secs = self.secs.checked_add_unsigned(d.as_secs())?;
            let mut nanos = self.nanos + d.subsec_nanos();
            if nanos >= G { nanos -= G; secs = secs.checked_add(1)?; }
            Some(Instant { secs, nanos })
        }
        pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
            let mut secs = self.secs.checked_sub_unsigned(d.as_secs())?;
            let mut nanos = self.nanos as i32 - d.subsec_nanos() as i32;
            if nanos < 0 { nanos += G as i32; secs = secs.checked_sub(1)?; }
            Some(Instant { secs, nanos: nanos as u32 })
        }
        pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> {
            if *self >= e {
                let (s, n) = if self.nanos >= e.nanos { (self.secs.wrapping_sub(e.secs) as u64, self.nanos - e.nanos) }
                    else { (self.secs.wrapping_sub(e.secs).wrapping_sub(1) as u64, self.nanos + G - e.nanos) };
                Some(Duration::new(s, n))
            } else { None }
        }
        pub fn saturating_duration_since(&self, e: Instant) -> Duration { self.checked_duration_since(e).unwrap_or_default() }
        pub fn duration_since(&self, e: Instant) -> Duration { self.saturating_duration_since(e) }
        pub fn elapsed(&self) -> Duration { Instant::now().saturating_duration_since(*self) }
    }
    impl Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { self.checked_add(d).expect("overflow when adding duration to instant") } }
    impl AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { *self = *self + d } }
    impl Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { self.checked_sub(d).expect("overflow when subtracting duration from instant") } }
    impl SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { *self = *self - d } }
    impl Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.duration_since(o) } }
}

mod btree;
