//! Contract: logging has no effect on program state (arguments are not evaluated, as with no subscriber).
#[derive(Clone, Debug)]
pub struct Span;
pub struct Entered;
pub mod span { pub use crate::{Entered, Span}; pub type EnteredSpan = Entered; }
pub struct Level;
impl Level { pub const TRACE: Level = Level; pub const DEBUG: Level = Level; pub const INFO: Level = Level; pub const WARN: Level = Level; pub const ERROR: Level = Level; }
impl Span {
    pub fn none() -> Span { Span }
    pub fn current() -> Span { Span }
    pub fn enter(&self) -> Entered { Entered }
    pub fn entered(self) -> Entered { Entered }
    pub fn in_scope<T>(&self, f: impl FnOnce() -> T) -> T { f() }
    pub fn is_disabled(&self) -> bool { true }
}
#[macro_export] macro_rules! span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! trace_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! debug_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! info_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! warn_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! error_span { ($($t:tt)*) => { $crate::Span }; }
#[macro_export] macro_rules! event { ($($t:tt)*) => { () }; }
#[macro_export] macro_rules! trace { ($($t:tt)*) => { () }; }
#[macro_export] macro_rules! debug { ($($t:tt)*) => { () }; }
#[macro_export] macro_rules! info { ($($t:tt)*) => { () }; }
#[macro_export] macro_rules! warn { ($($t:tt)*) => { () }; }
#[macro_export] macro_rules! error { ($($t:tt)*) => { () }; }
#[macro_export] macro_rules! enabled { ($($t:tt)*) => { false }; }
