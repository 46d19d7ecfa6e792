//! Small helpers of the scenarios.
use simcore::*;

/// How a call of the code under test ended.
pub enum End<R> { Done(R), Cut, Refused(String) }
pub fn call<R>(f: impl FnOnce() -> R) -> End<R> {
    match sut(f) { Ok(r) => End::Done(r), Err(Caught::Injected(_)) => End::Cut, Err(c) => { probe("rejected-request"); End::Refused(c.text()) } }
}
/// A call that must not be refused; None if an injected failure cut it short.
pub fn must<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match sut(f) { Ok(r) => Some(r), Err(Caught::Injected(_)) => None, Err(c) => fail("unexpected-panic", format!("{what} failed: {}", c.text())) }
}
/// A call that must be refused.
pub fn refuse<R>(what: &str, f: impl FnOnce() -> R) {
    match sut(f) { Ok(r) => { std::mem::forget(r); fail("not-rejected", format!("{what} was carried out")) } Err(c) => { if !c.is_injected() { probe("rejected-request") } } }
}
/// A call outside any fault that must go well.
pub fn plain<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match sut(f) { Ok(r) => r, Err(c) => { if crate::catalogue::LENIENT.with(|l| l.get()) { std::panic::resume_unwind(quiet(|| Box::new(Lenient(c.text())))) } fail("unexpected-panic", format!("{what} failed: {}", c.text())) } }
}
/// what `plain` says instead of failing where a refusal is a result like any other
pub struct Lenient(pub String);

