//! State of the current simulated execution.
use crate::rng::mix;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

thread_local! {
    /// this thread belongs to a simulated execution (its allocations come from the arena)
    pub static SIM: Cell<bool> = const { Cell::new(false) };
    /// > 0: code under test is running on this thread
    pub static SUT: Cell<u32> = const { Cell::new(0) };
    pub static TID: Cell<usize> = const { Cell::new(0) };
    static LAST_PANIC: std::cell::RefCell<(String, String)> = const { std::cell::RefCell::new((String::new(), String::new())) };
}
#[inline] pub fn in_sut() -> bool { SUT.with(|s| s.get()) > 0 }

#[derive(Clone, Debug, Default)]
pub struct Counters { pub steps: u64, pub allocs: u64, pub elem_ops: u64, pub draws: u64, pub yields: u64, pub calls: u64, pub callbacks: u64 }

#[derive(Default)]
pub struct Global {
    pub c: Counters,
    pub step_limit: u64,
    pub violation: Option<(String, String)>,
    pub digest: u64,
    pub trace: Option<Vec<String>>,
    pub fired: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    /// per simulated thread
    pub draws_by: [u64; 16],
    pub base_by: [u64; 16],
    // random source
    pub rand_mode: i64,
    pub rand_arg: u64,
    pub rand_seed: u64,
    /// the words delivered, when somebody wants to know
    pub words: Option<Vec<u64>>,
    /// simulated clock: nanoseconds, and how it moves
    pub clock: i64,
    pub clock_mode: i64,
    /// element operation / callback number that fails (0: none)
    pub elem_fault: u64,
    pub callback_fault: u64,
    pub op_counts: Vec<Counters>,
    pub stdout_mode: i64,
    pub stdout_bytes: u64,
    pub hash_seed: u64,
    pub hash_ctr: u64,
}
static mut GLOBAL_STATE: Option<Global> = None;
/// Only one simulated thread runs at any time (the others wait for the baton), so this is never shared.
#[allow(static_mut_refs)]
pub fn g() -> &'static mut Global {
    unsafe {
        if GLOBAL_STATE.is_none() { GLOBAL_STATE = Some(Global::default()); }
        GLOBAL_STATE.as_mut().unwrap()
    }
}

struct SutGuard(u32);
impl Drop for SutGuard { fn drop(&mut self) { SUT.with(|s| s.set(self.0)); } }
/// Run simulator code from inside code under test (callbacks, element operations, sinks).
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    let _g = SutGuard(SUT.with(|s| s.replace(0)));
    f()
}

/// Bookkeeping that outlives a run is not taken from the simulated heap.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct Back(bool);
    impl Drop for Back { fn drop(&mut self) { SIM.with(|s| s.set(self.0)); } }
    let _b = Back(SIM.with(|s| s.replace(false)));
    harness(f)
}

/// An injected failure of something the caller of toppo supplies.
pub struct Injected(pub &'static str);
/// Ends a run whose violation is already recorded.
pub struct Stop;

#[derive(Clone, Debug, PartialEq)]
pub enum Caught { Injected(&'static str), Panic { msg: String, loc: String } }
impl Caught {
    pub fn is_injected(&self) -> bool { matches!(self, Caught::Injected(_)) }
    pub fn text(&self) -> String { match self { Caught::Injected(k) => format!("injected {k}"), Caught::Panic { msg, loc } => format!("panic '{msg}' at {loc}") } }
}

/// Call the code under test.
pub fn sut<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    g().c.calls += 1;
    let old = SUT.with(|s| { let o = s.get(); s.set(o + 1); o });
    let r = catch_unwind(AssertUnwindSafe(f));
    SUT.with(|s| s.set(old));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if let Some(i) = p.downcast_ref::<Injected>() { return Err(Caught::Injected(i.0)); }
            if p.is::<Stop>() { resume_unwind(p); }
            let (msg, loc) = last_panic();
            let r = Err(Caught::Panic { msg, loc });
            SUT.with(|s| s.set(1)); drop(p); SUT.with(|s| s.set(old));
            r
        }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        quiet(|| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
            let loc = info.location().map(|l| {
                // keep only the part of the path that is the same in every checkout
                let f = l.file(); let f = f.find("/library/").map(|i| &f[i + 1..]).unwrap_or(f.strip_prefix("/repo/").unwrap_or(f));
                format!("{}:{}", f, l.line())
            }).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = (msg, loc));
        })
    }));
}

/// what the last panic of this thread said, and where
pub fn last_panic() -> (String, String) { LAST_PANIC.with(|p| p.borrow().clone()) }
pub fn inject(kind: &'static str) -> ! {
    fired(kind);
    let b = harness(|| Box::new(Injected(kind)));
    resume_unwind(b)
}
pub fn fired(kind: &'static str) { quiet(|| *g().fired.entry(kind).or_insert(0) += 1) }
pub fn probe(kind: &'static str) { quiet(|| *g().probes.entry(kind).or_insert(0) += 1) }

/// Record the first violation of the run.
pub fn violate(class: &str, detail: impl Into<String>) {
    let d: String = detail.into();
    quiet(|| {
        let d = d.clone();
        log(&format!("VIOLATION {class}"), 0);
        if let Some(t) = g().trace.as_mut() { t.push(format!("  {d}")); }
        if g().violation.is_none() { g().violation = Some((class.to_string(), d)); }
    })
}
/// Record a violation and end the run (not from inside code under test).
pub fn fail(class: &str, detail: impl Into<String>) -> ! {
    violate(class, detail);
    resume_unwind(Box::new(Stop))
}
#[macro_export]
macro_rules! require { ($c:expr, $class:expr, $($f:tt)+) => { if !($c) { $crate::fail($class, format!($($f)+)) } } }

/// Append to the event log (digest always, text when tracing). Never draws random numbers, never changes the run.
pub fn log(what: &str, v: u64) {
    let gl = g();
    let mut h = gl.digest ^ v.wrapping_mul(0x9e3779b97f4a7c15);
    for b in what.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    gl.digest = mix(h);
    if gl.trace.is_some() { quiet(|| g().trace.as_mut().unwrap().push(format!("{what} {v:#x}"))); }
}
pub fn log_str(what: &str, s: &str) {
    let t = g().trace.take();
    log(what, crate::rng::hash_str(s));
    g().trace = t;
    if g().trace.is_some() { quiet(|| g().trace.as_mut().unwrap().push(format!("{what} {s}"))); }
}

/// An operation of a caller-supplied element type; may be told to fail.
#[inline(never)]
pub fn elem_op(kind: &'static str) {
    if !in_sut() { return; }
    let gl = g();
    gl.c.elem_ops += 1;
    crate::sched::point();
    if gl.elem_fault != 0 && gl.c.elem_ops == gl.elem_fault && !std::thread::panicking() { inject(kind) }
}
/// A call of a caller-supplied function; may be told to fail.
pub fn callback(kind: &'static str) {
    let gl = g();
    gl.c.callbacks += 1;
    if gl.callback_fault != 0 && gl.c.callbacks == gl.callback_fault && !std::thread::panicking() { inject(kind) }
}

/// Start operation `i` of the plan: arm the faults aimed at it. Call `end_op` after it.
pub fn begin_op(plan: &crate::Plan, i: usize) {
    let gl = g();
    let c = gl.c.clone();
    for f in &plan.faults {
        if f.at != i as i64 { continue; }
        let k = f.arg.max(1) as u64;
        match f.kind.as_str() {
            "elem" => gl.elem_fault = c.elem_ops + k,
            "callback" => gl.callback_fault = c.callbacks + k,
            "alloc" => { let a = crate::alloc::arena(); a.fail_at = c.allocs + k; a.fail_from = false; }
            "alloc-from" => { let a = crate::alloc::arena(); a.fail_at = c.allocs + k; a.fail_from = true; }
            _ => {}
        }
    }
    quiet(|| { while g().op_counts.len() <= i { g().op_counts.push(Counters::default()) } g().op_counts[i] = c.clone(); });
}
pub fn end_op(i: usize) {
    let gl = g();
    gl.elem_fault = 0; gl.callback_fault = 0;
    let a = crate::alloc::arena(); a.fail_at = 0; a.fail_from = false;
    let n = gl.c.clone();
    if let Some(o) = gl.op_counts.get_mut(i) {
        *o = Counters { steps: n.steps - o.steps, allocs: n.allocs - o.allocs, elem_ops: n.elem_ops - o.elem_ops, draws: n.draws - o.draws, yields: n.yields - o.yields, calls: n.calls - o.calls, callbacks: n.callbacks - o.callbacks };
    }
}
/// Is a fault of this kind aimed at operation `i`?  Gives its argument.
pub fn fault_at(plan: &crate::Plan, i: usize, kind: &str) -> Option<i64> { plan.faults.iter().find(|f| f.at == i as i64 && f.kind == kind).map(|f| f.arg) }

#[no_mangle]
pub extern "C-unwind" fn toppo_sim_rand_word() -> u64 {
    let w = word();
    if g().words.is_some() { quiet(|| g().words.as_mut().unwrap().push(w)); }
    w
}
fn word() -> u64 {
    let gl = g();
    gl.c.draws += 1;
    crate::sched::point();
    let t = TID.with(|t| t.get()) % 16;
    gl.draws_by[t] += 1;
    let n = gl.draws_by[t] - gl.base_by[t];
    if gl.c.draws > 4_000_000 { crate::hooks::die(crate::hooks::DIE_DRAWS) }
    let fair = mix(gl.rand_seed ^ (t as u64) << 40 ^ n.wrapping_mul(0xd1342543de82ef95));
    let odd = n <= gl.rand_arg; // the adversarial stretch of the stream
    match gl.rand_mode {
        1 if odd => { rf("rand-zero"); 0 }
        2 if odd => { rf("rand-ones"); u64::MAX }
        3 if odd => { rf("rand-alternating"); if n % 2 == 0 { 0 } else { u64::MAX } }
        4 if odd => { rf("rand-repeating"); mix(gl.rand_seed ^ (n % 3)) }
        5 if odd => { rf("rand-tiny"); mix(gl.rand_seed ^ n) >> 50 << 11 }
        6 if odd => { rf("rand-constant"); mix(gl.rand_seed) }
        7 if odd => { rf("rand-half"); 1u64 << 63 }
        8 if odd => { rf("rand-mixed"); match fair % 4 { 0 => 0, 1 => u64::MAX, 2 => 1 << 63, _ => mix(fair) } }
        9 if odd => { rf("rand-uneven"); fair >> (mix(gl.rand_seed ^ n) % 53) & !0x7ff }
        10 if odd => { rf("rand-leading"); if mix(gl.rand_seed ^ n) % 3 == 0 { fair } else { fair >> (20 + mix(gl.rand_seed ^ n) % 33) & !0x7ff } }
        _ => fair,
    }
}
/// The random source starts again from its first word; the words it delivers from now on are kept.
pub fn rewind_stream() { let gl = g(); let t = TID.with(|t| t.get()) % 16; gl.base_by[t] = gl.draws_by[t]; quiet(|| g().words = Some(vec![])); }
pub fn words() -> Vec<u64> { g().words.clone().unwrap_or_default() }
fn rf(k: &'static str) { fired(k) }
