//! The baton: simulated threads are real threads of which exactly one runs. A run's plan says at which yield
//! points the baton moves and to whom.
use crate::ctx::{g, harness, log, quiet, SIM, SUT, TID};
use std::sync::{Condvar, Mutex};

#[derive(Clone, Copy, PartialEq)]
enum St { Run, Blocked(usize), Done }
/// the baton is with the thread that started the others
const MAIN: usize = usize::MAX - 1;
struct State { on: bool, cur: usize, st: Vec<St>, switches: Vec<(u64, usize)>, next: usize }
static S: Mutex<State> = Mutex::new(State { on: false, cur: 0, st: Vec::new(), switches: Vec::new(), next: 0 });
static CV: Condvar = Condvar::new();
static mut ON: bool = false;
static mut NEXT_AT: u64 = u64::MAX;
pub static mut SWITCHED: u64 = 0;
pub static mut BLOCKS: u64 = 0;

#[inline] pub fn active() -> bool { unsafe { ON } }

/// A yield point of code under test. (Not inlined: the copy in an instrumented crate would yield again on its way to
/// the scheduler.)
#[inline(never)]
pub fn point() {
    if !active() || SUT.with(|s| s.get()) == 0 { return; }
    let gl = g();
    gl.c.yields += 1;
    if gl.c.yields >= unsafe { NEXT_AT } { harness(planned_switch) }
}
/// how many more arrivals at each site move the baton
static mut SITES: [u8; crate::hooks::MAX_EDGES] = [0; crate::hooks::MAX_EDGES];
pub fn set_sites(v: &[(usize, u8)]) { unsafe { for &(e, n) in v { SITES[e] = n; } } }
#[inline] pub fn site(e: usize) {
    unsafe { if SITES[e] != 0 { SITES[e] -= 1; let k = crate::rng::mix(e as u64 ^ (SITES[e] as u64) << 32) as usize; harness(|| move_baton(k)) } }
}
/// atomic operations of code under test so far, and those (numbers, from 0) before which the baton moves
pub static mut ATOMICS: u64 = 0;
static mut AT_ATOMICS: Vec<u64> = Vec::new();
pub fn set_atomics(mut v: Vec<u64>) { quiet(|| { v.sort_by(|a, b| b.cmp(a)); unsafe { ATOMICS = 0; AT_ATOMICS = v; } }) }
#[inline(never)]
#[allow(static_mut_refs)]
pub fn atomic_point(_p: usize) {
    if SUT.with(|s| s.get()) == 0 { return; }
    unsafe {
        let k = ATOMICS; ATOMICS += 1;
        if !ON { return; }
        let mut now = false;
        while AT_ATOMICS.last().map_or(false, |&x| x <= k) { now |= AT_ATOMICS.pop() == Some(k); }
        if now { harness(|| move_baton(crate::rng::mix(k) as usize)) }
    }
    point()
}
fn arm(s: &State) { unsafe { NEXT_AT = s.switches.get(s.next).map(|x| x.0).unwrap_or(u64::MAX); } }
fn planned_switch() {
    quiet(|| {
        let mut s = S.lock().unwrap();
        let to = s.switches[s.next].1;
        s.next += 1;
        arm(&s);
        drop(s);
        move_baton(to)
    })
}
fn move_baton(to: usize) {
    quiet(|| {
        let me = TID.with(|t| t.get());
        let mut s = S.lock().unwrap();
        let runnable: Vec<usize> = (0..s.st.len()).filter(|&i| i != me && s.st[i] == St::Run).collect();
        if runnable.is_empty() { return; }
        let to = runnable[to % runnable.len()];
        log("switch", g().c.yields << 8 | (me as u64) << 4 | to as u64);
        unsafe { SWITCHED += 1; }
        s.cur = to;
        CV.notify_all();
        while s.cur != me { s = CV.wait(s).unwrap(); }
    })
}
fn successor(s: &State, me: usize) -> Option<usize> { let n = s.st.len(); (1..=n).map(|d| (me + d) % n).find(|&i| s.st[i] == St::Run) }
pub fn block_on(addr: usize) {
    harness(|| quiet(|| {
        let me = TID.with(|t| t.get());
        let mut s = S.lock().unwrap();
        s.st[me] = St::Blocked(addr);
        unsafe { BLOCKS += 1; }
        match successor(&s, me) { Some(to) => { s.cur = to; CV.notify_all(); } None => crate::hooks::die(crate::hooks::DIE_DEADLOCK) }
        while s.cur != me { s = CV.wait(s).unwrap(); }
    }))
}
pub fn wake(addr: usize, max: i64) -> i64 {
    harness(|| quiet(|| {
        let mut s = S.lock().unwrap();
        let mut n = 0;
        for i in 0..s.st.len() { if n < max && s.st[i] == St::Blocked(addr) { s.st[i] = St::Run; n += 1; } }
        n
    }))
}
/// Run the bodies as simulated threads; `switches` = (yield number, choice).
pub fn run_threads(bodies: Vec<Box<dyn FnOnce() + Send + '_>>, switches: Vec<(u64, usize)>) {
    let n = bodies.len();
    let was = SIM.with(|s| s.replace(false));
    let base = g().c.yields;
    {
        let mut s = S.lock().unwrap();
        *s = State { on: true, cur: usize::MAX, st: vec![St::Run; n], switches: switches.iter().map(|x| (base + x.0, x.1)).collect(), next: 0 };
        arm(&s);
        unsafe { ON = true; }
    }
    std::thread::scope(|sc| {
        let mut handles: Vec<_> = bodies.into_iter().enumerate().map(|(i, b)| {
            Some(std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(sc, move || {
                TID.with(|t| t.set(i));
                { let mut s = S.lock().unwrap(); while s.cur != i { s = CV.wait(s).unwrap(); } }
                SIM.with(|s| s.set(true));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                SIM.with(|s| s.set(false));
                SUT.with(|s| s.set(0));
                if let Err(p) = r {
                    if !p.is::<crate::ctx::Stop>() { crate::ctx::violate("unexpected-panic", format!("{:?}", crate::ctx::last_panic())); }
                    std::mem::forget(p);
                }
                let mut s = S.lock().unwrap();
                s.st[i] = St::Done;
                s.cur = MAIN;
                CV.notify_all();
            }).unwrap())
        }).collect();
        // nobody starts before this thread has nothing left to do but wait, and a thread that ends is gone, with
        // everything it kept, before another goes on
        let mut s = S.lock().unwrap();
        let mut last = n.max(1) - 1;
        while n > 0 {
            match successor(&s, last) {
                Some(to) => { s.cur = to; CV.notify_all(); }
                None => { if s.st.iter().any(|x| matches!(x, St::Blocked(_))) { crate::hooks::die(crate::hooks::DIE_DEADLOCK) } break }
            }
            while s.cur != MAIN { s = CV.wait(s).unwrap(); }
            drop(s);
            for i in 0..n { if handles[i].is_some() && S.lock().unwrap().st[i] == St::Done { let _ = handles[i].take().unwrap().join(); last = i; } }
            s = S.lock().unwrap();
        }
    });
    unsafe { ON = false; NEXT_AT = u64::MAX; }
    S.lock().unwrap().on = false;
    SIM.with(|s| s.set(was));
}

pub fn poisoned() -> bool { S.is_poisoned() || S.try_lock().is_err() }
