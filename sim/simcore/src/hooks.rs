//! Interposed C symbols and compiler callbacks.
use crate::ctx::{fired, g, harness, SIM, SUT};
use crate::rng::mix;
use std::arch::asm;

pub const MAX_EDGES: usize = 1 << 19;
/// Memory that forked children share with the worker (mapped over at start).
#[repr(C, align(4096))]
pub struct Shared { pub hit: [u8; MAX_EDGES], pub seen: [u8; MAX_EDGES], pub err: [u8; 4096], pub reply: [u8; REPLY] }
pub const REPLY: usize = 4 << 20;
pub static mut SHARED: Shared = Shared { hit: [0; MAX_EDGES], seen: [0; MAX_EDGES], err: [0; 4096], reply: [0; REPLY] };
extern "C" { fn mmap(a: *mut u8, l: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }
pub fn map_shared() {
    unsafe {
        let p = std::ptr::addr_of_mut!(SHARED) as *mut u8;
        let q = mmap(p, std::mem::size_of::<Shared>(), 3, 0x01 | 0x10 | 0x20, -1, 0); // shared, fixed, anonymous
        assert!(p == q, "cannot map the shared page");
    }
}
/// bit to set in `seen` for every site reached (0: none)
pub static mut SEEN_AS: u8 = 0;
pub static mut N_EDGES: u32 = 0;
/// where the worker tells its parent what it is doing (shared memory): [run, sub, status, extra]
pub static mut PROGRESS: *mut u64 = std::ptr::null_mut();

pub const DIE_STEPS: i32 = 77;
pub const DIE_DEADLOCK: i32 = 78;
pub const DIE_DRAWS: i32 = 79;
extern "C" { fn _exit(c: i32) -> !; }
/// A run that does not end: the process is given up, the parent reports the run.
pub fn die(code: i32) -> ! { unsafe { _exit(code) } }

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 { return; }
    let mut p = a;
    while p < b { N_EDGES += 1; *p = N_EDGES; p = p.add(1); }
}
/// (only in builds made for tools/uncovered.sh)
pub static mut PCS: (*const usize, *const usize) = (std::ptr::null(), std::ptr::null());
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(a: *const usize, b: *const usize) { PCS = (a, b); }
/// where in the binary the edges are, for tools/uncovered.sh
pub fn dump_edges(path: &str, hit: &std::collections::BTreeSet<usize>) {
    unsafe {
        extern "C" { static __executable_start: u8; }
        let base = std::ptr::addr_of!(__executable_start) as usize;
        let n = (PCS.1 as usize - PCS.0 as usize) / 16;
        let mut s = String::new();
        for i in 0..n { s += &format!("{:x} {}\n", *PCS.0.add(2 * i) - base, hit.contains(&(i + 1)) as u8); }
        let _ = std::fs::write(path, s);
    }
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(p: *mut u32) {
    if SUT.with(|s| s.get()) == 0 { return; }
    let e = *p as usize;
    if e < MAX_EDGES { SHARED.hit[e] = 1; if SEEN_AS != 0 { SHARED.seen[e] |= SEEN_AS; } }
    let gl = g();
    gl.c.steps += 1;
    if gl.c.steps > gl.step_limit { die(DIE_STEPS) }
    crate::sched::point();
    if crate::sched::active() && e < MAX_EDGES { crate::sched::site(e) }
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
extern "C" { fn __errno_location() -> *mut i32; }
unsafe fn ret(r: i64) -> i64 { if r < 0 && r > -4096 { *__errno_location() = (-r) as i32; -1 } else { r } }

/// std's blocking primitives end here: under the scheduler they become scheduling decisions.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 202 && SUT.with(|s| s.get()) > 0 {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            if *(a as *const i32) != c as i32 { return ret(-11); }
            if crate::sched::active() { crate::sched::block_on(a as usize); return 0; }
            if d != 0 { return ret(-110); } // a timed wait with nobody to wake it
            die(DIE_DEADLOCK);
        }
        if op == 1 || op == 10 { if crate::sched::active() { return crate::sched::wake(a as usize, c as i32 as i64); } return 0; }
    }
    if n == 318 { return getrandom(a as *mut u8, b as usize, c as u32) as i64; }
    ret(raw(n, a, b, c, d, e, f))
}

/// The code under test has no business with the clock; if it looks at one, it sees a simulated one that jumps.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if SUT.with(|s| s.get()) == 0 { return ret(raw(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32; }
    let gl = g();
    harness(|| fired("clock-read"));
    gl.clock += match gl.clock_mode { 0 => 0, 1 => 1_000, 2 => mix(gl.clock as u64) as i64 & 0xffff_ffff, _ => if id == 1 { 1 } else { -3_600_000_000_000 } };
    (*ts)[0] = gl.clock.div_euclid(1_000_000_000); (*ts)[1] = gl.clock.rem_euclid(1_000_000_000);
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let gl = g();
    for i in 0..len {
        if i % 8 == 0 { gl.hash_ctr += 1; }
        *buf.add(i) = (mix(gl.hash_seed ^ gl.hash_ctr.wrapping_mul(0x9e3779b97f4a7c15)) >> (8 * (i % 8))) as u8;
    }
    len as isize
}

unsafe fn out(fd: i32, n: usize) -> Option<isize> {
    if (fd != 1 && fd != 2) || !SIM.with(|s| s.get()) { return None; }
    let gl = g();
    gl.stdout_bytes += n as u64;
    match gl.stdout_mode {
        1 => { harness(|| fired("stdout-closed")); *__errno_location() = 32; Some(-1) }
        2 => { harness(|| fired("stdout-short-write")); Some(if n > 1 { 1 } else { n as isize }) }
        3 => { harness(|| fired("stdout-full")); *__errno_location() = 28; Some(-1) }
        _ => Some(n as isize),
    }
}
/// this process is a forked child of a run
pub static mut FORKED: bool = false;
pub static mut LAST_ERR: [u8; 256] = [0; 256];
#[allow(static_mut_refs)]
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fd == 2 && SIM.with(|s| s.get()) {
        if FORKED { let at = SHARED.err.iter().position(|&b| b == 0).unwrap_or(0); for i in 0..n.min(600) { if at + i < 4000 { SHARED.err[at + i] = *buf.add(i); SHARED.err[at + i + 1] = 0; } } return n as isize; }
        // keep what was said last on stderr (an orderly allocation failure announces itself there)
        let k = n.min(200);
        let used = LAST_ERR.iter().position(|&b| b == 0).unwrap_or(0);
        let at = if used + k < 255 { used } else { 0 };
        for i in 0..k { LAST_ERR[at + i] = *buf.add(i); }
        LAST_ERR[at + k] = 0;
        if !PROGRESS.is_null() { let mut j = 0; while j < 255 { *((PROGRESS as *mut u8).add(64 + j)) = LAST_ERR[j]; j += 1; } }
    }
    if let Some(r) = out(fd, n) { return r; }
    ret(raw(1, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const [usize; 2], n: i32) -> isize {
    if SIM.with(|s| s.get()) && (fd == 1 || fd == 2) {
        let mut t = 0;
        for i in 0..n { let [b, l] = *iov.add(i as usize); let r = write(fd, b as *const u8, l); if r < 0 { return if t > 0 { t } else { r }; } t += r; if (r as usize) < l { break; } }
        return t;
    }
    ret(raw(20, fd as i64, iov as i64, n as i64, 0, 0, 0)) as isize
}
