//! The simulated heap. Simulated threads allocate from an arena whose contents, placement and re-use are decided
//! by the run's configuration; blocks carry guards that are checked on release; requests can be refused.
use crate::ctx::{g, in_sut, SIM};
use crate::rng::mix;
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;

const BASE: usize = 0x1000_0000_0000;
const ARENA: usize = 256 << 30; // address space only
const RUN_CAP: usize = 1 << 30; // memory one run may use
const HDR: usize = 64;          // header + front guard
const TAIL: usize = 32;         // back guard
const MAGIC: u64 = 0x70_70_6f_5f_73_69_6d_21;
const ALIVE: u64 = 0xA11A_E11A_E11A_E11A;
const DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;
const GUARD: u8 = 0xB5;

#[repr(C)]
struct Header { magic: u64, state: u64, size: usize, align: usize, start: usize, total: u32, pad: u32, next: usize, front: [u8; 8] }

pub struct Arena {
    ready: bool,
    pub bump: usize,
    run_base: usize,
    pub used: usize,
    free: [usize; 64], // headers of released blocks by total size / 32
    pub fill: i64,
    pub fill_seed: u64,
    pub reuse: i64,
    pub live: i64,
    pub live_bytes: i64,
    pub serial: u64,
    pub viol: Option<(&'static str, usize, usize)>,
    pub fail_at: u64,
    pub fail_from: bool,
    pub failed: u64,
    pub reused: u64,
    pub oom: bool,
}
pub static mut ARENA_STATE: Arena = Arena { ready: false, bump: BASE, run_base: BASE, used: 0, free: [0; 64], fill: 0, fill_seed: 0, reuse: 0, live: 0, live_bytes: 0, serial: 0, viol: None, fail_at: 0, fail_from: false, failed: 0, reused: 0, oom: false };
#[allow(static_mut_refs)]
pub fn arena() -> &'static mut Arena { unsafe { &mut ARENA_STATE } }

extern "C" {
    fn mmap(a: *mut u8, l: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn madvise(a: *mut u8, l: usize, adv: i32) -> i32;
}
pub fn init() {
    let a = arena();
    if a.ready { return; }
    let p = unsafe { mmap(BASE as *mut u8, ARENA, 3, 0x02 | 0x20 | 0x4000 | 0x100000, -1, 0) };
    assert!(p as usize == BASE, "cannot reserve the simulated heap");
    a.ready = true;
}
/// Prepare the heap for a run.
pub fn begin_run(fill: i64, fill_seed: u64, reuse: i64, place: i64) {
    init();
    let a = arena();
    // blocks that outlive a run (statics of the code under test) keep their place
    let base = if a.live == 0 { BASE } else { (a.bump + 4095) & !4095 };
    if a.bump - a.run_base > 64 << 20 && a.live == 0 {
        unsafe { madvise(a.run_base as *mut u8, a.bump - a.run_base, 4); }
    }
    a.run_base = base;
    a.bump = base + (place.rem_euclid(4096) as usize) * 16;
    a.used = 0; a.free = [0; 64]; a.fill = fill; a.fill_seed = fill_seed; a.reuse = reuse; a.serial = 0;
    a.viol = None; a.fail_at = 0; a.fail_from = false; a.failed = 0; a.reused = 0; a.oom = false;
}
fn violate(a: &mut Arena, what: &'static str, x: usize, y: usize) { if a.viol.is_none() { a.viol = Some((what, x, y)); } }

unsafe fn fill(a: &Arena, p: *mut u8, n: usize) {
    match a.fill {
        0 => std::ptr::write_bytes(p, 0, n),
        1 => std::ptr::write_bytes(p, 0xA5, n),
        2 => std::ptr::write_bytes(p, 0xFF, n),
        3 => { let mut s = mix(a.fill_seed ^ a.serial); for i in 0..n { if i % 8 == 0 { s = mix(s); } *p.add(i) = (s >> (8 * (i % 8))) as u8; } }
        4 => for i in 0..n { *p.add(i) = if i % 8 == 0 { 1 } else { 0 } },                    // integer 1
        5 => for i in 0..n { *p.add(i) = match i % 8 { 6 => 0xF0, 7 => 0x3F, _ => 0 } },      // float 1.0
        6 => for i in 0..n { *p.add(i) = match i % 8 { 6 => 0xF8, 7 => 0x7F, _ => 0 } },      // NaN
        _ => {}                                                                              // whatever was there
    }
}
unsafe fn sim_alloc(l: Layout) -> *mut u8 {
    let a = arena();
    let sut = in_sut();
    a.serial += 1;
    if sut {
        let gl = g();
        gl.c.allocs += 1;
        crate::sched::point();
        if a.fail_at != 0 && (gl.c.allocs == a.fail_at || (a.fail_from && gl.c.allocs > a.fail_at)) { a.failed += 1; return std::ptr::null_mut(); }
        if l.size() == 0 { violate(a, "zero-size-allocation", 0, 0); }
    }
    let align = l.align().max(16);
    let total = (HDR + l.size() + TAIL + (align - 16) + 31) & !31;
    let class = total / 32;
    let start = if (a.reuse == 1 || a.reuse == 3) && class < 64 && a.free[class] != 0 {
        let h = a.free[class] as *const Header; a.free[class] = (*h).next; a.reused += 1; (*h).start
    } else {
        let gap = if a.reuse == 2 { (mix(a.fill_seed ^ a.serial.wrapping_mul(77)) % 8) as usize * 16 } else { 0 };
        let s = a.bump + gap;
        if a.used + total > RUN_CAP || s + total > BASE + ARENA { a.oom = true; return std::ptr::null_mut(); }
        a.bump = s + total; a.used += total; s
    };
    let user = (start + HDR + align - 1) & !(align - 1);
    let h = (user - HDR) as *mut Header;
    std::ptr::write(h, Header { magic: MAGIC ^ user as u64, state: ALIVE, size: l.size(), align: l.align(), start, total: total.min(u32::MAX as usize) as u32, pad: 0, next: 0, front: [GUARD; 8] });
    fill(a, user as *mut u8, l.size());
    std::ptr::write_bytes((user + l.size()) as *mut u8, GUARD, TAIL);
    a.live += 1; a.live_bytes += l.size() as i64;
    user as *mut u8
}
unsafe fn sim_dealloc(p: *mut u8, l: Layout) {
    let a = arena();
    let user = p as usize;
    if in_sut() { crate::sched::point(); }
    let h = (user - HDR) as *mut Header;
    if (*h).magic != MAGIC ^ user as u64 { violate(a, "release-of-unallocated-memory", user - BASE, l.size()); return; }
    if (*h).state != ALIVE { violate(a, "double-release", user - BASE, l.size()); return; }
    if (*h).size != l.size() || (*h).align != l.align() { violate(a, "release-with-wrong-size", (*h).size, l.size()); }
    let size = (*h).size;
    if (*h).front != [GUARD; 8] { violate(a, "write-before-allocation", size, 0); }
    for i in 0..TAIL { if *((user + size + i) as *const u8) != GUARD { violate(a, "write-past-allocation", size, i); break; } }
    (*h).state = DEAD;
    let total = (*h).total as usize;
    if a.reuse != 3 { std::ptr::write_bytes(p, 0xDD, size); }
    if (a.reuse == 1 || a.reuse == 3) && total / 32 < 64 && (*h).start >= a.run_base {
        (*h).next = a.free[total / 32];
        a.free[total / 32] = h as usize;
    }
    a.live -= 1; a.live_bytes -= size as i64;
}
#[inline] fn ours(p: *mut u8) -> bool { (p as usize) >= BASE && (p as usize) < BASE + ARENA }

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if SIM.with(|s| s.get()) { sim_alloc(l) } else { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if ours(p) { sim_dealloc(p, l) } else { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ours(p) && !SIM.with(|s| s.get()) { return System.realloc(p, l, n); }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l); }
        q
    }
}
