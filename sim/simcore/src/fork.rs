//! A part of a run in a child process that starts as a copy of this one: what it does to the process is gone afterwards,
//! and its death is an observation.
use crate::ctx::*;
use crate::hooks::{self, REPLY};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn _exit(c: i32) -> !;
}
#[derive(Clone, Debug, PartialEq)]
pub enum Fate { Ended(Vec<String>), Died { class: String, detail: String, stderr: String } }
pub struct Forked { pub fate: Fate, pub steps: u64, pub allocs: u64, pub yields: u64, pub atomics: u64, pub switched: u64, pub fired: Vec<(String, u64)> }

/// Runs `f` in a child and returns the strings it gives. Its counters are added to this run's; the first violation
/// it records becomes this run's.
#[allow(static_mut_refs)]
pub fn fork_run(f: impl FnOnce() -> Vec<String>) -> Forked {
    quiet(|| unsafe { hooks::SHARED.err[0] = 0; hooks::SHARED.reply[..16].fill(0); });
    let before = g().c.clone();
    let was = SIM.with(|s| s.replace(false));
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe { hooks::FORKED = true; crate::sched::SWITCHED = 0; crate::sched::BLOCKS = 0; crate::sched::ATOMICS = 0; }
        crate::driver::cpu_limit(12);
        crate::driver::wall_limit(100);
        SIM.with(|s| s.set(true));
        let fired0 = quiet(|| g().fired.clone()); let probes0 = quiet(|| g().probes.clone());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        SIM.with(|s| s.set(false));
        SUT.with(|s| s.set(0));
        let mut out = String::new();
        let gl = g();
        match r {
            Ok(v) => for x in v { out += "R"; out += &x.replace('\\', "\\\\").replace('\n', "\\n"); out += "\n"; },
            Err(p) => { if !p.is::<Stop>() { let (m, l) = last_panic(); violate("unexpected-panic", format!("the child could not go on: '{m}' at {l}")); } }
        }
        if let Some((w, x, y)) = crate::alloc::arena().viol { violate(w, format!("heap check failed: {w} ({x}, {y})")); }
        if let Some((c, d)) = &gl.violation { out += &format!("V{c} {}\n", d.replace('\\', "\\\\").replace('\n', "\\n")); }
        for (k, n) in &gl.fired { let n = n - fired0.get(k).copied().unwrap_or(0); if n > 0 { out += &format!("F{k} {n}\n"); } }
        for (k, n) in &gl.probes { let n = n - probes0.get(k).copied().unwrap_or(0); if n > 0 { out += &format!("P{k} {n}\n"); } }
        let c = &gl.c;
        out += &format!("C{} {} {} {} {} {} {} {:x} {} {} {}\n", c.steps - before.steps, c.allocs - before.allocs, c.elem_ops - before.elem_ops, c.draws - before.draws, c.yields - before.yields, c.calls - before.calls, c.callbacks - before.callbacks, gl.digest, unsafe { crate::sched::SWITCHED }, unsafe { crate::sched::BLOCKS }, unsafe { crate::sched::ATOMICS });
        let b = out.as_bytes();
        unsafe {
            let n = b.len().min(REPLY - 16);
            hooks::SHARED.reply[16..16 + n].copy_from_slice(&b[..n]);
            hooks::SHARED.reply[..8].copy_from_slice(&(n as u64).to_le_bytes());
            _exit(if n < b.len() { 76 } else { 0 })
        }
    }
    SIM.with(|s| s.set(was));
    quiet(|| {
        if pid < 0 { violate("harness", "fork failed"); return Forked { fate: Fate::Ended(vec![]), steps: 0, allocs: 0, yields: 0, atomics: 0, switched: 0, fired: vec![] }; }
        let mut st = 0i32;
        while unsafe { waitpid(pid, &mut st, 0) } != pid {}
        let stderr = unsafe { String::from_utf8_lossy(&hooks::SHARED.err[..hooks::SHARED.err.iter().position(|&b| b == 0).unwrap_or(0)]).to_string() };
        let mut x = Forked { fate: Fate::Ended(vec![]), steps: 0, allocs: 0, yields: 0, atomics: 0, switched: 0, fired: vec![] };
        if st != 0 {
            use std::os::unix::process::ExitStatusExt;
            let (class, detail) = crate::driver::death(&std::process::ExitStatus::from_raw(st), &stderr);
            x.fate = Fate::Died { class, detail, stderr };
            log("child died", st as u64);
            return x;
        }
        let n = unsafe { u64::from_le_bytes(hooks::SHARED.reply[..8].try_into().unwrap()) } as usize;
        let text = unsafe { String::from_utf8_lossy(&hooks::SHARED.reply[16..16 + n]).to_string() };
        let mut got = vec![];
        let back = |s: &str| { let mut o = String::new(); let mut it = s.chars(); while let Some(c) = it.next() { if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some(c) => o.push(c), None => {} } } else { o.push(c) } } o };
        for l in text.lines() {
            let (k, r) = l.split_at(1);
            match k {
                "R" => got.push(back(r)),
                "V" => { let (c, d) = r.split_once(' ').unwrap_or((r, "")); if g().violation.is_none() { violate(c, back(d)); } }
                "F" | "P" => { if let Some((n, v)) = r.split_once(' ') { let v: u64 = v.parse().unwrap_or(0); let name: &'static str = intern(n); *(if k == "F" { &mut g().fired } else { &mut g().probes }).entry(name).or_insert(0) += v; if k == "F" { x.fired.push((n.to_string(), v)); } } }
                "C" => {
                    let v: Vec<&str> = r.split(' ').collect();
                    let n = |i: usize| v[i].parse::<u64>().unwrap_or(0);
                    let c = &mut g().c;
                    c.steps += n(0); c.allocs += n(1); c.elem_ops += n(2); c.draws += n(3); c.yields += n(4); c.calls += n(5); c.callbacks += n(6);
                    x.steps = n(0); x.allocs = n(1); x.yields = n(4);
                    x.switched = n(8); x.atomics = n(10);
                    unsafe { crate::sched::SWITCHED += n(8); crate::sched::BLOCKS += n(9); }
                    log("child", u64::from_str_radix(v[7], 16).unwrap_or(0));
                }
                _ => {}
            }
        }
        x.fate = Fate::Ended(got);
        x
    })
}
fn intern(s: &str) -> &'static str {
    use std::collections::BTreeSet;
    static mut NAMES: BTreeSet<&'static str> = BTreeSet::new();
    #[allow(static_mut_refs)]
    unsafe { if let Some(x) = NAMES.get(s) { return x; } let x: &'static str = Box::leak(s.to_string().into_boxed_str()); NAMES.insert(x); x }
}
