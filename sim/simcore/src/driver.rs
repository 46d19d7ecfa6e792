//! Campaigns: seeds to plans, plans to executions (in child processes), violations to minimised replay files.
use crate::alloc;
use crate::ctx::*;
use crate::hooks;
use crate::plan::Plan;
use crate::rng::{hash_str, mix, Rng};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::Instant;

pub trait Scenario: Sync + Send {
    fn prop(&self) -> &'static str;
    /// number of seeds of a quick / thorough check
    fn seeds(&self, thorough: bool) -> u64;
    fn chunk(&self) -> u64 { 400 }
    fn generate(&self, rng: &mut Rng, plan: &mut Plan, thorough: bool);
    /// fault-injecting variants of a plan, placed with what the fault-free execution did
    fn variants(&self, _rng: &mut Rng, _plan: &Plan, _out: &Outcome, _thorough: bool) -> Vec<Plan> { vec![] }
    fn run(&self, plan: &Plan);
    fn rule(&self) -> &'static str;
    fn real(&self) -> &'static str;
    fn stub(&self) -> &'static str;
    fn fault_kinds(&self) -> &'static [&'static str] { &[] }
}

#[derive(Clone, Default)]
pub struct Outcome {
    pub violation: Option<(String, String)>,
    pub digest: u64,
    pub c: Counters,
    pub op_counts: Vec<Counters>,
    pub trace: Vec<String>,
    pub live_left: i64,
}

/// Configuration of the simulated environment, drawn for every run.
pub fn draw_env(rng: &mut Rng, plan: &mut Plan) {
    plan.set("fill", rng.range(0, 7));
    plan.set("fillseed", rng.below(1 << 40) as i64);
    plan.set("reuse", rng.range(0, 3));
    plan.set("place", rng.below(4096) as i64);
    plan.set("clock", 1_700_000_000_000_000_000 + rng.below(1 << 58) as i64);
    plan.set("hash", rng.below(1 << 40) as i64);
    plan.set("randseed", rng.below(1 << 40) as i64);
}

/// Give the process up when a run burns this much processor time without reaching the step limit.
/// real time, for a child that waits for what never comes
pub fn wall_limit(seconds: i64) { let t = [0, 0, seconds, 0]; unsafe { setitimer(0, &t, std::ptr::null_mut()); } }
pub fn cpu_limit(seconds: i64) { let t = [0, 0, seconds, 0]; unsafe { setitimer(2, &t, std::ptr::null_mut()); } }

fn execute_once(s: &dyn Scenario, plan: &Plan, trace: bool) -> Outcome {
    cpu_limit(12);
    {
        let gl = g();
        let old_fired = std::mem::take(&mut gl.fired);
        let old_probes = std::mem::take(&mut gl.probes);
        *gl = Global { fired: old_fired, probes: old_probes, ..Default::default() };
        gl.step_limit = 60_000_000;
        if trace { gl.trace = Some(vec![]); }
        gl.rand_mode = plan.cfg("randmode");
        gl.rand_arg = plan.cfg("randlen") as u64;
        gl.rand_seed = plan.cfg("randseed") as u64;
        gl.clock = plan.cfg("clock"); gl.clock_mode = plan.cfg("clock").rem_euclid(4);
        gl.hash_seed = plan.cfg("hash") as u64;
        gl.stdout_mode = plan.cfg("stdout");
        alloc::begin_run(plan.cfg("fill"), plan.cfg("fillseed") as u64, plan.cfg("reuse"), plan.cfg("place"));
        unsafe { hooks::LAST_ERR[0] = 0; }
    }
    let live0 = alloc::arena().live;
    std::thread::scope(|sc| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || {
            SIM.with(|x| x.set(true));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.run(plan)));
            SUT.with(|x| x.set(0));
            if let Err(p) = r {
                if !p.is::<Stop>() {
                    let (m, l) = last_panic();
                    violate("unexpected-panic", format!("the scenario could not go on: '{m}' at {l}"));
                }
                drop(p);
            }
            SIM.with(|x| x.set(false));
        }).unwrap().join().unwrap() // joined, not left to the scope: glibc's pthread_detach races with the end of the thread
    });
    let a = alloc::arena();
    if let Some((w, x, y)) = a.viol { violate(w, format!("heap check failed: {w} ({x}, {y})")); }
    let gl = g();
    Outcome { violation: gl.violation.take(), digest: gl.digest, c: gl.c.clone(), op_counts: std::mem::take(&mut gl.op_counts), trace: gl.trace.take().unwrap_or_default(), live_left: a.live - live0 }
}
pub fn execute(s: &dyn Scenario, plan: &Plan, trace: bool) -> Outcome {
    let o = execute_once(s, plan, trace);
    if o.violation.is_none() && o.live_left > 0 && plan.cfg("leakcheck") != 0 {
        // a lazily built static is not a leak: only what every repetition leaves behind is
        let o2 = execute_once(s, plan, false);
        if o2.violation.is_none() && o2.live_left > 0 {
            let mut o = o;
            o.violation = Some(("storage-leak".into(), format!("{} blocks still allocated after everything was dropped, {} more after doing it again", o.live_left, o2.live_left)));
            return o;
        }
    }
    o
}

fn plan_for(s: &dyn Scenario, seed: u64, i: u64, thorough: bool) -> (Plan, Rng) {
    let run_seed = mix(seed ^ hash_str(s.prop())) ^ mix(i.wrapping_add(0x51ab));
    let mut rng = Rng::new(run_seed);
    let mut plan = Plan::new(s.prop(), run_seed);
    draw_env(&mut rng, &mut plan);
    s.generate(&mut rng, &mut plan, thorough);
    (plan, rng)
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn alarm(s: u32) -> u32;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn _exit(c: i32) -> !;
}
fn map_progress(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("progress file");
    let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
    unsafe { hooks::PROGRESS = p as *mut u64; }
}
fn progress(i: u64, sub: u64, status: u64) {
    unsafe { let p = hooks::PROGRESS; if !p.is_null() { *p = i; *p.add(1) = sub; *p.add(2) = status; *(p as *mut u8).add(64) = 0; } }
}

/// child: `worker PROP SEED THOROUGH FROM TO PROGRESS`
fn worker(s: &dyn Scenario, seed: u64, thorough: bool, from: u64, to: u64, digests: bool) {
    let out = std::io::stdout();
    let mut buf = String::new();
    let mut runs = 0u64; let mut fault_runs = 0u64; let mut steps = 0u64; let mut calls = 0u64; let mut mism = 0u64; let mut redone = 0u64;
    let mut tot = Counters::default();
    for i in from..to {
        progress(i, 0, 1);
        let (plan, mut rng) = plan_for(s, seed, i, thorough);
        progress(i, 0, 2);
        let o = execute(s, &plan, false);
        runs += 1; fault_runs += !plan.faults.is_empty() as u64; steps += o.c.steps; calls += o.c.calls; add(&mut tot, &o.c);
        if digests { buf += &format!("R {} 0 {:x}\n", i, o.digest); } else { buf += &format!("d {:x}\n", o.digest); }
        if let Some((c, d)) = &o.violation { buf += &format!("V {} 0 {} {}\n", i, c, d.replace('\n', " | ")); continue; }
        progress(i, 0, 3);
        let vs = s.variants(&mut rng, &plan, &o, thorough);
        for (k, v) in vs.iter().enumerate() {
            progress(i, k as u64 + 1, 2);
            let o = execute(s, v, false);
            runs += 1; fault_runs += !v.faults.is_empty() as u64; steps += o.c.steps; calls += o.c.calls; add(&mut tot, &o.c);
            if digests { buf += &format!("R {} {} {:x}\n", i, k + 1, o.digest); } else { buf += &format!("d {:x}\n", o.digest); }
            if let Some((c, d)) = &o.violation { buf += &format!("V {} {} {} {}\n", i, k + 1, c, d.replace('\n', " | ")); break; }
        }
        if mix(i) % 32 == 0 {
            progress(i, 0, 2);
            let o2 = execute(s, &plan, false);
            redone += 1;
            if o2.digest != o.digest { mism += 1; }
        }
        if mix(i) % 64 == 1 || i == from {
            buf += &format!("S {}\n", plan.render().replace('\n', "\\n"));
        }
    }
    progress(to, 0, 9);
    buf += &format!("N {runs} {fault_runs} {steps} {calls} {} {} {} {} {} {redone} {mism}\n", tot.allocs, tot.elem_ops, tot.draws, tot.yields, tot.callbacks);
    for (k, v) in &g().fired { buf += &format!("F {k} {v}\n"); }
    for (k, v) in &g().probes { buf += &format!("P {k} {v}\n"); }
    buf += &format!("T {} {} {}\n", unsafe { crate::sched::SWITCHED }, unsafe { crate::sched::BLOCKS }, unsafe { hooks::N_EDGES });
    buf += "C ";
    let mut last = 0;
    #[allow(static_mut_refs)]
    for e in 0..hooks::MAX_EDGES { if unsafe { hooks::SHARED.hit[e] } != 0 { buf += &format!("{:x}.", e - last); last = e; } }
    buf += "\nE\n";
    let mut o = out.lock();
    let _ = o.write_all(buf.as_bytes());
    let _ = o.flush();
    unsafe { _exit(0) }
}
fn add(t: &mut Counters, c: &Counters) { t.allocs += c.allocs; t.elem_ops += c.elem_ops; t.draws += c.draws; t.yields += c.yields; t.callbacks += c.callbacks; }

pub fn death(st: &std::process::ExitStatus, last_err: &str) -> (String, String) {
    use std::os::unix::process::ExitStatusExt;
    if let Some(c) = st.code() {
        return match c {
            hooks::DIE_STEPS => ("no-progress".into(), "the run used up its step budget without finishing".into()),
            hooks::DIE_DEADLOCK => ("deadlock".into(), "every thread is blocked".into()),
            hooks::DIE_DRAWS => ("unbounded-draws".into(), "the run kept drawing random words".into()),
            c => (format!("exit-{c}"), format!("the process ended with code {c}; {last_err}")),
        };
    }
    let sig = st.signal().unwrap_or(0);
    let name = match sig { 4 => "SIGILL", 6 => "SIGABRT", 7 => "SIGBUS", 8 => "SIGFPE", 9 => "SIGKILL", 11 => "SIGSEGV", 14 => "SIGALRM", 24 => "SIGXCPU", 27 => "SIGPROF", _ => "signal" };
    if sig == 14 || sig == 24 || sig == 27 { return ("no-progress".into(), format!("the run did not finish ({name})")); }
    if last_err.contains("overflowed its stack") { return ("stack-overflow".into(), "stack overflow".into()); }
    (format!("crash-{name}"), format!("the process died with {name}: {last_err}"))
}

struct Tmp(String);
impl Drop for Tmp { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }
fn tmpfile(tag: &str) -> Tmp {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let p = format!("{}/toppo-sim-{}-{}-{}", std::env::temp_dir().display(), std::process::id(), tag, N.fetch_add(1, Ordering::Relaxed));
    std::fs::write(&p, vec![0u8; 4096]).expect("scratch file");
    Tmp(p)
}
fn read_progress(t: &Tmp) -> (u64, u64, u64, String) {
    let b = std::fs::read(&t.0).unwrap_or(vec![0; 4096]);
    let w = |i: usize| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
    let e: Vec<u8> = b[64..].iter().copied().take_while(|&x| x != 0).collect();
    (w(0), w(1), w(2), String::from_utf8_lossy(&e).replace('\n', " ").trim().to_string())
}

#[derive(Default)]
struct Totals {
    runs: u64, fault_runs: u64, steps: u64, calls: u64, allocs: u64, elem: u64, draws: u64, yields: u64, callbacks: u64, redone: u64, mism: u64,
    fired: BTreeMap<String, u64>, probes: BTreeMap<String, u64>, digests: HashSet<u64>, edges: BTreeSet<usize>, n_edges: u64, switched: u64, blocks: u64,
    violations: BTreeMap<(u64, u64), (String, String, u64)>, // (run, variant) -> class, detail, start of the worker
    samples: Vec<String>, digest_lines: Vec<String>, harness_errors: Vec<String>,
}

fn chunk_run(s: &dyn Scenario, seed: u64, thorough: bool, from: u64, to: u64, digests: bool, t: &Mutex<Totals>) {
    let mut at = from;
    while at < to {
        let pf = tmpfile("w");
        let out = Command::new(std::env::current_exe().unwrap())
            .args(["worker", s.prop(), &seed.to_string(), if thorough { "1" } else { "0" }, &at.to_string(), &to.to_string(), &pf.0, if digests { "1" } else { "0" }])
            .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).output().expect("cannot start a worker");
        let text = String::from_utf8_lossy(&out.stdout);
        let mut tt = t.lock().unwrap();
        let complete = text.ends_with("E\n");
        if out.status.success() && complete {
            merge(&mut tt, &text, at);
            return;
        }
        let (i, sub, status, mut err) = read_progress(&pf);
        if err.is_empty() { err = String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>().replace('\n', " "); }
        if status == 1 || status == 3 || i < at || i >= to {
            tt.harness_errors.push(format!("worker {at}..{to} died outside a run (run {i}, stage {status}): {:?} {err}", out.status));
            return;
        }
        let (c, d) = death(&out.status, &err);
        tt.violations.insert((i, sub), (c, d, at));
        drop(tt);
        // what the dead worker had done before is done again, to be counted
        if i > at { let (a, b) = (at, i); chunk_run(s, seed, thorough, a, b, digests, t); }
        at = i + 1;
        if t.lock().unwrap().violations.len() > 12 { return; }
    }
}
fn merge(tt: &mut Totals, text: &str, start: u64) {
    for l in text.lines() {
        let w: Vec<&str> = l.splitn(5, ' ').collect();
        match w[0] {
            "d" => { tt.digests.insert(u64::from_str_radix(w[1], 16).unwrap_or(0)); }
            "R" => { tt.digests.insert(u64::from_str_radix(w[3], 16).unwrap_or(0)); tt.digest_lines.push(l.to_string()); }
            "V" => { tt.violations.insert((w[1].parse().unwrap(), w[2].parse().unwrap()), (w[3].into(), w.get(4).unwrap_or(&"").to_string(), start)); }
            "S" => if tt.samples.len() < 400 { tt.samples.push(l[2..].to_string()) },
            "N" => {
                let v: Vec<u64> = l[2..].split(' ').map(|x| x.parse().unwrap()).collect();
                tt.runs += v[0]; tt.fault_runs += v[1]; tt.steps += v[2]; tt.calls += v[3]; tt.allocs += v[4]; tt.elem += v[5]; tt.draws += v[6]; tt.yields += v[7]; tt.callbacks += v[8]; tt.redone += v[9]; tt.mism += v[10];
            }
            "F" => *tt.fired.entry(w[1].into()).or_insert(0) += w[2].parse::<u64>().unwrap(),
            "P" => *tt.probes.entry(w[1].into()).or_insert(0) += w[2].parse::<u64>().unwrap(),
            "T" => { tt.switched += w[1].parse::<u64>().unwrap(); tt.blocks += w[2].parse::<u64>().unwrap(); tt.n_edges = w[3].parse().unwrap(); }
            "C" => { let mut e = 0; for x in l[2..].split('.').filter(|x| !x.is_empty()) { e += usize::from_str_radix(x, 16).unwrap_or(0); tt.edges.insert(e); } }
            _ => {}
        }
    }
}

/// Execute a plan file or range file in a fresh process.
fn child_exec(path: &str) -> Option<(String, String)> {
    let pf = tmpfile("x");
    let out = Command::new(std::env::current_exe().unwrap()).args(["exec", path, &pf.0]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).output().expect("cannot start a child");
    let text = String::from_utf8_lossy(&out.stdout);
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("V ") { let (c, d) = r.split_once(' ').unwrap_or((r, "")); return Some((c.into(), d.into())); }
        if l.starts_with("OK") { return None; }
    }
    let (_, _, _, mut err) = read_progress(&pf);
    if err.is_empty() { err = String::from_utf8_lossy(&out.stderr).chars().take(300).collect::<String>().replace('\n', " "); }
    Some(death(&out.status, &err))
}
fn plan_fails(p: &Plan, class: &str) -> bool {
    let t = tmpfile("p");
    std::fs::write(&t.0, p.render()).unwrap();
    child_exec(&t.0).map(|(c, _)| c == class).unwrap_or(false)
}
fn without_ops(p: &Plan, from: usize, n: usize) -> Plan {
    let mut q = p.clone();
    q.ops.drain(from..from + n);
    q.faults.retain(|f| f.kind.starts_with('@') || f.at < from as i64 || f.at >= (from + n) as i64);
    for f in q.faults.iter_mut() { if !f.kind.starts_with('@') && f.at >= (from + n) as i64 { f.at -= n as i64; } }
    q
}
fn minimise(p: &Plan, class: &str) -> (Plan, u32) {
    let mut best = p.clone();
    let mut tries = 0u32;
    let start = Instant::now();
    let mut ok = |q: &Plan, best: &mut Plan, tries: &mut u32| -> bool {
        if *tries > 1500 || start.elapsed().as_secs() > 75 { return false; }
        *tries += 1;
        if q != best && plan_fails(q, class) { *best = q.clone(); true } else { false }
    };
    for _round in 0..4 {
        let before = best.clone();
        // faults
        let mut n = best.faults.len();
        while n >= 1 {
            let mut i = 0;
            while i + n <= best.faults.len() { let mut q = best.clone(); q.faults.drain(i..i + n); if !ok(&q, &mut best, &mut tries) { i += n; } }
            n /= 2;
        }
        // operations
        let mut n = best.ops.len();
        while n >= 1 {
            let mut i = 0;
            while i + n <= best.ops.len() { let q = without_ops(&best, i, n); if !ok(&q, &mut best, &mut tries) { i += n; } }
            n /= 2;
        }
        // arguments
        for i in 0..best.ops.len() {
            for j in 0..best.ops[i].args.len() {
                loop {
                    let v = best.ops[i].args[j];
                    let mut shrunk = false;
                    for c in [0, v / 2, v - v.signum()] { if c.abs() < v.abs() { let mut q = best.clone(); q.ops[i].args[j] = c; if ok(&q, &mut best, &mut tries) { shrunk = true; break; } } }
                    if !shrunk { break; }
                }
            }
        }
        for i in 0..best.faults.len() {
            loop {
                let v = best.faults[i].arg;
                let mut shrunk = false;
                for c in [1, v / 2, v - 1] { if c < v && c >= 0 { let mut q = best.clone(); q.faults[i].arg = c; if ok(&q, &mut best, &mut tries) { shrunk = true; break; } } }
                if !shrunk { break; }
            }
        }
        for (k, v) in best.cfg.clone() { if v != 0 { let mut q = best.clone(); q.set(&k, 0); ok(&q, &mut best, &mut tries); } }
        if best == before { break; }
    }
    (best, tries)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
fn json_map(m: &BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ")) }

struct Known { prop: String, class: String, needle: String, text: String }
fn known(root: &str) -> Vec<Known> {
    // known: property=<id> class=<class> match=<text of the detail without blanks, _ for a blank>: <what fails>
    let t = std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default();
    t.lines().filter_map(|l| {
        let r = l.strip_prefix("known: ")?;
        let (head, text) = r.split_once(": ")?;
        let mut k = Known { prop: "".into(), class: "".into(), needle: "".into(), text: text.into() };
        for w in head.split(' ') { if let Some((a, b)) = w.split_once('=') { match a { "property" => k.prop = b.into(), "class" => k.class = b.into(), "match" => k.needle = b.replace('_', " "), _ => {} } } }
        Some(k)
    }).collect()
}

fn check(s: &dyn Scenario, root: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false) || std::env::args().nth(3).as_deref() == Some("thorough");
    let n = s.seeds(thorough);
    println!("property {} seed {} tier {}: {} seeds", s.prop(), seed, if thorough { "thorough" } else { "quick" }, n);
    let t = Mutex::new(Totals::default());
    campaign(s, seed, thorough, n, false, &t, if thorough { 3000 } else { 420 });
    let tt = t.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    // judge
    let kn = known(root);
    let mut reported = 0; let mut seen: BTreeSet<String> = BTreeSet::new(); let mut attempts: BTreeMap<String, u32> = BTreeMap::new();
    for k in kn.iter().filter(|k| k.prop == s.prop()) { println!("KNOWN-FINDING: property={} {}", k.prop, k.text); }
    for ((i, sub), (class, detail, start)) in &tt.violations {
        if kn.iter().any(|k| k.prop == s.prop() && k.class == *class && detail.contains(&k.needle)) { continue; }
        // one report per class; a violation that cannot be had again from its replay is not reported unless they pile up
        if seen.contains(class) || seen.len() > 3 || *attempts.get(class).unwrap_or(&0) > 3 { continue; }
        *attempts.entry(class.clone()).or_insert(0u32) += 1;
        let dir = format!("{root}/replays"); let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{}-{}.plan", s.prop(), class, i, sub);
        let (base, mut rng) = plan_for(s, seed, *i, thorough);
        let mut plan = Some(base.clone());
        if *sub > 0 {
            // the fault-free execution is needed to place the faults: done in a child
            let t = tmpfile("v");
            std::fs::write(&t.0, base.render()).unwrap();
            plan = None;
            let out = Command::new(std::env::current_exe().unwrap()).args(["variant", s.prop(), &seed.to_string(), if thorough { "1" } else { "0" }, &i.to_string(), &sub.to_string()]).output();
            if let Ok(o) = out { plan = Plan::parse(&String::from_utf8_lossy(&o.stdout)).ok(); }
        }
        let _ = &mut rng;
        let mut how = String::new();
        if let Some(p) = plan.filter(|p| plan_fails(p, class)) {
            let (mut m, tries) = minimise(&p, class);
            m.expect = class.clone();
            m.note = vec![format!("found by VERIF_SEED={seed} run {i}.{sub}; minimised from {} to {} operations in {tries} executions", p.ops.len(), m.ops.len()), detail.clone()];
            std::fs::write(&path, m.render()).unwrap();
            if let Some((_, d)) = child_exec(&path) { how = d; }
        } else {
            // the run fails only after the runs before it in the same process: replay that history, as short as possible
            let mut lo = *start;
            let render = |from: u64| format!("toppo-sim-range 1\nprop {}\nseed {}\nthorough {}\nfrom {}\nto {}\nsub {}\nexpect {}\n", s.prop(), seed, thorough as u8, from, i, sub, class);
            let fails = |from: u64| { let t = tmpfile("r"); std::fs::write(&t.0, render(from)).unwrap(); child_exec(&t.0).is_some() };
            if !(0..3).any(|_| fails(lo)) && attempts[class] < 3 {
                println!("NOT-REPRODUCED {class} in run {i}.{sub} ({detail}): not counted");
                continue;
            }
            let mut step = (*i - lo) / 2;
            while step >= 1 { if lo + step <= *i && fails(lo + step) { lo += step; } else { step /= 2; } }
            std::fs::write(&path, render(lo)).unwrap();
        }
        reported += 1; seen.insert(class.clone());
        println!("  class {class}: {detail}");
        if !how.is_empty() && how != *detail { println!("  minimised: {how}"); }
        println!("VIOLATION property={} replay={}", s.prop(), path);
    }
    for e in &tt.harness_errors { println!("HARNESS-ERROR {e}"); }
    // evidence
    let mut samples: Vec<&String> = tt.samples.iter().collect();
    samples.sort(); samples.dedup();
    let pickn = 4.min(samples.len());
    let picked: Vec<String> = (0..pickn).map(|k| samples[k * samples.len() / pickn.max(1)]).map(|x| json_str(&x.replace("\\n", "\n"))).collect();
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    let mut zero: Vec<String> = vec![];
    for k in s.fault_kinds() { if !tt.fired.contains_key(*k) { zero.push(json_str(k)); } }
    let js = format!("{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"seeds\": {},\n  \"fault_injecting_runs\": {},\n  \"runs_per_hour\": {:.0},\n  \"seeds_per_hour\": {:.0},\n  \"simulated_time_steps\": {},\n  \"simulated_time_note\": \"the code has no clock; simulated time is counted in scheduler steps (control-flow edges of the code under test)\",\n  \"calls_into_toppo\": {},\n  \"allocations\": {},\n  \"element_operations\": {},\n  \"random_words\": {},\n  \"yield_points\": {},\n  \"callback_calls\": {},\n  \"context_switches\": {},\n  \"blocking_waits\": {},\n  \"faults_fired\": {},\n  \"fault_kinds_never_fired\": [{}],\n  \"probes\": {},\n  \"code_edges_reached\": {},\n  \"code_edges_total\": {},\n  \"runs_repeated_for_determinism\": {},\n  \"repeated_runs_that_differed\": {},\n  \"real_components\": {},\n  \"stubbed_components\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"one simulated thread runs at a time; preemption happens at control-flow edges, allocations, element operations and random draws\", \"x86-64 Linux, the pinned toolchain, debug assertions and overflow checks on, as in the repository's tests\"],\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
        s.prop(), if thorough { "thorough" } else { "quick" }, seed, tt.runs, tt.digests.len(), json_str(s.rule()), n, tt.fault_runs,
        tt.runs as f64 / wall * 3600.0, n as f64 / wall * 3600.0, tt.steps, tt.calls, tt.allocs, tt.elem, tt.draws, tt.yields, tt.callbacks, tt.switched, tt.blocks,
        json_map(&tt.fired), zero.join(", "), json_map(&tt.probes), tt.edges.len(), tt.n_edges, tt.redone, tt.mism, json_str(s.real()), json_str(s.stub()), picked.join(", "), wall, reported);
    std::fs::write(format!("{root}/evidence/{}.json", s.prop()), js).expect("evidence");
    if let Ok(p) = std::env::var("TOPPO_SIM_EDGES") { hooks::dump_edges(&format!("{p}.{}", s.prop()), &tt.edges) }
    println!("{}: {} runs ({} with faults), {} distinct, {} steps, {} of {} edges, {:.1} s; faults {:?}; probes {:?}", s.prop(), tt.runs, tt.fault_runs, tt.digests.len(), tt.steps, tt.edges.len(), tt.n_edges, wall, tt.fired, tt.probes);
    if tt.mism > 0 { println!("note: {} of {} repeated runs differed", tt.mism, tt.redone); }
    if !zero.is_empty() { println!("note: fault kinds that never fired: {}", zero.join(", ")); }
    if reported > 0 { 1 } else if !tt.harness_errors.is_empty() { 2 } else { 0 }
}
fn campaign(s: &dyn Scenario, seed: u64, thorough: bool, n: u64, digests: bool, t: &Mutex<Totals>, cap_s: u64) {
    let next = Mutex::new(0u64);
    let t0 = Instant::now();
    let jobs: usize = std::env::var("TOPPO_SIM_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    std::thread::scope(|sc| { let hs: Vec<_> = (0..jobs).map(|_| {
        sc.spawn(|| loop {
            let from = { let mut x = next.lock().unwrap(); let f = *x; *x += s.chunk(); f };
            if from >= n { return; }
            if t0.elapsed().as_secs() > cap_s || t.lock().unwrap().violations.len() > 12 { return; }
            chunk_run(s, seed, thorough, from, (from + s.chunk()).min(n), digests, t);
        })
    }).collect(); for h in hs { h.join().unwrap(); } });
}

pub fn main(scenarios: Vec<Box<dyn Scenario>>) {
    unsafe { std::env::set_var("RUST_BACKTRACE", "0"); }
    hooks::map_shared();
    install_panic_hook();
    // let std allocate what it keeps for ever before any run
    { let o = std::io::stdout(); let mut o = o.lock(); let _ = o.write_all(b""); let _ = o.flush(); eprint!(""); }
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("TOPPO_SIM_ROOT").unwrap_or("/verif".into());
    let find = |p: &str| -> &dyn Scenario { scenarios.iter().find(|s| s.prop() == p).unwrap_or_else(|| { eprintln!("unknown property {p}"); std::process::exit(2) }).as_ref() };
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "list" => for s in &scenarios { println!("{}", s.prop()) },
        "check" => std::process::exit(check(find(arg(2)), &root)),
        "worker" => {
            let s = find(arg(2));
            map_progress(arg(7));
            unsafe { alarm(400); }
            worker(s, arg(3).parse().unwrap(), arg(4) == "1", arg(5).parse().unwrap(), arg(6).parse().unwrap(), arg(8) == "1");
        }
        "plan" => {
            // plan PROP SEED RUN: the fault-free plan of a run
            let s = find(arg(2));
            let (p, _) = plan_for(s, arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5) == "1");
            print!("{}", p.render());
        }
        "variant" => {
            let s = find(arg(2));
            let th = arg(4) == "1";
            let (p, mut rng) = plan_for(s, arg(3).parse().unwrap(), arg(5).parse().unwrap(), th);
            let o = execute(s, &p, false);
            let v = s.variants(&mut rng, &p, &o, th);
            if let Some(v) = v.get(arg(6).parse::<usize>().unwrap().wrapping_sub(1)) { print!("{}", v.render()); }
        }
        "exec" | "replay" => {
            let verbose = arg(1) == "replay";
            if !arg(3).is_empty() { map_progress(arg(3)); }
            unsafe { alarm(300); }
            let text = std::fs::read_to_string(arg(2)).unwrap_or_else(|e| { eprintln!("{e}"); std::process::exit(2) });
            if verbose {
                // in a child first: the process may die
                match child_exec(arg(2)) {
                    Some((c, d)) => println!("reproduced: {c}: {d}"),
                    None => println!("not reproduced"),
                }
                if let Ok(p) = Plan::parse(&text) {
                    println!("{}", p.render());
                    let o = execute(find(&p.prop), &p, true);
                    for l in &o.trace { println!("  {l}"); }
                    println!("digest {:x}", o.digest);
                    std::process::exit(match o.violation { Some((c, d)) => { println!("VIOLATION property={} replay={} ({c}: {d})", p.prop, arg(2)); 1 } None => 0 });
                }
                std::process::exit(0);
            }
            let v = if text.starts_with("toppo-sim-range") {
                let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
                let s = find(&get("prop "));
                let (seed, th, from, to, sub): (u64, bool, u64, u64, u64) = (get("seed ").parse().unwrap(), get("thorough ") == "1", get("from ").parse().unwrap(), get("to ").parse().unwrap(), get("sub ").parse().unwrap());
                let mut last = None;
                for i in from..=to {
                    let (p, mut rng) = plan_for(s, seed, i, th);
                    let o = execute(s, &p, false);
                    last = o.violation.clone();
                    if i == to && sub == 0 { break; }
                    if o.violation.is_some() { continue; }
                    for (k, v) in s.variants(&mut rng, &p, &o, th).iter().enumerate() {
                        let o = execute(s, v, false);
                        last = o.violation.clone();
                        if last.is_some() || (i == to && k as u64 + 1 == sub) { break; }
                    }
                    if mix(i) % 32 == 0 && i < to { execute(s, &p, false); }
                }
                last
            } else {
                let p = Plan::parse(&text).unwrap_or_else(|e| { eprintln!("{e}"); std::process::exit(2) });
                execute(find(&p.prop), &p, false).violation
            };
            match v { Some((c, d)) => println!("V {c} {}", d.replace('\n', " | ")), None => println!("OK") }
            let _ = std::io::stdout().flush();
            unsafe { _exit(0) }
        }
        "selftest" => {
            // selftest PROP SEED N: the same seeds in other processes, chunkings and worker counts give the same logs
            let mut bad = 0;
            for s in scenarios.iter().filter(|s| arg(2) == "all" || s.prop() == arg(2)) {
                let n: u64 = arg(4).parse().unwrap_or(200);
                let collect = |jobs: &str| { std::env::set_var("TOPPO_SIM_JOBS", jobs); let t = Mutex::new(Totals::default()); campaign(s.as_ref(), arg(3).parse().unwrap_or(1), false, n, true, &t, 600); let mut v = t.into_inner().unwrap().digest_lines; v.sort(); v };
                let (a, b) = (collect("8"), collect("3"));
                let differ = a.iter().zip(&b).filter(|(x, y)| x != y).count();
                println!("{}: {} executions twice, {} differ", s.prop(), a.len(), differ + a.len().abs_diff(b.len()));
                if a != b { bad = 1; }
            }
            std::process::exit(bad);
        }
        _ => { eprintln!("usage: toppo-sim check PROP | replay FILE | plan PROP SEED RUN | selftest PROP|all SEED N | list"); std::process::exit(2) }
    }
}
