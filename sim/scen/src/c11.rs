//! C11: concurrent callers.
use crate::c03::around;
use crate::catalogue::*;
use simcore::driver::{Outcome, Scenario};
use simcore::fork::*;
use simcore::*;

pub struct C11;
const THREADS: usize = 4;
const SCHEDULES: usize = 8;

/// the threads of the plan (or one of them, the others idle); each result is "thread<tab>number<tab>result"
fn child(plan: &Plan, who: Option<usize>, switches: Vec<(u64, usize)>, sites: Vec<(usize, u8)>, atoms: Vec<u64>, limit: u64) -> Forked {
    fork_run(move || {
        match who { Some(t) => unsafe { hooks::SEEN_AS = 1 << t }, None => { sched::set_sites(&sites); sched::set_atomics(atoms) } }
        g().step_limit = g().c.steps + limit;
        let build = |o: &Op| shared(o.a(0).rem_euclid(1 << 20) as usize, o.a(1), o.a(2).clamp(0, 12) as usize);
        let shares: Vec<&Op> = plan.ops.iter().filter(|o| o.name == "share").collect();
        let shared_: Vec<Look> = shares.iter().map(|o| build(o)).collect();
        // what cannot be shared (a type that is not Sync), every thread has for itself
        let own: Vec<Vec<Option<Look>>> = (0..THREADS).map(|_| shares.iter().zip(&shared_).map(|(o, l)| if l.sync { None } else { Some(build(o)) }).collect()).collect();
        let (sh, own_) = (&shared_, &own);
        let mut outs: Vec<Vec<String>> = (0..THREADS).map(|_| vec![]).collect();
        let bodies: Vec<Box<dyn FnOnce() + Send>> = outs.iter_mut().enumerate().map(|(t, out)| {
            let b: Box<dyn FnOnce() + Send> = Box::new(move || if who.map_or(true, |w| w == t) {
                for op in plan.ops.iter().filter(|o| o.name != "share" && o.m(0, THREADS) == t) {
                    let s = if op.name == "look" { if sh.is_empty() { continue } let i = op.m(1, sh.len()); (own_[t][i].as_ref().unwrap_or(&sh[i]).f)(op.a(2)) } else { perform(&op.name, op.a(1), op.a(2).clamp(0, 300) as usize) };
                    quiet(|| out.push(s));
                }
            });
            b
        }).collect();
        sched::run_threads(bodies, switches);
        quiet(|| { std::mem::forget(shared_); std::mem::forget(own) });
        outs.into_iter().enumerate().flat_map(|(t, v)| v.into_iter().enumerate().map(move |(i, s)| format!("{t}\t{i}\t{s}"))).collect()
    })
}
impl Scenario for C11 {
    fn prop(&self) -> &'static str { "C11" }
    fn seeds(&self, th: bool) -> u64 { if th { 100_000 } else { 8_000 } }
    fn chunk(&self) -> u64 { 100 }
    fn rule(&self) -> &'static str { "one execution = 2 to 4 simulated threads, each with a list of calls from the catalogue and looks at objects they share, run one at a time in fresh processes and then together in a fresh process under 8 drawn schedules (switches before drawn atomic operations, at every arrival at drawn places of the code that one or several of the threads reach, and at drawn edges, allocations, releases, draws and blocking points, scattered or in bursts); the results are compared call by call, bit by bit; distinct = different event log" }
    fn real(&self) -> &'static str { "all of util, alg, topo_spaces, analysis and geom that the catalogue reaches, on real threads of which the scheduler lets one run at a time; std's locks, once cells and thread locals" }
    fn stub(&self) -> &'static str { "the scheduler (baton), futex waits, the allocator, hash keys, clock; random words come in one stream per thread" }
    fn fault_kinds(&self) -> &'static [&'static str] { &["thread-switch", "switch-burst", "switch-at-site"] /* "switch-at-atomic" only fires where the library has an atomic operation: today it has none */ }
    fn generate(&self, r: &mut Rng, plan: &mut Plan, th: bool) {
        let t = r.range(2, THREADS as i64);
        let shares = r.below(4) as i64;
        for _ in 0..shares { plan.op("share", &[r.below(SHARED.len() as u64) as i64, r.below(1 << 40) as i64, r.below(7) as i64]); }
        let kinds: Vec<&str> = (0..1 + r.usize(2)).map(|_| pick(r, |_| true).0).collect();
        if r.chance(1, 2) {
            // every thread calls one thing over and over
            for k in 0..t * r.range(1, 4) {
                if shares > 0 && r.chance(1, 6) { plan.op("look", &[k % t, r.below(shares as u64) as i64, r.below(240) as i64]); continue; }
                let (name, seed, n) = pick(r, |x| x == kinds[k as usize % t as usize % kinds.len()]);
                plan.op(name, &[k % t, seed, n]);
            }
        } else {
            let few = r.chance(1, 2); // the same few computations in every thread
            for _ in 0..r.range(t, if th { 16 } else { 12 }) {
                let who = r.below(t as u64) as i64;
                if shares > 0 && r.chance(2, 5) { plan.op("look", &[who, r.below(shares as u64) as i64, r.below(240) as i64]); }
                else { let (name, seed, n) = pick(r, |x| !few || kinds.contains(&x)); plan.op(name, &[who, seed, n]); }
            }
        }
        for s in 0..SCHEDULES {
            match s % 4 {
                0 => for _ in 0..r.range(1, 8) { plan.fault(&format!("atom{s}"), r.below(1 << 20) as i64, *r.pick(&[0, 0, 1, 7, 63]) + 64 * r.below(4) as i64); },
                1 => for _ in 0..r.range(1, 10) { plan.fault(&format!("site{s}"), r.below(1 << 20) as i64, *r.pick(&[0, 0, 1, 3, 20, 90]) * 2 + r.below(2) as i64); },
                2 => for _ in 0..r.range(1, 12) { plan.fault(&format!("switch{s}"), r.below(1 << 20) as i64, r.below(4) as i64); },
                _ => for _ in 0..r.range(1, 4) { plan.fault(&format!("burst{s}"), r.below(1 << 20) as i64, *r.pick(&[5, 20, 80, 300]) * 8 + r.below(8) as i64); },
            }
        }
    }
    fn variants(&self, _: &mut Rng, _: &Plan, _: &Outcome, _: bool) -> Vec<Plan> { vec![] }
    fn run(&self, plan: &Plan) {
        #[allow(static_mut_refs)] unsafe { hooks::SHARED.seen.fill(0); }
        let mut want = std::collections::BTreeMap::new();
        let (mut yields, mut atomics) = (0, 0);
        for t in 0..THREADS {
            if !plan.ops.iter().any(|o| o.name != "share" && o.m(0, THREADS) == t) { continue; }
            let a = child(plan, Some(t), vec![], vec![], vec![], 8_000_000);
            yields += a.yields; atomics += a.atomics;
            match a.fate {
                Fate::Ended(v) => for l in v { let (k, s) = split(&l); want.insert(k, s); },
                Fate::Died { class, detail, .. } => { if class == "no-progress" || detail.contains("memory allocation of") { probe("unfinished"); return } fail(&class, format!("thread {t}, alone: {detail}")) }
            }
        }
        // the sites the run reaches, and those that more than one thread reaches
        let seen = |least: u32| -> Vec<usize> { quiet(|| (0..hooks::MAX_EDGES).filter(|&e| unsafe { hooks::SHARED.seen[e] }.count_ones() >= least).collect()) };
        let (any, common) = (seen(1), seen(2));
        for s in 0..SCHEDULES {
            let mut sites: Vec<(usize, u8)> = vec![];
            let mut atoms: Vec<u64> = vec![];
            let mut sw: Vec<(u64, usize)> = vec![];
            for f in &plan.faults {
                let at = ((f.at.rem_euclid(1 << 20)) as u64 * yields) >> 20;
                if f.kind == format!("switch{s}") { sw.push((at + 1, f.arg.rem_euclid(4) as usize)); }
                if f.kind == format!("atom{s}") && atomics > 0 {
                    fired("switch-at-atomic");
                    let at = (f.at.rem_euclid(1 << 20) as u64 * atomics) >> 20;
                    let (n, step) = (1 + f.arg.rem_euclid(64) as u64, 1 + (f.arg.rem_euclid(1 << 10) >> 6) as u64);
                    for k in 0..n { atoms.push(at + k * step); }
                }
                if f.kind == format!("site{s}") || f.kind == format!("atom{s}") && atomics == 0 { fired("switch-at-site"); let from = if f.arg & 1 == 1 && !common.is_empty() { &common } else { &any }; if !from.is_empty() { sites.push((from[(f.at.rem_euclid(1 << 20) as usize * from.len()) >> 20], 1 + (f.arg >> 1).rem_euclid(100) as u8)); } }
                if f.kind == format!("burst{s}") { let (n, step) = (f.arg.rem_euclid(1 << 13) as u64 / 8, 1 + f.arg.rem_euclid(8) as u64); for k in 0..n { sw.push((at + 1 + k * step, (rng::mix(k ^ at) % 4) as usize)); } fired("switch-burst"); }
            }
            if sw.is_empty() && sites.is_empty() && atoms.is_empty() { continue; }
            log("atomics", atomics);
            sw.sort(); sw.dedup_by_key(|x| x.0);
            let b = child(plan, None, sw, sites, atoms, 59_000_000);
            match b.fate {
                Fate::Ended(v) => {
                    require!(v.len() == want.len(), "different-result", "{} calls instead of {}", v.len(), want.len());
                    for l in v {
                        let (k, s) = split(&l);
                        log_str(&k, &s);
                        let w = &want[&k];
                        let x = around(w, &s);
                        require!(s == *w, "different-result", "thread {}, call {} ({}): {} alone, {} beside the others", k.split('\t').next().unwrap(), k.split('\t').nth(1).unwrap(), name(plan, &k), x.0, x.1);
                    }
                }
                Fate::Died { class, detail, .. } => fail(&class, format!("every thread ends well alone; together: {detail}")),
            }
            let n = b.switched;
            log("switches", n);
            quiet(|| *g().fired.entry("thread-switch").or_insert(0) += n);
        }
    }
}
fn split(l: &str) -> (String, String) { let mut it = l.splitn(3, '\t'); let (a, b, c) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or("")); (format!("{a}\t{b}"), c.to_string()) }
fn name(plan: &Plan, k: &str) -> String { let mut it = k.split('\t').map(|x| x.parse::<usize>().unwrap_or(0)); let (t, i) = (it.next().unwrap_or(0), it.next().unwrap_or(0)); plan.ops.iter().filter(|o| o.name != "share" && o.m(0, THREADS) == t).nth(i).map(|o| o.text()).unwrap_or_default() }
