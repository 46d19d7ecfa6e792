//! C03: the same call gives the same result, whatever the memory, the hash keys, the clock and the history.
use crate::catalogue::*;
use simcore::driver::{Outcome, Scenario};
use simcore::fork::*;
use simcore::*;

pub struct C03;

fn environment(e: &[i64]) { let gl = g(); simcore::alloc::begin_run(e[0], e[1] as u64, e[2], e[3]); gl.hash_seed = e[4] as u64; gl.hash_ctr = 0; gl.clock = e[5]; gl.clock_mode = e[5].rem_euclid(4); }
/// the calls in the given order, in an environment; `None` in the order is a call that is cut short
fn child(plan: &Plan, env: Option<Vec<i64>>, order: Vec<(usize, i64)>, limit: u64) -> Forked {
    fork_run(|| {
        if let Some(e) = &env { environment(e); }
        g().step_limit = g().c.steps + limit;
        let mut out: Vec<String> = vec![];
        let o = &mut out;
        // a thread of its own: hash maps take their keys when a thread first needs them
        sched::run_threads(vec![Box::new(move || for (i, cut) in order {
            let op = &plan.ops[i];
            if cut > 0 { let gl = g(); gl.callback_fault = gl.c.callbacks + cut as u64; gl.elem_fault = gl.c.elem_ops + cut as u64; }
            let s = perform(&op.name, op.a(0), op.a(1).clamp(0, 300) as usize);
            g().callback_fault = 0; g().elem_fault = 0;
            quiet(|| o.push(format!("{}{}", if cut > 0 { "cut " } else { "" }, s)));
        })], vec![]);
        out
    })
}
impl Scenario for C03 {
    fn prop(&self) -> &'static str { "C03" }
    fn seeds(&self, th: bool) -> u64 { if th { 400_000 } else { 20_000 } }
    fn chunk(&self) -> u64 { 100 }
    fn rule(&self) -> &'static str { "one execution = 1 to 10 calls drawn from a catalogue of some 80 computations over all five crates, made in a fresh process in one environment (heap content, placement, re-use, hash keys, clock) and once more in another fresh process in another environment and another order, some of them repeatedly and some cut short by a panicking callback or element in between; the results are compared call by call, bit by bit (panic messages included); distinct = different event log" }
    fn real(&self) -> &'static str { "all of util, alg, topo_spaces, analysis and geom that the catalogue reaches (linear algebra over four coefficient types, spectra, lattices, sparse matrices, permutations, formal sums, complexes and homology, graphs and embeddings, symbolic functions, triangulations, sets, random generators, renderings)" }
    fn stub(&self) -> &'static str { "the allocator, hash keys, clock and random words; each environment is a forked process that nothing has touched before" }
    fn fault_kinds(&self) -> &'static [&'static str] { &["dirty-memory", "reused-memory", "other-placement", "other-hash-keys", "other-clock", "other-history", "cut-short"] }
    fn generate(&self, r: &mut Rng, plan: &mut Plan, th: bool) {
        for k in ["fill2", "reuse2", "place2", "hash2", "clock2", "fillseed2", "order"] { plan.set(k, match k { "fill2" => r.range(0, 7), "reuse2" => r.range(0, 3), "clock2" => -5_000_000_000 + r.below(1 << 50) as i64, _ => r.below(4096) as i64 }); }
        let only = if r.chance(1, 3) { Some(r.pick(NAMES).0) } else { None };
        for _ in 0..r.range(1, if th { 14 } else { 10 }) { let (name, seed, n) = pick(r, |x| only.map_or(true, |o| x == o)); plan.op(name, &[seed, n]); }
        let n_cuts = if r.chance(1, 2) { 0 } else { 1 + r.below(3) };
        let elem: Vec<i64> = (0..plan.ops.len()).filter(|&i| plan.ops[i].name.starts_with("element") || ["sparse", "sparseproduct", "sparsedense", "multi", "jacobian"].contains(&plan.ops[i].name.as_str())).map(|i| i as i64).collect();
        for _ in 0..n_cuts { let i = if elem.is_empty() || r.chance(1, 4) { r.usize(plan.ops.len()) as i64 } else { *r.pick(&elem) }; let k = *r.pick(&[4, 12, 60, 300]); plan.fault("cut", i, 1 + r.below(k) as i64); }
        for _ in 0..r.below(3) { let i = r.usize(plan.ops.len()) as i64; plan.fault("again", i, 0); }
    }
    fn variants(&self, _: &mut Rng, _: &Plan, _: &Outcome, _: bool) -> Vec<Plan> { vec![] }
    fn run(&self, plan: &Plan) {
        let n = plan.ops.len();
        if n == 0 { return; }
        let a = child(plan, None, (0..n).map(|i| (i, 0)).collect(), 8_000_000);
        let want = match a.fate {
            Fate::Ended(v) => v,
            Fate::Died { class, detail, .. } => { if class == "no-progress" || detail.contains("memory allocation of") { probe("unfinished"); return } fail(&class, format!("the calls, alone: {detail}")) }
        };
        let mut order: Vec<(usize, i64)> = (0..n).map(|i| (i, 0)).collect();
        for f in &plan.faults { let i = f.at.rem_euclid(n as i64) as usize; match f.kind.as_str() { "cut" => order.push((i, f.arg.max(1))), "again" => order.push((i, 0)), _ => {} } }
        Rng::new(plan.cfg("order") as u64).shuffle(&mut order);
        let env = vec![plan.cfg("fill2"), plan.cfg("fillseed2"), plan.cfg("reuse2"), plan.cfg("place2"), plan.cfg("hash2"), plan.cfg("clock2")];
        for (k, x, y) in [("dirty-memory", "fill", "fill2"), ("reused-memory", "reuse", "reuse2"), ("other-placement", "place", "place2"), ("other-hash-keys", "hash", "hash2"), ("other-clock", "clock", "clock2")] { if plan.cfg(x) != plan.cfg(y) { fired(k); } }
        if order.len() > 1 { fired("other-history"); }
        let b = child(plan, Some(env), order.clone(), 59_000_000);
        match b.fate {
            Fate::Ended(got) => for ((i, cut), s) in order.iter().zip(&got) {
                let op = &plan.ops[*i];
                log_str("result", s);
                if *cut > 0 { if s.starts_with("cut ! injected") { fired("cut-short"); } continue; }
                require!(*s == want[*i], "different-result", "{}: {} in one environment, {} in another", op.text(), around(&want[*i], s).0, around(&want[*i], s).1);
            },
            Fate::Died { class, detail, .. } => fail(&class, format!("the calls ended well in one environment; in another: {detail}")),
        }
    }
}
/// two texts where they begin to differ
pub fn around(a: &str, b: &str) -> (String, String) {
    let k = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count().saturating_sub(30);
    let f = |s: &str| { let t: String = s.chars().skip(k).take(160).collect(); format!("{}{t:?}", if k > 0 { "…" } else { "" }) };
    (f(a), f(b))
}
