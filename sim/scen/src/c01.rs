use crate::el::*;
use crate::mats::*;
use simcore::driver::{Outcome, Scenario};
use simcore::*;

pub struct C01;
/// Variants of a plan: the same history with an element operation of one step told to panic.
pub fn elem_fault_variants(rng: &mut Rng, plan: &Plan, out: &Outcome, k: usize) -> Vec<Plan> {
    let cand: Vec<(usize, u64)> = out.op_counts.iter().enumerate().filter(|(_, c)| c.elem_ops > 0).map(|(i, c)| (i, c.elem_ops)).collect();
    if cand.is_empty() { return vec![]; }
    (0..k).map(|_| {
        let mut p = plan.clone();
        for _ in 0..1 + rng.small(2) {
            let (i, n) = *rng.pick(&cand);
            // the first, the last or any of the element operations of that step
            let at = match rng.below(4) { 0 => 1, 1 => n, _ => 1 + rng.below(n) };
            p.fault("elem", i as i64, at as i64);
        }
        p
    }).collect()
}
impl Scenario for C01 {
    fn prop(&self) -> &'static str { "C01" }
    fn seeds(&self, th: bool) -> u64 { if th { 900_000 } else { 60_000 } }
    fn generate(&self, rng: &mut Rng, plan: &mut Plan, th: bool) {
        plan.set("leakcheck", 1);
        let (n, d) = if th { (rng.range(3, 24), rng.range(1, 7)) } else { (rng.range(3, 14), rng.range(1, 5)) };
        plan.set("ty", if rng.chance(7, 8) { 0 } else { rng.range(1, 8) });
        gen_history(rng, plan, n as usize, d, 2, false, 1);
    }
    fn variants(&self, rng: &mut Rng, plan: &Plan, out: &Outcome, th: bool) -> Vec<Plan> { if plan.cfg("ty") != 0 { return vec![]; } elem_fault_variants(rng, plan, out, if th { 8 } else { 4 }) }
    fn run(&self, plan: &Plan) { run_typed(plan) }
    fn rule(&self) -> &'static str { "A case is a seeded history of matrix operations (construction, arithmetic in every ownership form, views, in-place work, random fill, comparison) over an element type with a ledger of live values, run alone and again with one or two element operations told to panic; distinct by the digest of the whole event log (element births, results, interruptions)." }
    fn real(&self) -> &'static str { "alg::lin_alg::Matrix/SubMatrix with all their operators, std containers, unwinding" }
    fn stub(&self) -> &'static str { "element type (modulo-10007 integers with a ledger), heap (simulated placement, contents and re-use, guard checks on release), random source" }
    fn fault_kinds(&self) -> &'static [&'static str] { ELEM_FAULTS }
}
pub fn run_typed(plan: &Plan) {
    match plan.cfg("ty") {
        1 => run_history::<i64>(plan), 2 => run_history::<f64>(plan), 3 => run_history::<alg::commutative::Rational>(plan), 4 => run_history::<i32>(plan),
        5 => run_history::<i128>(plan), 6 => run_history::<isize>(plan), 7 => run_history::<i16>(plan), 8 => run_history::<i8>(plan),
        _ => run_history::<E>(plan),
    }
}
