use crate::c01::*;
use crate::el::*;
use crate::mats::*;
use alg::lin_alg::*;
use simcore::driver::{Outcome, Scenario};
use simcore::*;

pub struct C02;
impl Scenario for C02 {
    fn prop(&self) -> &'static str { "C02" }
    fn seeds(&self, th: bool) -> u64 { if th { 700_000 } else { 50_000 } }
    fn generate(&self, rng: &mut Rng, plan: &mut Plan, th: bool) {
        let (n, d) = if th { (rng.range(3, 30), rng.range(1, 9)) } else { (rng.range(3, 18), rng.range(1, 6)) };
        plan.set("ty", if rng.chance(3, 4) { 0 } else { rng.range(1, 8) });
        let wild = *rng.pick(&[0, 5, 15, 30]);
        gen_history(rng, plan, n as usize, d, wild, true, 3);
        if rng.chance(1, 12) {
            // dimensions around what one word can encode
            for _ in 0..rng.range(1, 2) {
                let around = [32767, 32768, 65534, 65535, 65536, 65537, 65538, 70000, 98304, 131071, 131072, 131073, 200000];
                let (a, b) = (*rng.pick(&around), rng.range(1, 3));
                let (n, m) = if rng.chance(1, 2) { (a, b) } else { (b, a) };
                plan.op("huge", &[n, m, rng.range(0, 3), rng.range(0, 1 << 20), rng.range(0, 1 << 20), rng.range(0, 1)]);
            }
            plan.set("ty", 1);
        }
    }
    fn variants(&self, rng: &mut Rng, plan: &Plan, out: &Outcome, th: bool) -> Vec<Plan> { if plan.cfg("ty") != 0 { return vec![]; } elem_fault_variants(rng, plan, out, if th { 8 } else { 4 }) }
    fn run(&self, plan: &Plan) {
        run_typed(plan);
        for (i, op) in plan.ops.iter().enumerate() { if op.name == "huge" { begin_op(plan, i); huge(op); end_op(i); } }
    }
    fn rule(&self) -> &'static str { "A case is a seeded history of in-place operations through nested (and, for reading, transposed) views of every range kind, with requests that do not fit mixed in and dimensions around the limits of the view encoding, run alone and again with element operations told to panic inside a step; distinct by the digest of the event log." }
    fn real(&self) -> &'static str { "alg::lin_alg::Matrix/SubMatrix indexing, views and in-place operations, unwinding" }
    fn stub(&self) -> &'static str { "element type (modulo-10007 integers with a ledger), heap (simulated placement, contents and re-use, guard checks)" }
    fn fault_kinds(&self) -> &'static [&'static str] { &["panic-in-clone", "panic-in-mul", "panic-in-add", "panic-in-div", "panic-in-sub", "panic-in-eq", "panic-in-zero"] }
}
/// A matrix whose size is around or beyond what a view can encode: refused, or the size it was asked to have.
fn huge(op: &Op) {
    let (n, m) = (op.a(0).clamp(1, 1 << 18) as usize, op.a(1).clamp(1, 1 << 18) as usize);
    if n * m > 1 << 20 { return; }
    let must = n < 65536 && m < 65536;
    let mode = op.m(2, 4);
    let (i, j) = (op.m(3, n), op.m(4, m));
    let flip = op.m(5, 2) == 1;
    probe("dimension-near-the-encoding");
    let made = sut(|| {
        let x: Matrix<i64> = match mode {
            0 => Matrix::zero(n, m),
            1 => Matrix::from_array((0..n).map(|r| (0..m).map(|c| (r * m + c) as i64).collect()).collect()),
            2 => Matrix::random(n, m),
            _ => Matrix::from_array((0..n).map(|_| vec![7; m]).collect()),
        };
        if flip { x.transpose() } else { x }
    });
    let mut x = match made { Ok(x) => x, Err(c) => { require!(!must, "unexpected-panic", "a {n}x{m} matrix is refused: {}", c.text()); probe("rejected-request"); return } };
    let (n, m, i, j) = if flip { (m, n, j, i) } else { (n, m, i, j) };
    let first = |i: usize, j: usize| -> Option<i64> { match mode { 0 => Some(0), 1 => Some(if flip { j * n + i } else { i * m + j } as i64), 2 => None, _ => Some(7) } };
    // every way of using it either panics or gives what a matrix of that size gives
    let tell = |what: &str, r: Result<bool, Caught>| match r {
        Ok(true) => {}
        Ok(false) => fail("wrong-entry", format!("{what} of a {n}x{m} matrix is wrong")),
        Err(c) => require!(!must, "unexpected-panic", "{what} of a {n}x{m} matrix failed: {}", c.text()),
    };
    let (sx, sy) = (n - 1, m - 1);
    tell("the size", sut(|| (*x).size() == (n, m)));
    for (a, b) in [(0, 0), (i, j), (sx, sy), (sx, 0), (0, sy)] { tell("an entry", sut(|| { let v = x[(a, b)]; first(a, b).map(|w| w == v).unwrap_or(true) })); }
    let was = sut(|| x[(i, j)]);
    tell("writing the last entry", sut(|| { let keep = (i, j) != (sx, sy); x[(sx, sy)] = -5; x[(sx, sy)] == -5 && (!keep || was.as_ref().map(|w| *w == x[(i, j)]).unwrap_or(true)) }));
    tell("a view", sut(|| { let v = &x[(i.., j..)]; v.size() == (n - i, m - j) && v[(n - i - 1, m - j - 1)] == -5 }));
    let out = sut(|| x[(n, 0)]);
    require!(out.is_err(), "not-rejected", "entry ({n}, 0) of a {n}x{m} matrix is read");
    let out = sut(|| x[(0, m)]);
    require!(out.is_err(), "not-rejected", "entry (0, {m}) of a {n}x{m} matrix is read");
    if let Err(c) = sut(move || drop(x)) { fail("unexpected-panic", format!("dropping failed: {}", c.text())) }
}
