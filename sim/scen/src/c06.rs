//! C06: what the random generators promise, for adversarial random streams.
use crate::common::*;
use crate::el::*;
use crate::mats::stop_if_bad;
use alg::lin_alg::Matrix;
use simcore::driver::{Outcome, Scenario};
use simcore::*;
use std::collections::BTreeMap;

pub struct C06;

/// every value an element type may make of a word (or two)
trait Img: El { fn images(w: &[u64]) -> Vec<i128>; fn key(&self) -> i128; fn same(a: &Self, b: &Self) -> bool { a.key() == b.key() } }
macro_rules! img { ($($t:ty),*) => { $(impl Img for $t {
    fn images(w: &[u64]) -> Vec<i128> { w.iter().flat_map(|&w| if std::mem::size_of::<$t>() == 8 { vec![w as $t as i128] } else { vec![(w >> 32) as $t as i128] }).collect() }
    fn key(&self) -> i128 { *self as i128 }
})* } }
img!(i64, i32, i16, i8, isize);
impl Img for E { fn images(w: &[u64]) -> Vec<i128> { w.iter().map(|w| md((w >> 11) as i64) as i128).collect() } fn key(&self) -> i128 { harness(|| self.val()) as i128 } }
impl Img for f64 { fn images(w: &[u64]) -> Vec<i128> { w.iter().map(|w| ((w >> 11) as f64 / (1u64 << 53) as f64).to_bits() as i128).collect() } fn key(&self) -> i128 { self.to_bits() as i128 } }

fn draw_limit(plan: &Plan, cells: usize) -> u64 { plan.cfg("randlen") as u64 + 20 * (cells as u64 + 10) }
/// the entries of a matrix, through its public face
fn read<T: Img>(m: &Matrix<T>) -> (usize, usize, Vec<Vec<i128>>) {
    plain("reading a random matrix", || { let (a, b) = m.size(); (a, b, (0..a).map(|i| (0..b).map(|j| m[(i, j)].key()).collect()).collect()) })
}
/// `some` must be drawn from `words`, each word used once at the most
fn from_source<T: Img>(some: &[i128], words: &[u64], what: &str) {
    let mut have: BTreeMap<i128, i64> = BTreeMap::new();
    for x in T::images(words) { *have.entry(x).or_insert(0) += 1; }
    for x in some { let c = have.entry(*x).or_insert(0); *c -= 1; require!(*c >= 0, "entry-not-drawn", "{what}: an entry (key {x}) that the source did not deliver, or not that often; {} words drawn, {} entries", words.len(), some.len()); }
}

type Check = Box<dyn Fn()>;
/// one call of a generator, and the same call again with the same stream
fn twice<T: Img>(plan: &Plan, i: usize, what: &str, valid: bool, cells: usize, make: impl Fn() -> Matrix<T>, promise: impl Fn(&[Vec<i128>], &Matrix<T>, &[u64])) -> Option<Check> {
    let alive = ledger().alive;
    rewind_stream();
    let d0 = g().c.draws;
    begin_op(plan, i);
    let r = call(&make);
    end_op(i);
    stop_if_bad();
    let words = words();
    let drawn = g().c.draws - d0;
    require!(drawn <= draw_limit(plan, cells), "unbounded-draws", "{what}: {drawn} words drawn for {cells} entries, after {} adversarial ones", plan.cfg("randlen"));
    let m = match r {
        End::Cut => { require!(ledger().alive == alive, "element-lost", "{what} cut short: {} elements more than before", ledger().alive - alive); None }
        End::Refused(w) => { require!(!valid, "unexpected-panic", "{what}: {w}"); require!(ledger().alive == alive, "element-lost", "{what} refused: {} elements more than before", ledger().alive - alive); None }
        End::Done(m) => {
            let (a, b, x) = read(&m);
            for r in &x { for v in r { log("entry", *v as u64); } }
            require!(valid || a * b == 0, "not-rejected", "{what} gave a matrix of size {a}x{b}");
            promise(&x, &m, &words);
            stop_if_bad();
            Some((m, x))
        }
    };
    // the same stream once more
    rewind_stream();
    let again = call(&make);
    match (&m, again) {
        (Some((_, x)), End::Done(m2)) => { let (_, _, y) = read(&m2); require!(*x == y, "not-reproducible", "{what}: the same stream gave two different matrices"); }
        (Some(_), End::Refused(w)) => fail("not-reproducible", format!("{what}: the same stream gave a matrix and then {w}")),
        (None, End::Done(m2)) => { // (the first call was cut short or refused)
            let (a, b, y) = read(&m2);
            require!(valid || a * b == 0, "not-rejected", "{what} gave a matrix of size {a}x{b}");
            promise(&y, &m2, &words_now());
        }
        (None, End::Refused(w)) => require!(!valid, "unexpected-panic", "{what}, after it was cut short: {w}"),
        _ => {}
    }
    stop_if_bad();
    let what = what.to_string();
    m.map(|(m, x)| Box::new(move || { let (_, _, y) = read(&m); require!(x == y, "value-changed", "{what}: the matrix changed while others were made"); }) as Check)
}
fn words_now() -> Vec<u64> { words() }
fn size(x: &[Vec<i128>], n: usize, m: usize, what: &str, real: (usize, usize)) { require!(real == (n, m) && x.len() == n && x.iter().all(|r| r.len() == m), "wrong-size", "{what}: size {real:?} instead of {:?}", (n, m)); }
fn typed<T: Img + 'static>(plan: &Plan, i: usize, op: &Op) -> Option<Check> where rand::distributions::Standard: rand::distributions::Distribution<T> {
    let (n, m) = (op.a(1).clamp(0, 64) as usize, op.a(2).clamp(0, 64) as usize);
    let what = format!("{} of {}", op.text(), std::any::type_name::<T>().rsplit(':').next().unwrap());
    if op.name == "random" {
        twice::<T>(plan, i, &what, n > 0 && m > 0, n * m, || Matrix::random(n, m), |x, r, w| { size(x, n, m, &what, r.size()); from_source::<T>(&x.concat(), w, &what); })
    } else {
        twice::<T>(plan, i, &what, n == m && n > 0, n * m, || Matrix::random_symmetric(n, m), |x, r, w| {
            size(x, n, m, &what, r.size());
            for a in 0..n { for b in 0..a { require!(x[a][b] == x[b][a], "not-symmetric", "{what}: entries {a},{b} and {b},{a} differ"); } }
            let tri: Vec<i128> = (0..n).flat_map(|a| (a..n).map(move |b| (a, b))).map(|(a, b)| x[a][b]).collect();
            from_source::<T>(&tri, w, &what);
        })
    }
}
fn f(x: i128) -> f64 { f64::from_bits(x as u64) }
impl Scenario for C06 {
    fn prop(&self) -> &'static str { "C06" }
    fn seeds(&self, th: bool) -> u64 { if th { 1_500_000 } else { 70_000 } }
    fn rule(&self) -> &'static str { "one execution = 1 to 8 calls of the five generators (seven element types, sizes 0 to 40, non-square and empty requests included), each made twice from the same stream, under a random source that delivers ordinary words or, for a drawn stretch, zeros, ones, alternating, repeating, tiny, constant, mixed extreme or very uneven words, with element operations (the draw of an element included) told to panic; distinct = different event log" }
    fn real(&self) -> &'static str { "Matrix::random, random_symmetric, random_sparse_symmetric, random_orthogonal, random_unit_vec with everything under them; rand's distributions" }
    fn stub(&self) -> &'static str { "rand's thread_rng (words from the simulator), the element type with its ledger, the allocator" }
    fn fault_kinds(&self) -> &'static [&'static str] { &["rand-zero", "rand-ones", "rand-alternating", "rand-repeating", "rand-tiny", "rand-constant", "rand-half", "rand-mixed", "rand-uneven", "rand-leading", "panic-in-draw", "panic-in-clone", "panic-in-zero"] }
    fn generate(&self, r: &mut Rng, plan: &mut Plan, _th: bool) {
        if r.chance(2, 3) { plan.set("randmode", r.range(1, 10)); plan.set("randlen", *r.pick(&[1, 2, 3, 5, 8, 13, 40, 100, 500])); }
        for _ in 0..r.range(1, 8) {
            let big = r.chance(1, 12);
            let n = if big { r.range(13, 40) } else { r.range(0, 9) };
            let m = if r.chance(1, 2) { n } else { r.range(0, 9) };
            match r.below(8) {
                0 | 1 => plan.op("random", &[r.below(7) as i64, n, m]),
                2 | 3 => plan.op("symmetric", &[r.below(7) as i64, n, if r.chance(1, 10) { m } else { n }]),
                4 | 5 => plan.op("orthogonal", &[n]),
                6 => plan.op("unit", &[n]),
                _ => plan.op("sparse", &[n, if r.chance(1, 10) { m } else { n }]),
            }
        }
    }
    fn variants(&self, r: &mut Rng, plan: &Plan, o: &Outcome, _th: bool) -> Vec<Plan> {
        let mut out = vec![];
        for (i, c) in o.op_counts.iter().enumerate() { if c.elem_ops > 0 { let mut p = plan.clone(); p.fault("elem", i as i64, 1 + r.below(c.elem_ops) as i64); out.push(p); } }
        out.truncate(3);
        out
    }
    fn run(&self, plan: &Plan) {
        ledger_reset();
        let mut kept: Vec<Check> = vec![];
        for (i, op) in plan.ops.iter().enumerate() {
            let what = op.text();
            let n = op.a(0).clamp(0, 64) as usize;
            let k = match op.name.as_str() {
                "random" | "symmetric" => { match op.m(0, 7) {
                    0 | 1 => typed::<E>(plan, i, op), 2 => typed::<i64>(plan, i, op), 3 => typed::<i32>(plan, i, op), 4 => typed::<i8>(plan, i, op), 5 => typed::<i16>(plan, i, op), _ => typed::<f64>(plan, i, op),
                } }
                "orthogonal" => twice::<f64>(plan, i, &what, n > 0, n * n, || Matrix::<f64>::random_orthogonal(n), |x, r, _| {
                    size(x, n, n, &what, r.size());
                    for a in 0..n { for b in 0..=a {
                        let d: f64 = (0..n).map(|k| f(x[k][a]) * f(x[k][b])).sum();
                        let want = if a == b { 1.0 } else { 0.0 };
                        require!((d - want).abs() <= 1e-9, "not-orthonormal", "{what}: columns {a} and {b} have inner product {d}");
                    } }
                }),
                "unit" => twice::<f64>(plan, i, &what, n > 0, n, || Matrix::<f64>::random_unit_vec(n), |x, r, _| {
                    size(x, n, 1, &what, r.size());
                    let d: f64 = x.iter().map(|v| f(v[0]) * f(v[0])).sum();
                    require!((d - 1.0).abs() <= 1e-12, "not-unit", "{what}: squared length {d}");
                }),
                _ => { let m = op.a(1).clamp(0, 64) as usize; twice::<f64>(plan, i, &what, n == m && n > 0, 2 * n * m, || Matrix::<f64>::random_sparse_symmetric(n, m), |x, r, w| {
                    size(x, n, m, &what, r.size());
                    for a in 0..n { for b in 0..a { require!(x[a][b] == x[b][a], "not-symmetric", "{what}: entries {a},{b} and {b},{a} differ"); } }
                    let tri: Vec<i128> = (0..n).flat_map(|a| (a..n).map(move |b| (a, b))).map(|(a, b)| x[a][b]).filter(|v| f(*v) != 0.0).collect();
                    from_source::<f64>(&tri, w, &what);
                }) }
            };
            if let Some(k) = k { kept.push(k); }
        }
        for k in &kept { k(); }
        sut(|| drop(kept)).ok();
        stop_if_bad();
        require!(ledger().alive == 0, "element-lost", "{} elements are still alive after everything was dropped", ledger().alive);
    }
}
