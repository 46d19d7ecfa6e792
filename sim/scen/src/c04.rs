//! C04: running out of memory never corrupts.
use crate::c03::around;
use crate::catalogue::*;
use alg::lin_alg::Matrix;
use simcore::alloc::arena;
use simcore::driver::{Outcome, Scenario};
use simcore::fork::*;
use simcore::*;

pub struct C04;

const BIG: &[usize] = &[0, 1, 2, 255, 256, 257, 65534, 65535, 65536, 65537, 1 << 17, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 48, 1 << 60, 1 << 61, 1 << 62, 1 << 63, usize::MAX - 1, usize::MAX];
/// asks for a matrix of a size; what came of it
fn ask(how: i64, a: usize, b: usize) -> String {
    fn see<T: alg::commutative::PID + PartialEq>(m: Matrix<T>) -> String { let s = m.size(); let ok = s.0 == 0 || s.1 == 0 || { let x = m[(0, 0)].clone(); let y = m[(s.0 - 1, s.1 - 1)].clone(); let z = m[(s.0 - 1, 0)].clone(); x == x && y == y && z == z }; format!("{} {} {ok}", s.0, s.1) }
    let r = sut(|| match how.rem_euclid(9) {
        0 => see(Matrix::<i64>::zero(a, b)),
        1 => see(Matrix::<i8>::zero(a, b)),
        2 => see(Matrix::<f64>::zero(a, b)),
        3 => see(Matrix::<i128>::zero(a, b)),
        4 => see(Matrix::<i64>::random(a, b)),
        5 => see(Matrix::<f64>::random_symmetric(a, b)),
        6 => { let (x, y) = (Matrix::<i8>::zero(a.min(65535), 1), Matrix::<i8>::zero(1, b.min(65535))); see(x * y) }
        7 => { let x = Matrix::<i64>::zero(a, b); let y = x.transpose(); see(y.clone()) }
        _ => see(Matrix::<i64>::identity(a)),
    });
    match r { Ok(s) => s, Err(c) => format!("! {}", c.text()) }
}
fn oversize(op: &Op) {
    let (a, b) = (BIG[op.m(1, BIG.len())], BIG[op.m(2, BIG.len())]);
    let how = op.a(0);
    let what = format!("a matrix of size {a}x{b} (way {})", how.rem_euclid(9));
    let cells = a.min(1 << 40).saturating_mul(b.min(1 << 40));
    let cells = if how.rem_euclid(9) == 6 { a.min(65535) * b.min(65535) } else { cells };
    let cells = if how.rem_euclid(9) == 8 { a.min(1 << 40).saturating_mul(a.min(1 << 40)) } else { cells };
    // (what is representable but takes long to fill is left alone)
    if cells > 70_000 && cells < 1 << 30 { return; }
    let big = a > 65535 || b > 65535;
    let r = fork_run(|| vec![ask(how, a, b)]);
    match r.fate {
        Fate::Ended(v) => { log_str(&what, &v[0]); if v[0].starts_with('!') { probe("oversize-refused"); } else {
            let want = match how.rem_euclid(9) { 7 => (b, a), 8 => (a, a), 6 => (a.min(65535), b.min(65535)), _ => (a, b) };
            require!(v[0] == format!("{} {} true", want.0, want.1), "wrong-size", "{what}: made with size {}", v[0]);
            if big && how.rem_euclid(9) == 6 { return; }
        } }
        Fate::Died { class, detail, stderr } => { log_str(&what, &class); require!(orderly(&class, &stderr), &class, "{what}: {detail}"); probe("oversize-refused"); }
    }
    if cells >= 1 << 30 { fired("oversize-request"); }
}
fn orderly(class: &str, stderr: &str) -> bool { class == "crash-SIGABRT" && (stderr.contains("memory allocation of") || stderr.contains("out of memory") || stderr.contains("capacity overflow")) }

impl Scenario for C04 {
    fn prop(&self) -> &'static str { "C04" }
    fn seeds(&self, th: bool) -> u64 { if th { 300_000 } else { 14_000 } }
    fn chunk(&self) -> u64 { 100 }
    fn rule(&self) -> &'static str { "one execution = a call from the catalogue of computations in a fresh process without failures, then in up to 14 further fresh processes with one drawn allocation request refused (or all from some point on), the process either stopping through Rust's allocation-failure path, or the call panicking or giving the undisturbed result and, repeated without failures, giving it again; or a request for a matrix of an extreme size; distinct = different event log" }
    fn real(&self) -> &'static str { "all of util, alg, topo_spaces, analysis and geom that the catalogue reaches, std's collections and their allocation-failure path" }
    fn stub(&self) -> &'static str { "the allocator (guarded heap that refuses the drawn requests), hash keys, clock, random words" }
    fn fault_kinds(&self) -> &'static [&'static str] { &["alloc-refused", "alloc-refused-from", "oversize-request"] }
    fn generate(&self, r: &mut Rng, plan: &mut Plan, th: bool) {
        if r.chance(1, 8) { for _ in 0..r.range(1, 6) { plan.op("oversize", &[r.below(9) as i64, r.below(BIG.len() as u64) as i64, r.below(BIG.len() as u64) as i64]); } return; }
        let (name, seed, n) = pick(r, |_| true);
        plan.op(name, &[seed, n]);
        for k in 0..if th { 30 } else { 12 } { plan.fault("alloc", 0, if k < 4 { k } else { r.below(1 << 30) as i64 }); }
        for _ in 0..2 { plan.fault("alloc-from", 0, r.below(1 << 30) as i64); }
    }
    fn variants(&self, _: &mut Rng, _: &Plan, _: &Outcome, _: bool) -> Vec<Plan> { vec![] }
    fn run(&self, plan: &Plan) {
        for (i, op) in plan.ops.iter().enumerate() {
            if op.name == "oversize" { oversize(op); continue; }
            let n = op.a(1).clamp(0, 300) as usize;
            let a = fork_run(|| { g().step_limit = g().c.steps + 6_000_000; vec![perform(&op.name, op.a(0), n)] });
            let want = match a.fate {
                Fate::Ended(v) => v[0].clone(),
                Fate::Died { class, detail, .. } => { if class == "no-progress" || detail.contains("memory allocation of") { probe("unfinished"); continue } fail(&class, format!("{}: {detail}", op.text())) }
            };
            log_str("result", &want);
            if a.allocs == 0 { continue; }
            let mut seen = std::collections::BTreeSet::new();
            for f in plan.faults.iter().filter(|f| f.at == i as i64) {
                let from = f.kind == "alloc-from";
                let k = 1 + f.arg.rem_euclid(a.allocs as i64);
                if !seen.insert((from, k)) { continue; }
                let r = fork_run(|| {
                    let c = g().c.allocs;
                    let ar = arena(); ar.fail_at = c + k as u64; ar.fail_from = from;
                    let s = perform(&op.name, op.a(0), n);
                    let ar = arena(); ar.fail_at = 0; let failed = ar.failed;
                    let t = perform(&op.name, op.a(0), n);
                    vec![s, failed.to_string(), t]
                });
                let what = format!("{}, its allocation request {k} of {} refused{}", op.text(), a.allocs, if from { " and all that follow" } else { "" });
                match r.fate {
                    Fate::Ended(v) => {
                        log_str("then", &v[0]);
                        let hit = v[1] != "0";
                        if hit { fired(if from { "alloc-refused-from" } else { "alloc-refused" }); probe("survived"); }
                        let s = around(&want, &v[0]);
                        require!(v[0] == want || (hit && v[0].contains("! ")), "wrong-result", "{what}: {} instead of {}", s.1, s.0);
                        let s = around(&want, &v[2]);
                        require!(v[2] == want, "corrupted", "{what}: afterwards {} instead of {}", s.1, s.0);
                    }
                    Fate::Died { class, detail, stderr } => {
                        log_str("died", &class);
                        fired(if from { "alloc-refused-from" } else { "alloc-refused" });
                        require!(orderly(&class, &stderr), &class, "{what}: {detail}");
                        probe("stopped-orderly");
                    }
                }
            }
        }
    }
}
