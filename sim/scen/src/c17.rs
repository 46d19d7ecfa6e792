//! C17: every computation gives back the memory it took.
use crate::catalogue::*;
use simcore::alloc::arena;
use simcore::driver::{Outcome, Scenario};
use simcore::fork::*;
use simcore::*;

pub struct C17;
/// how often a call is repeated, and after how many the memory in use must not grow any more
const TIMES: usize = 6;
const WARM: usize = 2;

fn arm(kind: &str, k: u64) { let gl = g(); if kind == "cut" { gl.elem_fault = gl.c.elem_ops + k; gl.callback_fault = gl.c.callbacks + k; } }
fn disarm() { let gl = g(); gl.elem_fault = 0; gl.callback_fault = 0; }

impl Scenario for C17 {
    fn prop(&self) -> &'static str { "C17" }
    fn seeds(&self, th: bool) -> u64 { if th { 300_000 } else { 14_000 } }
    fn chunk(&self) -> u64 { 100 }
    fn rule(&self) -> &'static str { "one execution = 1 to 4 calls from the catalogue of computations, each in a fresh process six times in a row in full and, in further fresh processes, six times in a row cut short at a drawn element operation or callback, and all of them as one round, six times, in full and cut short at a place that moves from one time to the next; after the second time, blocks and bytes in use may not have grown by the last; distinct = different event log" }
    fn real(&self) -> &'static str { "all of util, alg, topo_spaces, analysis and geom that the catalogue reaches" }
    fn stub(&self) -> &'static str { "the allocator (counts what is in use), hash keys, clock, random words" }
    fn fault_kinds(&self) -> &'static [&'static str] { &["cut-short", "cut-moving", "refused-by-the-call"] }
    fn generate(&self, r: &mut Rng, plan: &mut Plan, _th: bool) {
        let cuttable = |x: &str| x.starts_with("element") || ["sparse", "sparseproduct", "sparsedense", "multi", "jacobian", "render"].contains(&x);
        for _ in 0..r.range(1, 4) { let c = r.chance(1, 3); let (name, seed, n) = pick(r, |x| !c || cuttable(x)); plan.op(name, &[seed, n]); }
        for i in 0..plan.ops.len() {
            if cuttable(&plan.ops[i].name) { for _ in 0..3 { plan.fault("cut", i as i64, r.below(1 << 30) as i64); } }
        }
    }
    fn variants(&self, _: &mut Rng, _: &Plan, _: &Outcome, _: bool) -> Vec<Plan> { vec![] }
    fn run(&self, plan: &Plan) {
        let times = |calls: &[&Op], kind: &str, k: u64| fork_run(|| {
            g().step_limit = g().c.steps + 50_000_000;
            let mut out: Vec<String> = vec![];
            let (mut live, mut bytes) = (vec![], vec![]);
            let mut counts = (0, 0, 0);
            quiet(|| { live.reserve(TIMES); bytes.reserve(TIMES); });
            for t in 0..TIMES {
                let (a0, e0, c0) = (g().c.allocs, g().c.elem_ops, g().c.callbacks);
                for op in calls {
                    // a moving cut strikes elsewhere every time
                    let k = if kind == "cut-moving" { 1 + (k + t as u64 * 7) % 40 } else { k };
                    arm(if kind != "cut-moving" { kind } else if t < WARM { "" } else { "cut" }, k); // the first times in full
                    let s = perform(&op.name, op.a(0), op.a(1).clamp(0, 300) as usize);
                    disarm();
                    if t == 0 && out.is_empty() { quiet(|| out.push(s.clone())); }
                    drop(s);
                }
                counts = (g().c.allocs - a0, g().c.elem_ops - e0, g().c.callbacks - c0);
                live.push(arena().live); bytes.push(arena().live_bytes);
                if g().c.steps > 8_000_000 { break; }
            }
            quiet(|| {
                let m = live.len();
                let (dl, db) = if m > WARM { (live[m - 1] - live[WARM - 1], bytes[m - 1] - bytes[WARM - 1]) } else { (0, 0) };
                out.push(format!("{m} {dl} {db} {} {} {}", counts.0, counts.1, counts.2));
            });
            out
        });
        for (i, op) in plan.ops.iter().enumerate() {
            let judge = |f: Forked, what: &str| -> Option<(String, Vec<i64>)> {
                match f.fate {
                    Fate::Ended(v) => {
                        let x: Vec<i64> = v[1].split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                        log_str(what, &v[0]); log("in use", x[1] as u64);
                        require!(x[1] <= 0 && x[2] <= 0, "memory-kept", "{what}: from the {WARM}nd to the {}th time, {} blocks and {} bytes more in use", x[0], x[1], x[2]);
                        Some((v[0].clone(), x))
                    }
                    Fate::Died { class, detail, .. } => { if class == "no-progress" || detail.contains("memory allocation of") { probe("unfinished"); None } else { fail(&class, format!("{what}: {detail}")) } }
                }
            };
            let Some((s, x)) = judge(times(&[op], "", 0), &op.text()) else { continue };
            if s.contains("! panic") { fired("refused-by-the-call"); }
            for f in plan.faults.iter().filter(|f| f.at == i as i64) {
                let (kind, most) = match f.kind.as_str() { "cut" => ("cut", x[4].max(x[5])), _ => continue };
                if most <= 0 { continue; }
                let k = 1 + f.arg.rem_euclid(most) as u64;
                judge(times(&[op], kind, k), &format!("{}, cut short at element operation or callback {k}", op.text()));
                fired("cut-short");
            }
            // all the calls so far as one round
            if i > 0 && i + 1 == plan.ops.len() {
                let all: Vec<&Op> = plan.ops.iter().collect();
                let text = plan.ops.iter().map(|o| o.text()).collect::<Vec<_>>().join(", then ");
                if judge(times(&all, "", 0), &text).is_some() { probe("rounds"); }
                if let Some(f) = plan.faults.iter().find(|f| f.kind == "cut") { judge(times(&all, "cut-moving", f.arg.rem_euclid(40) as u64), &format!("{text}, each cut short somewhere else every time")); fired("cut-moving"); }
            }
        }
    }
}
