//! C19: motions of several points on a graph.
use crate::common::*;
use alg::non_commutative::permutation::{ConstPermutation, VecPermutation};
use alg::non_commutative::Group;
use simcore::driver::{Outcome, Scenario};
use simcore::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use topo_spaces::cubical::EdgePath;

pub struct C19;

type Move = [usize; 2];
fn apart(a: &Move, b: &Move) -> bool { a[0] != b[0] && a[0] != b[1] && a[1] != b[0] && a[1] != b[1] }
/// what is left of a sequence of moves when moves that undo each other are cancelled: a move and its reverse with
/// only moves elsewhere on the graph between them
fn cancelled(moves: &[Move]) -> Vec<Move> {
    let mut out: Vec<Move> = vec![];
    for m in moves {
        let mut k = out.len();
        while k > 0 && apart(&out[k - 1], m) { k -= 1; }
        if k > 0 && out[k - 1] == [m[1], m[0]] { out.remove(k - 1); } else { out.push(*m); }
    }
    out
}
/// the one order among all that differ by swapping moves elsewhere on the graph
fn canonical(moves: &[Move]) -> Vec<Move> {
    let mut left: Vec<Move> = moves.to_vec(); let mut out = vec![];
    while !left.is_empty() {
        let k = (0..left.len()).filter(|&k| left[..k].iter().all(|x| apart(x, &left[k]))).min_by_key(|&k| left[k]).unwrap();
        out.push(left.remove(k));
    }
    out
}
fn flat(p: &EdgePath) -> Vec<Move> { p.iter().flat_map(|s| s.iter().copied()).collect() }
fn text(p: &EdgePath) -> String { format!("{:?}", **p) }

struct World { adj: Vec<BTreeSet<usize>> }
impl World {
    /// where the points are after these stages of simultaneous moves
    fn go(&self, stages: &[Vec<Move>], at: &[usize], what: &str) -> Vec<usize> {
        let mut at = at.to_vec();
        for (k, s) in stages.iter().enumerate() {
            let mut next = at.clone();
            for (i, e) in s.iter().enumerate() {
                require!(e[0] < self.adj.len() && self.adj[e[0]].contains(&e[1]), "wrong-motion", "{what}: stage {k} uses {e:?}, which is no edge");
                require!(s[..i].iter().all(|x| apart(x, e)), "collision", "{what}: the moves of stage {k}, {s:?}, meet");
                require!(!at.contains(&e[1]), "collision", "{what}: stage {k} moves to {}, where a point is: {at:?}", e[1]);
                let Some(p) = at.iter().position(|&v| v == e[0]) else { fail("wrong-motion", format!("{what}: stage {k} moves from {}, where no point is: {at:?}", e[0])) };
                next[p] = e[1];
            }
            at = next;
        }
        at
    }
    /// single moves that lead from one placement to another, shortest first
    fn route(&self, from: &[usize], goal: impl Fn(&[usize]) -> bool) -> Option<Vec<Move>> {
        let mut seen: BTreeMap<Vec<usize>, Option<(Vec<usize>, Move)>> = BTreeMap::new();
        seen.insert(from.to_vec(), None);
        let mut queue = VecDeque::from([from.to_vec()]);
        while let Some(c) = queue.pop_front() {
            if goal(&c) {
                let (mut out, mut c) = (vec![], c);
                while let Some(Some((b, m))) = seen.get(&c).cloned() { out.push(m); c = b; }
                out.reverse();
                return Some(out);
            }
            if seen.len() > 3000 { return None; }
            for i in 0..c.len() { for &w in &self.adj[c[i]] { if !c.contains(&w) { let mut d = c.clone(); d[i] = w; if !seen.contains_key(&d) { seen.insert(d.clone(), Some((c.clone(), [c[i], w]))); queue.push_back(d); } } } }
        }
        None
    }
}
/// a motion, what it is a motion of, and what it should be
#[derive(Clone)]
struct Motion { path: EdgePath, from: Vec<usize>, to: Vec<usize>, moves: Vec<Move> }
fn evaluate(p: &EdgePath, n: usize) -> Option<Result<Vec<usize>, String>> {
    macro_rules! at { ($n:literal) => {{ let r = match sut(|| p.evaluate_permutation::<$n>()) { Ok(x) => x, Err(c) => return Some(Err(c.text())) };
        // the image of every point, by what the permutation is equal to
        let mut v: Vec<usize> = (0..$n).collect();
        loop { if r == ConstPermutation::from(<[usize; $n]>::try_from(v.clone()).unwrap()) { return Some(Ok(v)); } if !next_order(&mut v) { return Some(Err(format!("{r:?}, which is no permutation"))); } } }} }
    match n { 1 => at!(1), 2 => at!(2), 3 => at!(3), 4 => at!(4), _ => None }
}
fn next_order(v: &mut [usize]) -> bool {
    let Some(i) = (1..v.len()).rev().find(|&i| v[i - 1] < v[i]) else { return false };
    let j = (i..v.len()).rev().find(|&j| v[j] > v[i - 1]).unwrap();
    v.swap(i - 1, j); v[i..].reverse(); true
}
/// products and inverses of permutations as the library has them
fn algebra(p: &EdgePath, q: &EdgePath, to: &[usize], invert: bool, what: &str) {
    let n = to.len();
    // how often the motion must be made until every point is back
    let (mut k, mut c) = (1, to.to_vec());
    while c.iter().enumerate().any(|(i, v)| i != *v) { c = c.iter().map(|v| to[*v]).collect(); k += 1; }
    macro_rules! at { ($n:literal) => {{
        let (pq, a, b) = (p.clone().composed_with(q.clone()), p.evaluate_permutation::<$n>(), q.evaluate_permutation::<$n>());
        require!(pq.evaluate_permutation::<$n>() == b * a, "wrong-permutation", "{what}: {} then {} is {:?}, though they are {a:?} and {b:?}", text(p), text(q), pq.evaluate_permutation::<$n>());
        let back = if invert { p.clone().inverse().evaluate_permutation::<$n>() } else { a.inverse() };
        require!(back * a == ConstPermutation::identity() && back == a.inverse(), "wrong-permutation", "{what}: {} is {a:?}, the other way round it is {back:?}; the inverse of {a:?} is {:?}", text(p), a.inverse());
        require!(a.order() == k, "wrong-permutation", "{what}: {} brings every point back after {k} times, but the order of {a:?} is {}", text(p), a.order());
        let (v, w) = (VecPermutation::from(a), VecPermutation::from(b));
        require!(v.clone().order() == k, "wrong-permutation", "{what}: {} brings every point back after {k} times, but the order of {v:?} is {}", text(p), v.clone().order());
        let (inv, vw) = (v.clone().inverse(), w.clone() * v.clone());
        for i in 0..$n + 2 { let f = |i: usize| if i < $n { to[i] } else { i }; require!(v.eval(i) == f(i) && inv.eval(f(i)) == i && vw.eval(i) == w.eval(f(i)), "wrong-permutation", "{what}: {} takes {i} to {}; {v:?} takes it to {}, its inverse {inv:?} back to {}, and {w:?} after it to {}", text(p), f(i), v.eval(i), inv.eval(f(i)), vw.eval(i)); }
    }} }
    plain(what, || match n { 1 => at!(1), 2 => at!(2), 3 => at!(3), 4 => at!(4), _ => {} })
}

impl C19 {
    fn judge(&self, w: &World, m: &Motion, what: &str) {
        let end = w.go(&m.path, &m.from, &format!("{what}, {}", text(&m.path)));
        require!(end == m.to, "wrong-end", "{what}: {} leads from {:?} to {end:?}, should be {:?}", text(&m.path), m.from, m.to);
        let (a, b) = (canonical(&cancelled(&flat(&m.path))), canonical(&cancelled(&m.moves)));
        require!(a == b, "another-motion", "{what}: {} is the motion {a:?}, should be {b:?}", text(&m.path));
        log_str(what.split(' ').next().unwrap_or(""), &text(&m.path));
    }
}
impl Scenario for C19 {
    fn prop(&self) -> &'static str { "C19" }
    fn seeds(&self, th: bool) -> u64 { if th { 1_500_000 } else { 60_000 } }
    fn chunk(&self) -> u64 { 500 }
    fn rule(&self) -> &'static str { "one execution = 1 to 4 points on a graph of 3 to 9 vertices, moved by a seeded scheduler that draws at every tick which points move where at the same time; points stall, are sent back, the simultaneous moves of a tick arrive one by one in any order, and a motion in progress is broken off and undone; the recorded motions are then composed, reduced, inverted and evaluated in any order, each result walked point by point on the graph and compared with a model of motions up to cancelling and exchanging moves; distinct = different event log" }
    fn real(&self) -> &'static str { "EdgePath, ConstPermutation, VecPermutation" }
    fn stub(&self) -> &'static str { "the graph and the points (a model in the harness), the allocator" }
    fn fault_kinds(&self) -> &'static [&'static str] { &["stall", "sent-back", "one-by-one", "broken-off"] }
    fn generate(&self, r: &mut Rng, plan: &mut Plan, th: bool) {
        let nv = r.range(3, if th { 11 } else { 9 }); let n = r.range(1, 4.min(nv - 1)); 
        plan.set("points", n); plan.set("vertices", nv);
        // the points start at 0..n of a connected graph
        let mut names: Vec<i64> = (0..nv).collect(); r.shuffle(&mut names);
        let star = r.chance(1, 3);
        for i in 1..nv { let j = if star { r.range(0, 1.min(i - 1)) } else { r.range((i - 3).max(0), i - 1) }; plan.op("edge", &[names[i as usize], names[j as usize]]); }
        for _ in 0..r.below(4) { let (a, b) = (r.range(0, nv - 1), r.range(0, nv - 1)); plan.op("edge", &[a, b]); }
        let k = r.range(6, if th { 90 } else { 45 });
        let restless = r.chance(1, 3);
        for _ in 0..k {
            let c = r.below(30);
            if c < if restless { 20 } else { 12 } { let mut a = vec![]; for _ in 0..r.range(1, n) { a.push(r.range(0, n - 1)); a.push(r.range(0, 5)); } plan.op("tick", &a); if r.chance(1, 6) { let at = plan.ops.len() as i64 - 1; plan.fault(r.pick(&["stall", "sent-back", "one-by-one", "broken-off"]), at, r.range(0, 6)); } continue; }
            let (i, j) = (r.below(8) as i64, r.below(8) as i64);
            match r.below(12) { 0 | 1 => plan.op("home", &[r.range(0, 23)]), 2 => plan.op("record", &[]), 3 | 4 | 5 => plan.op("compose", &[i, j]), 6 | 7 => plan.op("reduce", &[i]), 8 | 9 => plan.op("invert", &[i]), 10 => plan.op("power", &[i, r.range(2, 4)]), _ => plan.op("evaluate", &[i, j]) }
        }
        if r.chance(1, 3) { for _ in 0..r.range(1, 4) { plan.op("follow", &[r.below(1 << 40) as i64, r.range(0, 5), r.range(0, 23), r.range(0, 23)]); } }
        plan.op("home", &[r.range(0, 23)]);
        for _ in 0..r.below(8) { let (i, j) = (r.below(8) as i64, r.below(8) as i64); match r.below(4) { 0 => plan.op("compose", &[i, j]), 1 => plan.op("reduce", &[i]), 2 => plan.op("invert", &[i]), _ => plan.op("evaluate", &[i, j]) } }
    }
    fn variants(&self, _: &mut Rng, _: &Plan, _: &Outcome, _: bool) -> Vec<Plan> { vec![] }
    fn run(&self, plan: &Plan) {
        let nv = plan.cfg("vertices").clamp(2, 12) as usize;
        let n = (plan.cfg("points").clamp(1, 4) as usize).min(nv - 1);
        let mut w = World { adj: vec![BTreeSet::new(); nv] };
        for op in plan.ops.iter().filter(|o| o.name == "edge") { let (a, b) = (op.m(0, nv), op.m(1, nv)); if a != b { w.adj[a].insert(b); w.adj[b].insert(a); } }
        let home: Vec<usize> = (0..n).collect();
        let mut at = home.clone();
        let mut since = at.clone(); // where the recording began
        let mut tape: Vec<Vec<Move>> = vec![];
        let mut shelf: Vec<Motion> = vec![];
        let mut stalled: BTreeMap<usize, usize> = BTreeMap::new();
        let put = |shelf: &mut Vec<Motion>, m: Motion| { if shelf.len() >= 8 { shelf.remove(0); } shelf.push(m) };
        let close = |shelf: &mut Vec<Motion>, tape: &mut Vec<Vec<Move>>, since: &mut Vec<usize>, at: &[usize], what: &str| {
            let stages = std::mem::take(tape);
            let m = Motion { moves: stages.iter().flatten().copied().collect(), path: plain(what, || EdgePath::from(stages)), from: since.clone(), to: at.to_vec() };
            *since = at.to_vec();
            self.judge(&w, &m, what);
            put(shelf, m);
        };
        for (i, op) in plan.ops.iter().enumerate() {
            let what = format!("{} (step {i})", op.text());
            let fault = |k: &str| plan.faults.iter().find(|f| f.at == i as i64 && f.kind == k).map(|f| f.arg);
            match op.name.as_str() {
                "tick" => {
                    if let Some(k) = fault("stall") { stalled.insert(op.m(0, n), 1 + k as usize); fired("stall"); }
                    let mut now: Vec<Move> = vec![];
                    for c in op.args.chunks(2) {
                        let p = c[0].rem_euclid(n as i64) as usize; let d: Vec<usize> = w.adj[at[p]].iter().copied().collect();
                        if d.is_empty() || stalled.contains_key(&p) { continue; }
                        let m = [at[p], d[c.get(1).copied().unwrap_or(0).rem_euclid(d.len() as i64) as usize]];
                        if !at.contains(&m[1]) && now.iter().all(|x| apart(x, &m)) { now.push(m); }
                    }
                    stalled.retain(|_, k| { *k -= 1; *k > 0 });
                    let go = |at: &mut Vec<usize>, now: &[Move]| for m in now { let p = at.iter().position(|&v| v == m[0]).unwrap(); at[p] = m[1]; };
                    go(&mut at, &now);
                    if let Some(k) = fault("one-by-one") { let mut v = now.clone(); let l = v.len().max(1); v.rotate_left(k as usize % l); for m in v { tape.push(vec![m]); } fired("one-by-one"); } else if !now.is_empty() || i % 5 == 0 { tape.push(now.clone()); }
                    if fault("sent-back").is_some() { let back: Vec<Move> = now.iter().map(|m| [m[1], m[0]]).collect(); go(&mut at, &back); tape.push(back); fired("sent-back"); }
                    if fault("broken-off").is_some() {
                        // the motion so far is abandoned: the points go back the way the library says
                        let begin = since.clone();
                        close(&mut shelf, &mut tape, &mut since, &at, &what);
                        let p = shelf.last().unwrap().path.clone();
                        let back = plain(&what, || p.inverse());
                        let m = Motion { from: at.clone(), to: begin.clone(), moves: shelf.last().unwrap().moves.iter().rev().map(|m| [m[1], m[0]]).collect(), path: back };
                        self.judge(&w, &m, &what);
                        at = begin; since = at.clone();
                        put(&mut shelf, m);
                        fired("broken-off");
                    }
                }
                "record" => close(&mut shelf, &mut tape, &mut since, &at, &what),
                "home" => {
                    // back to 0..n, the points in a drawn order
                    let mut goal = home.clone(); for _ in 0..op.a(0) { if !next_order(&mut goal) { break; } }
                    let Some(r) = w.route(&at, |c| c == goal).or_else(|| w.route(&at, |c| c.iter().all(|v| *v < n))) else { probe("no-way-home"); continue };
                    for m in r { tape.push(vec![m]); let p = at.iter().position(|&v| v == m[0]).unwrap(); at[p] = m[1]; }
                    close(&mut shelf, &mut tape, &mut since, &at, &what);
                    probe("home");
                    if since.iter().enumerate().any(|(i, v)| *v != i) { probe("home-in-another-order"); }
                }
                "compose" => {
                    if shelf.is_empty() { continue }
                    let (a, b) = (shelf[op.m(0, shelf.len())].clone(), shelf[op.m(1, shelf.len())].clone());
                    let same: BTreeSet<usize> = a.to.iter().copied().collect();
                    if same != b.from.iter().copied().collect() { continue }
                    if a.moves.len() + b.moves.len() > 400 { continue }
                    let to = a.to.iter().map(|v| b.to[b.from.iter().position(|x| x == v).unwrap()]).collect();
                    let m = Motion { from: a.from, to, moves: a.moves.iter().chain(&b.moves).copied().collect(), path: plain(&what, move || a.path.composed_with(b.path)) };
                    self.judge(&w, &m, &what); probe("composed");
                    put(&mut shelf, m);
                }
                "power" => {
                    if shelf.is_empty() { continue }
                    let a = shelf[op.m(0, shelf.len())].clone();
                    if a.from.iter().copied().collect::<BTreeSet<_>>() != a.to.iter().copied().collect() { continue }
                    let mut m = Motion { from: a.from.clone(), to: a.from.clone(), moves: vec![], path: plain(&what, EdgePath::trivial_path) };
                    for _ in 0..op.a(1).clamp(0, 4) { if m.moves.len() > 300 { break; } m.to = m.to.iter().map(|v| a.to[a.from.iter().position(|x| x == v).unwrap()]).collect(); m.moves.extend(&a.moves); let (p, q) = (m.path.clone(), a.path.clone()); m.path = plain(&what, move || p.composed_with(q)); }
                    self.judge(&w, &m, &what);
                    put(&mut shelf, m);
                }
                "reduce" => {
                    if shelf.is_empty() { continue }
                    let k = op.m(0, shelf.len());
                    let p = shelf[k].path.clone();
                    let m = Motion { path: plain(&format!("{what} of {}", text(&p)), move || p.reduce_to_geodesic()), ..shelf[k].clone() };
                    self.judge(&w, &m, &what);
                    let (have, best) = (flat(&m.path).len(), cancelled(&m.moves).len());
                    require!(have == best, "not-shortest", "{what} of {}: {} has {have} moves, {best} are enough", text(&shelf[k].path), text(&m.path));
                    if best < shelf[k].moves.len() { probe("moves-cancelled"); }
                    // once more changes nothing
                    let p = m.path.clone();
                    let again = plain(&what, move || p.reduce_to_geodesic());
                    require!(again == m.path || canonical(&flat(&again)) == canonical(&flat(&m.path)), "not-shortest", "{what}: {} reduces again, to {}", text(&m.path), text(&again));
                    shelf[k] = m;
                }
                "invert" => {
                    if shelf.is_empty() { continue }
                    let a = shelf[op.m(0, shelf.len())].clone();
                    let p = a.path.clone();
                    let m = Motion { from: a.to.clone(), to: a.from.clone(), moves: a.moves.iter().rev().map(|m| [m[1], m[0]]).collect(), path: plain(&format!("{what} of {}", text(&a.path)), move || p.inverse()) };
                    self.judge(&w, &m, &what);
                    // there and back is no motion at all
                    let (p, q) = (a.path.clone(), m.path.clone());
                    let none = plain(&what, move || p.composed_with(q).reduce_to_geodesic());
                    require!(flat(&none).is_empty(), "not-inverse", "{what}: {} and then {} leaves {}", text(&a.path), text(&m.path), text(&none));
                    put(&mut shelf, m);
                }
                "follow" => {
                    // stages in which a point may move to where another one leaves at the same time: following each
                    // other, and turning around a cycle (two points never change places along one edge)
                    let r = &mut Rng::new(op.a(0) as u64);
                    let mut make = |stages: i64, order: i64| {
                        let mut at = home.clone(); let mut path: Vec<Vec<Move>> = vec![];
                        let mut goal = home.clone(); for _ in 0..order { if !next_order(&mut goal) { break; } }
                        for k in 0..=stages {
                            let mut next = at.clone();
                            if k < stages {
                                for p in 0..n { if r.chance(2, 3) { next[p] = r.usize(nv); } }
                            } else { next = goal.clone(); }
                            let clash = |next: &[usize]| (0..n).any(|p| (0..p).any(|q| next[p] == next[q] || next[p] == at[q] && next[q] == at[p]));
                            if clash(&next) { if k < stages { continue } next = at.clone(); let mut left: Vec<usize> = (0..n).collect(); let mut free = nv; while !left.is_empty() { // one by one, over places of their own
                                let p = left.remove(0); let _ = &next; path.push(vec![[at[p], free]]); at[p] = free; free += 1; } 
                                path.push((0..n).map(|p| [at[p], goal[p]]).collect()); at = goal.clone(); continue }
                            let mut stage: Vec<Move> = (0..n).filter(|&p| next[p] != at[p]).map(|p| [at[p], next[p]]).collect();
                            r.shuffle(&mut stage);
                            if (0..n).any(|p| (0..n).any(|q| q != p && next[p] == at[q])) { probe("followed"); }
                            path.push(stage); at = next;
                        }
                        (path, at)
                    };
                    let (p, to) = make(op.a(1).clamp(0, 8), op.a(2));
                    let (q, _) = make(2, op.a(3));
                    let (p, q) = (plain(&what, || EdgePath::from(p)), plain(&what, || EdgePath::from(q)));
                    match evaluate(&p, n) { Some(Ok(v)) => require!(v == to, "wrong-permutation", "{what}: {} takes the points to {to:?} but evaluates to {v:?}", text(&p)), Some(Err(t)) => fail("wrong-permutation", format!("{what}: {} takes the points to {to:?} but evaluates to {t}", text(&p))), None => {} }
                    // (the inverse is also reduced, and reducing is for stages whose moves keep apart)
                    algebra(&p, &q, &to, false, &what);
                }
                "evaluate" => {
                    let loops: Vec<&Motion> = shelf.iter().filter(|m| m.from == home && m.to.iter().all(|v| *v < n)).collect();
                    if loops.is_empty() { continue }
                    let (a, b) = (loops[op.m(0, loops.len())], loops[op.m(1, loops.len())]);
                    match evaluate(&a.path, n) { Some(Ok(v)) => require!(v == a.to, "wrong-permutation", "{what}: {} takes the points to {:?} but evaluates to {v:?}", text(&a.path), a.to), Some(Err(t)) => fail("wrong-permutation", format!("{what}: {} takes the points to {:?} but evaluates to {t}", text(&a.path), a.to)), None => {} }
                    algebra(&a.path, &b.path, &a.to, true, &what);
                    probe("evaluated");
                }
                _ => {}
            }
        }
        // at the end: everything is still the motion it was, and can be reduced
        for (k, m) in shelf.iter().enumerate() {
            self.judge(&w, m, &format!("motion {k} at the end"));
            let p = m.path.clone();
            let x = Motion { path: plain(&format!("reducing {}", text(&p)), move || p.reduce_to_geodesic()), ..m.clone() };
            self.judge(&w, &x, &format!("motion {k} reduced at the end"));
        }
    }
}
