use crate::c01::elem_fault_variants;
use crate::common::*;
use crate::el::*;
use crate::mats::stop_if_bad;
use alg::commutative::{Rational, PID};
use alg::formal_sum_impl;
use alg::lin_alg::{Matrix, Vector};
use simcore::driver::{Outcome, Scenario};
use simcore::*;
use std::collections::BTreeMap;

pub struct C13;
const SLOTS: usize = 4;
/// basis elements: counted, and their comparisons may be told to fail
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct B(pub E);
formal_sum_impl! { B }
impl std::fmt::Display for B { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "b")?; std::fmt::Display::fmt(&self.0, f) } }
fn b(x: i64) -> B { harness(|| B(E::new(x))) }
type Md = BTreeMap<i64, i128>;
struct S<C: El> { v: Vector<C, B>, m: Md }

fn clean<C: El>(m: &mut Md) { for v in m.values_mut() { *v = C::norm(*v); } m.retain(|_, v| *v != 0); }
fn plus<C: El>(a: &Md, c: &Md, f: i128) -> Md { let mut o = a.clone(); for (k, v) in c { *o.entry(*k).or_insert(0) += f * v; } clean::<C>(&mut o); o }
fn over<C: El>(m: &Md) -> bool { m.values().any(|v| v.unsigned_abs() > C::limit().unsigned_abs()) }
fn terms<C: El>(v: &Vector<C, B>) -> Vec<(i64, Option<i128>)> { v.iter().map(|(c, x)| harness(|| (x.0.val(), c.get()))).collect() }
fn check<C: El>(v: &Vector<C, B>, m: &Md, when: &str) {
    let (n, got) = plain(&format!("{when}: reading a combination"), || (v.len(), terms(v)));
    stop_if_bad();
    let want: Vec<(i64, Option<i128>)> = m.iter().map(|(k, v)| (*k, Some(*v))).collect();
    if got != want {
        let mut s: Vec<i64> = got.iter().map(|x| x.0).collect(); let sorted = s.windows(2).all(|w| w[0] < w[1]); s.sort(); s.dedup();
        let class = if s.len() < got.len() { "basis-element-twice" } else if got.iter().any(|x| x.1 == Some(0)) { "zero-coefficient" } else if !sorted { "wrong-order" } else { "wrong-coefficients" };
        fail(class, format!("{when}: terms (basis, coefficient) are {got:?}, should be {want:?}"));
    }
    require!(n == want.len(), "wrong-size", "{when}: reports {n} terms, has {}", want.len());
}
/// random terms
fn draw(r: &mut Rng, n: usize, spread: u64) -> Vec<(i64, i128)> { (0..n).map(|_| (r.below(spread.max(1)) as i64, r.range(-2, 3) as i128)).collect() }
fn model<C: El>(t: &[(i64, i128)]) -> Md { let mut m = Md::new(); for (k, c) in t { *m.entry(*k).or_insert(0) += c; } clean::<C>(&mut m); m }
/// add up terms in some order and grouping
fn build<C: El>(r: &mut Rng, t: &[(i64, i128)]) -> Vector<C, B> {
    match t.len() {
        0 => Vector::zero(),
        1 => Vector::from(b(t[0].0)) * harness(|| C::mk(t[0].1)),
        n => {
            let parts = 2 + r.below(n.min(5) as u64 - 1) as usize;
            let mut cut: Vec<usize> = (0..parts - 1).map(|_| r.below(n as u64 + 1) as usize).collect(); cut.push(0); cut.push(n); cut.sort();
            if cut.windows(2).any(|w| w[1] - w[0] == n) { let h = n / 2; let x = build::<C>(r, &t[..h]); return x + build::<C>(r, &t[h..]); }
            let vs: Vec<Vector<C, B>> = cut.windows(2).map(|w| build::<C>(r, &t[w[0]..w[1]])).collect();
            match r.below(3) {
                0 => { let mut it = vs.into_iter(); let mut acc = it.next().unwrap(); for v in it { acc = acc + v } acc }
                1 => { let mut acc = Vector::zero(); for v in vs.into_iter().rev() { acc = v + acc } acc }
                _ => vs.into_iter().map(|v| { callback("panic-in-iterator"); v }).sum(),
            }
        }
    }
}
impl Scenario for C13 {
    fn prop(&self) -> &'static str { "C13" }
    fn seeds(&self, th: bool) -> u64 { if th { 900_000 } else { 70_000 } }
    fn generate(&self, rng: &mut Rng, plan: &mut Plan, th: bool) {
        plan.set("leakcheck", 1);
        plan.set("ty", rng.range(0, 2));
        let n = rng.range(2, if th { 30 } else { 14 });
        let top = if th { 24 } else { 12 };
        let spread = *rng.pick(&[1, 2, 3, 5, 8, 12, 40]);
        for k in 0..n {
            let s = rng.range(0, SLOTS as i64 - 1);
            let seed = rng.next() as i64 & 0xffffff;
            if k < 2 || rng.chance(1, 4) { plan.op(*rng.pick(&["terms", "terms", "list", "list"]), &[s, seed, rng.range(0, top), spread, rng.range(0, 3)]); continue; }
            plan.op(*rng.pick(&["orders", "orders", "orders", "add", "add", "sub", "sum", "sum", "neg", "mul", "div", "addb", "subb", "get", "remove", "clone", "eq", "into", "scale", "ops", "matrix", "drop"]), &[s, seed, rng.range(0, SLOTS as i64 - 1), spread, rng.range(-2, 4)]);
        }
    }
    fn variants(&self, rng: &mut Rng, plan: &Plan, out: &Outcome, th: bool) -> Vec<Plan> {
        let mut vs = elem_fault_variants(rng, plan, out, if th { 5 } else { 2 });
        let cand: Vec<(usize, u64)> = out.op_counts.iter().enumerate().filter(|(_, c)| c.callbacks > 0).map(|(i, c)| (i, c.callbacks)).collect();
        if !cand.is_empty() { let (i, n) = *rng.pick(&cand); let mut p = plan.clone(); p.fault("callback", i as i64, 1 + rng.below(n) as i64); vs.push(p); }
        vs
    }
    fn run(&self, plan: &Plan) { match plan.cfg("ty") { 1 => go::<i64>(plan), 2 => go::<Rational>(plan), _ => go::<E>(plan) } }
    fn rule(&self) -> &'static str { "A case is a seeded history of formal combinations whose terms arrive in several orders and groupings, over counted basis elements and coefficients, next to a map from basis to total, run alone and again with an element operation or a supplied iterator told to panic; distinct by the digest of the event log." }
    fn real(&self) -> &'static str { "alg::lin_alg::Vector with its operators, formal_sum_impl!, Matrix times a list of basis elements" }
    fn stub(&self) -> &'static str { "basis and coefficient types (ledger), supplied iterators, heap" }
    fn fault_kinds(&self) -> &'static [&'static str] { &["panic-in-iterator", "panic-in-clone", "panic-in-eq", "panic-in-cmp", "panic-in-zero", "panic-in-one", "panic-in-add", "panic-in-mul", "panic-in-neg"] }
}
fn go<C: El + DivBy>(plan: &Plan) {
    ledger_reset();
    let mut s: Vec<Option<S<C>>> = (0..SLOTS).map(|_| None).collect();
    for (i, op) in plan.ops.iter().enumerate() {
        begin_op(plan, i);
        step(&mut s, op);
        end_op(i);
        stop_if_bad();
        for (k, x) in s.iter().enumerate() { if let Some(x) = x { check(&x.v, &x.m, &format!("combination {k} after step {i} '{}'", op.text())); } }
        log(&op.name, s.iter().flatten().map(|x| x.m.iter().map(|(k, v)| (*k + 3) * *v as i64).sum::<i64>()).fold(0, |a: i64, b| a.wrapping_mul(31).wrapping_add(b)) as u64);
    }
    plain("dropping", move || drop(s));
    stop_if_bad();
    require!(ledger().alive == 0, "never-destroyed", "{} values were never destroyed", ledger().alive);
}
pub trait DivBy: PID { fn div(_v: Vector<Self, B>, _c: Self) -> Option<Vector<Self, B>> { None } fn ops(_v: &Vector<Self, B>, _x: i64, _y: i64) -> Option<Vec<Vector<i64, B>>> { None } }
impl DivBy for E { fn div(v: Vector<E, B>, c: E) -> Option<Vector<E, B>> { Some(v / c) } }
impl DivBy for Rational { fn div(v: Vector<Rational, B>, c: Rational) -> Option<Vector<Rational, B>> { Some(v / c) } }
impl DivBy for i64 {
    fn ops(v: &Vector<i64, B>, x: i64, y: i64) -> Option<Vec<Vector<i64, B>>> {
        Some(vec![b(x) + b(y), b(x) - b(y), b(x) + v.clone(), b(x) - v.clone(), 3 * b(x), -b(y), 0 * b(x)])
    }
}
fn put<C: El>(s: &mut [Option<S<C>>], k: usize, v: Vector<C, B>, m: Md) { let old = s[k].take(); plain("dropping", move || drop(old)); s[k] = Some(S { v, m }); }
fn step<C: El + DivBy>(s: &mut Vec<Option<S<C>>>, op: &Op) {
    let (a, c) = (op.m(0, SLOTS), op.m(2, SLOTS));
    let t = op.text();
    let mut r = Rng::new(op.a(1) as u64 ^ 0xabc);
    let spread = op.a(3).clamp(1, 1000) as u64;
    match op.name.as_str() {
        "terms" => {
            let ts = draw(&mut r, op.m(2, 200), spread);
            if let Some(v) = must(&t, || build::<C>(&mut r, &ts)) { put(s, a, v, model::<C>(&ts)); }
            return;
        }
        "list" => {
            let ts: Vec<(i64, i128)> = draw(&mut r, op.m(2, 200), spread).into_iter().map(|x| (x.0, 1)).collect();
            let bs = |k: usize| -> Vec<B> { ts.iter().take(k).map(|x| b(x.0)).collect() };
            let n = ts.len();
            let (v, k) = match op.m(4, 4) {
                0 => (must(&t, || Vector::<C, B>::from(bs(n))), n),
                1 => (must(&t, || bs(n).into_iter().map(|x| { callback("panic-in-iterator"); x }).collect::<Vector<C, B>>()), n),
                2 => match n { 0 => (must(&t, || Vector::<C, B>::from(<[B; 0]>::try_from(bs(0)).ok().unwrap())), 0), 1 => (must(&t, || Vector::<C, B>::from(b(ts[0].0))), 1), 2 => (must(&t, || Vector::<C, B>::from([b(ts[0].0), b(ts[1].0)])), 2), 3 => (must(&t, || Vector::<C, B>::from(<[B; 3]>::try_from(bs(3)).ok().unwrap())), 3), _ => (must(&t, || Vector::<C, B>::from(<[B; 4]>::try_from(bs(4)).ok().unwrap())), 4) },
                _ => (must(&t, || { let mut acc = Vector::<C, B>::zero(); for x in bs(n) { acc = acc + x } acc }), n),
            };
            if let Some(v) = v { put(s, a, v, model::<C>(&ts[..k])); }
            return;
        }
        "orders" => {
            // the same terms in several orders and groupings
            let n = 2 + r.below(10) as usize;
            let mut ts = draw(&mut r, n, spread);
            let m = model::<C>(&ts);
            let mut first: Option<Vector<C, B>> = None;
            for k in 0..3 {
                r.shuffle(&mut ts);
                let Some(v) = must(&t, || build::<C>(&mut r, &ts)) else { break };
                check(&v, &m, &format!("'{t}', order {k}"));
                match first.take() { None => first = Some(v), Some(f) => { let e = must(&t, || f == v && v == f); plain("dropping", move || drop(v)); if let Some(e) = e { require!(e, "depends-on-order", "'{t}': two orders of the same terms give different combinations"); } first = Some(f); } }
            }
            plain("dropping", move || drop(first));
            return;
        }
        "drop" => { let old = s[a].take(); plain(&t, move || drop(old)); return; }
        _ => {}
    }
    let Some(x) = s[a].as_ref() else { return };
    let (m, v) = (x.m.clone(), &x.v);
    let f = op.a(4) as i128;
    match op.name.as_str() {
        "add" | "sub" => {
            let Some(y) = s[c].as_ref() else { return };
            let w = plus::<C>(&m, &y.m, if op.name == "add" { 1 } else { -1 });
            if over::<C>(&w) { return; }
            let u = &y.v;
            let add = op.name == "add";
            if let Some(z) = must(&t, || if add { v.clone() + u.clone() } else { v.clone() - u.clone() }) { put(s, a, z, w); }
        }
        "sum" => {
            let idx: Vec<usize> = (0..2 + r.below(5) as usize).map(|_| r.below(SLOTS as u64) as usize).filter(|&k| s[k].is_some()).collect();
            let mut w = Md::new();
            for &k in &idx { w = plus::<C>(&w, &s[k].as_ref().unwrap().m, 1); }
            if over::<C>(&w) { return; }
            let src: &Vec<Option<S<C>>> = s;
            if let Some(z) = must(&t, || idx.iter().map(|&k| { callback("panic-in-iterator"); src[k].as_ref().unwrap().v.clone() }).sum::<Vector<C, B>>()) { put(s, a, z, w); }
        }
        "neg" => { let w = plus::<C>(&Md::new(), &m, -1); if let Some(z) = must(&t, || -v.clone()) { put(s, a, z, w); } }
        "mul" => {
            let w = plus::<C>(&Md::new(), &m, f);
            if over::<C>(&w) { return; }
            if let Some(z) = must(&t, || { let e = harness(|| C::mk(f)); v.clone() * e }) { put(s, a, z, w); }
        }
        "div" => {
            let Some(i) = C::minv(f) else { return };
            if C::norm(f) == 0 { if C::div(Vector::zero(), C::mk(1)).is_some() { refuse(&format!("'{t}', dividing by zero"), || { let e = harness(|| C::mk(f)); C::div(v.clone(), e) }) } return; }
            let w = plus::<C>(&Md::new(), &m, i);
            if let Some(Some(z)) = must(&t, || { let e = harness(|| C::mk(f)); C::div(v.clone(), e) }) { put(s, a, z, w); }
        }
        "addb" | "subb" => {
            let k = r.below(spread) as i64;
            let add = op.name == "addb";
            let w = plus::<C>(&m, &Md::from([(k, 1)]), if add { 1 } else { -1 });
            if let Some(z) = must(&t, || if add { v.clone() + b(k) } else { v.clone() - b(k) }) { put(s, a, z, w); }
        }
        "get" => {
            let k = r.below(spread) as i64;
            let key = b(k);
            match m.get(&k) {
                Some(w) => if let Some(g) = must(&t, || { let c = &v[&key]; harness(|| c.get()) }) { require!(g == Some(*w), "wrong-coefficients", "'{t}': the coefficient of {k} is {g:?}, should be {w}"); },
                None => match call(|| { let c = &v[&key]; harness(|| c.get()) }) { End::Done(g) => require!(g == Some(0), "wrong-coefficients", "'{t}': the coefficient of the absent {k} is {g:?}"), _ => {} },
            }
            plain("dropping", move || drop(key));
        }
        "remove" => {
            let i = r.below(m.len() as u64 + 2) as usize;
            if i >= m.len() { let x = s[a].as_mut().unwrap(); let v = &mut x.v; return refuse(&format!("'{t}': removing term {i} of {}", m.len()), || v.remove(i)); }
            let (k, c) = m.iter().nth(i).map(|(k, c)| (*k, *c)).unwrap();
            let x = s[a].as_mut().unwrap();
            let v = &mut x.v;
            if let Some((gc, gb)) = must(&t, || v.remove(i)) {
                let got = (gb.0.val(), gc.get());
                plain("dropping", move || drop((gc, gb)));
                require!(got == (k, Some(c)), "wrong-coefficients", "'{t}': removing term {i} gives {got:?}, should give {:?}", (k, c));
                x.m.remove(&k);
            }
        }
        "clone" => if let Some(z) = must(&t, || v.clone()) { put(s, c, z, m); },
        "eq" => {
            let Some(y) = s[c].as_ref() else { return };
            let u = &y.v;
            let w = y.m == m;
            if let Some(e) = must(&t, || (v == u, u != v)) { require!(e == (w, !w), "wrong-comparison", "'{t}': comparing gives {e:?}, should give {w}"); }
        }
        "into" => {
            // take the terms out, some of them only
            let k = r.below(m.len() as u64 + 2) as usize;
            let got = must(&t, || { let u = v.clone(); let mut it = u.into_iter(); let mut o = vec![]; for _ in 0..k { match it.next() { Some((c, x)) => { o.push(harness(|| (x.0.val(), c.get()))); if o.len() % 2 == 0 { drop((c, x)) } else { drop(c); drop(x) } } None => break } } o });
            stop_if_bad();
            if let Some(got) = got { let want: Vec<(i64, Option<i128>)> = m.iter().take(k).map(|(k, v)| (*k, Some(*v))).collect(); require!(got == want, "wrong-coefficients", "'{t}': taking {k} terms out gives {got:?}, should give {want:?}"); }
        }
        "scale" => {
            // multiply in place through iter_mut
            let w = plus::<C>(&Md::new(), &m, 2);
            if over::<C>(&w) { return; }
            let x = s[a].as_mut().unwrap();
            let v = &mut x.v;
            match call(|| v.iter_mut().for_each(|(c, _)| { let two = harness(|| C::mk(2)); *c *= two; })) {
                End::Done(()) => x.m = w,
                End::Cut => { // part of the terms is scaled
                    let now: Vec<(i64, i128)> = terms(&x.v).into_iter().map(|(k, c)| (k, c.unwrap_or(0))).collect();
                    for (k, c) in &now { require!(m.get(k) == Some(c) || w.get(k) == Some(c), "wrong-coefficients", "interrupted '{t}' left coefficient {c} for {k}"); }
                    x.m = now.into_iter().collect();
                }
                End::Refused(c) => fail("unexpected-panic", format!("'{t}': {c}")),
            }
        }
        "ops" => {
            let (i, j) = (r.below(spread) as i64, r.below(spread) as i64);
            let Some(Some(got)) = must(&t, || C::ops(v, i, j)) else { return };
            let one = |k: i64, c: i128| if c == 0 { Md::new() } else { Md::from([(k, c)]) };
            let want = [plus::<i64>(&one(i, 1), &one(j, 1), 1), plus::<i64>(&one(i, 1), &one(j, 1), -1), plus::<i64>(&one(i, 1), &m, 1), plus::<i64>(&one(i, 1), &m, -1), one(i, 3), one(j, -1), Md::new()];
            for (k, (g, w)) in got.iter().zip(&want).enumerate() { check::<i64>(g, w, &format!("'{t}', form {k}")); }
            plain("dropping", move || drop(got));
        }
        "matrix" => {
            let (n, k) = (1 + r.below(3) as usize, 1 + r.below(5) as usize);
            let ks: Vec<i64> = (0..k).map(|_| r.below(spread) as i64).collect();
            let d: Vec<Vec<i64>> = (0..n).map(|_| (0..k).map(|_| r.range(-2, 2)).collect()).collect();
            let ks2 = ks.clone(); let mx = plain("a matrix", || Matrix::<i64>::from_array(d.clone()));
            if let Some(got) = must(&t, move || mx * ks2.iter().map(|&k| b(k)).collect::<Vec<B>>()) {
                require!(got.len() == n, "wrong-size", "'{t}': {} combinations for {n} rows", got.len());
                for i in 0..n { let ts: Vec<(i64, i128)> = (0..k).map(|j| (ks[j], d[i][j] as i128)).collect(); check::<i64>(&got[i], &model::<i64>(&ts), &format!("'{t}', row {i}")); }
                plain("dropping", move || drop(got));
            }

        }
        _ => {}
    }
}
