use crate::c01::elem_fault_variants;
use crate::common::*;
use crate::el::*;
use crate::mats::{stop_if_bad, Dense};
use alg::lin_alg::{Matrix, SparseMatrix};
use simcore::driver::{Outcome, Scenario};
use simcore::*;
use std::cell::{Cell, RefCell};

pub struct C12;
const SLOTS: usize = 4;
#[derive(Clone, PartialEq, Debug)]
struct M { n: usize, m: usize, v: Vec<Option<i64>> }
impl M {
    fn at(&self, i: usize, j: usize) -> Option<i64> { self.v[i * self.m + j] }
    fn t(&self) -> M { M { n: self.m, m: self.n, v: (0..self.m).flat_map(|j| (0..self.n).map(move |i| (i, j))).map(|(i, j)| self.at(i, j)).collect() } }
    fn dense(&self) -> Vec<i64> { self.v.iter().map(|x| x.unwrap_or(0)).collect() }
}
struct S { a: SparseMatrix<E>, m: M }

/// What the caller's function answers: may depend on how often it has been asked.
fn answer(seed: i64, style: usize, count: u64, i: usize, j: usize, n: usize, m: usize) -> Option<i64> {
    let h = rng::mix(seed as u64 ^ ((i as u64) << 32 | j as u64).wrapping_mul(0x9e3779b97f4a7c15)) ;
    let c = rng::mix(h ^ count.wrapping_mul(77));
    let v = |x: u64| Some((x % 9) as i64 - 3);
    match style {
        0 => if h % 3 == 0 { v(h >> 8) } else { None },
        1 => v(h >> 8),
        2 => if c % 2 == 0 { v(c >> 8) } else { None },                // by the count
        3 => if count % 3 == 1 { Some(count as i64) } else { None },
        4 => None,
        5 => if i == j { v(h >> 8) } else { None },
        6 => if i == seed.rem_euclid(n.max(1) as i64) as usize { v(h >> 8) } else { None }, // one row
        7 => if j == seed.rem_euclid(m.max(1) as i64) as usize { v(h >> 8) } else { None }, // one column
        8 => if h % 7 == 0 { v(h >> 8) } else { None },
        9 => if count == (seed as u64 % 5) { Some(1) } else { None },  // a single answer
        10 => Some(0),
        _ => if (i + j) % 2 == 0 { v(h >> 8) } else { None },
    }
}
fn dense_of(d: &Dense) -> Matrix<E> { Matrix::from_array((0..d.n).map(|i| (0..d.m).map(|j| E::new(d.at(i, j) as i64)).collect()).collect()) }
fn check(s: &S, when: &str) {
    let (n, m) = (s.m.n, s.m.m);
    let a = &s.a;
    let size = plain("size", || a.size());
    require!(size == (n, m), "wrong-size", "{when}: size {size:?}, should be {:?}", (n, m));
    for i in 0..n {
        let got: Vec<(usize, i64)> = plain(&format!("{when}: reading row {i}"), || a.row_iter(i).map(|(j, e)| (j, harness(|| e.val()))).collect());
        stop_if_bad();
        let want: Vec<(usize, i64)> = (0..m).filter_map(|j| s.m.at(i, j).map(|x| (j, md(x)))).collect();
        require!(got == want, "wrong-row", "{when}: row {i} is {got:?}, should be {want:?}");
    }
    for j in 0..m {
        let got: Vec<(usize, i64)> = plain(&format!("{when}: reading column {j}"), || a.col_iter(j).map(|(i, e)| (i, harness(|| e.val()))).collect());
        stop_if_bad();
        let want: Vec<(usize, i64)> = (0..n).filter_map(|i| s.m.at(i, j).map(|x| (i, md(x)))).collect();
        require!(got == want, "wrong-column", "{when}: column {j} is {got:?}, should be {want:?}");
    }
}
fn check_product(what: &str, r: End<Matrix<E>>, n: usize, m: usize, want: &[i64]) {
    match r {
        End::Done(x) => {
            let d = crate::mats::read::<E>(what, &x);
            stop_if_bad();
            require!((d.n, d.m) == (n, m), "wrong-size", "{what} has size {:?}, should have {:?}", (d.n, d.m), (n, m));
            let got: Vec<i64> = d.v.iter().map(|x| *x as i64).collect();
            require!(got == want, "wrong-product", "{what} is {got:?}, should be {want:?}");
            plain("dropping a product", move || drop(x));
        }
        End::Cut => {}
        End::Refused(c) => if n > 0 && m > 0 { fail("unexpected-panic", format!("{what}: {c}")) },
    }
}
fn product(a: &[i64], b: &[i64], n: usize, k: usize, m: usize) -> Vec<i64> { (0..n * m).map(|q| md((0..k).map(|l| a[q / m * k + l] * b[l * m + q % m]).sum())).collect() }

impl Scenario for C12 {
    fn prop(&self) -> &'static str { "C12" }
    fn seeds(&self, th: bool) -> u64 { if th { 800_000 } else { 60_000 } }
    fn generate(&self, rng: &mut Rng, plan: &mut Plan, th: bool) {
        plan.set("leakcheck", 1);
        if rng.chance(1, 2000) { plan.op("long", &[rng.range(300_000, 500_000), rng.range(0, 3)]); return; }
        let top = if th { 12 } else { 7 };
        let n = rng.range(3, if th { 40 } else { 18 });
        let (r, c) = (rng.range(0, top), rng.range(0, top));
        for k in 0..n {
            let s = rng.range(0, SLOTS as i64 - 1);
            if k < 2 || rng.chance(1, 5) {
                let (x, y) = match rng.below(4) { 0 => (r, c), 1 => (c, r), 2 => (r, r), _ => (rng.range(0, top), rng.range(0, top)) };
                plan.op("new", &[s, x, y, rng.next() as i64 & 0xffff, rng.range(0, 11)]);
                continue;
            }
            plan.op(*rng.pick(&["t", "t", "clone", "clone", "eq", "eq", "deq", "mul", "mul", "muld", "dmul", "drop", "iters", "text"]), &[s, rng.range(0, SLOTS as i64 - 1), rng.next() as i64 & 0xffff, rng.range(0, 5)]);
        }
    }
    fn variants(&self, rng: &mut Rng, plan: &Plan, out: &Outcome, th: bool) -> Vec<Plan> {
        let mut vs = elem_fault_variants(rng, plan, out, if th { 5 } else { 2 });
        let cand: Vec<(usize, u64)> = out.op_counts.iter().enumerate().filter(|(_, c)| c.callbacks > 0).map(|(i, c)| (i, c.callbacks)).collect();
        if !cand.is_empty() { for _ in 0..2 { let (i, n) = *rng.pick(&cand); let mut p = plan.clone(); p.fault("callback", i as i64, match rng.below(3) { 0 => n, 1 => 1, _ => 1 + rng.below(n) } as i64); vs.push(p); } }
        vs
    }
    fn run(&self, plan: &Plan) {
        ledger_reset();
        let mut s: Vec<Option<S>> = (0..SLOTS).map(|_| None).collect();
        for (i, op) in plan.ops.iter().enumerate() {
            begin_op(plan, i);
            step(&mut s, op);
            end_op(i);
            stop_if_bad();
            for (k, x) in s.iter().enumerate() { if let Some(x) = x { check(x, &format!("matrix {k} after step {i} '{}'", op.text())); } }
            log(&op.name, s.iter().flatten().map(|x| x.m.v.iter().enumerate().map(|(i, v)| v.map(|v| (i as i64 + 7) * (v + 11)).unwrap_or(1)).sum::<i64>()).sum::<i64>() as u64);
        }
        plain("dropping", move || drop(s));
        stop_if_bad();
        require!(ledger().alive == 0, "never-destroyed", "{} elements were never destroyed", ledger().alive);
    }
    fn rule(&self) -> &'static str { "A case is a seeded history of sparse matrices built from answering functions that depend on the position and on how often they were asked, of transpositions, clones, comparisons, iterations and products with sparse and dense matrices, next to a dense model, run alone and again with the function or an element operation told to panic; distinct by the digest of the event log." }
    fn real(&self) -> &'static str { "alg::lin_alg::SparseMatrix, Matrix, std Rc" }
    fn stub(&self) -> &'static str { "element type (ledger), the caller's function, heap" }
    fn fault_kinds(&self) -> &'static [&'static str] { &["panic-in-callback", "panic-in-clone", "panic-in-eq", "panic-in-zero", "panic-in-add", "panic-in-mul"] }
}
fn step(s: &mut Vec<Option<S>>, op: &Op) {
    let (a, b) = (op.m(0, SLOTS), op.m(1, SLOTS));
    let t = op.text();
    match op.name.as_str() {
        "new" => {
            let (n, m) = (op.m(1, 64), op.m(2, 64));
            let (seed, style) = (op.a(3), op.m(4, 12));
            let count = Cell::new(0u64);
            let asked: RefCell<Vec<Option<Option<i64>>>> = RefCell::new(quiet(|| vec![None; n * m]));
            let bad: Cell<Option<(&str, usize, usize)>> = Cell::new(None);
            let f = |(i, j): (usize, usize)| -> Option<E> {
                callback("panic-in-callback");
                harness(|| {
                    count.set(count.get() + 1);
                    if i >= n || j >= m { bad.set(Some(("outside the size", i, j))); return None; }
                    let mut w = asked.borrow_mut();
                    if w[i * m + j].is_some() { bad.set(Some(("a second time", i, j))); }
                    let x = answer(seed, style, count.get(), i, j, n, m);
                    w[i * m + j] = Some(x);
                    x.map(E::new)
                })
            };
            let old = s[a].take();
            plain("dropping", move || drop(old));
            let before = ledger().alive;
            let r = call(|| SparseMatrix::from(((n, m), f)));
            if let Some((w, i, j)) = bad.get() { fail("asked-wrongly", format!("'{t}': the function was asked for {:?} {w}", (i, j))) }
            let asked = asked.into_inner();
            match r {
                End::Done(x) => {
                    if let Some(k) = asked.iter().position(|x| x.is_none()) { fail("asked-wrongly", format!("'{t}': the function was never asked for {:?}", (k / m, k % m))) }
                    let v = asked.iter().map(|x| x.unwrap()).collect();
                    s[a] = Some(S { a: x, m: M { n, m, v } });
                }
                End::Cut => { stop_if_bad(); require!(ledger().alive == before, "never-destroyed", "'{t}' was interrupted and {} elements are left", ledger().alive - before); }
                End::Refused(c) => fail("unexpected-panic", format!("'{t}': {c}")),
            }
            quiet(|| drop(asked));
        }
        "long" => {
            let n = op.m(0, 1 << 20);
            let k = op.m(1, 4);
            plain(&t, || { let a: SparseMatrix<i64> = SparseMatrix::from(((n, 1), |(i, _)| Some(i as i64 + 1))); let a = if k & 1 == 1 { a.transpose() } else { a }; if k & 2 == 2 { let b = a.clone(); drop(a); drop(b) } else { drop(a) } });
        }
        "t" => { let Some(x) = s[a].take() else { return }; let m = x.m.t(); let y = x.a; if let Some(y) = must(&t, move || y.transpose()) { s[a] = Some(S { a: y, m }); } }
        "clone" => {
            let Some(x) = s[a].as_ref() else { return };
            let (m, y) = (x.m.clone(), &x.a);
            if let Some(z) = must(&t, || y.clone()) { let old = s[b].take(); plain("dropping", move || drop(old)); s[b] = Some(S { a: z, m }); }
        }
        "drop" => { let old = s[a].take(); plain(&t, move || drop(old)); }
        "eq" => {
            let (Some(x), Some(y)) = (s[a].as_ref(), s[b].as_ref()) else { return };
            let (u, v) = (&x.a, &y.a);
            let md_ = |m: &M| m.dense().iter().map(|&x| md(x)).collect::<Vec<_>>();
            let want = (x.m.n, x.m.m) == (y.m.n, y.m.m) && md_(&x.m) == md_(&y.m);
            if let Some(r) = must(&t, || (u == v, v != u)) { require!(r == (want, !want), "wrong-comparison", "'{t}': comparing gives {r:?} for {:?} and {:?}", x.m, y.m); }
        }
        "deq" => {
            let Some(x) = s[a].as_ref() else { return };
            if x.m.n == 0 || x.m.m == 0 { return; }
            let mut d = Dense { n: x.m.n, m: x.m.m, v: x.m.dense().iter().map(|&x| md(x) as i128).collect() };
            let k = op.a(2) as usize % d.v.len();
            let want = match op.m(3, 3) { 0 => true, 1 => { d.v[k] = (d.v[k] + 1).rem_euclid(P as i128); false } _ => { d.n += 1; d.v.extend(vec![0; d.m]); false } };
            let m = dense_of(&d);
            let u = &x.a;
            let r = must(&t, || *u == m);
            plain("dropping", move || drop(m));
            if let Some(r) = r { require!(r == want, "wrong-comparison", "'{t}': comparing with the dense matrix gives {r}, should give {want}"); }
        }
        "mul" => {
            let (Some(x), Some(y)) = (s[a].as_ref(), s[b].as_ref()) else { return };
            let (u, v, mx, my) = (&x.a, &y.a, x.m.clone(), y.m.clone());
            let Some((u, v)) = must("clone", || (u.clone(), v.clone())) else { return };
            if mx.m != my.n { return refuse(&format!("'{t}' with sizes that do not match"), move || u * v); }
            let w = product(&mx.dense(), &my.dense(), mx.n, mx.m, my.m);
            check_product(&format!("the product '{t}'"), call(move || u * v), mx.n, my.m, &w);
        }
        "muld" | "dmul" => {
            let Some(x) = s[a].as_ref() else { return };
            let (u, mx) = (&x.a, x.m.clone());
            if mx.n == 0 || mx.m == 0 { return; }
            let left = op.name == "dmul";
            let fits = op.m(3, 6) != 0;
            let other = 1 + op.m(1, 4);
            let inner = if left { mx.n } else { mx.m } + if fits { 0 } else { 1 };
            let (n, m) = if left { (other, inner) } else { (inner, other) };
            let d = Dense { n, m, v: (0..n * m).map(|k| crate::mats::vals(op.a(2), k).rem_euclid(P as i128)).collect() };
            let dv: Vec<i64> = d.v.iter().map(|&x| x as i64).collect();
            let dm = dense_of(&d);
            let Some(u) = must("clone", || u.clone()) else { return };
            if !fits { return refuse(&format!("'{t}' with sizes that do not match"), move || if left { dm * u } else { u * dm }); }
            if left { let w = product(&dv, &mx.dense(), n, m, mx.m); check_product(&format!("the product '{t}'"), call(move || dm * u), n, mx.m, &w); }
            else { let w = product(&mx.dense(), &dv, mx.n, mx.m, m); check_product(&format!("the product '{t}'"), call(move || u * dm), mx.n, m, &w); }
        }
        "iters" => {
            // a row and a column iterator moved forward in turns, one of them abandoned
            let Some(x) = s[a].as_ref() else { return };
            let (n, m) = (x.m.n, x.m.m);
            if n == 0 || m == 0 { return; }
            let (i, j) = (op.a(2) as usize % n, op.a(1) as usize % m);
            let u = &x.a;
            let (r, c) = plain(&t, || {
                let (mut p, mut q) = (u.row_iter(i), u.col_iter(j));
                let (mut r, mut c) = (vec![], vec![]);
                for k in 0..n + m + 4 { if k % 3 != 1 { r.push(p.next().map(|(j, e)| (j, harness(|| e.val())))); } if k % 2 == 0 { c.push(q.next().map(|(i, e)| (i, harness(|| e.val())))); } }
                (r, c)
            });
            stop_if_bad();
            let wr: Vec<(usize, i64)> = (0..m).filter_map(|j| x.m.at(i, j).map(|v| (j, md(v)))).collect();
            let wc: Vec<(usize, i64)> = (0..n).filter_map(|i| x.m.at(i, j).map(|v| (i, md(v)))).collect();
            for (k, v) in r.iter().enumerate() { require!(*v == wr.get(k).copied(), "wrong-row", "'{t}': item {k} of row {i} is {v:?}, should be {:?}", wr.get(k)); }
            for (k, v) in c.iter().enumerate() { require!(*v == wc.get(k).copied(), "wrong-column", "'{t}': item {k} of column {j} is {v:?}, should be {:?}", wc.get(k)); }
        }
        "text" => {
            let Some(x) = s[a].as_ref() else { return };
            let u = &x.a;
            let mut want = String::new();
            for i in 0..x.m.n { for j in 0..x.m.m { if let Some(v) = x.m.at(i, j) { want += &format!("({i}, {j}): e{}\n", md(v)); } } }
            if let Some(r) = must(&t, || format!("{u}")) { require!(r == want, "wrong-text", "'{t}': renders as {r:?}, should be {want:?}"); }
        }
        _ => {}
    }
}
