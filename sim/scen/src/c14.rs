//! C14: functions built from caller callbacks.
use crate::common::*;
use crate::el::ledger_reset;
use alg::lin_alg::{Matrix, SparseMatrix};
use analysis::{AtomicSmoothFn as F, AtomicSmoothFnBuilder, Coordinate, Function, MultiVarFn};
use simcore::driver::{Outcome, Scenario};
use simcore::*;

pub struct C14;

/// a number with a bound on what rounding may do to it, whatever the order of evaluation
#[derive(Clone, Copy, Debug)]
struct N { v: f64, e: f64 }
const U: f64 = 2.3e-16;
impl N {
    fn c(v: f64) -> N { N { v, e: 0.0 } }
    fn bad() -> N { N { v: f64::NAN, e: f64::INFINITY } }
    fn ok(&self) -> bool { self.v.is_finite() && self.e.is_finite() && self.e <= 1e-5 * (1.0 + self.v.abs()) && self.v.abs() < 1e60 }
    fn add(self, o: N) -> N { N { v: self.v + o.v, e: self.e + o.e + U * (self.v.abs() + o.v.abs()) } }
    fn neg(self) -> N { N { v: -self.v, e: self.e } }
    fn mul(self, o: N) -> N { N { v: self.v * o.v, e: self.v.abs() * o.e + o.v.abs() * self.e + self.e * o.e + 2.0 * U * (self.v * o.v).abs() } }
    fn sin(self) -> N { N { v: self.v.sin(), e: self.e + 2.0 * U * (1.0 + self.v.abs()) } }
    fn cos(self) -> N { N { v: self.v.cos(), e: self.e + 2.0 * U * (1.0 + self.v.abs()) } }
    /// x^a with both a and x known up to rounding; only where it is well-conditioned
    fn pow(self, a: f64, whole: bool) -> N {
        if a == 0.0 { return N::c(1.0); }
        if !self.ok() || (!whole && self.v <= 0.0) { return N::bad(); }
        if self.v.abs() < 1e-3 || self.e > 1e-3 * self.v.abs() {
            // close to zero only a whole positive power can be followed
            if whole && a > 0.0 { let mut r = N::c(1.0); for _ in 0..a as i64 { r = r.mul(self); } return r; }
            return N::bad();
        }
        let v = if whole { self.v.powi(a as i32) } else { self.v.powf(a) };
        N { v, e: 2.0 * v.abs() * a.abs() * (self.e / self.v.abs() + 8.0 * U) }
    }
}
/// value and gradient
#[derive(Clone, Debug)]
struct D(N, Vec<N>);

#[derive(Clone, Debug)]
enum Ex { X(usize), Zero, One, Add(Box<Ex>, Box<Ex>), Sub(Box<Ex>, Box<Ex>), Mul(Box<Ex>, Box<Ex>), Div(Box<Ex>, Box<Ex>), Scale(Box<Ex>, f64), DivS(Box<Ex>, f64), Neg(Box<Ex>), Sin(Box<Ex>), Cos(Box<Ex>), Powi(Box<Ex>, i32), Powf(Box<Ex>, f64), Sum(Vec<Ex>), Prod(Vec<Ex>), AddTo(Box<Ex>, Box<Ex>), SubFrom(Box<Ex>, Box<Ex>), MulTo(Box<Ex>, Box<Ex>), DivBy(Box<Ex>, Box<Ex>) }
fn gen(r: &mut Rng, n: usize, d: usize) -> Ex {
    let x = |r: &mut Rng| if n == 0 { if r.chance(1, 2) { Ex::One } else { Ex::Zero } } else { Ex::X(r.usize(n)) };
    if d == 0 || r.chance(1, 5) { return match r.below(14) { 0 => Ex::Zero, 1 => Ex::One, _ => x(r) }; }
    let mut g = |r: &mut Rng| Box::new(gen(r, n, d - 1));
    match r.below(20) {
        0 | 1 | 2 => { let a = g(r); Ex::Add(a, g(r)) }
        3 | 4 => { let a = g(r); Ex::Sub(a, g(r)) }
        5 | 6 | 7 => { let a = g(r); Ex::Mul(a, g(r)) }
        8 => { let a = g(r); Ex::Div(a, g(r)) }
        9 => Ex::Scale(g(r), *r.pick(&[-2.0, 0.5, 3.0, 1.0, 0.0, -1.0, 1.25])),
        10 => Ex::DivS(g(r), *r.pick(&[-2.0, 0.5, 4.0, 1.0, -1.0])),
        11 => Ex::Neg(g(r)),
        12 => Ex::Sin(g(r)),
        13 => Ex::Cos(g(r)),
        14 => Ex::Powi(g(r), *r.pick(&[0, 1, 2, 3, -1, -2])),
        15 => Ex::Powf(g(r), *r.pick(&[0.5, 1.0, 2.0, 1.5, -0.5, 3.0])),
        16 => { let k = r.usize(4); Ex::Sum((0..k).map(|_| *g(r)).collect()) }
        17 => { let k = r.usize(4); Ex::Prod((0..k).map(|_| *g(r)).collect()) }
        18 => { let a = g(r); if r.chance(1, 2) { Ex::AddTo(a, g(r)) } else { Ex::SubFrom(a, g(r)) } }
        _ => { let a = g(r); if r.chance(1, 2) { Ex::MulTo(a, g(r)) } else { Ex::DivBy(a, g(r)) } }
    }
}
/// what the expression evaluates to, with its gradient
fn refer(e: &Ex, x: &[f64]) -> D {
    let n = x.len();
    let konst = |v: f64| D(N::c(v), vec![N::c(0.0); n]);
    let add = |a: D, b: D| D(a.0.add(b.0), a.1.iter().zip(&b.1).map(|(p, q)| p.add(*q)).collect());
    let mul = |a: D, b: D| D(a.0.mul(b.0), a.1.iter().zip(&b.1).map(|(p, q)| p.mul(b.0).add(a.0.mul(*q))).collect());
    let chain = |a: D, v: N, s: N| D(v, a.1.iter().map(|p| p.mul(s)).collect());
    let pow = |a: D, k: f64, whole: bool| { let s = N::c(k).mul(if k == 0.0 { N::c(0.0) } else { a.0.pow(k - 1.0, whole) }); let v = a.0.pow(k, whole); chain(a, v, s) };
    let neg = |a: D| D(a.0.neg(), a.1.iter().map(|p| p.neg()).collect());
    match e {
        Ex::X(i) => { let mut d = konst(x[*i]); d.1[*i] = N::c(1.0); d }
        Ex::Zero => konst(0.0), Ex::One => konst(1.0),
        Ex::Add(a, b) | Ex::AddTo(a, b) => add(refer(a, x), refer(b, x)),
        Ex::Sub(a, b) | Ex::SubFrom(a, b) => add(refer(a, x), neg(refer(b, x))),
        Ex::Mul(a, b) | Ex::MulTo(a, b) => mul(refer(a, x), refer(b, x)),
        Ex::Div(a, b) | Ex::DivBy(a, b) => mul(refer(a, x), pow(refer(b, x), -1.0, true)),
        Ex::Scale(a, c) => mul(refer(a, x), konst(*c)),
        Ex::DivS(a, c) => mul(refer(a, x), konst(1.0 / c)),
        Ex::Neg(a) => neg(refer(a, x)),
        Ex::Sin(a) => { let a = refer(a, x); let (v, s) = (a.0.sin(), a.0.cos()); chain(a, v, s) }
        Ex::Cos(a) => { let a = refer(a, x); let (v, s) = (a.0.cos(), a.0.sin().neg()); chain(a, v, s) }
        Ex::Powi(a, k) => pow(refer(a, x), *k as f64, true),
        Ex::Powf(a, k) => pow(refer(a, x), *k, false),
        Ex::Sum(l) => l.iter().fold(konst(0.0), |s, a| add(s, refer(a, x))),
        Ex::Prod(l) => l.iter().fold(konst(1.0), |s, a| mul(s, refer(a, x))),
    }
}
/// the expression written with the library's operators
enum T { C(Coordinate), F(F) }
impl T { fn f(self) -> F { match self { T::C(c) => c.powi(1), T::F(f) => f } } }
fn write(e: &Ex, x: &[Coordinate]) -> T {
    macro_rules! two { ($a:expr, $b:expr, $op:tt) => { T::F(match (write($a, x), write($b, x)) { (T::C(a), T::C(b)) => a $op b, (T::C(a), T::F(b)) => a $op b, (T::F(a), T::C(b)) => a $op b, (T::F(a), T::F(b)) => a $op b }) } }
    macro_rules! one { ($a:expr, $c:ident => $r:expr) => { T::F(match write($a, x) { T::C($c) => $r, T::F($c) => $r }) } }
    macro_rules! to { ($a:expr, $b:expr, $op:tt) => {{ let mut a = write($a, x).f(); let b = write($b, x).f(); a $op b; T::F(a) }} }
    match e {
        Ex::X(i) => T::C(x[*i]),
        Ex::Zero => T::F(F::Zero), Ex::One => T::F(F::One),
        Ex::Add(a, b) => two!(a, b, +), Ex::Sub(a, b) => two!(a, b, -), Ex::Mul(a, b) => two!(a, b, *), Ex::Div(a, b) => two!(a, b, /),
        Ex::Scale(a, k) => one!(a, c => c * *k), Ex::DivS(a, k) => one!(a, c => c / *k),
        Ex::Neg(a) => T::F(-write(a, x).f()),
        Ex::Sin(a) => one!(a, c => c.sin()), Ex::Cos(a) => one!(a, c => c.cos()),
        Ex::Powi(a, k) => one!(a, c => c.powi(*k)), Ex::Powf(a, k) => one!(a, c => c.powf(*k)),
        Ex::Sum(l) => T::F(l.iter().map(|a| write(a, x).f()).sum()), Ex::Prod(l) => T::F(l.iter().map(|a| write(a, x).f()).product()),
        Ex::AddTo(a, b) => to!(a, b, +=), Ex::SubFrom(a, b) => to!(a, b, -=), Ex::MulTo(a, b) => to!(a, b, *=), Ex::DivBy(a, b) => to!(a, b, /=),
    }
}
/// a built function and its expressions (None: the callback left that component alone)
struct Fun { f: Got, ex: Vec<Option<Ex>>, n: usize, seen: Vec<(Vec<f64>, Vec<u64>)> }
enum Got { Atom(F), Multi(MultiVarFn) }
fn column(x: &[f64]) -> Matrix<f64> { let mut m = Matrix::zero(x.len(), 1); for (i, v) in x.iter().enumerate() { m[(i, 0)] = *v; } m }
fn close(got: f64, want: N) -> bool { (got - want.v).abs() <= 1e4 * want.e + 1e-12 * (1.0 + want.v.abs()) || got == want.v }
fn eval(f: &Got, n: usize, x: &[f64], what: &str) -> Vec<f64> {
    plain(what, || { let p = column(x); let _ = n; match f { Got::Atom(a) => vec![a.eval(&p)], Got::Multi(m) => { let r = m.eval(&p); let s = r.size(); assert!(s.1 == 1, "the value is no column"); (0..s.0).map(|i| r[(i, 0)]).collect() } } })
}
fn check_at(f: &mut Fun, x: &[f64], what: &str) {
    let got = eval(&f.f, f.n, x, what);
    require!(got.len() == f.ex.len(), "wrong-value", "{what}: {} components, should be {}", got.len(), f.ex.len());
    for (i, e) in f.ex.iter().enumerate() {
        let want = match e { Some(e) => refer(e, x).0, None => N::c(0.0) };
        if !want.ok() { probe("undecided-value"); continue; }
        probe("decided-value");
        require!(close(got[i], want), "wrong-value", "{what}: component {i} at {x:?} is {}, should be {} (expression {e:?})", got[i], want.v);
    }
    let bits: Vec<u64> = got.iter().map(|v| v.to_bits()).collect();
    match f.seen.iter().find(|s| s.0 == x) { Some(s) => require!(s.1 == bits, "value-changed", "{what}: at {x:?} it used to be {:?}, is {got:?}", s.1.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>()), None => quiet(|| f.seen.push((x.to_vec(), bits.clone()))) }
}
fn points(r: &mut Rng, n: usize) -> Vec<f64> { let pos = r.chance(2, 3); (0..n).map(|_| { let v = 0.3 + r.below(170) as f64 / 100.0; if !pos && r.chance(1, 2) { -v } else { v } }).collect() }
/// building; the callback panics where the plan says so
fn build(op: &Op, what: &str) -> Option<Fun> {
    let atom = op.name == "atom";
    let mut r = Rng::new(op.a(0) as u64 ^ 0xc14);
    let (m, n) = if atom { (1, 1 + op.m(2, 6)) } else { (1 + op.m(1, 5), 1 + op.m(2, 6)) };
    let depth = 1 + op.m(3, 4);
    let ex: Vec<Option<Ex>> = (0..m).map(|_| if r.chance(1, 8) { None } else { Some(gen(&mut r, n, depth)) }).collect();
    let shared = r.chance(1, 3); // one expression for every component
    let ex: Vec<Option<Ex>> = if shared && m > 1 { let e = ex[0].clone(); vec![e; m] } else { ex };
    let twice = r.chance(1, 4); // the component is assigned before, then again
    let incr = r.chance(1, 4);  // or added to what is there
    let nested = r.chance(1, 5); // another function is built meanwhile
    let asked = std::cell::RefCell::new(vec![]);
    let other = gen(&mut r, n.max(1), 2);
    let put = |i: usize, f: &mut F, x: Vec<Coordinate>| {
        harness(|| {
            asked.borrow_mut().push(i);
            require!(x.len() == n && x.iter().enumerate().all(|(k, c)| c.powi(1) == F::Projection(k)), "wrong-arguments", "{what}: component {i} is given {} coordinates, should be the {n} coordinates in order", x.len());
        });
        callback("panic-in-builder-callback");
        if nested {
            let g = AtomicSmoothFnBuilder::new(n.max(1)).set(|f, x| { *f = write(&other, &x).f(); callback("panic-in-builder-callback"); });
            let p = column(&vec![0.75; n.max(1)]);
            let _ = g.eval(&p);
        }
        if twice { *f = F::Projection(0).cos(); callback("panic-in-builder-callback"); *f = F::Zero; }
        if let Some(e) = &ex[i] { let e = write(e, &x).f(); if incr { *f += e; } else { *f = e; } }
        callback("panic-in-builder-callback");
    };
    let end = if atom { call(|| Got::Atom(AtomicSmoothFnBuilder::new(n).set(|f, x| put(0, f, x)))) } else { call(|| Got::Multi(MultiVarFn::new((m, n)).set(|i, f, x| put(i, f, x)))) };
    let asked = asked.into_inner();
    match end {
        End::Done(f) => { require!(asked == (0..m).collect::<Vec<_>>(), "wrong-calls", "{what}: the callback was called for components {asked:?}, should be 0..{m} once each in order"); Some(Fun { f, ex, n, seen: vec![] }) }
        End::Cut => { require!(asked.len() <= m && asked.iter().enumerate().all(|(k, i)| k == *i), "wrong-calls", "{what}: until it panicked the callback was called for {asked:?}"); probe("build-cut-short"); None }
        End::Refused(t) => fail("unexpected-panic", format!("{what}: {t}")),
    }
}
fn step(fs: &mut Vec<Fun>, op: &Op, what: &str) {
    match op.name.as_str() {
        "atom" | "multi" => {
            match build(op, what) {
                Some(f) => fs.push(f),
                None => { // again, with a callback that works; and once more, to the same function
                    let what = format!("{what} tried again");
                    let (a, b) = (build(op, &what), build(op, &what));
                    let (Some(a), Some(b)) = (a, b) else { fail("wrong-calls", format!("{what}: still cut short")) };
                    let same = plain(&what, || match (&a.f, &b.f) { (Got::Atom(p), Got::Atom(q)) => p == q, (Got::Multi(p), Got::Multi(q)) => p == q, _ => false });
                    require!(same, "retry-differs", "{what}: two builds from the same callback differ");
                    fs.push(a);
                }
            }
            if fs.len() > 5 { fs.remove(0); }
            let f = fs.last_mut().unwrap();
            let mut r = Rng::new(op.a(0) as u64 ^ 0x9017);
            let x = points(&mut r, f.n);
            check_at(f, &x, what);
        }
        "eval" => { if fs.is_empty() { return; } let k = op.m(0, fs.len()); let mut r = Rng::new(op.a(1) as u64 ^ 0x9017); let x = points(&mut r, fs[k].n); check_at(&mut fs[k], &x, what); }
        "again" => { if fs.is_empty() { return; } let k = op.m(0, fs.len()); let n = fs[k].seen.len(); let x = fs[k].seen[op.m(1, n)].0.clone(); check_at(&mut fs[k], &x, what); }
        "short" => { // too few coordinates: refused, or the missing ones are not used
            if fs.is_empty() { return; }
            let f = &fs[op.m(0, fs.len())];
            if f.n < 2 { return; }
            let mut r = Rng::new(op.a(1) as u64); let x = points(&mut r, f.n);
            let p = column(&x[..f.n - 1]);
            match call(|| match &f.f { Got::Atom(a) => vec![a.eval(&p)], Got::Multi(m) => { let v = m.eval(&p); (0..v.size().0).map(|i| v[(i, 0)]).collect() } }) {
                End::Done(got) => for (i, e) in f.ex.iter().enumerate() { let want = match e { Some(e) => refer(e, &x).0, None => N::c(0.0) }; if want.ok() && got.get(i).is_none_or(|g| !close(*g, want)) { fail("wrong-value", format!("{what}: evaluated with a coordinate missing component {i} is {:?}, with it {}", got.get(i), want.v)) } },
                End::Refused(_) => probe("missing-coordinate-refused"),
                End::Cut => {}
            }
        }
        "slope" => { // the Jacobian, built through a callback of its own, belongs to the same components
            if fs.is_empty() { return; }
            let f = &fs[op.m(0, fs.len())];
            let mut r = Rng::new(op.a(1) as u64 ^ 0x9017); let x = points(&mut r, f.n);
            let p = column(&x);
            let n = f.n;
            let got: Vec<Vec<f64>> = match &f.f {
                Got::Atom(a) => { let v = plain(what, || { let j: Matrix<F> = a.clone().jacobian(n); assert!(j.size() == (1, n)); let v: Matrix<f64> = j.eval(&p); (0..n).map(|k| v[(0, k)]).collect() }); vec![v] }
                Got::Multi(g) => { let m = f.ex.len(); plain(what, || { let j: SparseMatrix<F> = g.clone().jacobian(); assert!(j.size() == (m, n)); let v: SparseMatrix<f64> = j.eval(&p); assert!(v.size() == (m, n)); (0..m).map(|i| { let mut l = vec![0.0; n]; for (k, y) in v.row_iter(i) { l[k] = *y; } l }).collect() }) }
            };
            for (i, e) in f.ex.iter().enumerate() {
                let Some(e) = e else { require!(got[i].iter().all(|v| *v == 0.0), "wrong-slope", "{what}: component {i} is constant, its slopes are {:?}", got[i]); continue };
                let d = refer(e, &x);
                if !d.0.ok() { continue; }
                for k in 0..n {
                    if !d.1[k].ok() { probe("undecided-slope"); continue; }
                    probe("decided-slope");
                    require!(close(got[i][k], d.1[k]), "wrong-slope", "{what}: component {i} by coordinate {k} at {x:?} is {}, should be {} (expression {e:?})", got[i][k], d.1[k].v);
                }
            }
        }
        "copy" => { // a copy is equal, and changing it leaves the original alone
            if fs.is_empty() { return; }
            let f = &fs[op.m(0, fs.len())];
            let same = plain(what, || match &f.f { Got::Atom(a) => { let mut b = a.clone(); let s = b == *a; b += F::Projection(0); b *= F::Projection(1); s }, Got::Multi(m) => { let b = m.clone(); b == *m } });
            require!(same, "copy-differs", "{what}: the copy differs");
        }
        "part" => { // a component by itself
            if fs.is_empty() { return; }
            let f = &fs[op.m(0, fs.len())];
            let Got::Multi(m) = &f.f else { return };
            let i = op.m(2, f.ex.len() + 1);
            if i == f.ex.len() { refuse(&format!("{what}: component {i} of {i}"), || m[i].clone()); return; }
            let mut r = Rng::new(op.a(1) as u64 ^ 0x9017); let x = points(&mut r, f.n);
            let got = plain(what, || { let p = column(&x); m[i].eval(&p) });
            let want = match &f.ex[i] { Some(e) => refer(e, &x).0, None => N::c(0.0) };
            if want.ok() { require!(close(got, want), "wrong-value", "{what}: component {i} is {got}, should be {}", want.v); }
        }
        _ => if !fs.is_empty() { let k = op.m(0, fs.len()); let f = fs.remove(k); plain(what, move || drop(f.f)); },
    }
}
impl Scenario for C14 {
    fn prop(&self) -> &'static str { "C14" }
    fn seeds(&self, th: bool) -> u64 { if th { 2_000_000 } else { 150_000 } }
    fn chunk(&self) -> u64 { 300 }
    fn generate(&self, rng: &mut Rng, plan: &mut Plan, th: bool) {
        plan.set("leakcheck", 1);
        for _ in 0..rng.range(2, if th { 16 } else { 9 }) {
            let name = *rng.pick(&["atom", "multi", "multi", "multi", "eval", "again", "again", "short", "slope", "slope", "copy", "part", "drop"]);
            let s = rng.next() as i64 & 0xffffff;
            match name { "atom" | "multi" => { let (m, n) = (rng.range(0, 4), *rng.pick(&[0, 1, 1, 2, 2, 3, 5])); plan.op(name, &[s, m, n, rng.range(0, 3)]) } "again" => plan.op(name, &[rng.range(0, 4), rng.range(0, 9)]), _ => plan.op(name, &[rng.range(0, 4), s, rng.range(0, 4)]) }
        }
    }
    fn variants(&self, rng: &mut Rng, plan: &Plan, out: &Outcome, th: bool) -> Vec<Plan> {
        let mut vs = vec![];
        let cand: Vec<(usize, u64)> = out.op_counts.iter().enumerate().filter(|(_, c)| c.callbacks > 0).map(|(i, c)| (i, c.callbacks)).collect();
        if !cand.is_empty() { for _ in 0..if th { 4 } else { 2 } { let mut p = plan.clone(); for _ in 0..rng.range(1, 2) { let (i, n) = *rng.pick(&cand); p.fault("callback", i as i64, match rng.below(3) { 0 => n, 1 => 1, _ => 1 + rng.below(n) } as i64); } vs.push(p); } }
        vs
    }
    fn run(&self, plan: &Plan) {
        ledger_reset();
        let mut fs: Vec<Fun> = vec![];
        for (i, op) in plan.ops.iter().enumerate() {
            begin_op(plan, i);
            step(&mut fs, op, &format!("step {i} '{}'", op.text()));
            end_op(i);
            crate::mats::stop_if_bad();
            log(&op.name, fs.iter().map(|f| f.seen.iter().flat_map(|s| s.1.iter()).fold(0u64, |a, b| a.rotate_left(5) ^ b)).fold(fs.len() as u64, |a, b| a.rotate_left(7) ^ b));
        }
        for (k, f) in fs.iter_mut().enumerate() { let xs: Vec<Vec<f64>> = f.seen.iter().map(|s| s.0.clone()).collect(); for x in xs { check_at(f, &x, &format!("function {k} at the end")); } }
        plain("dropping the functions", move || drop(fs));
    }
    fn rule(&self) -> &'static str { "A case is a seeded sequence of builds (callback expressions, parts left unset, functions built inside the callback), evaluations, Jacobians, copies and refused requests, the callback panicking at seeded points and the build then retried; distinct by the digest of the event log, which holds the values' bits." }
    fn real(&self) -> &'static str { "AtomicSmoothFn, AtomicSmoothFnBuilder, MultiVarFn, MultiVarFnBuilder, Coordinate; Vector, Matrix, SparseMatrix underneath" }
    fn stub(&self) -> &'static str { "the caller's callbacks, heap" }
    fn fault_kinds(&self) -> &'static [&'static str] { &["panic-in-builder-callback"] }
}
