//! Histories of matrix operations over any element type, run next to a dense model.
use crate::el::*;
use alg::lin_alg::*;
use simcore::*;
use std::ops::Bound;

#[derive(Clone, PartialEq, Debug)]
pub struct Dense { pub n: usize, pub m: usize, pub v: Vec<i128> }
impl Dense {
    pub fn zero(n: usize, m: usize) -> Dense { Dense { n, m, v: vec![0; n * m] } }
    pub fn at(&self, i: usize, j: usize) -> i128 { self.v[i * self.m + j] }
    pub fn set(&mut self, i: usize, j: usize, x: i128) { let k = i * self.m + j; self.v[k] = x; }
    pub fn t(&self) -> Dense { let mut d = Dense::zero(self.m, self.n); for i in 0..self.n { for j in 0..self.m { d.set(j, i, self.at(i, j)); } } d }
}

/// One range argument of an index expression.
#[derive(Clone, Copy, Debug)]
pub enum R { Range(usize, usize), From(usize), Full, Incl(usize, usize), To(usize), ToIncl(usize), At(usize) }
impl R {
    /// the half-open interval it addresses, None if it does not fit
    pub fn span(self, n: usize) -> Option<(usize, usize)> {
        let (s, e) = match self {
            R::Range(a, b) => (a, b), R::From(a) => (a, n), R::Full => (0, n), R::Incl(a, b) => (a, b.checked_add(1)?),
            R::To(b) => (0, b), R::ToIncl(b) => (0, b.checked_add(1)?), R::At(a) => (a, a.checked_add(1)?),
        };
        if s <= e && e <= n { Some((s, e)) } else { None }
    }
}
macro_rules! arm {
    ($m:expr, $r:expr, $c:expr, $($refr:tt)*) => {
        match ($r, $c) {
            (R::Range(a, b), R::Range(c, d)) => $($refr)* $m[(a..b, c..d)], (R::Range(a, b), R::From(c)) => $($refr)* $m[(a..b, c..)], (R::Range(a, b), R::Full) => $($refr)* $m[(a..b, ..)],
            (R::Range(a, b), R::Incl(c, d)) => $($refr)* $m[(a..b, c..=d)], (R::Range(a, b), R::To(d)) => $($refr)* $m[(a..b, ..d)], (R::Range(a, b), R::ToIncl(d)) => $($refr)* $m[(a..b, ..=d)], (R::Range(a, b), R::At(c)) => $($refr)* $m[(a..b, c)],
            (R::From(a), R::Range(c, d)) => $($refr)* $m[(a.., c..d)], (R::From(a), R::From(c)) => $($refr)* $m[(a.., c..)], (R::From(a), R::Full) => $($refr)* $m[(a.., ..)],
            (R::From(a), R::Incl(c, d)) => $($refr)* $m[(a.., c..=d)], (R::From(a), R::To(d)) => $($refr)* $m[(a.., ..d)], (R::From(a), R::ToIncl(d)) => $($refr)* $m[(a.., ..=d)], (R::From(a), R::At(c)) => $($refr)* $m[(a.., c)],
            (R::Full, R::Range(c, d)) => $($refr)* $m[(.., c..d)], (R::Full, R::From(c)) => $($refr)* $m[(.., c..)], (R::Full, R::Full) => $($refr)* $m[(.., ..)],
            (R::Full, R::Incl(c, d)) => $($refr)* $m[(.., c..=d)], (R::Full, R::To(d)) => $($refr)* $m[(.., ..d)], (R::Full, R::ToIncl(d)) => $($refr)* $m[(.., ..=d)], (R::Full, R::At(c)) => $($refr)* $m[(.., c)],
            (R::Incl(a, b), R::Range(c, d)) => $($refr)* $m[(a..=b, c..d)], (R::Incl(a, b), R::From(c)) => $($refr)* $m[(a..=b, c..)], (R::Incl(a, b), R::Full) => $($refr)* $m[(a..=b, ..)],
            (R::Incl(a, b), R::Incl(c, d)) => $($refr)* $m[(a..=b, c..=d)], (R::Incl(a, b), R::To(d)) => $($refr)* $m[(a..=b, ..d)], (R::Incl(a, b), R::ToIncl(d)) => $($refr)* $m[(a..=b, ..=d)], (R::Incl(a, b), R::At(c)) => $($refr)* $m[(a..=b, c)],
            (R::To(b), R::Range(c, d)) => $($refr)* $m[(..b, c..d)], (R::To(b), R::From(c)) => $($refr)* $m[(..b, c..)], (R::To(b), R::Full) => $($refr)* $m[(..b, ..)],
            (R::To(b), R::Incl(c, d)) => $($refr)* $m[(..b, c..=d)], (R::To(b), R::To(d)) => $($refr)* $m[(..b, ..d)], (R::To(b), R::ToIncl(d)) => $($refr)* $m[(..b, ..=d)], (R::To(b), R::At(c)) => $($refr)* $m[(..b, c)],
            (R::ToIncl(b), R::Range(c, d)) => $($refr)* $m[(..=b, c..d)], (R::ToIncl(b), R::From(c)) => $($refr)* $m[(..=b, c..)], (R::ToIncl(b), R::Full) => $($refr)* $m[(..=b, ..)],
            (R::ToIncl(b), R::Incl(c, d)) => $($refr)* $m[(..=b, c..=d)], (R::ToIncl(b), R::To(d)) => $($refr)* $m[(..=b, ..d)], (R::ToIncl(b), R::ToIncl(d)) => $($refr)* $m[(..=b, ..=d)], (R::ToIncl(b), R::At(c)) => $($refr)* $m[(..=b, c)],
            (R::At(a), R::Range(c, d)) => $($refr)* $m[(a, c..d)], (R::At(a), R::From(c)) => $($refr)* $m[(a, c..)], (R::At(a), R::Full) => $($refr)* $m[(a, ..)],
            (R::At(a), R::Incl(c, d)) => $($refr)* $m[(a, c..=d)], (R::At(a), R::To(d)) => $($refr)* $m[(a, ..d)], (R::At(a), R::ToIncl(d)) => $($refr)* $m[(a, ..=d)],
            (R::At(_), R::At(_)) => unreachable!(),
        }
    };
}
pub fn sub<T: El>(m: &SubMatrix<T>, r: R, c: R) -> &SubMatrix<T> { arm!(m, r, c, &) }
pub fn sub_mut<T: El>(m: &mut SubMatrix<T>, r: R, c: R) -> &mut SubMatrix<T> { arm!(m, r, c, &mut) }
#[allow(unused)] fn _unused(_: Bound<usize>) {}

#[derive(Clone, Debug)]
pub struct Lvl { r: R, c: R, t: bool }
/// Where a view lies in its matrix.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct V { pub r0: usize, pub c0: usize, pub n: usize, pub m: usize, pub t: bool }
impl V {
    pub fn whole(d: &Dense) -> V { V { r0: 0, c0: 0, n: d.n, m: d.m, t: false } }
    pub fn pos(&self, i: usize, j: usize) -> (usize, usize) { if self.t { (self.r0 + j, self.c0 + i) } else { (self.r0 + i, self.c0 + j) } }
    pub fn get(&self, d: &Dense, i: usize, j: usize) -> i128 { let (a, b) = self.pos(i, j); d.at(a, b) }
    pub fn set(&self, d: &mut Dense, i: usize, j: usize, x: i128) { let (a, b) = self.pos(i, j); d.set(a, b, x) }
    pub fn dense(&self, d: &Dense) -> Dense { let mut o = Dense::zero(self.n, self.m); for i in 0..self.n { for j in 0..self.m { o.set(i, j, self.get(d, i, j)); } } o }
    pub fn holds(&self, a: usize, b: usize) -> bool { (0..self.n).any(|i| (0..self.m).any(|j| self.pos(i, j) == (a, b))) }
    pub fn empty(&self) -> bool { self.n == 0 || self.m == 0 }
}
const LV: usize = 8;
pub fn gen_view(rng: &mut Rng, args: &mut Vec<i64>, max_depth: u64, wild: u64, mutable: bool) {
    let d = rng.below(max_depth + 1);
    args.push(d as i64);
    for _ in 0..d {
        for _ in 0..2 { args.extend([rng.range(0, 6), rng.range(0, 7), rng.range(0, 7)]); }
        args.push(if mutable { 0 } else { rng.chance(1, 3) as i64 });
        args.push(if rng.chance(wild, 100) { rng.range(1, 9) } else { 0 });
    }
}
fn mk_range(k: i64, a: i64, b: i64, n: usize, wild: i64) -> R {
    let (s, e) = if n == 0 || b.rem_euclid(8) == 7 { let s = a.rem_euclid(n as i64 + 1) as usize; (s, s) }
        else { let s = a.rem_euclid(n as i64) as usize; (s, s + 1 + b.rem_euclid((n - s) as i64) as usize) };
    match wild {
        1 => return R::Range(s, n + 1 + b.rem_euclid(3) as usize),
        2 => return R::Range(e + 1, s.min(e)),
        3 => return R::From(n + 1 + a.rem_euclid(3) as usize),
        4 => return R::At(n + b.rem_euclid(3) as usize),
        5 => return R::ToIncl(if a & 1 == 0 { usize::MAX } else { n }),
        6 => return R::To(n + 1),
        7 => return R::Incl(s, n),
        8 => return R::Range(s + (1 << 16), e + (1 << 16)),
        9 => return R::At(s + (1 << 32)),
        _ => {}
    }
    match k.rem_euclid(7) {
        0 => R::Range(s, e), 1 => R::From(s), 2 => R::Full, 3 => if e > s { R::Incl(s, e - 1) } else { R::Range(s, e) },
        4 => R::To(e), 5 => if e > 0 { R::ToIncl(e - 1) } else { R::To(e) }, _ => if e > s { R::At(s) } else { R::Range(s, e) },
    }
}
/// Decode a view from op arguments at `*k`; gives its levels and, if all of them fit, its place in the matrix.
pub fn view_of(op: &Op, k: &mut usize, d: &Dense, mutable: bool) -> (Vec<Lvl>, Option<V>) {
    let depth = op.a(*k).rem_euclid(4); *k += 1;
    let mut v = V::whole(d);
    let mut ls = vec![];
    let mut ok = true;
    for _ in 0..depth {
        let a: Vec<i64> = (0..LV).map(|q| op.a(*k + q)).collect(); *k += LV;
        if !ok { continue; }
        let w = a[7].rem_euclid(10);
        let (rw, cw) = if w == 0 { (0, 0) } else if (a[1] ^ a[4]) & 1 == 0 { (w, 0) } else { (0, w) };
        let (r, mut c) = (mk_range(a[0], a[1], a[2], v.n, rw), mk_range(a[3], a[4], a[5], v.m, cw));
        if let (R::At(_), R::At(x)) = (r, c) { c = if x == usize::MAX { R::From(x) } else { R::Range(x, x + 1) }; }
        let t = !mutable && a[6] != 0;
        ls.push(Lvl { r, c, t });
        match (r.span(v.n), c.span(v.m)) {
            (Some((a, b)), Some((x, y))) => {
                let (r0, c0) = if v.t { (v.r0 + x, v.c0 + a) } else { (v.r0 + a, v.c0 + x) };
                v = V { r0, c0, n: b - a, m: y - x, t: v.t };
                if t { v = V { n: v.m, m: v.n, t: !v.t, ..v }; }
            }
            _ => ok = false,
        }
    }
    (ls, if ok { Some(v) } else { None })
}
pub fn real<'a, T: El>(m: &'a Matrix<T>, ls: &[Lvl]) -> &'a SubMatrix<T> {
    let mut cur: &SubMatrix<T> = m;
    for l in ls { cur = sub(cur, l.r, l.c); if l.t { cur = cur.transpose(); } }
    cur
}
pub fn real_mut<'a, T: El>(m: &'a mut Matrix<T>, ls: &[Lvl]) -> &'a mut SubMatrix<T> {
    let mut cur: &mut SubMatrix<T> = m;
    for l in ls { cur = sub_mut(cur, l.r, l.c); }
    cur
}

pub const SLOTS: usize = 5;
pub struct Slot<T: El> { pub m: Matrix<T>, pub d: Dense }
pub struct Engine<T: El> { pub s: Vec<Option<Slot<T>>>, pub done: u64, pub rejected: u64 }
impl<T: El> Drop for Engine<T> {
    fn drop(&mut self) { if g().violation.is_some() { std::mem::forget(std::mem::take(&mut self.s)); } }
}
enum Want<X> { Ok(X), Reject, Either }

pub fn vals(seed: i64, k: usize) -> i128 { (rng::mix((seed as u64).wrapping_mul(31).wrapping_add(k as u64)) % 7) as i128 - 3 }
use simcore::rng;

/// Read a whole matrix; a panic while reading is reported as what it is.
pub fn read<T: El>(what: &str, m: &SubMatrix<T>) -> Dense {
    let r = sut(|| {
        let (n, k) = m.size();
        let mut d = Dense::zero(n, k);
        for i in 0..n { for j in 0..k { let e = &m[(i, j)]; d.v[i * k + j] = harness(|| e.get()).unwrap_or(i128::MIN); } }
        d
    });
    match r { Ok(d) => d, Err(c) => fail("unreadable", format!("{what}: reading all entries failed: {}", c.text())) }
}

impl<T: El> Engine<T> {
    pub fn new() -> Self { Engine { s: (0..SLOTS).map(|_| None).collect(), done: 0, rejected: 0 } }
    fn full(&self) -> Vec<usize> { (0..SLOTS).filter(|&i| self.s[i].is_some()).collect() }
    pub fn check_all(&self, when: &str) {
        for i in self.full() {
            let s = self.s[i].as_ref().unwrap();
            let got = read(&format!("matrix {i} {when}"), &s.m);
            stop_if_bad();
            if got != s.d {
                if (got.n, got.m) != (s.d.n, s.d.m) { fail("wrong-size", format!("matrix {i} {when} has size {:?}, should have {:?}", (got.n, got.m), (s.d.n, s.d.m))); }
                let k = (0..got.v.len()).find(|&k| got.v[k] != s.d.v[k]).unwrap();
                fail("wrong-entry", format!("matrix {i} {when}: entry {:?} is {}, should be {}", (k / got.m, k % got.m), got.v[k], s.d.v[k]));
            }
        }
    }
    /// Run one in-place operation on slot `a`: `model` says what should happen, `act` does it.
    fn in_place(&mut self, op: &Op, a: usize, region: V, want: Want<Dense>, act: impl FnOnce(&mut Matrix<T>)) {
        let s = self.s[a].as_mut().unwrap();
        let m = &mut s.m;
        let r = sut(|| act(m));
        match (r, want) {
            (Err(Caught::Injected(_)), w) => {
                // entries outside the region the operation addresses keep their values
                let allowed = !matches!(w, Want::Reject);
                let got = read("after an interrupted operation", &s.m);
                stop_if_bad();
                if (got.n, got.m) != (s.d.n, s.d.m) { fail("wrong-size", format!("after interrupted '{}' the matrix has size {:?}, should have {:?}", op.name, (got.n, got.m), (s.d.n, s.d.m))); }
                for i in 0..got.n { for j in 0..got.m {
                    if got.at(i, j) != s.d.at(i, j) && !(allowed && region.holds(i, j)) {
                        fail("interrupted-operation-spilled", format!("interrupted '{}' addressed {:?} but changed entry ({i}, {j}) from {} to {}", op.name, region, s.d.at(i, j), got.at(i, j)));
                    }
                } }
                s.d = got;
            }
            (Ok(()), Want::Ok(d)) => { s.d = d; self.done += 1; }
            (Ok(()), Want::Either) | (Err(_), Want::Either) => { self.rejected += 1; }
            (Err(_), Want::Reject) => { self.rejected += 1; probe("rejected-request"); }
            (Ok(()), Want::Reject) => fail("not-rejected", format!("'{}' does not fit and was carried out", op.text())),
            (Err(c), Want::Ok(_)) => fail("unexpected-panic", format!("'{}' failed: {}", op.text(), c.text())),
        }
    }
    /// Run one operation that makes a matrix.
    fn making(&mut self, op: &Op, dst: usize, want: Want<Dense>, act: impl FnOnce() -> Matrix<T>) {
        match (sut(act), want) {
            (Err(Caught::Injected(_)), _) => {}
            (Ok(m), Want::Ok(d)) => {
                let got = read(&format!("result of '{}'", op.name), &m);
                if g().violation.is_some() { std::mem::forget(m); stop_if_bad(); unreachable!() }
                if got != d {
                    std::mem::forget(m);
                    if (got.n, got.m) != (d.n, d.m) { fail("wrong-size", format!("'{}' gives size {:?}, should give {:?}", op.text(), (got.n, got.m), (d.n, d.m))); }
                    let k = (0..got.v.len()).find(|&k| got.v[k] != d.v[k]).unwrap();
                    fail("wrong-entry", format!("'{}': entry {:?} is {}, should be {}", op.text(), (k / d.m.max(1), k % d.m.max(1)), got.v[k], d.v[k]));
                }
                self.put(dst, m, d);
                self.done += 1;
            }
            (Ok(m), Want::Either) => { let d = read("result", &m); self.put(dst, m, d); }
            (Err(_), Want::Either) => { self.rejected += 1; }
            (Err(_), Want::Reject) => { self.rejected += 1; probe("rejected-request"); }
            (Ok(m), Want::Reject) => { std::mem::forget(m); fail("not-rejected", format!("'{}' does not fit and was carried out", op.text())) }
            (Err(c), Want::Ok(_)) => fail("unexpected-panic", format!("'{}' failed: {}", op.text(), c.text())),
        }
    }
    pub fn put(&mut self, dst: usize, m: Matrix<T>, d: Dense) {
        // matrices whose entries the model does not follow (an empty result) are released at once
        if d.n == 0 || d.m == 0 { let _ = sut(move || drop(m)); return; }
        if let Some(old) = self.s[dst].take() { let _ = sut(move || drop(old.m)); }
        self.s[dst] = Some(Slot { m, d });
    }
    fn over(d: &Dense) -> bool { d.v.iter().any(|x| x.unsigned_abs() > T::limit().unsigned_abs()) }

    pub fn step(&mut self, op: &Op) {
        let full = self.full();
        let name = op.name.as_str();
        if name == "make" { return self.make(op); }
        if full.is_empty() { return; }
        let pick = |k: usize| full[op.m(k, full.len())];
        let mut k = 4; // views start here
        let norm = T::norm;
        match name {
            "clone" => { let (a, dst) = (pick(0), op.m(1, SLOTS)); let d = self.s[a].as_ref().unwrap().d.clone(); let m = self.s[a].as_ref().unwrap() as *const Slot<T>; self.making(op, dst, Want::Ok(d), || unsafe { (*m).m.clone() }) }
            "transpose" => {
                let a = pick(0); let s = self.s[a].take().unwrap(); let d = s.d.t(); let m = s.m;
                self.making(op, a, Want::Ok(d), move || m.transpose())
            }
            "drop" => { let a = pick(0); let s = self.s[a].take().unwrap(); if let Err(c) = sut(move || drop(s.m)) { fail("unexpected-panic", format!("dropping a matrix failed: {}", c.text())) } self.done += 1; }
            "asmat" => {
                let (a, dst) = (pick(0), op.m(1, SLOTS));
                let s = self.s[a].as_ref().unwrap() as *const Slot<T>; let s = unsafe { &*s };
                let (ls, v) = view_of(op, &mut k, &s.d, false);
                let want = match v { Some(v) => Want::Ok(v.dense(&s.d)), None => Want::Reject };
                self.making(op, dst, want, || real(&s.m, &ls).as_matrix())
            }
            "bin" => {
                // args: a, dst, kind, form; then b, view of a, view of b
                let (a, dst, kind, form) = (pick(0), op.m(1, SLOTS), op.m(2, 3), op.m(3, 4));
                let b = pick(k); k += 1;
                let (da, db) = (self.s[a].as_ref().unwrap().d.clone(), self.s[b].as_ref().unwrap().d.clone());
                let (mut la, mut va) = view_of(op, &mut k, &da, false);
                let (mut lb, mut vb) = view_of(op, &mut k, &db, false);
                if form == 1 || form == 3 { la.clear(); va = Some(V::whole(&da)); }
                if form == 2 || form == 3 { lb.clear(); vb = Some(V::whole(&db)); }
                if a == b && form != 0 { return; }
                let want = match (va, vb) {
                    (Some(va), Some(vb)) => {
                        let (x, y) = (va.dense(&da), vb.dense(&db));
                        if kind < 2 {
                            if (x.n, x.m) != (y.n, y.m) { Want::Reject } else {
                                let mut o = x.clone();
                                for q in 0..o.v.len() { o.v[q] = norm(if kind == 0 { x.v[q] + y.v[q] } else { x.v[q] - y.v[q] }); }
                                Want::Ok(o)
                            }
                        } else if x.m != y.n { if x.n == 0 || y.m == 0 { Want::Either } else { Want::Reject } } else {
                            let mut o = Dense::zero(x.n, y.m);
                            for i in 0..x.n { for j in 0..y.m { o.set(i, j, norm((0..x.m).map(|q| x.at(i, q) * y.at(q, j)).sum())); } }
                            Want::Ok(o)
                        }
                    }
                    _ => Want::Reject,
                };
                if let Want::Ok(d) = &want { if Self::over(d) { return; } }
                let take = |e: &mut Self, i: usize| e.s[i].take().unwrap().m;
                match form {
                    0 => { let (x, y) = (self.s[a].as_ref().unwrap() as *const Slot<T>, self.s[b].as_ref().unwrap() as *const Slot<T>);
                        self.making(op, dst, want, || unsafe { let (x, y) = (real(&(*x).m, &la), real(&(*y).m, &lb)); match kind { 0 => x + y, 1 => x - y, _ => x * y } }) }
                    1 => { let m = take(self, a); let y = self.s[b].as_ref().unwrap() as *const Slot<T>; let dst = if dst == b { a } else { dst };
                        self.making(op, dst, want, move || unsafe { let y = real(&(*y).m, &lb); match kind { 0 => m + y, 1 => m - y, _ => m * y } }) }
                    2 => { let m = take(self, b); let x = self.s[a].as_ref().unwrap() as *const Slot<T>; let dst = if dst == a { b } else { dst };
                        self.making(op, dst, want, move || unsafe { let x = real(&(*x).m, &la); match kind { 0 => x + m, 1 => x - m, _ => x * m } }) }
                    _ => { let m = take(self, a); let o = take(self, b);
                        self.making(op, dst, want, move || match kind { 0 => m + o, 1 => m - o, _ => m * o }) }
                }
            }
            "asg" => {
                let (a, kind, form) = (pick(0), op.m(2, 2), op.m(3, 2));
                let b = pick(k); k += 1;
                if a == b { return; }
                let (da, db) = (self.s[a].as_ref().unwrap().d.clone(), self.s[b].as_ref().unwrap().d.clone());
                let (mut lb, mut vb) = view_of(op, &mut k, &db, false);
                if form == 1 { lb.clear(); vb = Some(V::whole(&db)); }
                let want = match vb {
                    Some(vb) => { let y = vb.dense(&db); if (y.n, y.m) != (da.n, da.m) { Want::Reject } else { let mut o = da.clone(); for q in 0..o.v.len() { o.v[q] = norm(if kind == 0 { o.v[q] + y.v[q] } else { o.v[q] - y.v[q] }); } Want::Ok(o) } }
                    None => Want::Reject,
                };
                if let Want::Ok(d) = &want { if Self::over(d) { return; } }
                if form == 0 {
                    let y = self.s[b].as_ref().unwrap() as *const Slot<T>;
                    self.in_place(op, a, V::whole(&da), want, |m| unsafe { let y = real(&(*y).m, &lb); if kind == 0 { *m += y } else { *m -= y } })
                } else {
                    let y = self.s[b].take().unwrap().m;
                    self.in_place(op, a, V::whole(&da), want, move |m| if kind == 0 { *m += y } else { *m -= y })
                }
            }
            "smul" | "sdiv" => {
                // args: a, dst, scalar, form, view
                let (a, dst, form) = (pick(0), op.m(1, SLOTS), op.m(3, 5));
                let sc = T::norm(op.a(2) as i128);
                let d = self.s[a].as_ref().unwrap().d.clone();
                let div = name == "sdiv";
                let f: i128 = if div { match T::minv(sc) { Some(x) if x != 0 => x, _ => return } } else { sc };
                if div && form == 4 { return; }
                let mutable = form == 2;
                let (mut ls, mut v) = view_of(op, &mut k, &d, mutable);
                if form == 1 || form == 3 { ls.clear(); v = Some(V::whole(&d)); }
                let res = |v: V| { let mut o = v.dense(&d); for x in o.v.iter_mut() { *x = norm(*x * f); } o };
                let want = match v { Some(v) => Want::Ok(res(v)), None => Want::Reject };
                if let Want::Ok(d) = &want { if Self::over(d) { return; } }
                let e = T::mk(sc);
                let p = self.s[a].as_ref().unwrap() as *const Slot<T>;
                match form {
                    0 | 4 => {
                        let m = unsafe { &(*p).m };
                        if form == 4 && T::left_mul(&Matrix::<T>::identity(1), T::mk(1)).is_none() { return; }
                        self.making(op, dst, want, move || { let x = real(m, &ls); if form == 4 { T::left_mul(x, e).unwrap() } else if div { T::div_view(x, e).unwrap() } else { x * e } })
                    }
                    1 => { let m = self.s[a].take().unwrap().m; self.making(op, a, want, move || if div { T::div_owned(m, e).unwrap() } else { m * e }) }
                    _ => {
                        let whole = v.map(|v| { let mut o = d.clone(); for i in 0..v.n { for j in 0..v.m { let x = norm(v.get(&d, i, j) * f); v.set(&mut o, i, j, x); } } o });
                        let want = match whole { Some(o) => Want::Ok(o), None => Want::Reject };
                        self.in_place(op, a, v.unwrap_or(V::whole(&d)), want, move |m| {
                            if form == 3 { if div { T::div_assign_owned(m, e); } else { *m *= e; } }
                            else { let x = real_mut(m, &ls); if div { T::div_assign_view(x, e); } else { *x *= e; } }
                        })
                    }
                }
            }
            "dot" => {
                let a = pick(0); let b = pick(k); k += 1;
                let (x, y) = (self.s[a].as_ref().unwrap() as *const Slot<T>, self.s[b].as_ref().unwrap() as *const Slot<T>);
                let (x, y) = unsafe { (&*x, &*y) };
                let (la, va) = view_of(op, &mut k, &x.d, false); let (lb, vb) = view_of(op, &mut k, &y.d, false);
                let want = match (va, vb) {
                    (Some(p), Some(q)) if p.n == 1 && q.m == 1 && p.m == q.n => Want::Ok(norm((0..p.m).map(|i| p.get(&x.d, 0, i) * q.get(&y.d, i, 0)).sum())),
                    _ => Want::Reject,
                };
                match (sut(|| real(&x.m, &la).dot(real(&y.m, &lb))), want) {
                    (Err(Caught::Injected(_)), _) => {}
                    (Ok(v), Want::Ok(w)) => { let got = v.get(); let _ = sut(move || drop(v)); stop_if_bad(); require!(got == Some(w), "wrong-value", "dot product is {got:?}, should be {w}"); self.done += 1 }
                    (Ok(_), _) => fail("not-rejected", format!("'{}' does not fit and was carried out", op.text())),
                    (Err(_), Want::Reject) | (Err(_), Want::Either) => { self.rejected += 1; probe("rejected-request") }
                    (Err(c), Want::Ok(_)) => fail("unexpected-panic", format!("'{}' failed: {}", op.text(), c.text())),
                }
            }
            "eq" => {
                let (a, form) = (pick(0), op.m(3, 4)); let b = pick(k); k += 1;
                let (x, y) = (self.s[a].as_ref().unwrap() as *const Slot<T>, self.s[b].as_ref().unwrap() as *const Slot<T>);
                let (x, y) = unsafe { (&*x, &*y) };
                let (mut la, mut va) = view_of(op, &mut k, &x.d, false); let (mut lb, mut vb) = view_of(op, &mut k, &y.d, false);
                if form >= 2 { la.clear(); va = Some(V::whole(&x.d)); }
                if form >= 1 { lb.clear(); vb = Some(V::whole(&y.d)); }
                let want = match (va, vb) { (Some(p), Some(q)) => Want::Ok(p.dense(&x.d) == q.dense(&y.d)), _ => Want::Reject };
                let r = sut(|| match form { 0 => real(&x.m, &la) == real(&y.m, &lb), 1 => *real(&x.m, &la) == y.m, 2 => x.m == y.m, _ => !(x.m != y.m) });
                match (r, want) {
                    (Err(Caught::Injected(_)), _) => {}
                    (Ok(v), Want::Ok(w)) => { require!(v == w, "wrong-value", "comparison '{}' gives {v}, should give {w}", op.text()); self.done += 1 }
                    (Ok(_), _) => fail("not-rejected", format!("'{}' does not fit and was carried out", op.text())),
                    (Err(_), Want::Reject) | (Err(_), Want::Either) => { self.rejected += 1; }
                    (Err(c), Want::Ok(_)) => fail("unexpected-panic", format!("'{}' failed: {}", op.text(), c.text())),
                }
            }
            "swap_rows" | "swap_cols" | "rop" | "cop" => {
                // args: a, r1, r2, scalar, form, view
                let a = pick(0); let form = op.m(k, 2); k += 1;
                let d = self.s[a].as_ref().unwrap().d.clone();
                let (mut ls, mut v) = view_of(op, &mut k, &d, true);
                if form == 1 { ls.clear(); v = Some(V::whole(&d)); }
                let rows = name == "swap_rows" || name == "rop";
                let lim = v.map(|v| if rows { v.n } else { v.m }).unwrap_or(3);
                let idx = |x: i64| -> usize { if x >= 100 { lim + (x - 100) as usize * 32768 } else if lim == 0 { x as usize } else { (x as usize) % lim } };
                let (r1, r2) = (idx(op.a(1)), idx(op.a(2)));
                let sc = norm(op.a(3) as i128);
                let want = match v {
                    None => Want::Reject,
                    Some(v) => {
                        let other = if rows { v.m } else { v.n };
                        if r1 >= lim || r2 >= lim { if other == 0 { Want::Either } else { Want::Reject } } else {
                            let mut o = d.clone();
                            let g = |o: &Dense, r: usize, q: usize| if rows { v.get(o, r, q) } else { v.get(o, q, r) };
                            for q in 0..other {
                                let (x, y) = (g(&d, r1, q), g(&d, r2, q));
                                let put = |o: &mut Dense, r: usize, val: i128| if rows { v.set(o, r, q, val) } else { v.set(o, q, r, val) };
                                if name.starts_with("swap") { put(&mut o, r1, y); put(&mut o, r2, x); } else { put(&mut o, r1, norm(x + y * sc)); }
                            }
                            if Self::over(&o) { return; }
                            Want::Ok(o)
                        }
                    }
                };
                let region = match (&want, v) {
                    (Want::Ok(_), Some(v)) => {
                        // the rows (columns) the operation addresses
                        let (lo, hi) = if name.starts_with("swap") { (r1.min(r2), r1.max(r2)) } else { (r1, r1) };
                        Some((v, rows, lo, hi))
                    }
                    _ => None,
                };
                let e = if name == "rop" || name == "cop" { Some(T::mk(sc)) } else { None };
                // for the interrupted case: only the addressed lines may change
                let before = d.clone();
                self.in_place(op, a, v.unwrap_or(V::whole(&d)), want, move |m| {
                    if form == 1 { match name { "swap_rows" => m.swap_rows(r1, r2), "swap_cols" => m.swap_cols(r1, r2), "rop" => m.row_operation(r1, r2, e.unwrap()), _ => m.col_operation(r1, r2, e.unwrap()) } }
                    else { let x = real_mut(m, &ls); match name { "swap_rows" => x.swap_rows(r1, r2), "swap_cols" => x.swap_cols(r1, r2), "rop" => x.row_operation(r1, r2, e.unwrap()), _ => x.col_operation(r1, r2, e.unwrap()) } }
                });
                if let (Some((v, rows, lo, hi)), Some(s)) = (region, self.s[a].as_ref()) {
                    for i in 0..v.n { for j in 0..v.m { let l = if rows { i } else { j };
                        if l != lo && l != hi && v.get(&s.d, i, j) != v.get(&before, i, j) { fail("interrupted-operation-spilled", format!("'{}' on lines {lo} and {hi} changed entry ({i}, {j}) of the view", op.text())); } } }
                }
            }
            "write" | "wmove" => {
                let (a, b) = (pick(0), pick(1));
                if a == b { return; }
                let (da, db) = (self.s[a].as_ref().unwrap().d.clone(), self.s[b].as_ref().unwrap().d.clone());
                let (la, va) = view_of(op, &mut k, &da, true);
                let (mut lb, mut vb) = view_of(op, &mut k, &db, false);
                let fit = op.m(2, 4) != 0; // most of the time cut the source so that it fits
                if name == "wmove" { lb.clear(); vb = Some(V::whole(&db)); }
                if let (true, Some(x), Some(y)) = (fit && name == "write", va, vb) {
                    if x.n <= y.n && x.m <= y.m { lb.push(Lvl { r: R::To(x.n), c: R::To(x.m), t: false }); vb = Some(V { n: x.n, m: x.m, ..y }); }
                }
                let (mut la, mut va) = (la, va);
                if let (true, Some(x), Some(y)) = (fit && name == "wmove", va, vb) {
                    if y.n <= x.n && y.m <= x.m { la.push(Lvl { r: R::To(y.n), c: R::To(y.m), t: false }); va = Some(V { n: y.n, m: y.m, ..x }); }
                }
                let want = match (va, vb) {
                    (Some(x), Some(y)) if (x.n, x.m) == (y.n, y.m) => { let mut o = da.clone(); for i in 0..x.n { for j in 0..x.m { x.set(&mut o, i, j, y.get(&db, i, j)); } } Want::Ok(o) }
                    _ => Want::Reject,
                };
                if name == "write" {
                    let y = self.s[b].as_ref().unwrap() as *const Slot<T>;
                    self.in_place(op, a, va.unwrap_or(V::whole(&da)), want, |m| unsafe { let y = real(&(*y).m, &lb); real_mut(m, &la).write(y) })
                } else {
                    let y = self.s[b].take().unwrap().m;
                    self.in_place(op, a, va.unwrap_or(V::whole(&da)), want, move |m| real_mut(m, &la).write_and_move(y))
                }
            }
            "set" | "get" => {
                // args: a, i, j, value, form, view
                let a = pick(0); let form = op.m(k, 2); k += 1;
                let d = self.s[a].as_ref().unwrap().d.clone();
                let mutable = name == "set";
                let (ls, v) = view_of(op, &mut k, &d, mutable);
                let idx = |x: i64, lim: usize| -> usize { if x >= 100 { lim + (x - 100) as usize * 32768 } else if lim == 0 { x as usize } else { (x as usize) % lim } };
                let (n, m) = v.map(|v| (v.n, v.m)).unwrap_or((1, 1));
                let (i, j) = (idx(op.a(1), n), idx(op.a(2), m));
                let fits = v.is_some() && i < n && j < m;
                let x = norm(op.a(3) as i128);
                if mutable {
                    let one = v.filter(|_| fits).map(|v| { let (r, c) = v.pos(i, j); V { r0: r, c0: c, n: 1, m: 1, t: false } });
                    let want = if fits { let v = v.unwrap(); let mut o = d.clone(); let y = if form == 0 { x } else { norm(v.get(&d, i, j) + x) }; v.set(&mut o, i, j, y); if Self::over(&o) { return; } Want::Ok(o) } else { Want::Reject };
                    let e = T::mk(x);
                    self.in_place(op, a, one.unwrap_or(V { r0: 0, c0: 0, n: 0, m: 0, t: false }), want, move |m| { let s = real_mut(m, &ls); if form == 0 { s[(i, j)] = e } else { s[(i, j)] += e } })
                } else {
                    let s = self.s[a].as_ref().unwrap();
                    let r = sut(|| { let e = &real(&s.m, &ls)[(i, j)]; harness(|| e.get()) });
                    match (r, fits) {
                        (Err(Caught::Injected(_)), _) => {}
                        (Ok(x), true) => { let w = v.unwrap().get(&d, i, j); stop_if_bad(); require!(x == Some(w), "wrong-entry", "'{}' reads {x:?}, should read {w}", op.text()); self.done += 1; }
                        (Ok(_), false) => fail("not-rejected", format!("'{}' reads position ({i}, {j}) of a {n}x{m} view", op.text())),
                        (Err(_), false) => { self.rejected += 1; probe("rejected-request") }
                        (Err(c), true) => fail("unexpected-panic", format!("'{}' failed: {}", op.text(), c.text())),
                    }
                }
            }
            "size" => {
                let a = pick(0);
                let s = self.s[a].as_ref().unwrap();
                let (ls, v) = view_of(op, &mut k, &s.d, false);
                if let Some(v) = v {
                    let r = sut(|| { let w = real(&s.m, &ls); (w.size(), w.size_as_range(), w == w) });
                    match r {
                        Err(Caught::Injected(_)) => {}
                        Ok((sz, rg, same)) => { require!(sz == (v.n, v.m) && rg == (0..v.n, 0..v.m) && same, "wrong-size", "'{}': size {sz:?}, should be {:?}", op.text(), (v.n, v.m)); }
                        Err(c) => fail("unexpected-panic", format!("'{}' failed: {}", op.text(), c.text())),
                    }
                }
            }
            _ => {}
        }
    }
    fn make(&mut self, op: &Op) {
        // args: dst, n, m, mode, seed
        let (dst, n, m, mode, seed) = (op.m(0, SLOTS), op.a(1).max(0) as usize, op.a(2).max(0) as usize, op.m(3, 8), op.a(4));
        let mut d = Dense::zero(n, m);
        for k in 0..n * m { d.v[k] = T::norm(vals(seed, k)); }
        match mode {
            1 => { let z = Dense::zero(n, m); let want = if n == 0 || m == 0 { Want::Reject } else { Want::Ok(z) }; self.making(op, dst, want, || Matrix::zero(n, m)) }
            2 => { let mut z = Dense::zero(n, n); for i in 0..n { z.set(i, i, 1); } let want = if n == 0 { Want::Reject } else { Want::Ok(z) }; self.making(op, dst, want, || Matrix::identity(n)) }
            3 | 4 => {
                if T::random(1, 1).is_none() { return; }
                if n == 0 || m == 0 { return; }
                match sut(|| if mode == 3 { T::random(n, m).unwrap() } else { T::random_symmetric(n).unwrap() }) {
                    Ok(x) => {
                        let got = read("random matrix", &x);
                        if g().violation.is_some() { std::mem::forget(x); stop_if_bad(); unreachable!() }
                        let want = if mode == 3 { (n, m) } else { (n, n) };
                        require!((got.n, got.m) == want, "wrong-size", "'{}' has size {:?}, should have {want:?}", op.text(), (got.n, got.m));
                        if mode == 4 { require!(got == got.t(), "not-symmetric", "'{}' is not symmetric", op.text()); }
                        self.put(dst, x, got); self.done += 1;
                    }
                    Err(Caught::Injected(_)) => {}
                    Err(c) => fail("unexpected-panic", format!("'{}' failed: {}", op.text(), c.text())),
                }
            }
            5 if n >= 2 && m >= 1 => {
                // ragged rows
                let mut rows: Vec<Vec<T>> = (0..n).map(|i| (0..m).map(|j| T::mk(d.at(i, j))).collect()).collect();
                let who = (seed.unsigned_abs() as usize) % n;
                if seed % 2 == 0 || m == 1 { rows[who].push(T::mk(1)); } else { rows[who].pop(); }
                self.making(op, dst, Want::Reject, move || Matrix::from_array(rows))
            }
            6 if n == 0 || m == 0 => { let rows: Vec<Vec<T>> = (0..n).map(|_| vec![]).collect(); self.making(op, dst, Want::Reject, move || Matrix::from_array(rows)) }
            _ => {
                if n == 0 || m == 0 { return; }
                let rows: Vec<Vec<T>> = (0..n).map(|i| (0..m).map(|j| T::mk(d.at(i, j))).collect()).collect();
                self.making(op, dst, Want::Ok(d), move || Matrix::from_array(rows))
            }
        }
    }
}
pub fn stop_if_bad() { if g().violation.is_some() { fail("", "") } }

/// Generate a history. `mix` selects which kinds of operation are frequent.
pub fn gen_history(rng: &mut Rng, plan: &mut Plan, n_ops: usize, max_dim: i64, wild: u64, in_place: bool, depth: u64) {
    let dim = |rng: &mut Rng| { if rng.chance(1, 20) { 0 } else { rng.range(1, max_dim) } };
    let square = rng.chance(1, 2); let base = rng.range(1, max_dim);
    let swarm = rng.next(); // a random subset of the operation kinds per run
    for k in 0..n_ops {
        if k < 2 || rng.chance(1, 9) {
            let (a, b) = if square && rng.chance(3, 4) { (base, base) } else { (dim(rng), dim(rng)) };
            plan.op("make", &[rng.range(0, SLOTS as i64 - 1), a, b, *rng.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6]), rng.range(0, 99)]);
            continue;
        }
        let kinds: &[&str] = if in_place { &["set", "set", "get", "swap_rows", "swap_cols", "rop", "cop", "write", "wmove", "smul", "sdiv", "asg", "transpose", "asmat", "clone", "size", "eq"] }
            else { &["bin", "bin", "bin", "asg", "smul", "sdiv", "dot", "eq", "clone", "transpose", "drop", "asmat", "swap_rows", "rop", "swap_cols", "cop", "write", "wmove", "set"] };
        let mut name = *rng.pick(kinds);
        for _ in 0..8 { if swarm >> (rng::hash_str(name) % 60) & 1 == 1 { break; } name = *rng.pick(kinds); }
        let mut a: Vec<i64> = vec![rng.range(0, 4), rng.range(0, 4), rng.range(0, 4), rng.range(0, 3)];
        let w = wild;
        let idx = |rng: &mut Rng| if rng.chance(w, 100) { rng.range(100, 102) } else { rng.range(0, 11) };
        match name {
            "bin" | "dot" | "eq" => { if name == "bin" { a[2] = rng.range(0, 2); } if name == "dot" { } a.push(rng.range(0, 4)); gen_view(rng, &mut a, depth, w, false); gen_view(rng, &mut a, depth, w, false);
                if name == "dot" && rng.chance(3, 4) { // a row and a column
                    let l = a.len(); a.truncate(5); let _ = l;
                    let r = [6, rng.range(0, 7), 0, 2, 0, 0, 0, 0]; let c = [2, 0, 0, 6, rng.range(0, 7), 0, 0, 0];
                    a.push(1); a.extend(r); a.push(1); a.extend(c);
                } }
            "asg" => { a.push(rng.range(0, 4)); gen_view(rng, &mut a, depth, w, false); }
            "smul" | "sdiv" => { a[2] = rng.range(-3, 3); a[3] = rng.range(0, 4); let mu = a[3] == 2; gen_view(rng, &mut a, depth, w, mu); }
            "swap_rows" | "swap_cols" | "rop" | "cop" => { a[1] = idx(rng); a[2] = idx(rng); a[3] = rng.range(-3, 3); a.push(rng.range(0, 1)); gen_view(rng, &mut a, depth, w, true); }
            "write" | "wmove" => { gen_view(rng, &mut a, depth, w, true); gen_view(rng, &mut a, depth, w, false); }
            "set" | "get" => { a[1] = idx(rng); a[2] = idx(rng); a[3] = rng.range(-3, 3); a.push(rng.range(0, 1)); let mu = name == "set"; gen_view(rng, &mut a, depth, w, mu); }
            _ => gen_view(rng, &mut a, depth, w, false),
        }
        plan.op(name, &a);
    }
}

pub fn run_history<T: El>(plan: &Plan) {
    ledger_reset();
    let mut e = Engine::<T>::new();
    for (i, op) in plan.ops.iter().enumerate() {
        begin_op(plan, i);
        e.step(op);
        end_op(i);
        stop_if_bad();
        e.check_all(&format!("after step {i} '{}'", op.name));
        log(&op.name, e.done);
    }
    let s = std::mem::take(&mut e.s);
    if let Err(c) = sut(move || drop(s)) { fail("unexpected-panic", format!("dropping failed: {}", c.text())) }
    stop_if_bad();
    let l = ledger();
    require!(l.alive == 0, "never-destroyed", "{} of {} elements were never destroyed", l.alive, l.born);
    log("end", l.born);
}
