//! Computations of every part of the library, each one call drawn by its own seed, and what it gave as text.
use crate::c05::{analysis_coords, simplices, some_fn, some_graph, thing, KINDS};
use crate::common::*;
use alg::commutative::{bezout_identity, Rational, PID};
use alg::lin_alg::{ConstMatrix, ConstVector, Matrix, Module, SparseMatrix, SubMatrix, Vector};
use alg::non_commutative::permutation::{ConstPermutation, Cycle, Permutation, VecPermutation};
use alg::non_commutative::{Gset, Group};
use analysis::{AtomicSmoothFn, Function, MultiVarFn};
use crate::el::E;
use simcore::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::fmt::Write;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use topo_spaces::cubical::{Cube, CubicalCplx, EdgePath, UdnMorseCplx};
use topo_spaces::graph::{CubeFactor, Graph, RawSimpleGraph, SimpleGraph, WeightedSimpleGraph};
use topo_spaces::simplicial::{Simplex, SimplicialCplx};
use topo_spaces::{Complex, HomologyWithFieldCoefficients, IntegralHomology};
use util::{BinaryPool, LabeledSet, TupleIterable};

/// a value as text, bit by bit
pub trait Show { fn show(&self) -> String; }
macro_rules! show { ($($t:ty),*) => { $(impl Show for $t { fn show(&self) -> String { format!("{:?}", self) } })* } }
show!(i64, i8, usize, u32, bool, String, Vec<usize>, Vec<[usize; 2]>, Vec<[usize; 3]>, (i64, i64), (i64, i64, i64), ConstPermutation<2>, ConstPermutation<3>, ConstPermutation<5>, VecPermutation, EdgePath, Vec<i64>, Vec<Vec<i64>>, Vec<Vec<usize>>, (usize, usize));
show!(Vec<bool>, Simplex<String>, Vec<Simplex<String>>, Vec<String>);
impl Show for E { fn show(&self) -> String { self.val().to_string() } }
impl Show for f64 { fn show(&self) -> String { if self.is_nan() { "nan".into() } else { format!("{:016x}", self.to_bits()) } } }
impl Show for Vec<f64> { fn show(&self) -> String { self.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ") } }
impl Show for Rational { fn show(&self) -> String { format!("{}{}/{}", if *self < Rational::new(0, 1) { "-" } else { "" }, self.get_numerator(), self.get_denominator()) } }
impl<T: PID + Show> Show for SubMatrix<T> { fn show(&self) -> String { let (a, b) = self.size(); let mut s = format!("{a}x{b}"); for i in 0..a { s += " ["; for j in 0..b { s += &self[(i, j)].show(); s += " "; } s += "]"; } s } }
impl<C: PID + Show, B: Clone + PartialEq + PartialOrd + std::fmt::Debug> Show for Vector<C, B> { fn show(&self) -> String { self.iter().map(|(c, b)| format!("{}*{b:?}", c.show())).collect::<Vec<_>>().join(" ") } }
impl<T: PID + Show> Show for Matrix<T> { fn show(&self) -> String { (**self).show() } }
impl<T: PID + Show> Show for SparseMatrix<T> { fn show(&self) -> String { let (a, b) = self.size(); let mut s = format!("{a}x{b}"); for i in 0..a { s += " |"; for (j, x) in self.row_iter(i) { s += &format!(" {j}:{}", x.show()); } } for j in 0..b { s += " -"; for (i, x) in self.col_iter(j) { s += &format!(" {i}:{}", x.show()); } } s } }
impl<T: Show, U: Show> Show for (T, U) where (T, U): Two { fn show(&self) -> String { format!("({}; {})", self.0.show(), self.1.show()) } }
pub trait Two {}
impl<T: PID> Two for (Matrix<T>, Matrix<T>) {}
impl<T: PID> Two for (f64, Matrix<T>) {}
impl Two for (f64, f64) {}
impl<T: PID> Two for (Matrix<T>, f64) {}
impl<T: PID> Two for (Matrix<T>, Vec<f64>) {}
impl<T: PID + Show> Show for (Matrix<T>, Matrix<T>, Matrix<T>, Matrix<T>, Matrix<T>) { fn show(&self) -> String { [&self.0, &self.1, &self.2, &self.3, &self.4].iter().map(|m| m.show()).collect::<Vec<_>>().join(" / ") } }
impl<const N: usize> Show for ConstVector<f64, N> { fn show(&self) -> String { (0..N).map(|i| self[i].show()).collect::<Vec<_>>().join(" ") } }
impl<C: std::fmt::Debug + Clone> Show for Vec<(Matrix<i64>, Vec<C>)> { fn show(&self) -> String { self.iter().map(|(m, b)| format!("{} over {:?}", m.show(), b)).collect::<Vec<_>>().join("; ") } }
/// something shown by its own rendering
pub struct D<T>(pub T);
impl<T: std::fmt::Display> Show for D<T> { fn show(&self) -> String { format!("{}", self.0) } }
pub struct G<T>(pub T);
impl<T: std::fmt::Debug> Show for G<T> { fn show(&self) -> String { format!("{:?}", self.0) } }

/// a random source that can be asked from anywhere
pub struct Q(std::cell::RefCell<Rng>);
impl Q {
    pub fn new(s: u64) -> Q { Q(std::cell::RefCell::new(Rng::new(s))) }
    pub fn rng(&self) -> Rng { Rng::new(self.next()) }
    pub fn next(&self) -> u64 { self.0.borrow_mut().next() }
    pub fn below(&self, n: u64) -> u64 { self.0.borrow_mut().below(n) }
    pub fn usize(&self, n: usize) -> usize { self.0.borrow_mut().usize(n) }
    pub fn range(&self, a: i64, b: i64) -> i64 { self.0.borrow_mut().range(a, b) }
    pub fn chance(&self, a: u64, b: u64) -> bool { self.0.borrow_mut().chance(a, b) }
    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T { self.0.borrow_mut().pick(v) }
    pub fn shuffle<T>(&self, v: &mut Vec<T>) { self.0.borrow_mut().shuffle(v) }
}
thread_local! { pub static LENIENT: Cell<bool> = const { Cell::new(false) }; }
/// one call: what it gave, or how it was refused
fn go<R: Show>(f: impl FnOnce() -> R) -> String {
    match sut(f) {
        Ok(r) => { let s = quiet(|| r.show()); match sut(|| drop(r)) { Ok(()) => s, Err(c) => format!("{s}, then on release {}", c.text()) } }
        Err(c) => format!("! {}", c.text()),
    }
}

pub fn ints(r: &Q, a: usize, b: usize, k: i64) -> Vec<Vec<i64>> { (0..a.max(1)).map(|_| (0..b.max(1)).map(|_| r.range(-k, k)).collect()).collect() }
pub fn reals(r: &Q, a: usize, b: usize) -> Vec<Vec<f64>> { (0..a.max(1)).map(|_| (0..b.max(1)).map(|_| r.range(-80, 80) as f64 / 16.0).collect()).collect() }
pub fn rationals(r: &Q, a: usize, b: usize) -> Vec<Vec<Rational>> { (0..a.max(1)).map(|_| (0..b.max(1)).map(|_| Rational::new(r.range(-5, 5), r.range(1, 4))).collect()).collect() }
/// diagonally dominant
pub fn sound(r: &Q, n: usize) -> Vec<Vec<f64>> { let mut v = reals(r, n, n); for i in 0..v.len() { v[i][i] = 30.0 + 7.0 * i as f64 + r.below(16) as f64 / 16.0; } v }
pub fn symmetric(r: &Q, n: usize) -> Vec<Vec<f64>> { let mut v = reals(r, n, n); for i in 0..v.len() { for j in 0..i { v[i][j] = v[j][i] / 8.0; v[j][i] = v[i][j]; } v[i][i] = 10.0 * (i as f64 + 1.0) + r.below(16) as f64 / 16.0; } v }
pub fn perm_of(r: &Q, n: usize) -> Vec<Vec<usize>> { let mut v: Vec<usize> = (0..n).filter(|_| r.chance(4, 5)).collect(); r.shuffle(&mut v); let mut c = vec![]; while !v.is_empty() { let l = 1 + r.usize(v.len().min(4)); c.push(v.drain(..l).collect::<Vec<_>>()); } c }
pub fn permutation(c: Vec<Vec<usize>>) -> Permutation { Permutation::from_disjoint_cycles(c.into_iter().map(Cycle::from).collect()) }
pub fn points(r: &Q, n: usize) -> Vec<ConstVector<f64, 2>> { (0..n).map(|i| ConstVector::from([i as f64 * 1.37 + r.below(1000) as f64 / 977.0, r.below(1000) as f64 / 91.0])).collect() }
pub fn es(v: Vec<Vec<i64>>) -> Vec<Vec<E>> { harness(|| v.into_iter().map(|x| x.into_iter().map(E::new).collect()).collect()) }
pub fn sparse(r: &Q, a: usize, b: usize) -> ((usize, usize), Vec<Option<i64>>) { let d = 1 + r.below(9); ((a, b), (0..a * b).map(|_| if r.below(10) < d { Some(r.range(-9, 9)) } else { None }).collect()) }
pub fn make((s, v): ((usize, usize), Vec<Option<i64>>)) -> SparseMatrix<i64> { SparseMatrix::from((s, move |(i, j): (usize, usize)| { callback("panic-in-callback"); v[i * s.1 + j] })) }
pub fn cplx(s: Vec<Simplex<String>>) -> SimplicialCplx<String> { let mut c = SimplicialCplx::new(); for x in s { c.attach(x); } c }
struct Field_<'a>(&'a Vec<(Matrix<i64>, Vec<Simplex<String>>)>);
impl HomologyWithFieldCoefficients<Rational> for Field_<'_> {
    fn get_boundary_map(&self) -> Vec<Matrix<Rational>> { self.0.iter().map(|(m, _)| { let (a, b) = m.size(); if a == 0 || b == 0 { Matrix::zero(a, b) } else { Matrix::from_array((0..a).map(|i| (0..b).map(|j| Rational::new(m[(i, j)], 1)).collect()).collect()) } }).collect() }
}
pub fn embedding(g: &SimpleGraph, x: &[f64]) -> Vec<String> {
    let names: Vec<String> = g.vertices_list().iter().map(|v| v.to_string()).collect();
    let mut e = HashMap::new();
    for (i, n) in names.iter().take(g.n_essential_vertices()).enumerate() { e.insert(n.clone(), ConstVector::from([x[i % x.len()], i as f64])); }
    let m = g.modify_embedding(e);
    let mut out: Vec<String> = m.iter().map(|(v, p)| harness(|| format!("{v} {}", p.show()))).collect();
    out.sort();
    out
}
pub fn graph_text(g: &RawSimpleGraph) -> String {
    let mut s = String::new();
    let (n, e, c) = (g.n_vertices(), g.n_edges(), g.is_connected());
    let edges: Vec<String> = g.edge_iter().map(|f| f.to_string()).collect();
    let verts: Vec<String> = g.vertex_iter().map(|f| f.to_string()).collect();
    let all: Vec<CubeFactor> = g.iter().collect();
    write!(s, "{n} {e} {c} {edges:?} {verts:?}").ok();
    for f in all { write!(s, " {f}").ok(); }
    for v in 0..n { let a = g.get_adjacent_vertices(v); let b: Vec<usize> = g.adjacent_vertices_iter(v).collect(); let d = g.degree_of(v); write!(s, " {v}:{a:?}{b:?}{d}").ok(); }
    s
}
pub fn expr(d: usize, seed: u64, depth: usize) -> AtomicSmoothFn { let mut x = vec![]; analysis_coords(d, &mut x); some_fn(&mut Rng::new(seed), &x, depth) }
pub fn multi(c: usize, d: usize, s: u64, depth: usize) -> MultiVarFn { let i = Cell::new(0u64); MultiVarFn::new((c, d)).set(|c, f, x| { callback("panic-in-callback"); i.set(i.get() + 1); *f = some_fn(&mut Rng::new(s ^ i.get() ^ (c as u64) << 32), &x, depth); }) }

/// (name, weight, the largest size it is asked for)
pub const NAMES: &[(&str, u64, usize)] = &[
    ("smith", 3, 6), ("product", 2, 8), ("rows", 3, 8), ("views", 3, 8), ("basis", 2, 6), ("rank", 2, 7), ("rankreal", 1, 7), ("scale", 1, 7), ("equal", 1, 6), ("arrays", 2, 7), ("rationalproduct", 1, 6),
    ("det", 2, 8), ("solve", 2, 8), ("lu", 1, 8), ("hessenberg", 2, 8), ("qr", 2, 6), ("francis", 2, 7), ("spectrum", 1, 6), ("spectrumsym", 2, 7), ("eigen", 2, 6), ("eigensym", 2, 6), ("smallest", 1, 6), ("nth", 1, 6), ("tridiagonal", 2, 8), ("implicit", 2, 7), ("gramschmidt", 2, 7), ("orthogonal", 1, 7), ("lll", 2, 5), ("householder", 2, 8), ("givens", 1, 4), ("norms", 2, 8),
    ("rational", 2, 8), ("bezout", 1, 8), ("pid", 1, 8), ("cycle", 2, 12), ("permutation", 3, 14), ("power", 2, 10), ("act", 2, 14), ("swap", 2, 12), ("fixedperm", 2, 5), ("vecperm", 2, 5),
    ("elements", 4, 6), ("elementviews", 3, 6), ("elementsparse", 3, 7), ("elementlabels", 3, 9), ("elementsums", 3, 9),
    ("sparse", 3, 8), ("sparseproduct", 2, 7), ("sparsedense", 2, 7), ("formal", 3, 12), ("formalcubes", 2, 8), ("module", 2, 7),
    ("simplicial", 3, 8), ("boundary", 2, 8), ("simplicialhomology", 2, 7), ("fieldhomology", 2, 7), ("face", 1, 5), ("cubical", 2, 5), ("cubicalhomology", 1, 4), ("morse", 3, 5), ("morsehomology", 2, 4), ("cells", 2, 5), ("paths", 2, 4), ("path", 2, 8), ("flow", 2, 5),
    ("graph", 2, 10), ("simple", 3, 8), ("raw", 3, 12), ("rawlarge", 2, 5), ("labelslarge", 1, 5), ("cplxlarge", 1, 5), ("permlarge", 1, 5), ("sumlarge", 1, 5), ("relabel", 2, 10), ("embedding", 3, 8), ("laplacian", 2, 9),
    ("eval", 2, 6), ("derivative", 2, 5), ("jacobian", 2, 5), ("multi", 2, 5), ("triangulation", 3, 10), ("triangle", 1, 3),
    ("pool", 3, 200), ("labels", 2, 12), ("tuples", 2, 9), ("fixed", 2, 4),
    ("randommatrix", 1, 6), ("randomsymmetric", 1, 6), ("randomorthogonal", 1, 5), ("randomunit", 1, 6), ("randomsparse", 1, 6),
    ("render", 12, 12),
    ("scalars", 2, 6), ("formalfrom", 2, 10), ("rationalops", 2, 8), ("fixedassign", 2, 4), ("permparts", 2, 8), ("functionops", 2, 5), ("basepath", 2, 5), ("fullpool", 1, 150),
];
pub fn pick(r: &mut Rng, allow: impl Fn(&str) -> bool) -> (&'static str, i64, i64) {
    let all: Vec<_> = NAMES.iter().filter(|x| allow(x.0)).collect();
    let mut k = r.below(all.iter().map(|x| x.1).sum());
    for x in &all { if k < x.1 { return (x.0, r.below(1 << 40) as i64, r.below(x.2 as u64 + 1) as i64); } k -= x.1; }
    unreachable!()
}

/// the result of a computation; building what it needs is part of it
pub fn perform(name: &str, seed: i64, n: usize) -> String {
    let was = LENIENT.with(|l| l.replace(true));
    let r = catch_unwind(AssertUnwindSafe(|| {
        one(name, &Q::new(seed as u64 ^ rng::hash_str(name)), n)
    }));
    LENIENT.with(|l| l.set(was));
    match r { Ok(s) => s, Err(p) => match p.downcast::<Lenient>() { Ok(l) => format!("! {}", l.0), Err(p) => resume_unwind(p) } }
}
fn one(name: &str, r: &Q, n: usize) -> String {
    let k = n.max(1);
    match name {
        "smith" => { let (a, b) = (1 + r.usize(k), 1 + r.usize(k)); let q = *r.pick(&[1, 2, 4, 9]); let v = ints(r, a, b, q); go(move || Matrix::from_array(v).smith_normal_form()) }
        "product" => { let (a, b, c) = (1 + r.usize(k), 1 + r.usize(k), 1 + r.usize(k)); let (v, w) = (ints(r, a, b, 99), ints(r, if r.chance(1, 9) { b + 1 } else { b }, c, 99)); let t = r.chance(1, 3); go(move || { let (x, y) = (Matrix::from_array(v), Matrix::from_array(w)); if t { (&y.transpose()[(.., ..)] * &x.transpose()[(.., ..)]).transpose() } else { x * y } }) }
        "rows" => {
            let (a, b) = (1 + r.usize(k), 1 + r.usize(k)); let v = ints(r, a, b, 9);
            let ops: Vec<(u64, usize, usize, i64)> = (0..r.range(1, 8)).map(|_| (r.below(6), r.usize(a + (r.chance(1, 20) as usize)), r.usize(b + (r.chance(1, 20) as usize)), r.range(-3, 3))).collect();
            go(move || { let mut m = Matrix::from_array(v); for (o, i, j, c) in ops { let (x, y) = (i, (i + j) % a); let (p, q) = (j, (i + j) % b); match o { 0 => m.swap_rows(x, y), 1 => m.swap_cols(p, q), 2 => m.row_operation(x, y, c), 3 => m.col_operation(p, q, c), 4 => m[(.., ..)].swap_rows(y, x), _ => m *= c } } m })
        }
        "views" => {
            let (a, b) = (1 + r.usize(k), 1 + r.usize(k)); let v = ints(r, a, b, 99);
            let (x0, y0) = (r.usize(a), r.usize(b)); let (x1, y1) = (x0 + 1 + r.usize(a - x0 + (r.chance(1, 12) as usize)), y0 + 1 + r.usize(b - y0 + (r.chance(1, 12) as usize)));
            let w = ints(r, x1 - x0, y1 - y0, 9); let how = r.below(6);
            go(move || { let mut m = Matrix::from_array(v); match how {
                0 => { let t = m[(x0..x1, y0..y1)].as_matrix(); return t }
                1 => { let t = m[(x0..x1, y0..y1)].transpose().as_matrix(); return t }
                2 => { let s = Matrix::from_array(w); m[(x0..x1, y0..y1)].write(&s) }
                3 => m[(x0..x1, y0..y1)].write_and_move(Matrix::from_array(w)),
                4 => { let t = m[(x0..x1, ..)][(.., y0..y1)].as_matrix(); return t * 2 }
                _ => m[(x0.., ..y1)] *= 3,
            } m })
        }
        "basis" => { let (a, b) = (1 + r.usize(k), 1 + r.usize(k)); let v = ints(r, a, b, 3); let c: Vec<Cube> = (0..if r.chance(1, 12) { b + 1 } else { b }).map(|i| Cube::from(vec![CubeFactor::Vertex(i)])).collect(); go(move || { let x = Matrix::from_array(v) * c; let mut s = String::new(); for y in &x { write!(s, "{y}; ").ok(); } s }) }
        "rank" => { let v = rationals(r, k, 1 + r.usize(k)); go(move || Matrix::from_array(v).rank_as_linear_map()) }
        "rankreal" => { let (a, b) = (1 + r.usize(k), 1 + r.usize(k)); let v: Vec<Vec<f64>> = ints(r, a, b, 1).into_iter().map(|x| x.into_iter().map(|y| y as f64).collect()).collect(); go(move || Matrix::from_array(v).rank_as_linear_map()) }
        "scale" => { let v = reals(r, k, 1 + r.usize(k)); let c = r.range(-4, 4) as f64 / 2.0; let h = r.below(4); go(move || { let mut m = Matrix::from_array(v); match h { 0 => m * c, 1 => m / c, 2 => { m *= c; m } _ => { m /= c; m } } }) }
        "equal" => { let v = ints(r, k, k, 9); let mut w = v.clone(); if r.chance(1, 2) { let (i, j) = (r.usize(k), r.usize(k)); w[i][j] += 1; } if r.chance(1, 5) { w.pop(); if w.is_empty() { w.push(vec![1, 2]); } } go(move || { let (a, b) = (Matrix::from_array(v), Matrix::from_array(w)); let t = a.clone().transpose().transpose(); vec![a == b, *a == *b, a == t, *a == b] }) }
        "arrays" => { let mut v = ints(r, k, 1 + r.usize(k), 9); if r.chance(1, 5) { let i = r.usize(v.len()); v[i].push(7); } let (a, b) = (r.usize(9), r.usize(9)); let h = r.below(4); go(move || match h { 0 => Matrix::zero(a, b), 1 => Matrix::identity(a), 2 => { let m = Matrix::from_array(v); m.clone().transpose() * m } _ => Matrix::from_array(v).transpose() }) }
        "rationalproduct" => { let (a, b, c) = (1 + r.usize(k), 1 + r.usize(k), 1 + r.usize(k)); let (v, w) = (rationals(r, a, b), rationals(r, b, c)); go(move || Matrix::from_array(v) * Matrix::from_array(w)) }
        "det" => { let v = if r.chance(1, 6) { reals(r, k, k + 1) } else { sound(r, k) }; go(move || { let m = Matrix::from_array(v); vec![m[(.., ..)].det(), m.det()] }) }
        "solve" => { let v = sound(r, k); let b = reals(r, if r.chance(1, 9) { k + 1 } else { k }, 1); go(move || Matrix::from_array(v).solve(Matrix::from_array(b))) }
        "lu" => { let v = sound(r, k); go(move || { let mut m = Matrix::from_array(v); m.lu(); m }) }
        "hessenberg" => { let v = reals(r, k, k); go(move || { let mut m = Matrix::from_array(v); m.hessenberg_form(); m }) }
        "qr" => { let v = symmetric(r, k); let w = r.chance(1, 2); go(move || { let mut m = Matrix::from_array(v); if w { let q = m[(.., ..)].qr_with_op(); (m, q) } else { m.qr(); (m, Matrix::zero(1, 1)) } }) }
        "francis" => { let v = symmetric(r, n.max(3)); let w = r.chance(1, 2); go(move || { let mut m = Matrix::from_array(v); m.hessenberg_form(); if w { let q = m[(.., ..)].francis_step_with_op(); (m, q) } else { m.francis_step(); (m, Matrix::zero(1, 1)) } }) }
        "spectrum" => { let v = symmetric(r, k); go(move || Matrix::from_array(v).spectrum()) }
        "spectrumsym" => { let v = symmetric(r, k); go(move || Matrix::from_array(v).spectrum_symmetric()) }
        "eigen" => { let v = symmetric(r, k); go(move || Matrix::from_array(v).spectrum_with_invariant_space()) }
        "eigensym" => { let v = symmetric(r, k); go(move || Matrix::from_array(v).spectrum_with_invariant_space_symmetric()) }
        "smallest" => { let v = symmetric(r, k); let c = r.usize(k + 1); go(move || Matrix::from_array(v).spectrum_with_n_smallest_eigenvecs_symmetric(c)) }
        "nth" => { let v = symmetric(r, k); let c = r.usize(k + (r.chance(1, 9) as usize)); go(move || Matrix::from_array(v).spectrum_with_n_th_eigenvec_symmetric(c)) }
        "tridiagonal" => { let v = symmetric(r, k); let w = r.chance(1, 2); go(move || { let mut m = Matrix::from_array(v); m[(.., ..)].householder_tridiagonalization(w); let q = m[(.., ..)].extract_householder_vecs(); (m, q) }) }
        "implicit" => { let v = symmetric(r, n.max(2)); let (w, h) = (r.chance(1, 2), r.chance(1, 2)); go(move || { let mut m = Matrix::from_array(v); if h { m[(.., ..)].householder_tridiagonalization(false); let q = m[(.., ..)].implicit_symmetric_qr_with_wilkinson_shift(w); (m, q) } else { let q = m[(.., ..)].symmetric_qr(w); (m, q) } }) }
        "gramschmidt" => { let v = sound(r, k); let w = r.chance(1, 2); go(move || if w { Matrix::from_array(v).gram_schmidt() } else { Matrix::from_array(v).gram_schmidt_without_normalize() }) }
        "orthogonal" => { let v = sound(r, k); go(move || { let q = Matrix::from_array(v).gram_schmidt(); q.clone().transpose() * q }) }
        "lll" => { let v = sound(r, k); let d = *r.pick(&[0.5, 0.75, 0.9]); go(move || Matrix::from_array(v).lll_lattice_reduce(d)) }
        "householder" => { let v = reals(r, k, if r.chance(1, 9) { 2 } else { 1 }); let h = r.chance(1, 2); go(move || { let m = Matrix::from_array(v); if h { m[(.., ..)].householder_vec() } else { m.householder_vec() } }) }
        "givens" => { let (a, b) = (r.range(-9, 9) as f64 / 4.0, r.range(-9, 9) as f64 / 4.0); go(move || Matrix::<f64>::givens_rotation(a, b)) }
        "norms" => { let v = reals(r, k, 1 + r.usize(k)); go(move || { let m = Matrix::from_array(v); let c = m[(.., 0..1)].as_matrix(); vec![c.one_norm(), c.two_norm(), c.inf_norm(), m.frobenius_norm(), m[(.., 0)].two_norm(), m[(0, ..)].transpose().one_norm(), m[(.., 0)].transpose().dot(&m[(.., 0)])] }) }
        "scalars" => { let v = reals(r, k, 1 + r.usize(k)); let w = ints(r, k, 1 + r.usize(k), 99); let c = r.range(-9, 9); let x = r.range(1, 30) as f64 / 8.0; let h = r.below(6);
            go(move || { let (m, n) = (Matrix::from_array(v), Matrix::from_array(w)); let (a, b) = match h { 0 => (x * &*m, c * &*n), 1 => (&*m / x, &*n * c), 2 => { let (mut m, mut n) = (m, n); m /= x; n *= c; (m, n) } 3 => { let (mut m, mut n) = (m, n); m[(0, ..)] /= x; n[(.., 0)] *= c; (m, n) } 4 => (x * &m[(.., 0)], c * &n[(0, ..)]), _ => (m / x, n * c) }; let f = (&*a).frobenius_norm(); format!("{} {} {}", a.show(), b.show(), f.show()) }) }
        "formalfrom" => { let v: Vec<usize> = (0..n).map(|_| r.usize(n + 1)).collect(); let c: Vec<usize> = (0..4).map(|_| r.usize(5)).collect(); let h = r.below(8);
            go(move || { let cube = |i: usize| Cube::from(vec![CubeFactor::Vertex(i)]); let t = match h { 0 => Vector::<i64, usize>::from(v).show(), 1 => v.into_iter().collect::<Vector<i64, usize>>().show(), 2 => Vector::<i64, usize>::from([c[0], c[1], c[2], c[3]]).show(), 3 => (Vector::<i64, usize>::from(v) + c[0] - c[1]).show(), 4 => (Vector::<f64, usize>::from(v) / 4.0).show(), 5 => (cube(c[0]) + cube(c[1])).show(), 6 => (cube(c[0]) - (cube(c[1]) + (-cube(c[2])))).show(), _ => ((cube(c[0]) - cube(c[1])) + 3 * cube(c[2])).show() }; t }) }
        "rationalops" => { let v: Vec<(i64, i64)> = (0..k).map(|_| (r.range(-20, 20), r.range(1, 9))).collect(); go(move || { let mut v: Vec<Rational> = v.into_iter().map(|(a, b)| Rational::new(a, b)).collect(); let s: Rational = v.iter().copied().sum(); let o: Vec<_> = v.iter().map(|x| x.partial_cmp(&s)).collect(); let q: Vec<String> = v.iter().map(|x| { let (u, w) = x.simplify(); let (d, e) = x.euclid_div(Rational::new(3, 2)); format!("{} {} {} {} {}", -*x, u, w, d, e) }).collect(); v.sort(); format!("{s} {o:?} {q:?} {}", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(" ")) }) }
        "fixedassign" => { let f = |r: &Q| -> [f64; 3] { std::array::from_fn(|_| r.range(-40, 40) as f64 / 8.0) }; let (a, b, c, d) = (f(r), f(r), f(r), f(r)); let h = r.below(4);
            go(move || { let (mut x, y) = (ConstVector::from(a), ConstVector::from(b)); let (mut m, w) = (ConstMatrix::from([a, b, c]), ConstMatrix::from([d, c, b])); match h { 0 => { x += y; m += w; } 1 => { x -= y; m -= w; } 2 => { x *= 1.5; m *= 1.5; } _ => { x /= 4.0; m /= 4.0; } } let (n, q) = (-m, w / 2.0); let mut out: Vec<f64> = (0..3).map(|i| x[i]).collect(); for i in 0..3 { for j in 0..3 { out.push(m[i][j]); out.push(n[i][j]); out.push(q[i][j]); } } out }) }
        "permparts" => { let f = || -> [usize; 5] { let mut v = vec![0usize, 1, 2, 3, 4]; r.shuffle(&mut v); v.try_into().unwrap() }; let (a, b) = (f(), f()); let mut v: Vec<usize> = (0..n + 1).collect(); r.shuffle(&mut v); v.truncate(1 + r.usize(n + 1));
            go(move || { let (mut x, y) = (ConstPermutation::from(a), ConstPermutation::from(b)); let i = ConstPermutation::<5>::identity(); x *= y; let z = x.inverse(); let w = VecPermutation::from(z) * VecPermutation::from(i); let p = Permutation::from_cycle(Cycle::from(v)); let q = p.clone().inverse(); let m: Vec<usize> = (0..12).map(|i| p.map(q.map(i)) + 100 * q.map(i)).collect(); format!("{x:?} {z:?} {i:?} {w:?} {p} {q} {m:?}") }) }
        "functionops" => { let d = 1 + r.usize(3); let s = r.next(); let p: Vec<f64> = (0..d).map(|_| 0.3 + r.below(100) as f64 / 64.0).collect(); let depth = n.min(2); let h = r.below(12);
            go(move || { let (f, g) = (expr(d, s, depth), expr(d, s ^ 77, depth)); let mut x = vec![]; analysis_coords(d, &mut x); let (u, v) = (x[0], x[d - 1]);
                let f = match h { 0 => { let mut f = f; f += g; f } 1 => { let mut f = f; f -= g; f } 2 => { let mut f = f; f *= g; f } 3 => { let mut f = f; f /= g; f } 4 => f / g, 5 => f / 2.5, 6 => f.powf(1.5), 7 => u * 3.0 - v / 4.0, 8 => u / v + f * v, 9 => u.powf(0.5) * g, 10 => -f - u, _ => { let m = MultiVarFn::new((2, d)).set(|i, h, _| *h = if i == 0 { f.clone() } else { g.clone() }); m[1].clone() } };
                let p = Matrix::from_array(p.into_iter().map(|v| vec![v]).collect()); format!("{f} {} {}", f.eval(&p).show(), f.clone().partial_derivative(d - 1)) }) }
        "basepath" => { let e = some_graph(&mut r.rng(), n); let h = r.chance(1, 2); go(move || { let c = UdnMorseCplx::new(&Graph::<i64>::from(e), 2, None); let mut s = String::new(); for x in c.get_cells_of_dim(0).into_iter().take(6) { let p = c.factor_pool.get_edge_path_to_from_base_pt(x, h); write!(s, "{p:?} ").ok(); } for x in c.get_cells_of_dim(1).into_iter().take(6) { for y in x.get_ends() { let p = c.factor_pool.get_edge_path_to_from_base_pt(y, h); write!(s, "{p:?} ").ok(); } } s }) }
        "fullpool" => { let (m, h) = (n, r.below(3)); go(move || { let mut p = BinaryPool::new(m); if h > 0 { p.fill(); } if h == 2 && m > 0 { p.remove(m - 1); } let a = p.is_full(); format!("{a} {} {}", p.n_elements(), p.iter().count()) }) }
        "rational" => { let v: Vec<(i64, i64, u64)> = (0..k).map(|_| (r.range(-20, 20), r.range(if r.chance(1, 30) { 0 } else { 1 }, 9), r.below(7))).collect(); go(move || { let mut x = Rational::new(1, 2); let mut s = String::new(); for (a, b, o) in v { let y = Rational::new(a, b); x = match o { 0 | 1 => x + y, 2 => x - y, 3 => x * y, 4 => x / y, 5 => x.abs(), _ => y }; let f: f64 = x.into(); write!(s, "{x} {:?} {:?} {}; ", x.cmp(&y), x.get_denominator(), f.to_bits()).ok(); } s }) }
        "bezout" => { let (a, b) = (r.range(-500, 500), r.range(-500, 500)); go(move || bezout_identity(a, b)) }
        "pid" => { let (a, b) = (r.range(-500, 500), r.range(1, 60)); go(move || { let (q, t) = a.euclid_div(b); let (u, v) = a.simplify(); vec![q, t, u, v, b.divides(a) as i64] }) }
        "cycle" => { let mut v: Vec<usize> = (0..k).collect(); r.shuffle(&mut v); if r.chance(1, 8) { v.push(v[0]); } go(move || { let c = Cycle::from(v); let d: Vec<usize> = c.to_vec(); let mut s = format!("{d:?}"); write!(s, " {c}").ok(); s }) }
        "permutation" => { let (p, q) = (perm_of(r, n), perm_of(r, n)); let h = r.below(3); go(move || { let (p, q) = (permutation(p), permutation(q)); let x = match h { 0 => p * q, 1 => p.inverse() * q, _ => vec![p, q].into_iter().product() }; let m: Vec<usize> = (0..20).map(|i| x.map(i)).collect(); let u: Vec<usize> = x.unfixed_indeces_iter().collect(); let mut s = String::new(); write!(s, "{x} {m:?} {u:?}").ok(); s }) }
        "power" => { let p = perm_of(r, n); let e = r.range(0, 7); go(move || { let x = permutation(p) ^ e; let m: Vec<usize> = (0..20).map(|i| x.map(i)).collect(); m }) }
        "act" => { let p = perm_of(r, n); let v: Vec<i64> = (0..(n as i64 - r.chance(1, 9) as i64).max(0)).map(|i| i * i).collect(); let h = r.chance(1, 2); go(move || { let p = permutation(p); if h { v << p } else { let mut v = v; v.action_by(p); v } }) }
        "swap" => { let (a, b, c, d) = (r.usize(4), r.usize(5), r.usize(4), r.usize(5)); let h = r.chance(1, 3); go(move || { let x = if h { Permutation::cyclic_from(a..a + b + 1) } else { Permutation::swap(a..a + b, a + b + c..a + b + c + d) }; let m: Vec<usize> = (0..24).map(|i| x.map(i)).collect(); m }) }
        "fixedperm" => { let f = || -> [usize; 5] { let mut v = vec![0usize, 1, 2, 3, 4]; r.shuffle(&mut v); v.try_into().unwrap() }; let (a, b) = (f(), f()); go(move || { let x = ConstPermutation::from(a) * ConstPermutation::from(b); let o = x.order(); let mut s = format!("{x:?} {o}"); let y: ConstPermutation<5> = vec![x, x].into_iter().product(); write!(s, " {y:?}").ok(); s }) }
        "vecperm" => { let mut f = || -> Vec<usize> { let mut v: Vec<usize> = (0..*r.pick(&[1usize, 2, 3, 5, 8])).collect(); r.shuffle(&mut v); v }; let (a, b, c) = (f(), f(), f()); let h = r.below(3);
            go(move || { let (x, y, z) = (vecperm(a), vecperm(b), vecperm(c)); let mut p = x.clone() * y; if h == 1 { p *= z; } else if h == 2 { p = p.inverse(); p *= z; } let e: Vec<usize> = (0..9).map(|i| p.eval(i)).collect(); let o = p.clone().order(); format!("{p:?} {e:?} {o}") }) }
        "elements" => { let (a, b, c) = (1 + r.usize(k), 1 + r.usize(k), 1 + r.usize(k)); let (v, w, x) = (ints(r, a, b, 99), ints(r, if r.chance(1, 9) { b + 1 } else { b }, c, 99), ints(r, a, b, 9)); let s = r.range(0, 9); let h = r.below(9);
            go(move || { let (v, w, x) = (es(v), es(w), es(x)); match h { 0 | 1 => Matrix::from_array(v) * Matrix::from_array(w), 2 => Matrix::from_array(v) + Matrix::from_array(x), 3 => { let mut m = Matrix::from_array(v); m -= &Matrix::from_array(x)[(.., ..)]; m } 4 => Matrix::from_array(v) * E::new(s), 5 => &(&Matrix::from_array(v)[(.., ..)] * Matrix::from_array(w).transpose().transpose())[(.., ..)] - &Matrix::zero(a, c)[(.., ..)], 6 => { let m = Matrix::from_array(v); let e = m == Matrix::from_array(x); let f = m == m.clone(); Matrix::from_array(vec![vec![E::new(e as i64), E::new(f as i64)]]) } 7 => Matrix::identity(a) + Matrix::from_array(v).transpose() * Matrix::from_array(x).transpose().transpose(), _ => Matrix::from_array(vec![vec![Matrix::from_array(v)[(0, ..)].dot(&Matrix::from_array(w)[(.., 0)])]]) } }) }
        "elementviews" => { let (a, b) = (1 + r.usize(k), 1 + r.usize(k)); let v = ints(r, a, b, 99); let o: Vec<(u64, usize, usize, i64)> = (0..1 + r.usize(6)).map(|_| (r.below(7), r.usize(a), r.usize(b), r.range(0, 9))).collect();
            go(move || { let mut m = Matrix::from_array(es(v)); for (o, i, j, s) in o { match o { 0 => m.swap_rows(i, a - 1), 1 => m.swap_cols(j, b - 1), 2 => m.row_operation(i, a - 1 - i, E::new(s)), 3 => m.col_operation(j, b - 1 - j, E::new(s)), 4 => m[(i.., ..j + 1)] *= E::new(s), 5 => { let x = m[(..i + 1, j..)].as_matrix(); m[(..i + 1, j..)].write_and_move(x * E::new(3)) } _ => { let x = m[(i.., j..)].as_matrix(); let m_ = m.clone(); m[(i.., j..)].write(&(&m_[(i.., j..)] + &*x)); } } } m }) }
        "elementsparse" => { let (a, b, c) = (1 + r.usize(k), 1 + r.usize(k), 1 + r.usize(k)); let (v, w) = (sparse(r, a, b), sparse(r, b, c)); let h = r.below(4); let e = |(s, v): ((usize, usize), Vec<Option<i64>>)| SparseMatrix::from((s, move |(i, j): (usize, usize)| { callback("panic-in-callback"); v[i * s.1 + j].map(E::new) })); go(move || match h { 0 => (e(v) * e(w)).show(), 1 => e(v).transpose().transpose().show(), 2 => e(v).transpose().show(), _ => { let m = e(v); let n = m.clone(); format!("{} {}", m == n, n.show()) } }) }
        "elementlabels" => { let v: Vec<i64> = (0..k as i64).collect(); let o: Vec<(u64, i64)> = (0..r.range(0, 12)).map(|_| (r.below(3), r.below(k as u64) as i64)).collect(); let f: Vec<Vec<i64>> = (0..r.usize(4)).map(|_| { let mut t: Vec<i64> = (0..k as i64).filter(|_| r.chance(1, 3)).collect(); r.shuffle(&mut t); t.truncate(4); t }).filter(|t| !t.is_empty()).collect(); let h = r.below(3);
            go(move || match h {
                0 => { let mut s = LabeledSet::new(v.into_iter().map(E::new).collect::<Vec<E>>()); for (o, x) in o { let x = E::new(x); match o { 0 => { let mut t = s.clone(); t.add(x); } 1 => s.add(x), _ => s.remove(x) } } format!("{:?}", s.iter().map(|x| x.val()).collect::<Vec<_>>()) }
                1 => { let mut c = SimplicialCplx::new(); for t in f { c.attach(Simplex::from(t.into_iter().map(E::new).collect::<Vec<E>>())); } let d = c.dim(); format!("{d} {:?} {}", (0..d + 1).map(|i| c.n_cells_of_dim(i)).collect::<Vec<_>>(), c.boundary_map().iter().map(|m| m.0.show()).collect::<Vec<_>>().join(" / ")) }
                _ => { let e: Vec<E> = v.into_iter().map(E::new).collect(); let t: Vec<Vec<i64>> = e.tuple_iter(2).map(|t| t.into_iter().map(|x| x.val()).collect()).collect(); format!("{t:?}") }
            }) }
        "elementsums" => { let f = |r: &Q| -> Vec<(i64, i64)> { (0..r.usize(n + 1)).map(|_| (r.range(-4, 4), r.below(n as u64 + 1) as i64)).collect() }; let (a, b) = (f(r), f(r)); let h = r.below(5); go(move || { use crate::c13::B; let s = |v: Vec<(i64, i64)>| -> Vector<E, B> { let mut t = Vector::zero(); for (c, x) in v { callback("panic-in-iterator"); t = t + Vector::<E, B>::from(B(E::new(x))) * E::new(c); } t }; let (a, b) = (s(a), s(b)); let x = match h { 0 => a + b, 1 => a - b, 2 => -a, 3 => a * E::new(5) + b, _ => vec![a, b].into_iter().sum() }; x.iter().map(|(c, b)| format!("{}*{}", c.val(), b.0.val())).collect::<Vec<_>>().join(" ") }) }
        "sparse" => { let (a, b) = (r.usize(k + 1), r.usize(k + 1)); let m = sparse(r, a, b); let w = sparse(r, a, b); let h = r.below(3); go(move || { let m = make(m); match h { 0 => m, 1 => m.transpose(), _ => { let e = m == make(w); let f = m == Matrix::<i64>::zero(a, b); SparseMatrix::from(((1, 2), move |(_, j): (usize, usize)| if j == 0 { Some(e as i64) } else { Some(f as i64) })) } } }) }
        "sparseproduct" => { let (a, b, c) = (1 + r.usize(k), 1 + r.usize(k), 1 + r.usize(k)); let (v, w) = (sparse(r, a, b), sparse(r, if r.chance(1, 9) { b + 1 } else { b }, c)); go(move || make(v) * make(w)) }
        "sparsedense" => { let (a, b, c) = (1 + r.usize(k), 1 + r.usize(k), 1 + r.usize(k)); let (v, w) = (sparse(r, a, b), ints(r, b, c, 9)); let u = ints(r, c, a, 9); let h = r.chance(1, 2); go(move || if h { make(v) * Matrix::from_array(w) } else { Matrix::from_array(u) * make(v) }) }
        "formal" => { let f = |r: &Q| -> Vec<(i64, Cube)> { (0..r.usize(n + 1)).map(|_| (r.range(-4, 4), Cube::from(vec![CubeFactor::Vertex(r.usize(n + 1))]))).filter(|x| x.0 != 0).collect() }; let (a, b) = (f(r), f(r)); let h = r.below(6); go(move || { let s = |v: Vec<(i64, Cube)>| v.into_iter().map(|(c, b)| c * b).sum::<Vector<i64, Cube>>(); let (a, b) = (s(a), s(b)); let x = match h { 0 => a + b, 1 => a - b, 2 => -a, 3 => a * 3 + b, 4 => { let mut t = a; while t.len() > 2 { t.remove(1); } t } _ => a.into_iter().map(|(c, b)| (c + 1) * b).filter(|v| v.len() > 0).sum::<Vector<i64, Cube>>() }; let mut s = String::new(); write!(s, "{} {x}", x.len()).ok(); s }) }
        "formalcubes" => { let v: Vec<Vec<CubeFactor>> = (0..k).map(|i| (0..1 + r.usize(3)).map(|j| if r.chance(1, 2) { CubeFactor::Vertex(3 * i + 9 * j) } else { CubeFactor::Edge([3 * i + 9 * j, 3 * i + 9 * j + 1]) }).collect()).collect(); go(move || { let mut s = String::new(); for c in v { let b = Cube::from(c.clone()).get_boundary(); write!(s, "{b} / ").ok(); if c.iter().filter(|f| f.is_edge()).count() == 1 { let [x, y] = Cube::from(c).get_ends(); write!(s, "{x} {y}").ok(); } } s }) }
        "module" => { let e = |r: &Q| -> (usize, Vec<(i64, usize)>) { (r.usize(4), (0..r.usize(k + 1)).map(|_| (r.range(1, 6), 1 + r.usize(2))).collect()) }; let (a, b) = (e(r), e(r)); go(move || { let (x, y) = (Module::new(a.0, a.1), Module::new(b.0, b.1)); let mut s = String::new(); write!(s, "{x} {y} {}", x.is_zero()).ok(); let i = x.is_isomorphic_to(y); write!(s, " {i}").ok(); s }) }
        "simplicial" => { let s = simplices(&mut r.rng(), n); go(move || { let c = cplx(s); let d = c.dim(); let v: Vec<usize> = (0..d + 2).map(|i| c.n_cells_of_dim(i)).collect(); let l = c.get_labeled_zero_skeleton().clone(); let k = c.is_connected(); format!("{d} {v:?} {l:?} {k} {}", c.n_vertices()) }) }
        "boundary" => { let s = simplices(&mut r.rng(), n); go(move || cplx(s).boundary_map()) }
        "simplicialhomology" => { let s = simplices(&mut r.rng(), n); let m = if r.chance(1, 3) { Some(r.usize(3)) } else { None }; go(move || D(IntegralHomology::new(&cplx(s), m))) }
        "fieldhomology" => { let s = simplices(&mut r.rng(), n); go(move || { let b = cplx(s).boundary_map(); Field_(&b).homology() }) }
        "face" => { let s = simplices(&mut r.rng(), n); go(move || { let mut c = SimplicialCplx::new_from(s[0].clone()); for x in s { c.attach(x); } let d = c.n_cells_of_dim(0); let z = SimplicialCplx::new_from_zero_skeleton(c.get_labeled_zero_skeleton().clone()); (d, z.n_vertices()) }) }
        "cubical" => { let e = some_graph(&mut r.rng(), n); let m = 2 + r.usize(2); go(move || { let c = CubicalCplx::udc(&Graph::<i64>::from(e), m); let k = c.n_cells(); let mut s = String::new(); write!(s, "{k} {c}").ok(); s }) }
        "cubicalhomology" => { let e = some_graph(&mut r.rng(), n.min(2)); go(move || D(IntegralHomology::new(&CubicalCplx::udc(&Graph::<i64>::from(e), 2), None))) }
        "morse" => { let e = some_graph(&mut r.rng(), n); let m = 2 + r.usize(2); let u = if r.chance(1, 4) { Some(1 + r.usize(2)) } else { None }; go(move || D(UdnMorseCplx::new(&Graph::<i64>::from(e), m, u))) }
        "morsehomology" => { let e = some_graph(&mut r.rng(), n); let m = 2 + r.usize(2); go(move || { let h = IntegralHomology::new(&UdnMorseCplx::new(&Graph::<i64>::from(e), m, None), None); let mut s = String::new(); write!(s, "{h} {} {}", h.get_description_of_cycles(), h.get_description_of_boundaries()).ok(); s }) }
        "cells" => { let e = some_graph(&mut r.rng(), n); let m = 2 + r.usize(2); go(move || { let c = UdnMorseCplx::new(&Graph::<i64>::from(e), m, None); let mut s = String::new(); for d in 0..3 { for x in c.get_cells_of_dim(d) { write!(s, "{x} ").ok(); } } for (m, b) in c.boundary_map() { write!(s, "{m} {}", b.len()).ok(); } s }) }
        "paths" => { let e = some_graph(&mut r.rng(), n); go(move || { let c = UdnMorseCplx::new(&Graph::<i64>::from(e), 2, None); let mut s = String::new(); for x in c.get_cells_of_dim(1) { let p = c.factor_pool.get_edge_path(x.clone()); let q = p.evaluate_permutation::<2>(); write!(s, "{p:?} {q:?} ").ok(); let p = p.inverse(); write!(s, "{p:?}").ok(); } s }) }
        "path" => { let f = |r: &Q| -> Vec<Vec<[usize; 2]>> { (0..r.usize(k + 1)).map(|_| { let v = r.usize(4); vec![if r.chance(1, 2) { [v, v + 1] } else { [v + 1, v] }] }).collect() }; let (a, b) = (f(r), f(r)); go(move || { let (a, b) = (EdgePath::from(a), EdgePath::from(b)); a.composed_with(b.inverse()).composed_with(EdgePath::trivial_path()).reduce_to_geodesic() }) }
        "flow" => { let e = some_graph(&mut r.rng(), n); go(move || { let g = Graph::<i64>::from(e); let c = CubicalCplx::udc(&g, 2); let h = SimpleGraph::subdivided_graph_from(&g, 2); let mut s = String::new(); for (_, b) in c.boundary_map().into_iter().take(2) { for x in b.into_iter().take(6) { let y = x.clone().flow(&h); write!(s, "{x} -> {y}; ").ok(); } } s }) }
        "graph" => { let e = some_graph(&mut r.rng(), n); go(move || { let g = Graph::<i64>::from(e); vec![g.n_vertices(), g.n_non_loop_edges(), g.n_non_loop_edges_up_to_multiplicity(), g.n_loops()] }) }
        "simple" => { let e = some_graph(&mut r.rng(), n); let m = r.usize(4); go(move || { let g = Graph::<i64>::from(e); let h = if m == 0 { SimpleGraph::from(&g) } else { SimpleGraph::subdivided_graph_from(&g, m) }; let mut s = graph_text(&h); write!(s, " {h} {} {}", h.n_vertices(), h.n_essential_vertices()).ok(); let t: Vec<[usize; 2]> = (0..h.n_vertices()).flat_map(|j| (0..j).map(move |i| [i, j])).filter(|&x| h.maximal_tree_contains(x)).collect(); let d: Vec<usize> = (0..h.n_vertices()).map(|i| h.degree_in_maximal_tree(i)).collect(); write!(s, " {t:?} {d:?}").ok(); for v in h.vertices_list() { write!(s, "{v} ").ok(); } s }) }
        "raw" => { let m = k.min(12); let ops: Vec<(u64, usize, usize)> = (0..r.range(0, 30)).map(|_| (r.below(8), r.usize(m + (r.chance(1, 60) as usize)), r.usize(m))).collect(); go(move || { let mut g = RawSimpleGraph::new(m); for (o, i, j) in ops { if i == j { continue } match o { 0 => g.remove_edge(i, j), 1 => g.swap(i, j), 2 => { if g.contains(i, j) { g.remove_edge(i, j) } } _ => g.add_edge(i, j) } } graph_text(&g) }) }
        "rawlarge" => {
            let m = *r.pick(&[64usize, 65, 70, 70, 129]); let cuts: Vec<usize> = (0..r.usize(3)).map(|_| r.usize(m)).collect(); let far: Vec<(usize, usize)> = (0..r.usize(5)).map(|_| (r.usize(m), r.usize(m))).collect(); let s = (r.usize(m), r.usize(m));
            go(move || { let mut g = RawSimpleGraph::new(m); for i in 1..m { if !cuts.contains(&i) { g.add_edge(i - 1, i) } } for (i, j) in far { if i < j { g.add_edge(i, j) } } if s.0 < s.1 { g.swap(s.0, s.1) } let d: Vec<usize> = (0..m).map(|v| g.degree_of(v)).collect(); format!("{} {} {d:?}", g.is_connected(), g.n_edges()) })
        }
        "labelslarge" => { let m = *r.pick(&[63usize, 64, 65, 100]); let o: Vec<(u64, usize)> = (0..r.range(1, 30)).map(|_| (r.below(3), r.usize(m))).collect(); go(move || { let mut s = LabeledSet::new((0..m).collect::<Vec<usize>>()); for (o, x) in o { match o { 0 => s.remove(x), _ => s.add(x) } } let t = s.clone(); let l: Vec<usize> = s.iter().copied().collect(); drop(s); let k: Vec<usize> = t.iter().copied().collect(); format!("{l:?} {k:?}") }) }
        "cplxlarge" => { let m = *r.pick(&[62usize, 64, 65, 70]); let o: Vec<Vec<usize>> = (0..r.range(1, 6)).map(|_| { let mut v: Vec<usize> = (0..1 + r.usize(3)).map(|_| r.usize(m)).collect(); v.sort(); v.dedup(); v }).collect(); go(move || { let mut c = SimplicialCplx::new(); for i in 0..m { c.attach(Simplex::from(vec![i])); } for t in o { c.attach(Simplex::from(t)); } let d = c.dim(); format!("{d} {:?} {} {}", (0..d + 1).map(|i| c.n_cells_of_dim(i)).collect::<Vec<_>>(), c.is_connected(), c.n_vertices()) }) }
        "permlarge" => { let m = *r.pick(&[40usize, 64, 65, 100]); let (a, b) = (perm_of(r, m), perm_of(r, m)); go(move || { let (a, b) = (permutation(a), permutation(b)); let c = a * b; let l: Vec<usize> = c.unfixed_indeces_iter().collect(); format!("{c} {l:?}") }) }
        "sumlarge" => { let f = |r: &Q| -> Vec<(i64, usize)> { (0..20 + r.usize(40)).map(|_| (r.range(-4, 4), r.usize(70))).filter(|x| x.0 != 0).collect() }; let (a, b) = (f(r), f(r)); go(move || { let t = |v: Vec<(i64, usize)>| v.into_iter().map(|(c, x)| Vector::<i64, usize>::from(x) * c).sum::<Vector<i64, usize>>(); let (a, b) = (t(a), t(b)); let s = a.clone() + b.clone(); let d = a - b; G((s.len(), s, d)) }) }
        "relabel" => { let m = k.max(2); let p = perm_of(r, m); let e: Vec<(usize, usize)> = (0..m).flat_map(|j| (0..j).map(move |i| (i, j))).filter(|_| r.chance(1, 2)).collect(); go(move || { let mut g = RawSimpleGraph::new(m); for (i, j) in e { g.add_edge(i, j); } let h = g << permutation(p); graph_text(&h) }) }
        "embedding" => { let e = some_graph(&mut r.rng(), n); let m = 1 + r.usize(3); let x: Vec<f64> = (0..9).map(|_| r.range(-50, 50) as f64 / 7.0).collect(); go(move || embedding(&SimpleGraph::subdivided_graph_from(&Graph::<i64>::from(e), m), &x)) }
        "laplacian" => { let v: Vec<(String, String, i64)> = (0..k).map(|i| (format!("v{}", r.usize(i + 1)), format!("v{}", i + (r.chance(19, 20) as usize)), r.range(-5, 9))).collect(); go(move || { let g = WeightedSimpleGraph::from(v); let s = g.vertices().clone(); let d = g.data().clone(); let l = g.laplacian(); let mut t = format!("{s:?}"); write!(t, "{d} {l}").ok(); t }) }
        "eval" => { let d = 1 + r.usize(3); let s = r.next(); let x: Vec<f64> = (0..d).map(|_| 0.3 + r.below(100) as f64 / 64.0).collect(); let depth = n.min(4); go(move || { let f = expr(d, s, depth); let p = Matrix::from_array(x.into_iter().map(|v| vec![v]).collect()); let y = f.eval(&p); let mut t = String::new(); write!(t, "{f} {}", y.to_bits()).ok(); t }) }
        "derivative" => { let d = 1 + r.usize(3); let s = r.next(); let i = r.usize(d); let depth = n.min(3); go(move || { let f = expr(d, s, depth); let g = f.clone().partial_derivative(i); let mut t = String::new(); write!(t, "{f} {g} {}", f == g).ok(); t }) }
        "jacobian" => { let d = 1 + r.usize(3); let s = r.next(); let x: Vec<f64> = (0..d).map(|_| 0.3 + r.below(100) as f64 / 64.0).collect(); let depth = n.min(3); go(move || { let f = expr(d, s, depth).jacobian(d); let y = f.eval(&Matrix::from_array(x.into_iter().map(|v| vec![v]).collect())); let mut t = String::new(); write!(t, "{f}").ok(); for j in 0..d { write!(t, " {}", y[(0, j)].to_bits()).ok(); } t }) }
        "multi" => { let (c, d) = (1 + r.usize(3), 1 + r.usize(3)); let s = r.next(); let x: Vec<f64> = (0..d).map(|_| 0.3 + r.below(100) as f64 / 64.0).collect(); let depth = n.min(3); go(move || { let f = multi(c, d, s, depth); let p = Matrix::from_array(x.into_iter().map(|v| vec![v]).collect()); let y = f.eval(&p); let j = f.jacobian(); let z = j.eval(&p); let mut t = String::new(); write!(t, "{j}").ok(); for i in 0..c { write!(t, " {}", y[(i, 0)].to_bits()).ok(); for (k, v) in z.row_iter(i) { write!(t, " {k}:{}", v.to_bits()).ok(); } } t }) }
        "triangulation" => { let p = points(r, n.max(1)); go(move || geom::delaunay_triangulation(&p).1) }
        "triangle" => { let p = points(r, 4); go(move || geom::Triangle::new([p[0], p[1], p[2]]).circum_circle_contains(p[3])) }
        "pool" => { let m = n; let f = |r: &Q, m: usize| -> Vec<usize> { (0..m).filter(|_| r.chance(1, 2)).collect() }; let (a, b) = (f(r, m), f(r, if r.chance(1, 12) { m + 1 } else { m })); let o = r.below(5); let z = r.usize(m + 70); let (la, lb) = (m, if b.last() == Some(&m) { m + 1 } else { m }); go(move || { let (mut p, q) = (BinaryPool::from(la, a), BinaryPool::from(lb, b)); p = match o { 0 => p.union(q), 1 => p.intersection(q), 2 => { p.resize(z); p } 3 => { p.fill(); p } _ => { let s = p.is_subset_of(&q); if s { q } else { p } } }; let v: Vec<usize> = p.iter().collect(); format!("{v:?} {} {} {} {p:?}", p.len(), p.n_elements(), p.is_full()) }) }
        "labels" => { let v: Vec<String> = (0..k).map(|i| format!("x{i}")).collect(); let o: Vec<(bool, usize)> = (0..r.range(0, 12)).map(|_| (r.chance(2, 3), r.usize(k + (r.chance(1, 30) as usize)))).collect(); go(move || { let mut s = LabeledSet::new(v); for (a, i) in o { if a { s.add(format!("x{i}")) } else { s.remove(format!("x{i}")) } } let l: Vec<String> = s.iter().cloned().collect(); format!("{l:?} {} {s}", s.n_elements()) }) }
        "tuples" => { let v: Vec<usize> = (0..n).collect(); let s = r.usize(5); go(move || v.tuple_iter(s).map(|t| t.into_iter().copied().collect::<Vec<usize>>()).collect::<Vec<_>>()) }
        "fixed" => { let f = |r: &Q| -> [f64; 3] { std::array::from_fn(|_| r.range(-40, 40) as f64 / 8.0) }; let (a, b, c) = (f(r), f(r), f(r)); go(move || { let (x, y) = (ConstVector::from(a), ConstVector::from(b)); let m = ConstMatrix::from([a, b, c]) * 2.0; let d = x.dot(y); let mut z = (x + y * 2.0) / 4.0 - y; z += x; z *= 0.5; vec![d, z[0], z[1], z[2], m[0][1], m[2][2], (-z).two_norm()] }) }
        "randommatrix" => { let (a, b) = (k, 1 + r.usize(k)); rewind_stream(); go(move || Matrix::<i64>::random(a, b)) }
        "randomsymmetric" => { rewind_stream(); go(move || Matrix::<f64>::random_symmetric(k, k)) }
        "randomorthogonal" => { rewind_stream(); go(move || Matrix::<f64>::random_orthogonal(k)) }
        "randomunit" => { rewind_stream(); go(move || Matrix::<f64>::random_unit_vec(k)) }
        "randomsparse" => { rewind_stream(); go(move || Matrix::<f64>::random_sparse_symmetric(k, k)) }
        _ => { // a rendering
            let t = thing(r.usize(KINDS), r.below(1 << 30) as i64, n);
            let spec = *r.pick(t.specs);
            let what = t.what.clone();
            let s = go(|| { let mut s = String::new(); let e = (t.render)(spec, &mut s); if e.is_err() { s += " (an error)"; } s });
            sut(|| drop(t)).ok();
            format!("{what}: {s}")
        }
    }
}

/// objects that several threads may look at, and what a look gives
fn vecperm(v: Vec<usize>) -> VecPermutation { macro_rules! of { ($($n:literal)*) => { match v.len() { $($n => VecPermutation::from(<[usize; $n]>::try_from(v).unwrap()),)* _ => unreachable!() } } } of!(1 2 3 5 8) }
pub const SHARED: &[&str] = &["pool", "labels", "graph", "simple", "raw", "cubical", "morse", "simplicial", "permutation", "formal", "function", "view", "realview", "fixed", "points", "module", "homology", "rationalview"];
/// A look at an object; `sync`: threads may share it. (A library type that stopped being `Sync` would not be shared,
/// rather than the simulator not compiling.)
pub struct Look { pub f: Box<dyn Fn(i64) -> String>, pub sync: bool }
unsafe impl Send for Look {}
unsafe impl Sync for Look {}
struct P<T>(T);
trait Yes { fn sync(&self) -> bool { true } }
impl<T: Send + Sync> Yes for P<T> {}
trait No { fn sync(&self) -> bool { false } }
impl<T> No for &P<T> {}
macro_rules! look { ([$($x:ident)*] $c:expr) => { { let sync = true $(&& (&P(&$x)).sync())*; Look { f: Box::new($c), sync } } } }
pub fn shared(kind: usize, seed: i64, n: usize) -> Look {
    let r = &Q::new(seed as u64 ^ 0x5a4ed);
    let k = n.max(1);
    let what = format!("building what is shared: {} {seed} {n}", SHARED[kind % SHARED.len()]);
    match SHARED[kind % SHARED.len()] {
        "pool" => { let m = n * 9; let v: Vec<usize> = (0..m).filter(|_| r.chance(1, 2)).collect(); let p = plain(&what, || BinaryPool::from(m, v)); let q = plain(&what, || BinaryPool::new(m)); look!([p q] move |s: i64| go(|| match s.rem_euclid(5) { 0 => G(p.iter().collect::<Vec<_>>()).show(), 1 => format!("{p:?}"), 2 => format!("{} {} {}", p.len(), p.n_elements(), p.is_full()), 3 => format!("{} {}", q.is_subset_of(&p), p.is_subset_of(&q)), _ => format!("{}", p.contains(s as usize % (m + 1))) })) }
        "labels" => { let v: Vec<usize> = (0..k).filter(|_| r.chance(1, 2)).collect(); let p = plain(&what, || { let mut p = LabeledSet::new((0..k).map(|i| format!("x{i}")).collect()); for i in v { p.add(format!("x{i}")); } p }); look!([p] move |s: i64| go(|| match s.rem_euclid(3) { 0 => G(p.iter().collect::<Vec<_>>()).show(), 1 => format!("{p}"), _ => format!("{}", p.n_elements()) })) }
        "graph" => { let e = some_graph(&mut r.rng(), n); let g = plain(&what, || Graph::<i64>::from(e)); look!([g] move |s: i64| go(|| match s.rem_euclid(4) { 0 => format!("{} {}", g.n_vertices(), g.n_loops()), 1 => format!("{}", SimpleGraph::subdivided_graph_from(&g, 2)), 2 => format!("{}", UdnMorseCplx::new(&g, 2, None)), _ => format!("{}", SimpleGraph::from(&g)) })) }
        "simple" => { let e = some_graph(&mut r.rng(), n); let m = 1 + r.usize(3); let x: Vec<f64> = (0..9).map(|_| r.range(-50, 50) as f64 / 7.0).collect(); let g = plain(&what, || SimpleGraph::subdivided_graph_from(&Graph::<i64>::from(e), m)); look!([g] move |s: i64| go(|| match s.rem_euclid(5) { 0 => graph_text(&g), 1 => format!("{g}"), 2 => G(embedding(&g, &x)).show(), 3 => format!("{}", g.maximal_tree_contains([0, s as usize % g.n_vertices()])), _ => { let c = Cube::from(vec![CubeFactor::Vertex(s as usize % g.n_vertices())]); G(g.get_edge_path_to_from_base_pt(c, s % 2 == 0)).show() } })) }
        "raw" => { let m = k.max(2); let e: Vec<(usize, usize)> = (0..m).flat_map(|j| (0..j).map(move |i| (i, j))).filter(|_| r.chance(1, 2)).collect(); let g = plain(&what, || { let mut g = RawSimpleGraph::new(m); for (i, j) in e { g.add_edge(i, j); } g }); look!([g] move |s: i64| go(|| match s.rem_euclid(4) { 0 => graph_text(&g), 1 => format!("{g}"), 2 => format!("{:?}", g.get_adjacent_vertices(s as usize % (m + 1))), _ => format!("{} {}", g.is_connected(), g.n_edges()) })) }
        "cubical" => { let e = some_graph(&mut r.rng(), n.min(4)); let c = plain(&what, || CubicalCplx::udc(&Graph::<i64>::from(e), 2)); look!([c] move |s: i64| go(|| match s.rem_euclid(3) { 0 => format!("{c}"), 1 => format!("{} {}", c.n_cells(), c.dim_of(s as usize % c.n_cells())), _ => { let mut t = String::new(); for (m, b) in c.boundary_map() { write!(t, "{m} {}", b.len()).ok(); } t } })) }
        "morse" => { let e = some_graph(&mut r.rng(), n.min(4)); let c = plain(&what, || UdnMorseCplx::new(&Graph::<i64>::from(e), 2, None)); look!([c] move |s: i64| go(|| match s.rem_euclid(4) { 0 => format!("{c}"), 1 => { let mut t = String::new(); for x in c.get_cells_of_dim(1) { write!(t, "{x} {:?}", c.factor_pool.get_edge_path(x.clone())).ok(); } t } 2 => format!("{}", IntegralHomology::new(&c, None)), _ => { let mut t = String::new(); for (m, b) in c.boundary_map() { write!(t, "{m} {}", b.len()).ok(); } t } })) }
        "simplicial" => { let s = simplices(&mut r.rng(), n); let c = plain(&what, || cplx(s)); look!([c] move |s: i64| go(|| match s.rem_euclid(4) { 0 => format!("{}", IntegralHomology::new(&c, None)), 1 => c.boundary_map().show(), 2 => format!("{} {} {}", c.dim(), c.is_connected(), c.n_cells_of_dim(1)), _ => format!("{:?}", c.get_labeled_zero_skeleton()) })) }
        "permutation" => { let p = perm_of(r, n); let p = plain(&what, || permutation(p)); look!([p] move |s: i64| go(|| match s.rem_euclid(4) { 0 => format!("{p}"), 1 => format!("{:?}", p.unfixed_indeces_iter().collect::<Vec<_>>()), 2 => { let v: Vec<i64> = (0..20).collect(); format!("{:?}", v << p.clone()) } _ => format!("{}", p.map(s as usize % 20)) })) }
        "formal" => { let v: Vec<(i64, Cube)> = (0..k).map(|i| (1 + r.range(0, 5), Cube::from(vec![CubeFactor::Vertex(i)]))).collect(); let x = plain(&what, || v.into_iter().map(|(c, b)| c * b).sum::<Vector<i64, Cube>>()); look!([x] move |s: i64| go(|| match s.rem_euclid(3) { 0 => format!("{x}"), 1 => format!("{}", x.clone() + x.clone() * 2), _ => format!("{} {:?}", x.len(), x.iter().map(|t| t.0).collect::<Vec<_>>()) })) }
        "function" => { let (c, d) = (1 + r.usize(3), 1 + r.usize(3)); let s = r.next(); let f = plain(&what, || multi(c, d, s, n.min(3))); let v: Vec<f64> = (0..d).map(|_| 0.3 + r.below(100) as f64 / 64.0).collect(); look!([f] move |s: i64| go(|| match s.rem_euclid(3) { 0 => format!("{f}"), 1 => { let p = Matrix::from_array(v.iter().map(|v| vec![*v]).collect()); f.eval(&p).show() } _ => { let j = f.clone().jacobian(); format!("{j}") } })) }
        "view" => { let v = ints(r, k, k, 9); let m: &'static SubMatrix<i64> = plain(&what, || { let m = Box::leak(Box::new(Matrix::from_array(v))); &**m }); look!([m] move |s: i64| go(|| match s.rem_euclid(6) { 0 => m.show(), 1 => m.transpose().show(), 2 => (m * m).show(), 3 => m[(.., (s as usize / 6) % k)].show(), 4 => format!("{}", m), _ => m.as_matrix().smith_normal_form().2.show() })) }
        "realview" => { let v = sound(r, k); let m: &'static SubMatrix<f64> = plain(&what, || { let m = Box::leak(Box::new(Matrix::from_array(v))); &**m }); look!([m] move |s: i64| go(|| match s.rem_euclid(5) { 0 => m.show(), 1 => m.det().show(), 2 => format!("{} {}", m.frobenius_norm().to_bits(), m[(.., 0)].two_norm().to_bits()), 3 => m[(.., 0)].householder_vec().show(), _ => m.as_matrix().gram_schmidt().show() })) }
        "rationalview" => { let v = rationals(r, k, k); let m: &'static SubMatrix<Rational> = plain(&what, || { let m = Box::leak(Box::new(Matrix::from_array(v))); &**m }); look!([m] move |s: i64| go(|| match s.rem_euclid(3) { 0 => m.show(), 1 => m.as_matrix().rank_as_linear_map().show(), _ => (m * m).show() })) }
        "fixed" => { let x = ConstVector::from([r.range(-9, 9) as f64 / 4.0, 2.0, 0.5]); look!([x] move |s: i64| go(|| match s.rem_euclid(2) { 0 => x.dot(x), _ => (x * 2.0 + x).two_norm() })) }
        "points" => { let p = points(r, k); look!([p] move |s: i64| go(|| match s.rem_euclid(2) { 0 => geom::delaunay_triangulation(&p).1.show(), _ => p.tuple_iter(2).count().show() })) }
        "module" => { let e: Vec<(i64, usize)> = (0..n).map(|_| (r.range(1, 6), 1 + r.usize(2))).collect(); let x = plain(&what, || Module::new(2, e)); look!([x] move |s: i64| go(|| match s.rem_euclid(2) { 0 => format!("{x}"), _ => x.is_zero().show() })) }
        _ => { let e = some_graph(&mut r.rng(), n.min(4)); let h = plain(&what, || IntegralHomology::new(&UdnMorseCplx::new(&Graph::<i64>::from(e), 2, None), None)); look!([h] move |s: i64| go(|| match s.rem_euclid(3) { 0 => format!("{h}"), 1 => h.get_description_of_cycles(), _ => h.get_description_of_boundaries() })) }
    }
}
