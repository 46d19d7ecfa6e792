//! C18: values are independent of each other, and reading changes nothing.
use crate::c05::{analysis_coords, simplices, some_fn, some_graph};
use crate::c13::B;
use crate::catalogue::*;
use crate::common::*;
use crate::el::*;
use alg::commutative::Rational;
use alg::lin_alg::{ConstMatrix, ConstVector, Matrix, SparseMatrix, Vector};
use alg::non_commutative::permutation::{ConstPermutation, Cycle, Permutation, VecPermutation};
use alg::non_commutative::{Group, Gset};
use analysis::{AtomicSmoothFn, Function, MultiVarFn};
use simcore::driver::{Outcome, Scenario};
use simcore::fork::*;
use simcore::*;
use topo_spaces::cubical::{Cube, CubicalCplx, EdgePath, UdnMorseCplx};
use topo_spaces::graph::{CubeFactor, Graph, RawSimpleGraph, SimpleGraph, WeightedSimpleGraph};
use topo_spaces::simplicial::{Simplex, SimplicialCplx};
use topo_spaces::{Complex, IntegralHomology};
use util::{BinaryPool, LabeledSet};

pub struct C18;

struct Kind<T> { name: &'static str, make: fn(&Q, usize) -> T, show: fn(&T) -> String, change: fn(&mut T, &Q), look: fn(&T, &Q) -> String, dup: Option<fn(&T) -> T>, derive: Option<fn(&T, &Q) -> T> }
struct V<T: 'static> { v: T, k: &'static Kind<T> }
/// a value of the library; a call on it gives its result as text and whether it was cut short
trait Val {
    fn name(&self) -> &'static str;
    fn show(&self) -> String;
    fn dup(&self) -> Option<Result<Box<dyn Val>, Caught>>;
    fn derive(&self, s: i64) -> Option<Result<Box<dyn Val>, Caught>>;
    fn change(&mut self, s: i64) -> Result<(), Caught>;
    fn look(&self, s: i64) -> Result<String, Caught>;
}
impl<T: 'static> Val for V<T> {
    fn name(&self) -> &'static str { self.k.name }
    fn show(&self) -> String { match sut(|| (self.k.show)(&self.v)) { Ok(s) => s, Err(c) => c.text() } }
    fn dup(&self) -> Option<Result<Box<dyn Val>, Caught>> { self.k.dup.map(|f| sut(|| f(&self.v)).map(|v| Box::new(V { v, k: self.k }) as Box<dyn Val>)) }
    fn derive(&self, s: i64) -> Option<Result<Box<dyn Val>, Caught>> { let q = Q::new(s as u64 ^ 0xde71); self.k.derive.map(|f| sut(|| f(&self.v, &q)).map(|v| Box::new(V { v, k: self.k }) as Box<dyn Val>)) }
    fn change(&mut self, s: i64) -> Result<(), Caught> { let q = Q::new(s as u64 ^ 0xc4a6); let (f, v) = (self.k.change, &mut self.v); sut(|| f(v, &q)) }
    fn look(&self, s: i64) -> Result<String, Caught> { let q = Q::new(s as u64 ^ 0x100c); sut(|| (self.k.look)(&self.v, &q)) }
}
fn at(v: &[Vec<i64>]) -> Matrix<E> { Matrix::from_array(es(v.to_vec())) }
fn dims<T: alg::commutative::PID>(m: &Matrix<T>) -> (usize, usize) { m.size() }

static MATRIX_E: Kind<Matrix<E>> = Kind { name: "matrix of tracked values",
    make: |r, n| { let (a, b) = (1 + r.usize(n.max(1)), 1 + r.usize(n.max(1))); let v = ints(r, a, b, 99); let t = r.chance(1, 3); let m = at(&v); if t { m.transpose() } else { m } },
    show: |m| m.show(), dup: Some(|m| m.clone()),
    derive: Some(|m, r| { let (a, b) = dims(m); match r.below(5) { 0 => m.as_matrix(), 1 => m[(.., ..)].transpose().as_matrix(), 2 => { let (i, j) = (r.usize(a), r.usize(b)); m[(i.., j..)].as_matrix() } 3 => &m[(.., ..)] + &m[(.., ..)], _ => &m[(.., ..)] * E::new(3) } }),
    change: |m, r| { let (a, b) = dims(m); let over = r.chance(1, 12) as usize; let (i, j) = (r.usize(a) + over * 9, r.usize(a)); let (x, y) = (r.usize(b) + over * 9, r.usize(b)); match r.below(11) {
        0 => m.swap_rows(i, j), 1 => m.swap_cols(x, y), 2 => m.row_operation(i, j, E::new(7)), 3 => m.col_operation(x, y, E::new(5)), 4 => *m *= E::new(r.range(0, 9)),
        5 => { let v = at(&ints(r, a, b, 9)); *m += v } 6 => { let v = at(&ints(r, a, b, 9)); *m -= &v[(.., ..)] }
        7 => { let w = at(&ints(r, a - j, b - y, 9)); m[(j.., y..)].write(&w) } 8 => { let w = at(&ints(r, a - j, b - y, 9)); m[(j.., y..)].write_and_move(w) }
        9 => m[(i, x)] = E::new(11), _ => { let t = std::mem::replace(m, at(&[vec![1]])); *m = t.transpose() } } },
    look: |m, r| { let (a, b) = dims(m); let (i, j) = (r.usize(a), r.usize(b)); match r.below(8) { 0 => m[(i.., j..)].show(), 1 => m.transpose_ref().show(), 2 => (&m[(.., ..)] * &m.transpose_ref()[(.., ..)]).show(), 3 => format!("{m:?}"), 4 => (*m == m[(.., ..)].as_matrix()).to_string(), 5 => (&m[(.., ..)] - &m[(.., ..)]).show(), 6 => { let x = m.clone(); drop(m.clone()); x.show() } _ => { let x = m.clone() * E::new(2); (x == *m).to_string() } } } };
trait TransposeRef<T: alg::commutative::PID> { fn transpose_ref(&self) -> &alg::lin_alg::SubMatrix<T>; }
impl<T: alg::commutative::PID> TransposeRef<T> for Matrix<T> { fn transpose_ref(&self) -> &alg::lin_alg::SubMatrix<T> { self[(.., ..)].transpose() } }

static MATRIX_I: Kind<Matrix<i64>> = Kind { name: "integer matrix",
    make: |r, n| { let (a, b) = (1 + r.usize(n.max(1)), 1 + r.usize(n.max(1))); Matrix::from_array(ints(r, a, b, 5)) },
    show: |m| m.show(), dup: Some(|m| m.clone()), derive: Some(|m, r| { let (a, b) = dims(m); let (i, j) = (r.usize(a), r.usize(b)); match r.below(3) { 0 => m[(..i + 1, ..j + 1)].as_matrix(), 1 => m.clone().transpose(), _ => -1 * &m[(.., ..)] } }),
    change: |m, r| { let (a, b) = dims(m); match r.below(6) { 0 => m.swap_rows(r.usize(a), r.usize(a)), 1 => m.col_operation(r.usize(b), r.usize(b), -1), 2 => { let t = m.clone().transpose(); *m = t } 3 => m[(r.usize(a), r.usize(b))] = r.range(-5, 5), 4 => { let (i, j) = (r.usize(a), r.usize(b)); m[(i.., j..)].swap_rows(0, a - i - 1) } _ => { let (i, j) = (r.usize(a), r.usize(b)); m[(i, j)] -= 1; m[(.., j)].swap_rows(i, 0) } } },
    look: |m, r| match r.below(5) { 0 => m.clone().smith_normal_form().show(), 1 => { let b: Vec<Cube> = (0..m.size().1).map(|i| Cube::from(vec![CubeFactor::Vertex(i)])).collect(); format!("{:?}", m.clone() * b) } 2 => format!("{m}"), 3 => m.transpose_ref().show(), _ => (m.clone() * m.clone().transpose()).show() } };
static MATRIX_R: Kind<Matrix<f64>> = Kind { name: "real matrix",
    make: |r, n| { let k = n.clamp(2, 6); let s = r.chance(1, 2); Matrix::from_array(if s { symmetric(r, k) } else { sound(r, k) }) },
    show: |m| m.show(), dup: Some(|m| m.clone()), derive: Some(|m, r| match r.below(3) { 0 => m.transpose_ref().as_matrix(), 1 => &m[(.., ..)] / 2.0, _ => m[(1.., 1..)].as_matrix() }),
    change: |m, r| { let n = m.size().0; match r.below(11) { 8 => { m.symmetric_qr(r.chance(1, 2)); } 9 => { m[(.., ..)].implicit_symmetric_qr_with_wilkinson_shift(r.chance(1, 2)); } 10 => { m.francis_step_with_op(); } 0 => m.lu(), 1 => m.hessenberg_form(), 2 => { m.qr(); } 3 => { m[(.., ..)].householder_tridiagonalization(r.chance(1, 2)) } 4 => *m *= 1.5, 5 => *m /= 4.0, 6 => m[(0..n, ..)].lu(), _ => { m.qr_with_op_(); } } },
    look: |m, r| match r.below(16) { 9 => m.one_norm().show(), 10 => m.inf_norm().show(), 11 => m.clone().spectrum().show(), 12 => m.clone().spectrum_symmetric().show(), 13 => m.clone().spectrum_with_invariant_space_symmetric().show(), 14 => m.clone().spectrum_with_n_th_eigenvec_symmetric(0).show(), 15 => (*m == m.transpose_ref().as_matrix()).to_string(), 0 => m.det_().show(), 1 => m[(.., ..)].det().show(), 2 => m.frobenius_norm().show(), 3 => m.clone().gram_schmidt().show(), 4 => { let n = m.size().0; let b = Matrix::from_array((0..n).map(|i| vec![i as f64]).collect()); m.clone().solve(b).show() } 5 => m[(.., 0..1)].householder_vec().show(), 6 => m.rank_as_linear_map().show(), 7 => m.clone().lll_lattice_reduce(0.75).show(), _ => m[(.., ..)].extract_householder_vecs().show() } };
trait MatR { fn det_(&self) -> f64; fn qr_with_op_(&mut self); }
impl MatR for Matrix<f64> { fn det_(&self) -> f64 { self.clone().det() } fn qr_with_op_(&mut self) { self[(.., ..)].qr_with_op(); } }
fn sp(r: &Q, a: usize, b: usize) -> SparseMatrix<E> { let (s, v) = sparse(r, a, b); SparseMatrix::from((s, move |(i, j): (usize, usize)| { callback("panic-in-callback"); v[i * s.1 + j].map(E::new) })) }
static SPARSE: Kind<SparseMatrix<E>> = Kind { name: "sparse matrix",
    make: |r, n| { let (a, b) = (1 + r.usize(n.max(1)), 1 + r.usize(n.max(1))); sp(r, a, b) },
    show: |m| m.show(), dup: Some(|m| m.clone()), derive: Some(|m, _| m.clone().transpose()),
    change: |m, r| { let (a, b) = m.size(); match r.below(3) { 0 => { let t = m.clone(); let v: Vec<Vec<(usize, E)>> = (0..a).map(|i| t.row_iter(i).map(|(j, x)| (j, x.clone())).collect()).collect(); let k = r.usize(a); *m = SparseMatrix::from(((a, b), move |(i, j): (usize, usize)| { callback("panic-in-callback"); v[(i + k) % a].iter().find(|x| x.0 == j).map(|x| x.1.clone()) })) } 1 => { let t = std::mem::replace(m, SparseMatrix::from(((1, 1), |_| None))); *m = t.transpose() } _ => { let t = m.clone().transpose(); *m = t } } },
    look: |m, r| { let (a, b) = m.size(); match r.below(10) { 8 => { let d = at(&ints(r, 2, a, 3)); (d * m.clone()).show() } 9 => { let d = at(&ints(r, a, b, 1)); (*m == d).to_string() } 6 => { let c = 1 + r.usize(5); (m.clone() * sp(r, if r.chance(1, 6) { b + 1 } else { b }, c)).show() } 7 => (m.clone() * m.clone().transpose()).show(), 0 => { let i = r.usize(a); let v: Vec<String> = m.row_iter(i).map(|(j, x)| format!("{j}:{}", x.val())).collect(); v.join(" ") } 1 => { let j = r.usize(b); let v: Vec<String> = m.col_iter(j).map(|(i, x)| format!("{i}:{}", x.val())).collect(); v.join(" ") } 2 => (*m == m.clone()).to_string(), 3 => format!("{m:?}"), 4 => { let d = at(&ints(r, b, 2, 3)); (m.clone() * d).show() } _ => { let x = m.clone(); drop(m.clone().transpose()); x.show() } } } };
static POOL: Kind<BinaryPool> = Kind { name: "binary pool",
    make: |r, n| { let m = if r.chance(1, 2) { n * 11 } else { [64, 63, 65, 128, 1, 192, 127, 0, 64, 128, 129, 70, 64][n % 13] }; let v: Vec<usize> = (0..m).filter(|_| r.chance(1, 2)).collect(); BinaryPool::from(m, v) },
    show: |p| format!("{} {:?}", p.len(), (0..p.len()).filter(|&i| p.contains(i)).collect::<Vec<_>>()), dup: Some(|p| p.clone()), derive: Some(|p, r| { let mut q = p.clone(); q.resize(p.len() + r.usize(70)); q }),
    change: |p, r| { let m = p.len(); let i = r.usize(m.max(1)) + (r.chance(1, 12) as usize) * m; match r.below(6) { 0 | 1 => p.add(i), 2 => p.remove(i), 3 => p.resize(r.usize(150)), 4 => { let o = BinaryPool::from(m, (0..m).filter(|_| r.chance(1, 2)).collect()); *p = if r.chance(1, 2) { p.clone().union(o) } else { p.clone().intersection(o) } } _ => p.fill() } },
    look: |p, r| match r.below(5) { 0 => p.n_elements().to_string(), 1 => format!("{:?}", p.iter().collect::<Vec<_>>()), 2 => p.is_full().to_string(), 3 => p.is_subset_of(&p.clone()).to_string(), _ => format!("{p:?}") } };
static LABELS: Kind<LabeledSet<E>> = Kind { name: "labelled set",
    make: |r, n| { let mut s = LabeledSet::new((0..n as i64).map(E::new).collect()); for i in 0..n as i64 { if r.chance(1, 2) { s.add(E::new(i)); } } s },
    show: |s| s.iter().map(|e| e.val().to_string()).collect::<Vec<_>>().join(" "), dup: Some(|s| s.clone()), derive: None,
    change: |s, r| { let x = E::new(r.below(14) as i64); if r.chance(2, 3) { s.add(x) } else { s.remove(x) } },
    look: |s, r| match r.below(4) { 0 => s.n_elements().to_string(), 1 => (*s == s.clone()).to_string(), 2 => format!("{s}"), _ => format!("{s:?}") } };
static RAW: Kind<RawSimpleGraph> = Kind { name: "raw graph",
    make: |r, n| { let m = 1 + n; let mut g = RawSimpleGraph::new(m); for j in 0..m { for i in 0..j { if r.chance(1, 2) { g.add_edge(i, j); } } } g },
    show: |g| graph_text(g), dup: Some(|g| g.clone()), derive: Some(|g, r| { let p = permutation(perm_of(r, g.n_vertices())); g.clone() << p }),
    change: |g, r| { let m = g.n_vertices() + r.chance(1, 12) as usize; let (i, j) = (r.usize(m), r.usize(m)); match r.below(5) { 0 => g.add_edge(i.min(j), i.max(j)), 1 => g.remove_edge(i.min(j), i.max(j)), 2 => g.swap(i, j), 3 => { let p = permutation(perm_of(r, m)); *g <<= p } _ => { let p = permutation(perm_of(r, m)); g.action_by(p) } } },
    look: |g, r| { let v = r.usize(g.n_vertices()); match r.below(6) { 0 => graph_text(g), 1 => g.is_connected().to_string(), 2 => format!("{:?}", g.get_adjacent_vertices(v)), 3 => format!("{g:?}"), 4 => g.degree_in_maximal_tree(v).to_string(), _ => (*g == g.clone()).to_string() } } };
fn sum(r: &Q, n: usize) -> Vector<E, B> { let mut t = Vector::zero(); for _ in 0..n { let (c, x) = (r.range(-4, 4), r.below(9) as i64); t = t + Vector::<E, B>::from(B(E::new(x))) * E::new(c); } t }
static SUM: Kind<Vector<E, B>> = Kind { name: "formal sum",
    make: |r, n| sum(r, n), show: |v| v.iter().map(|(c, b)| format!("{}*{}", c.val(), b.0.val())).collect::<Vec<_>>().join(" "), dup: Some(|v| v.clone()), derive: Some(|v, r| match r.below(3) { 0 => -v.clone(), 1 => v.clone() * E::new(2), _ => v.clone() + v.clone() }),
    change: |v, r| match r.below(7) { 0 => { let o = sum(r, 3); *v = v.clone() + o } 1 => { let o = sum(r, 3); *v = v.clone() - o } 2 => *v = -v.clone(), 3 => *v = v.clone() * E::new(r.range(0, 4)), 4 => { let n = v.len(); if n > 0 { v.remove(r.usize(n)); } } 5 => { for (c, _) in v.iter_mut() { *c = E::new(6); } } _ => *v = vec![v.clone(), sum(r, 2), sum(r, 2)].into_iter().sum() },
    look: |v, r| match r.below(5) { 0 => v.len().to_string(), 1 => format!("{v:?}"), 2 => format!("{v}"), 3 => (*v == v.clone()).to_string(), _ => v.clone().into_iter().map(|(c, b)| format!("{}*{}", c.val(), b.0.val())).collect::<Vec<_>>().join(" ") } };
static CHAIN: Kind<Vector<i64, Cube>> = Kind { name: "chain",
    make: |r, n| (0..n).map(|i| (1 + r.range(0, 5)) * Cube::from(vec![CubeFactor::Edge([3 * i, 3 * i + 1])])).sum(), show: |v| format!("{v:?}"), dup: Some(|v| v.clone()), derive: Some(|v, _| v.iter().map(|(c, b)| b.get_boundary() * *c).sum()),
    change: |v, r| { let c = Cube::from(vec![CubeFactor::Vertex(r.usize(9))]); *v = match r.below(3) { 0 => v.clone() + c, 1 => v.clone() - c, _ => v.clone() * -2 } },
    look: |v, r| match r.below(3) { 0 => format!("{v}"), 1 => v.iter().map(|(_, b)| format!("{:?}", b.clone().get_ends_())).collect::<Vec<_>>().join(" "), _ => format!("{:?}", v.iter().map(|(c, b)| b.get_boundary() * *c).sum::<Vector<i64, Cube>>()) } };
trait Ends { fn get_ends_(self) -> String; }
impl Ends for Cube { fn get_ends_(self) -> String { if self.iter().filter(|f| f.is_edge()).count() == 1 { format!("{:?}", self.get_ends()) } else { "none".into() } } }
static PERM: Kind<Permutation> = Kind { name: "permutation",
    make: |r, n| permutation(perm_of(r, n)), show: |p| format!("{p:?}"), dup: Some(|p| p.clone()), derive: Some(|p, r| match r.below(3) { 0 => p.clone().inverse(), 1 => p.clone() ^ 2, _ => p.clone() * p.clone() }),
    change: |p, r| { let q = permutation(perm_of(r, 9)); *p = match r.below(4) { 0 => p.clone() * q, 1 => q * p.clone(), 2 => p.clone().inverse(), _ => p.clone() ^ r.range(0, 4) } },
    look: |p, r| match r.below(5) { 0 => p.map(r.usize(15)).to_string(), 1 => format!("{:?}", p.unfixed_indeces_iter().collect::<Vec<_>>()), 2 => format!("{p}"), 3 => { let v: Vec<i64> = (0..16).collect(); format!("{:?}", v << p.clone()) } _ => (p.clone() * p.clone().inverse()).to_string() } };
static CYCLE: Kind<Cycle> = Kind { name: "cycle", make: |r, n| { let mut v: Vec<usize> = (0..n.max(1)).collect(); r.shuffle(&mut v); Cycle::from(v) }, show: |c| format!("{c:?}"), dup: Some(|c| c.clone()), derive: None,
    change: |c, r| { let mut v = c.to_vec(); if v.len() > 2 { v.swap(1, 2); } v.push(r.usize(30)); *c = Cycle::from(v) }, look: |c, r| match r.below(2) { 0 => format!("{c}"), _ => format!("{:?}", c.partial_cmp(&Cycle::from(vec![2, 5, 3]))) } };
static LIST: Kind<Vec<E>> = Kind { name: "list acted on", make: |_, n| (0..n as i64).map(E::new).collect(), show: |v| v.iter().map(|e| e.val().to_string()).collect::<Vec<_>>().join(" "), dup: Some(|v| v.clone()), derive: Some(|v, r| v.clone() << permutation(perm_of(r, v.len()))),
    change: |v, r| { let p = permutation(perm_of(r, v.len() + r.chance(1, 9) as usize)); if r.chance(1, 2) { *v <<= p } else { v.action_by(p) } }, look: |v, r| { let p = permutation(perm_of(r, v.len())); (v.clone() << p).iter().map(|e| e.val().to_string()).collect::<Vec<_>>().join(" ") } };
static FIXEDPERM: Kind<ConstPermutation<5>> = Kind { name: "permutation of five", make: |r, _| ConstPermutation::from(five(r)), show: |p| format!("{p:?}"), dup: Some(|p| p.clone()), derive: Some(|p, _| *p * *p), change: |p, r| *p *= ConstPermutation::from(five(r)), look: |p, r| match r.below(2) { 0 => p.order().to_string(), _ => format!("{:?}", p.inverse()) } };
static VECPERM: Kind<VecPermutation> = Kind { name: "permutation of some", make: |r, _| VecPermutation::from(five(r)), show: |p| format!("{p:?}"), dup: Some(|p| p.clone()), derive: Some(|p, r| match r.below(3) { 0 => p.clone().inverse(), _ => p.clone() * p.clone() }), change: |p, r| *p *= match r.below(3) { 0 => VecPermutation::from([1, 0]), 1 => VecPermutation::from([0, 2, 1, 4, 3, 6, 5]), _ => VecPermutation::from(ConstPermutation::from(five(r))) }, look: |p, r| match r.below(3) { 0 => p.eval(r.usize(5)).to_string(), 1 => p.clone().order().to_string(), _ => format!("{:?}", p.clone() * VecPermutation::from([1, 0])) } };
fn five(r: &Q) -> [usize; 5] { let mut v = vec![0usize, 1, 2, 3, 4]; r.shuffle(&mut v); v.try_into().unwrap() }
fn steps(r: &Q, n: usize) -> Vec<Vec<[usize; 2]>> { (0..r.usize(n + 1)).map(|_| { let v = r.usize(5); vec![if r.chance(1, 2) { [v, v + 1] } else { [v + 1, v] }] }).collect() }
static PATH: Kind<EdgePath> = Kind { name: "edge path", make: |r, n| EdgePath::from(steps(r, n)), show: |p| format!("{p:?}"), dup: Some(|p| p.clone()), derive: Some(|p, _| p.clone().inverse()),
    change: |p, r| *p = match r.below(3) { 0 => { let o = EdgePath::from(steps(r, 4)); p.clone().composed_with(o) } 1 => p.clone().reduce_to_geodesic(), _ => p.clone().inverse() },
    look: |p, r| match r.below(2) { 0 => p.len().to_string(), _ => format!("{:?}", p.clone().reduce_to_geodesic()) } };
fn atom(r: &Q, d: usize) -> AtomicSmoothFn { let mut x = vec![]; analysis_coords(d, &mut x); some_fn(&mut r.rng(), &x, 1 + r.usize(2)) }
fn arg(r: &Q, d: usize) -> Matrix<f64> { Matrix::from_array((0..d).map(|_| vec![0.3 + r.below(100) as f64 / 64.0]).collect()) }
static ATOM: Kind<AtomicSmoothFn> = Kind { name: "function", make: |r, _| atom(r, 3), show: |f| format!("{f:?}"), dup: Some(|f| f.clone()), derive: Some(|f, r| match r.below(3) { 0 => f.clone().partial_derivative(r.usize(3)), 1 => f.clone().sin(), _ => f.clone() * f.clone() }),
    change: |f, r| { let g = atom(r, 3); match r.below(9) { 6 => *f /= g, 7 => *f = f.clone() / 2.0, 8 => *f = f.clone().powf(1.5), 0 => *f += g, 1 => *f -= g, 2 => *f *= g, 3 => *f = -f.clone(), 4 => *f = f.clone() * 2.5, _ => *f = f.clone().cos() } },
    look: |f, r| match r.below(4) { 0 => f.eval(&arg(r, 3)).show(), 1 => format!("{f}"), 2 => { let j = f.clone().jacobian(3); format!("{}", j[(0, r.usize(3))]) } _ => (*f == f.clone()).to_string() } };
static MULTI: Kind<MultiVarFn> = Kind { name: "function of several variables", make: |r, n| multi(1 + n % 3, 2, r.next(), 2), show: |f| format!("{f:?}"), dup: Some(|f| f.clone()), derive: None,
    change: |f, r| *f = multi(2, 2, r.next(), 2), look: |f, r| match r.below(4) { 0 => f.eval(&arg(r, 2)).show(), 1 => format!("{f}"), 2 => { let x = arg(r, 2); let j = f.clone().jacobian().eval(&x); j.show() } _ => format!("{}", f[0]) } };
static WEIGHTED: Kind<WeightedSimpleGraph<i64>> = Kind { name: "weighted graph", make: |r, n| WeightedSimpleGraph::from((0..n.max(1)).map(|i| (format!("v{}", r.usize(i + 1)), format!("v{}", i + 1), r.range(-5, 9))).collect()), show: |g| format!("{:?} {}", g.vertices(), g.data().show()), dup: Some(|g| g.clone()), derive: None,
    change: |g, r| *g = WeightedSimpleGraph::from(vec![("a".into(), "b".into(), r.range(1, 9))]), look: |g, r| match r.below(2) { 0 => g.clone().laplacian().show(), _ => g.n_vertices().to_string() } };
static CVEC: Kind<ConstVector<f64, 3>> = Kind { name: "fixed vector", make: |r, _| fix(r), show: |v| v.show(), dup: Some(|v| v.clone()), derive: Some(|v, r| *v + fix(r)), change: |v, r| { let o = fix(r); match r.below(5) { 0 => *v += o, 1 => *v -= o, 2 => *v *= 2.0, 3 => *v /= 4.0, _ => v[r.usize(4)] = 1.0 } }, look: |v, r| match r.below(3) { 0 => v.dot(*v).show(), 1 => v.two_norm().show(), _ => (-*v).show() } };
fn fix(r: &Q) -> ConstVector<f64, 3> { ConstVector::from(std::array::from_fn(|_| r.range(-40, 40) as f64 / 8.0)) }
static CMAT: Kind<ConstMatrix<f64, 2, 2>> = Kind { name: "fixed matrix", make: |r, _| ConstMatrix::from([[r.range(-9, 9) as f64, 1.0], [2.0, r.range(-9, 9) as f64]]), show: |m| format!("{:?} {:?} {:?} {:?}", m[0][0], m[0][1], m[1][0], m[1][1]), dup: Some(|m| m.clone()), derive: Some(|m, _| *m * 2.0), change: |m, r| match r.below(6) { 3 => *m -= ConstMatrix::from([[1.0, 2.0], [3.0, 4.0]]), 4 => *m /= 2.0, 5 => *m = -*m / 2.0, 0 => *m += ConstMatrix::from([[1.0, 2.0], [3.0, 4.0]]), 1 => *m *= 3.0, _ => m[r.usize(2)][r.usize(3)] = 9.0 }, look: |m, _| (*m == m.clone()).to_string() };
static RATIONAL: Kind<Rational> = Kind { name: "rational", make: |r, _| Rational::new(r.range(-9, 9), r.range(1, 9)), show: |x| x.show(), dup: Some(|x| x.clone()), derive: Some(|x, _| -*x), change: |x, r| { let y = Rational::new(r.range(-3, 3), r.range(1, 4)); match r.below(4) { 0 => *x += y, 1 => *x -= y, 2 => *x *= y, _ => if y != Rational::new(0, 1) { *x /= y } } }, look: |x, r| match r.below(2) { 0 => format!("{x}"), _ => (*x < Rational::new(1, 2)).to_string() } };
static CPLX: Kind<SimplicialCplx<String>> = Kind { name: "simplicial complex", make: |r, n| cplx(simplices(&mut r.rng(), n)), show: |c| format!("{} {} {:?} {}", c.dim(), c.n_vertices(), c.get_labeled_zero_skeleton(), c.boundary_map().show()), dup: None, derive: None,
    change: |c, r| { let mut v: Vec<String> = (0..6).filter(|_| r.chance(1, 3)).map(|i| format!("s{i}")).collect(); if v.is_empty() { v.push("s7".into()) } c.attach(Simplex::from(v)) },
    look: |c, r| match r.below(5) { 0 => format!("{}", IntegralHomology::new(c, None)), 1 => c.is_connected().to_string(), 2 => c.n_cells_of_dim(r.usize(3)).to_string(), 3 => format!("{:?}", c.get_labeled_zero_skeleton()), _ => c.boundary_map().show() } };
static CPLX_E: Kind<SimplicialCplx<E>> = Kind { name: "simplicial complex of tracked labels", make: |r, n| { let mut c = SimplicialCplx::new(); for _ in 0..n.min(3) { c.attach(simplex(r)); } c }, show: |c| format!("{} {} {:?} {:?}", c.dim(), c.n_vertices(), c.get_labeled_zero_skeleton(), c.boundary_map().iter().map(|(m, b)| format!("{} {b:?}", m.show())).collect::<Vec<_>>()), dup: None, derive: None,
    change: |c, r| { let s = simplex(r); c.attach(s) }, look: |c, r| match r.below(3) { 0 => c.is_connected().to_string(), 1 => c.n_cells_of_dim(r.usize(3)).to_string(), _ => format!("{:?}", c.boundary_map().iter().map(|(m, b)| format!("{} {b:?}", m.show())).collect::<Vec<_>>()) } };
fn simplex(r: &Q) -> Simplex<E> { let mut v: Vec<E> = (0..6).filter(|_| r.chance(1, 3)).map(E::new).collect(); if v.is_empty() { v.push(E::new(7)) } Simplex::from(v) }
static GRAPH: Kind<Graph<i64>> = Kind { name: "graph", make: |r, n| Graph::<i64>::from(some_graph(&mut r.rng(), n)), show: |g| format!("{} {} {} {} {}", g.n_vertices(), g.n_non_loop_edges(), g.n_non_loop_edges_up_to_multiplicity(), g.n_loops(), SimpleGraph::subdivided_graph_from(g, 2)), dup: None, derive: None,
    change: |g, r| *g = Graph::<i64>::from(some_graph(&mut r.rng(), r.usize(6))), look: |g, r| match r.below(4) { 0 => graph_text(&SimpleGraph::subdivided_graph_from(g, 1 + r.usize(3))), 1 => format!("{}", IntegralHomology::new(&UdnMorseCplx::new(g, 2, None), None)), 2 => format!("{}", SimpleGraph::from(g)), _ => CubicalCplx::udc(g, 2).n_cells().to_string() } };
static SIMPLE: Kind<SimpleGraph> = Kind { name: "simple graph", make: |r, n| SimpleGraph::subdivided_graph_from(&Graph::<i64>::from(some_graph(&mut r.rng(), n)), 1 + n % 3), show: |g| format!("{} {} {g} {}", g.n_vertices(), g.n_essential_vertices(), graph_text(g)), dup: None, derive: None,
    change: |g, r| *g = SimpleGraph::subdivided_graph_from(&Graph::<i64>::from(some_graph(&mut r.rng(), r.usize(5))), 2), look: |g, r| match r.below(4) { 0 => format!("{:?}", embedding(g, &[r.range(0, 9) as f64, 3.0])), 1 => g.vertices_list().iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "), 2 => g[r.usize(g.n_vertices())].to_string(), _ => { let h: RawSimpleGraph = (**g).clone(); graph_text(&h) } } };
static MORSE: Kind<UdnMorseCplx> = Kind { name: "Morse complex", make: |r, n| UdnMorseCplx::new(&Graph::<i64>::from(some_graph(&mut r.rng(), n)), 2, None), show: |c| format!("{c} {}", c.boundary_map().iter().map(|(m, b)| format!("{} {b:?}", m.show())).collect::<Vec<_>>().join("; ")), dup: None, derive: None,
    change: |c, r| *c = UdnMorseCplx::new(&Graph::<i64>::from(some_graph(&mut r.rng(), r.usize(4))), 2, None), look: |c, r| match r.below(4) { 0 => format!("{}", IntegralHomology::new(c, None)), 1 => c.get_cells_of_dim(1).into_iter().map(|x| format!("{:?}", c.factor_pool.get_edge_path(x))).collect::<Vec<_>>().join(" "), 2 => c.get_cells_of_dim(1).into_iter().map(|x| format!("{}", x.flow(&c.factor_pool))).collect::<Vec<_>>().join(" "), _ => { let h = IntegralHomology::new(c, None); h.get_description_of_cycles() + &h.get_description_of_boundaries() } } };
static CUBICAL: Kind<CubicalCplx> = Kind { name: "cubical complex", make: |r, n| CubicalCplx::udc(&Graph::<i64>::from(some_graph(&mut r.rng(), n.min(3))), 2), show: |c| format!("{c} {}", c.n_cells()), dup: None, derive: None,
    change: |c, r| *c = CubicalCplx::udc(&Graph::<i64>::from(some_graph(&mut r.rng(), r.usize(3))), 2), look: |c, r| match r.below(3) { 0 => c.dim_of(r.usize(c.n_cells())).to_string(), 1 => c.boundary_map().iter().map(|(m, b)| format!("{} {b:?}", m.show())).collect::<Vec<_>>().join("; "), _ => if c.n_cells() < 25 { format!("{}", IntegralHomology::new(c, None)) } else { c.dim_of(0).to_string() } } };
/// (weight, kind)
const KINDS: &[(u64, usize)] = &[(6, 0), (3, 1), (3, 2), (6, 3), (3, 4), (4, 5), (4, 6), (4, 7), (2, 8), (3, 9), (1, 10), (2, 11), (1, 12), (1, 13), (2, 14), (3, 15), (2, 16), (1, 17), (1, 18), (1, 19), (1, 20), (2, 21), (3, 22), (1, 23), (1, 24), (1, 25), (1, 26)];

fn fresh(kind: i64, seed: i64, n: usize) -> Result<Box<dyn Val>, Caught> {
    let q = Q::new(seed as u64 ^ 0xf4e5);
    macro_rules! b { ($k:expr) => { sut(|| ($k.make)(&q, n)).map(|v| Box::new(V { v, k: &$k }) as Box<dyn Val>) } }
    match kind.rem_euclid(27) { 0 => b!(MATRIX_E), 1 => b!(MATRIX_I), 2 => b!(MATRIX_R), 3 => b!(SPARSE), 4 => b!(POOL), 5 => b!(LABELS), 6 => b!(RAW), 7 => b!(SUM), 8 => b!(CHAIN), 9 => b!(PERM), 10 => b!(CYCLE), 11 => b!(LIST), 12 => b!(FIXEDPERM), 13 => b!(VECPERM), 14 => b!(PATH), 15 => b!(ATOM), 16 => b!(MULTI), 17 => b!(WEIGHTED), 18 => b!(CVEC), 19 => b!(CMAT), 20 => b!(RATIONAL), 21 => b!(CPLX), 22 => b!(CPLX_E), 23 => b!(GRAPH), 24 => b!(SIMPLE), 25 => b!(MORSE), _ => b!(CUBICAL) }
}
/// how a value came to be
#[derive(Clone, Debug)]
enum Step { Make(i64, i64, usize), Derive(i64), Change(i64) }
impl Step {
    fn text(&self) -> String { match self { Step::Make(a, b, c) => format!("M {a} {b} {c}"), Step::Derive(a) => format!("D {a}"), Step::Change(a) => format!("C {a}") } }
    fn parse(s: &str) -> Option<Step> { let w: Vec<&str> = s.split(' ').collect(); let n = |i: usize| w.get(i).and_then(|x| x.parse::<i64>().ok()); Some(match *w.first()? { "M" => Step::Make(n(1)?, n(2)?, n(3)? as usize), "D" => Step::Derive(n(1)?), _ => Step::Change(n(1)?) }) }
}
struct Slot { v: Box<dyn Val>, is: String, past: Option<Vec<Step>>, id: usize }
fn again(past: &[Step]) -> Option<Box<dyn Val>> {
    let mut v: Option<Box<dyn Val>> = None;
    for s in past {
        match *s {
            Step::Make(k, s, n) => v = fresh(k, s, n).ok(),
            Step::Derive(s) => { let w = v?; v = w.derive(s)?.ok(); sut(|| drop(w)).ok(); }
            Step::Change(s) => { v.as_mut()?.change(s).ok(); }
        }
    }
    v
}
/// every value but the one given is what it was
fn unchanged(slots: &[Slot], but: Option<usize>, what: &str) {
    for s in slots { if Some(s.id) == but { continue } let now = s.v.show(); if now != s.is { let d = crate::c03::around(&s.is, &now); fail("changed-from-outside", format!("{what}: value {} ({}) was {} and is {}", s.id, s.v.name(), d.0, d.1)); } }
}
impl Scenario for C18 {
    fn prop(&self) -> &'static str { "C18" }
    fn seeds(&self, th: bool) -> u64 { if th { 2_500_000 } else { 75_000 } }
    fn chunk(&self) -> u64 { 500 }
    fn rule(&self) -> &'static str { "one execution = a history of makings, clones, derived values, changes, looks and releases over up to 12 values of 27 types of all five crates, refused requests included, caller's element operations and callbacks panicking inside clones, changes and looks; after every step every value but the changed one is compared with what it was, and at the end every value whose changes all ran to their end with one made afresh by the same changes without the rest of the history, content and answers, and some of them with one made in another process, where there never was anything else; distinct = different event log" }
    fn real(&self) -> &'static str { "Matrix, SparseMatrix, BinaryPool, LabeledSet, RawSimpleGraph, SimpleGraph, Graph, WeightedSimpleGraph, Vector, Permutation and its relatives, EdgePath, AtomicSmoothFn, MultiVarFn, ConstVector, ConstMatrix, Rational, SimplicialCplx, UdnMorseCplx, CubicalCplx" }
    fn stub(&self) -> &'static str { "the caller's element and label type, the caller's function, the allocator" }
    fn fault_kinds(&self) -> &'static [&'static str] { &["panic-in-clone", "panic-in-eq", "panic-in-add", "panic-in-sub", "panic-in-neg", "panic-in-mul", "panic-in-zero", "panic-in-one", "panic-in-cmp", "panic-in-fmt", "panic-in-callback", "refused", "cut-change", "cut-look", "cut-clone"] }
    fn generate(&self, r: &mut Rng, plan: &mut Plan, th: bool) {
        let mut kinds = vec![];
        for _ in 0..1 + r.below(3) { let mut k = r.below(KINDS.iter().map(|x| x.0).sum()); for &(w, i) in KINDS { if k < w { kinds.push(i as i64); break; } k -= w; } }
        let n = r.range(4, if th { 40 } else { 26 });
        for i in 0..n {
            let c = if i < 1 { 0 } else { r.below(20) };
            match c {
                0 | 1 => { let m = if r.chance(1, 3) { 3 } else { 1 << 30 }; plan.op("make", &[*r.pick(&kinds), r.below(m) as i64, r.below(8) as i64]) }
                2..=5 => plan.op("clone", &[r.below(12) as i64]),
                6 => plan.op("derive", &[r.below(12) as i64, r.below(1 << 30) as i64]),
                7..=11 => { let m = if r.chance(1, 3) { 4 } else { 1 << 30 }; plan.op("change", &[r.below(12) as i64, r.below(m) as i64]) }
                12..=16 => plan.op("look", &[r.below(12) as i64, r.below(1 << 30) as i64]),
                17 => plan.op("swap", &[r.below(12) as i64, r.below(12) as i64]),
                _ => plan.op("drop", &[r.below(12) as i64]),
            }
        }
        plan.set("looks", r.below(1 << 20) as i64);
        for _ in 0..r.below(5) { let i = r.below(n as u64) as i64; let k = *r.pick(&[3, 10, 40, 150]); plan.fault(r.pick(&["elem", "elem", "elem", "callback"]), i, 1 + r.below(k) as i64); }
    }
    fn variants(&self, _: &mut Rng, _: &Plan, _: &Outcome, _: bool) -> Vec<Plan> { vec![] }
    fn run(&self, plan: &Plan) {
        // in a process of its own: what the code keeps for the process starts empty every time
        let f = fork_run(|| history(plan));
        let rest = match f.fate { Fate::Ended(v) => v, Fate::Died { class, detail, .. } => if class == "no-progress" || detail.contains("memory allocation of") { probe("unfinished"); return } else { fail(&class, detail) } };
        // some of the values again, where nothing else ever was
        for v in rest.chunks(6) {
            let past: Vec<Step> = v[0].split(';').filter_map(Step::parse).collect();
            let f = fork_run(|| { let Some(t) = again(&past) else { return vec!["cannot be made".into(); 5] }; let mut out = vec![t.show()]; for k in 0..4 { out.push(seen(&*t, plan.cfg("looks") + k)); } out });
            match f.fate {
                Fate::Ended(w) => for (k, (a, b)) in v[1..].iter().zip(&w).enumerate() { require!(a == b, "depends-on-others", "a value made by {past:?}, amid others, {} {}; where there are no others, {}", if k == 0 { "is" } else { "gives" }, around(a, b).0, around(a, b).1); },
                Fate::Died { class, detail, .. } => fail(&class, format!("a value made by {past:?}, where there are no others: {detail}")),
            }
            probe("made-elsewhere");
        }
    }
}
fn seen(v: &dyn Val, s: i64) -> String { match v.look(s) { Ok(s) => s, Err(c) => c.text() } }
fn history(plan: &Plan) -> Vec<String> {
    let mut rest = vec![];
    {
        ledger_reset();
        let mut slots: Vec<Slot> = vec![];
        let mut next = 0;
        for (i, op) in plan.ops.iter().enumerate() {
            let j = if slots.is_empty() { 0 } else { op.m(0, slots.len()) };
            if op.name != "make" && slots.is_empty() { continue; }
            let what = format!("step {i} ({})", op.text());
            begin_op(plan, i);
            let add = |slots: &mut Vec<Slot>, r: Result<Box<dyn Val>, Caught>, past: Option<Vec<Step>>, kind: &'static str, next: &mut usize| match r {
                Ok(v) => { let is = v.show(); log_str(kind, &is); if slots.len() < 12 { slots.push(Slot { v, is, past, id: *next }); *next += 1; } else { sut(|| drop(v)).ok(); } }
                Err(c) => { log_str(kind, &c.text()); if c.is_injected() { fired("cut-clone"); } else { fired("refused"); } }
            };
            match op.name.as_str() {
                "make" => { let n = op.a(2).clamp(0, 12) as usize; let v = fresh(op.a(0), op.a(1), n); end_op(i); add(&mut slots, v, Some(vec![Step::Make(op.a(0), op.a(1), n)]), "made", &mut next); unchanged(&slots, None, &what); }
                "clone" => { let v = slots[j].v.dup(); end_op(i); let past = slots[j].past.clone(); if let Some(v) = v {
                    if let Ok(x) = &v { let now = x.show(); require!(now == slots[j].is, "unlike-the-original", "{what}: the clone of value {} ({}), which is {}, is {}", slots[j].id, x.name(), around(&slots[j].is, &now).0, around(&slots[j].is, &now).1); }
                    add(&mut slots, v, past, "cloned", &mut next); } unchanged(&slots, None, &what); }
                "derive" => { let v = slots[j].v.derive(op.a(1)); end_op(i); let past = slots[j].past.clone().map(|mut p| { p.push(Step::Derive(op.a(1))); p }); if let Some(v) = v { add(&mut slots, v, past, "derived", &mut next); } unchanged(&slots, None, &what); }
                "change" => {
                    let r = slots[j].v.change(op.a(1)); end_op(i);
                    unchanged(&slots, Some(slots[j].id), &what);
                    let s = &mut slots[j];
                    match &r { Ok(()) => {} Err(c) if c.is_injected() => { fired("cut-change"); s.past = None; } Err(_) => fired("refused") }
                    if let Some(p) = &mut s.past { p.push(Step::Change(op.a(1))); }
                    s.is = s.v.show();
                    log_str("changed", &s.is);
                }
                "look" => { let r = slots[j].v.look(op.a(1)); end_op(i); match &r { Ok(s) => log_str("look", s), Err(c) => { log_str("look", &c.text()); if c.is_injected() { fired("cut-look") } else { fired("refused") } } } unchanged(&slots, None, &what); }
                "swap" => { end_op(i); let k = op.m(1, slots.len()); slots.swap(j, k); unchanged(&slots, None, &what); }
                _ => { end_op(i); let s = slots.remove(j); sut(|| drop(s.v)).ok(); unchanged(&slots, None, &what); }
            }
        }
        // what a value is depends on its own past only
        let part = plan.cfg("looks") as usize % 4;
        for s in &slots {
            let Some(past) = &s.past else { continue };
            if s.id % 4 == part && rest.len() < 18 { rest.push(past.iter().map(|p| p.text()).collect::<Vec<_>>().join(";")); rest.push(s.is.clone()); for k in 0..4 { rest.push(seen(&*s.v, plan.cfg("looks") + k)); } }
            let Some(t) = again(past) else { fail("depends-on-others", format!("value {} ({}) cannot be made again by {past:?}", s.id, s.v.name())) };
            let now = t.show();
            require!(now == s.is, "depends-on-others", "value {} ({}) is {}; made again by its own {past:?} it is {}", s.id, s.v.name(), around(&s.is, &now).0, around(&s.is, &now).1);
            for k in 0..4 {
                let (a, b) = (seen(&*s.v, plan.cfg("looks") + k), seen(&*t, plan.cfg("looks") + k));
                require!(a == b, "depends-on-others", "value {} ({}), {}: a look gives {}; made again by its own {past:?}, it gives {}", s.id, s.v.name(), s.is, around(&a, &b).0, around(&a, &b).1);
            }
            probe("made-again");
        }
        unchanged(&slots, None, "after the looks");
        while !slots.is_empty() { let s = slots.pop().unwrap(); sut(|| drop(s.v)).ok(); unchanged(&slots, None, "after a release"); }
        let l = ledger();
        require!(l.alive == 0, "elements-left", "{} elements alive after every value was dropped", l.alive);
    }
    rest
}
use crate::c03::around;
