//! C05: rendering to sinks that fail.
use crate::common::*;
use crate::c13::B as Bas;
use crate::el::*;
use alg::commutative::Rational;
use alg::lin_alg::{ConstVector, Matrix, Module, SparseMatrix, Vector};
use alg::non_commutative::permutation::{ConstPermutation, Cycle, Permutation, VecPermutation};
use analysis::{AtomicSmoothFn, MultiVarFn};
use simcore::driver::{Outcome, Scenario};
use simcore::*;
use std::cell::Cell;
use std::fmt::{self, Debug, Display, Write};
use topo_spaces::cubical::{Cube, CubicalCplx, EdgePath, UdnMorseCplx};
use topo_spaces::graph::{CubeFactor, Graph, RawSimpleGraph, SimpleGraph, SimpleVertex, VertexVector};
use topo_spaces::simplicial::{Simplex, SimplicialCplx};
use topo_spaces::IntegralHomology;
use util::{BinaryPool, LabeledSet};

pub struct C05;

thread_local! { static LABEL_ERR: Cell<i64> = const { Cell::new(0) }; }
/// a caller's type whose own rendering may fail
#[derive(PartialEq, Eq, Clone, PartialOrd, Ord)]
pub struct L(i64);
fn label_op() -> fmt::Result {
    if !in_sut() { return Ok(()); }
    callback("panic-in-label-fmt");
    let n = LABEL_ERR.with(|x| x.get());
    if n > 0 { LABEL_ERR.with(|x| x.set(n - 1)); if n == 1 { fired("label-error"); return Err(fmt::Error); } }
    Ok(())
}
impl Display for L { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "l")?; label_op()?; write!(f, "{}", self.0)?; f.write_char('.') } }
impl Debug for L { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { label_op()?; f.debug_tuple("L").field(&self.0).finish() } }
alg::formal_sum_impl!{ L }

/// something with a rendering; `spec` chooses how it is asked for
pub struct Thing { pub what: String, pub specs: &'static [usize], pub render: Box<dyn Fn(usize, &mut dyn Write) -> fmt::Result> }
fn display<T: Display>(x: &T, spec: usize, s: &mut dyn Write) -> fmt::Result {
    match spec { 0 => write!(s, "{}", x), 1 => write!(s, "{:.2}", x), 2 => write!(s, "{:>12}", x), 3 => write!(s, "{:#}", x), 4 => write!(s, "{:+}", x), _ => write!(s, "{:.0}", x) }
}
fn debug<T: Debug>(x: &T, spec: usize, s: &mut dyn Write) -> fmt::Result {
    match spec { 10 => write!(s, "{:?}", x), 11 => write!(s, "{:#?}", x), 12 => write!(s, "{:.1?}", x), _ => write!(s, "{:>9?}", x) }
}
const DISP: &[usize] = &[0, 1, 2, 3, 4, 5];
const DBG: &[usize] = &[10, 11, 12, 13];
const BOTH: &[usize] = &[0, 1, 2, 3, 4, 5, 10, 11, 12, 13];
fn both<T: Display + Debug + 'static>(what: &str, x: T) -> Thing { Thing { what: what.into(), specs: BOTH, render: Box::new(move |k, s| if k < 10 { display(&x, k, s) } else { debug(&x, k, s) }) } }
fn disp<T: Display + 'static>(what: &str, x: T) -> Thing { Thing { what: what.into(), specs: DISP, render: Box::new(move |k, s| display(&x, k, s)) } }
fn dbg<T: Debug + 'static>(what: &str, x: T) -> Thing { Thing { what: what.into(), specs: DBG, render: Box::new(move |k, s| debug(&x, k, s)) } }

pub fn some_graph(r: &mut Rng, n: usize) -> Vec<(String, String)> {
    let mut e: Vec<(String, String)> = vec![("tail".into(), "v0".into())];
    for i in 1..2 + n % 4 { e.push((format!("v{}", r.usize(i)), format!("v{i}"))); }
    if r.chance(1, 2) { e.push(("v0".into(), "v0".into())); }
    if r.chance(1, 3) { e.push(("v0".into(), "v1".into())); }
    // any order of the edges, of their ends, and of the names
    if r.chance(1, 2) { r.shuffle(&mut e); for x in e.iter_mut() { if r.chance(1, 2) { *x = (x.1.clone(), x.0.clone()); } } }
    if r.chance(1, 4) { let mut v: Vec<usize> = (0..6).collect(); r.shuffle(&mut v); let f = |s: &String| match s.strip_prefix('v') { Some(i) => format!("v{}", v[i.parse::<usize>().unwrap()]), None => s.clone() }; e = e.iter().map(|(a, b)| (f(a), f(b))).collect(); }
    e
}
pub fn simplices(r: &mut Rng, n: usize) -> Vec<Simplex<String>> {
    (0..1 + n % 4).map(|_| { let mut v: Vec<usize> = (0..5).filter(|_| r.chance(1, 2)).collect(); if v.is_empty() { v.push(r.usize(5)) } Simplex::from(v.into_iter().map(|i| format!("s{i}")).collect::<Vec<_>>()) }).collect()
}
pub fn some_fn(r: &mut Rng, x: &[analysis::Coordinate], d: usize) -> AtomicSmoothFn {
    if d == 0 { return match r.below(8) { 0 => AtomicSmoothFn::Zero, 1 => AtomicSmoothFn::One, 2 => x[0].sin(), 3 => x[r.usize(x.len())].cos(), _ => AtomicSmoothFn::Projection(r.usize(x.len())) }; }
    let a = some_fn(r, x, d - 1);
    match r.below(7) {
        0 => a.sin(), 1 => a.cos(),
        2 => a + some_fn(r, x, d - 1), 3 => a * some_fn(r, x, d - 1), 4 => a - some_fn(r, x, d - 1) * 3.0,
        5 => a * 2.5, _ => a.powi(2),
    }
}
pub const KINDS: usize = 34;
/// the object of a kind, drawn by its own seed
pub fn thing(kind: usize, seed: i64, n: usize) -> Thing {
    let mut r = Rng::new(seed as u64 ^ 0xc05);
    let r = &mut r;
    let dens = *r.pick(&[0u64, 2, 5, 8, 10]);
    let small = |r: &mut Rng| r.range(-12, 13);
    let what = format!("making a rendering {kind} {seed} {n}");
    let k = n.min(7);
    match kind {
        0 => { let m: Vec<usize> = (0..n * 7).filter(|_| r.below(10) < dens).collect(); dbg("binary pool", plain(&what, move || { let mut p = BinaryPool::new(n * 7); for i in m { p.add(i); } p })) }
        1 => { let m: Vec<usize> = (0..n).filter(|_| r.below(10) < dens).collect(); both("labelled set", plain(&what, move || { let mut s = LabeledSet::new((0..n as i64).map(L).collect()); for i in m { s.add(L(i as i64)); } s })) }
        2 => { let m: Vec<usize> = (0..n).filter(|_| r.below(10) < dens).collect(); both("labelled set of strings", plain(&what, move || { let mut s = LabeledSet::new((0..n).map(|i| format!("é{i}\t")).collect()); for i in m { s.add(format!("é{i}\t")); } s })) }
        3 => { let e: Vec<(i64, usize)> = (0..k).map(|_| (r.range(1, 9), 1 + r.usize(3))).collect(); let f = r.usize(4); disp("module", plain(&what, move || Module::new(f, e))) }
        4 => { let e: Vec<(Rational, usize)> = (0..k).map(|_| (Rational::new(r.range(1, 9), r.range(1, 5)), 1 + r.usize(3))).collect(); let f = r.usize(4); disp("module over the rationals", plain(&what, move || Module::new(f, e))) }
        5 => { let t: Vec<(i64, i64)> = (0..n as i64).map(|i| (small(r), i)).filter(|t| t.0 != 0).collect(); both("formal sum", plain(&what, move || t.into_iter().map(|(c, b)| c * L(b)).sum::<Vector<i64, L>>())) }
        6 => { let t: Vec<(i64, i64)> = (0..n as i64).map(|i| (1 + r.range(0, 9), i)).collect(); both("formal sum of tracked values", plain(&what, move || t.into_iter().map(|(c, b)| c * Bas(E::new(b))).sum::<Vector<i64, Bas>>())) }
        7 => { let (a, b) = (k, r.usize(8)); let s = r.next(); both("sparse matrix", plain(&what, move || SparseMatrix::from(((a, b), move |(i, j): (usize, usize)| { let h = rng::mix(s ^ (i * 64 + j) as u64); if h % 10 < dens { Some((h >> 8) as i64 % 100 - 50) } else { None } })))) }
        8 => { let (a, b) = (k, r.usize(8)); let s = r.next(); both("sparse matrix of tracked values", plain(&what, move || { let m = SparseMatrix::from(((a, b), move |(i, j): (usize, usize)| { let h = rng::mix(s ^ (i * 64 + j) as u64); if h % 10 < dens { Some(E::new((h >> 8) as i64 % 100)) } else { None } })); if s % 2 == 0 { m.transpose() } else { m } })) }
        9 => { let v: Vec<Vec<i64>> = { let c = 1 + r.usize(6); (0..k.max(1)).map(|_| (0..c).map(|_| small(r)).collect()).collect() }; both("integer matrix", plain(&what, move || Matrix::from_array(v))) }
        10 => { let v: Vec<Vec<f64>> = { let c = 1 + r.usize(6); (0..k.max(1)).map(|_| (0..c).map(|_| *r.pick(&[0.0, -0.0, 1.5, f64::NAN, f64::INFINITY, 1e-300, 123456.789, -2.25])).collect()).collect() }; both("real matrix", plain(&what, move || Matrix::from_array(v))) }
        11 => { let v: Vec<Vec<i64>> = { let c = 1 + r.usize(6); (0..k.max(1)).map(|_| (0..c).map(|_| small(r)).collect()).collect() }; let t = r.chance(1, 2); both("matrix of tracked values", plain(&what, move || { let m = Matrix::from_array(v.into_iter().map(|x| x.into_iter().map(E::new).collect()).collect()); if t { m.transpose() } else { m } })) }
        12 => { // a view into a matrix
            let (a, b) = (1 + k, 1 + r.usize(6)); let (x0, y0) = (r.usize(a), r.usize(b)); let (x1, y1) = (x0 + 1 + r.usize(a - x0), y0 + 1 + r.usize(b - y0));
            let m = plain(&what, || Matrix::from_array((0..a).map(|i| (0..b).map(|j| E::new((i * 10 + j) as i64)).collect::<Vec<_>>()).collect()));
            let t = r.chance(1, 2);
            Thing { what: "view".into(), specs: BOTH, render: Box::new(move |spec, s| {
                if t { let v = &m[(x0..x1, y0..y1)]; let v = &v[(.., ..)]; if spec < 10 { display(&v, spec, s) } else { debug(&v, spec, s) } }
                else { let v = &m[(x0..x1, y0..y1)]; if spec < 10 { display(&v, spec, s) } else { debug(&v, spec, s) } }
            }) }
        }
        13 => { let v: Vec<Vec<Rational>> = { let c = 1 + r.usize(4); (0..k.max(1)).map(|_| (0..c).map(|_| Rational::new(small(r), r.range(1, 6))).collect()).collect() }; both("rational matrix", plain(&what, move || Matrix::from_array(v))) }
        14 => { let a: [f64; 4] = std::array::from_fn(|_| small(r) as f64 / 4.0); dbg("fixed-size vector", plain(&what, move || ConstVector::from(a))) }
        15 => { let a: [i64; 3] = std::array::from_fn(|_| small(r)); dbg("fixed-size integer vector", plain(&what, move || ConstVector::from(a))) }
        16 => { let mut v: Vec<usize> = (0..n.max(1)).collect(); r.shuffle(&mut v); both("cycle", plain(&what, move || Cycle::from(v))) }
        17 => { let mut v: Vec<usize> = (0..n).collect(); r.shuffle(&mut v); let mut c = vec![]; while !v.is_empty() { let l = 1 + r.usize(v.len().min(4)); c.push(v.drain(..l).collect::<Vec<_>>()); } both("permutation", plain(&what, move || Permutation::from_disjoint_cycles(c.into_iter().map(Cycle::from).collect()))) }
        18 => { let mut v = [0usize, 1, 2, 3, 4]; r.shuffle(&mut v); if r.chance(1, 2) { dbg("fixed-size permutation", plain(&what, move || ConstPermutation::from(v))) } else { dbg("vector permutation", plain(&what, move || VecPermutation::from(v))) } }
        19 => { let (a, b) = (small(r), r.range(1, 9)); both("rational", plain(&what, move || Rational::new(a, b))) }
        20 => { let e = some_graph(r, n); let m = 2 + r.usize(2); disp("cubical complex", plain(&what, move || CubicalCplx::udc(&Graph::<i64>::from(e), m))) }
        21 => { let e = some_graph(r, n); let m = 2 + r.usize(2); disp("Morse complex", plain(&what, move || UdnMorseCplx::new(&Graph::<i64>::from(e), m, None))) }
        22 => { let f: Vec<CubeFactor> = (0..k).map(|i| if r.chance(1, 2) { CubeFactor::Vertex(i * 3) } else { CubeFactor::Edge([i * 3, i * 3 + 1]) }).collect(); both("cube", plain(&what, move || Cube::from(f))) }
        23 => { let s = simplices(r, n); disp("homology", plain(&what, move || { let mut c = SimplicialCplx::new(); for x in s { c.attach(x); } IntegralHomology::new(&c, None) })) }
        24 => { let e = some_graph(r, n); Thing { what: "cycles and boundaries".into(), specs: &[0, 1], render: { let h = plain(&what, move || IntegralHomology::new(&UdnMorseCplx::new(&Graph::<i64>::from(e), 2, None), None)); Box::new(move |k, w| w.write_str(&if k == 0 { h.get_description_of_cycles() } else { h.get_description_of_boundaries() })) } } }
        25 => disp("inserted vertex", VertexVector { start: "a".repeat(k), end: "é".into(), direction: r.usize(3), pos: Rational::new(r.range(1, 4), 5) }),
        26 => { let (d, p) = (r.usize(3), r.range(1, 4)); if r.chance(1, 2) { disp("vertex", SimpleVertex::Essential("x y".repeat(k))) } else { disp("vertex", SimpleVertex::Redundant(VertexVector { start: "a".into(), end: "b".into(), direction: d, pos: Rational::new(p, 5) })) } }
        27 => { let m = n.max(1); let e: Vec<(usize, usize)> = (0..m).flat_map(|j| (0..j).map(move |i| (i, j))).filter(|_| r.below(10) < dens).collect(); both("raw graph", plain(&what, move || { let mut g = RawSimpleGraph::new(m); for (i, j) in e { g.add_edge(i, j); } g })) }
        28 => { let e = some_graph(r, n); let m = 2 + r.usize(3); disp("simple graph", plain(&what, move || { let g = Graph::<i64>::from(e); if m == 4 { SimpleGraph::from(&g) } else { SimpleGraph::subdivided_graph_from(&g, m) } })) }
        29 => { let (a, b) = (r.usize(30), r.usize(30)); both("factor", if r.chance(1, 2) { CubeFactor::Vertex(a) } else { CubeFactor::Edge([a, a + b + 1]) }) }
        30 => { let v: Vec<Vec<[usize; 2]>> = (0..k).map(|i| (0..r.usize(4)).map(|j| [i + j, 2 * i + j]).collect()).collect(); dbg("edge path", plain(&what, move || EdgePath::from(v))) }
        31 => { let s = simplices(r, n).pop().unwrap(); dbg("simplex", s) }
        32 => { let d = 1 + r.usize(3); let mut q = Rng::new(r.next()); both("function", plain(&what, move || { let mut x = vec![]; analysis_coords(d, &mut x); some_fn(&mut q, &x, n % 4) })) }
        _ => { let (c, d) = (1 + r.usize(3), 1 + r.usize(3)); let s = r.next(); both("function of several variables", plain(&what, move || { let i = Cell::new(0u64); MultiVarFn::new((c, d)).set(|_, f, x| { i.set(i.get() + 1); *f = some_fn(&mut Rng::new(s ^ i.get()), &x, n % 3); }) })) }
    }
}
pub fn analysis_coords(d: usize, out: &mut Vec<analysis::Coordinate>) {
    let got = std::cell::RefCell::new(vec![]);
    analysis::AtomicSmoothFnBuilder::new(d).set(|_, x| { *got.borrow_mut() = x; });
    *out = got.into_inner();
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode { Open, Refuse(usize), Short(usize), Blip(usize), Panic(usize), Again(usize) }
struct Sink<'a> { text: String, mode: Mode, writes: usize, failed: bool, again: Option<&'a dyn Fn() -> String> , seen: Vec<String> }
impl<'a> Sink<'a> {
    fn new(mode: Mode) -> Sink<'a> { Sink { text: String::new(), mode, writes: 0, failed: false, again: None, seen: vec![] } }
}
impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        harness(|| {
            self.writes += 1;
            match self.mode {
                Mode::Open => {}
                Mode::Refuse(n) if self.failed || self.text.len() + s.len() > n => { if !self.failed { fired("sink-refuse"); } self.failed = true; return Err(fmt::Error) }
                Mode::Short(n) if self.failed || self.text.len() + s.len() > n => {
                    if self.failed { return Err(fmt::Error) }
                    fired("sink-short"); self.failed = true;
                    let mut k = n - self.text.len(); while !s.is_char_boundary(k) { k -= 1; }
                    self.text.push_str(&s[..k]);
                    return Err(fmt::Error)
                }
                Mode::Blip(k) if self.writes == k => { fired("sink-blip"); self.failed = true; return Err(fmt::Error) }
                Mode::Panic(k) if self.writes == k => { self.failed = true; inject("sink-panic") }
                Mode::Again(k) if self.writes == k => { fired("sink-reenters"); if let Some(f) = self.again { let t = f(); self.seen.push(t); } }
                _ => {}
            }
            self.text.push_str(s);
            Ok(())
        })
    }
}
/// an io stream with short writes, interruptions and, in the end, no space
struct Stream { bytes: Vec<u8>, left: usize, k: u64 }
impl std::io::Write for Stream {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        harness(|| {
            self.k += 1;
            if rng::mix(self.k) % 4 == 0 { fired("io-interrupted"); return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)); }
            if b.is_empty() { return Ok(0); }
            if self.left == 0 { fired("io-no-space"); return Err(std::io::Error::from_raw_os_error(28)); }
            let n = (1 + rng::mix(self.k ^ 77) as usize % 5).min(b.len()).min(self.left);
            if n < b.len() { fired("io-short-write"); }
            self.left -= n;
            self.bytes.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn full(t: &Thing, spec: usize) -> (String, usize) {
    let mut s = Sink::new(Mode::Open);
    match sut(|| (t.render)(spec, &mut s)) {
        Ok(Ok(())) => (std::mem::take(&mut s.text), s.writes),
        Ok(Err(_)) => fail("error-invented", format!("{} ({spec}): an error although the sink took everything", t.what)),
        Err(c) => fail("panic-while-rendering", format!("{} ({spec}): {}", t.what, c.text())),
    }
}
fn show(s: &str) -> String { if s.len() > 200 { format!("{:?}… ({} bytes)", s.chars().take(160).collect::<String>(), s.len()) } else { format!("{s:?}") } }
fn prefix(t: &Thing, spec: usize, how: &str, got: &str, all: &str) { require!(all.starts_with(got), "not-a-prefix", "{} ({spec}), {how}: the sink got {} of {}", t.what, show(got), show(all)); }

impl Scenario for C05 {
    fn prop(&self) -> &'static str { "C05" }
    fn seeds(&self, th: bool) -> u64 { if th { 300_000 } else { 20_000 } }
    fn chunk(&self) -> u64 { 150 }
    fn rule(&self) -> &'static str { "one execution = building 1 to 4 objects drawn by seed (34 kinds over every type of the workspace with a Display or Debug rendering), rendering each under 1 to 10 format specifications, then again into sinks that refuse at a drawn byte, accept part of a write, fail once and then recover, panic, re-enter the rendering, or are io streams with short writes, interruptions and no space, or with the label's own rendering failing or panicking at a drawn call; distinct = different event log" }
    fn real(&self) -> &'static str { "every Display and Debug implementation of util, alg, topo_spaces and analysis, and std::fmt under them" }
    fn stub(&self) -> &'static str { "the sink (fmt::Write and io::Write), labels and tracked elements whose rendering may fail, the allocator and hash keys" }
    fn fault_kinds(&self) -> &'static [&'static str] { &["sink-refuse", "sink-short", "sink-blip", "sink-panic", "sink-reenters", "io-interrupted", "io-no-space", "io-short-write", "label-error", "panic-in-label-fmt", "panic-in-fmt"] }
    fn generate(&self, r: &mut Rng, plan: &mut Plan, _th: bool) {
        for _ in 0..r.range(1, 4) {
            let i = plan.ops.len() as i64;
            plan.op("render", &[r.below(KINDS as u64) as i64, r.below(1 << 30) as i64, *r.pick(&[0, 1, 1, 2, 3, 4, 5, 6, 8, 10, 12]), r.below(1 << 20) as i64]);
            for _ in 0..r.range(2, 10) {
                let k = *r.pick(&["@refuse", "@refuse", "@short", "@short", "@blip", "@blip", "@panic", "@again", "@io"]);
                let _ = k;
                plan.fault(&k[1..], i, 1 + r.below(1 << 20) as i64);
            }
        }
    }
    fn variants(&self, r: &mut Rng, plan: &Plan, o: &Outcome, _th: bool) -> Vec<Plan> {
        let mut out = vec![];
        for (i, c) in o.op_counts.iter().enumerate() {
            if c.callbacks > 0 { for kind in ["callback", "label-err"] { let mut p = plan.clone(); p.fault(kind, i as i64, 1 + r.below(c.callbacks) as i64); out.push(p); } }
            if c.elem_ops > 0 { let mut p = plan.clone(); p.fault("elem", i as i64, 1 + r.below(c.elem_ops) as i64); out.push(p); }
        }
        out.truncate(4);
        out
    }
    fn run(&self, plan: &Plan) {
        ledger_reset();
        for (i, op) in plan.ops.iter().enumerate() {
            let (kind, seed, n) = (op.m(0, KINDS), op.a(1), op.a(2).clamp(0, 14) as usize);
            let t = thing(kind, seed, n);
            let alive = ledger().alive;
            let mut texts = vec![];
            for &spec in t.specs { texts.push(full(&t, spec)); log_str("text", &texts.last().unwrap().0); }
            let at = op.m(3, t.specs.len());
            let (spec, (text, writes)) = (t.specs[at], texts[at].clone());
            require!(writes > 0 || text.is_empty(), "harness", "text without writes");
            // a rendering whose caller-supplied parts fail
            LABEL_ERR.with(|x| x.set(fault_at(plan, i, "label-err").unwrap_or(0)));
            begin_op(plan, i);
            let mut s = Sink::new(Mode::Open);
            let e = sut(|| (t.render)(spec, &mut s));
            end_op(i);
            let left = LABEL_ERR.with(|x| x.replace(0));
            let label_failed = fault_at(plan, i, "label-err").is_some() && left == 0;
            match e {
                Ok(Ok(())) => { require!(!label_failed, "error-lost", "{} ({spec}): a label failed to render, and the rendering reports success", t.what); require!(s.text == text, "different-text", "{} ({spec}): {} and then {}", t.what, show(&text), show(&s.text)); }
                Ok(Err(_)) => { require!(label_failed, "error-invented", "{} ({spec}): an error although nothing failed", t.what); prefix(&t, spec, "a label failing", &s.text, &text); probe("label-failed"); }
                Err(Caught::Injected(_)) => { prefix(&t, spec, "a label panicking", &s.text, &text); probe("label-panicked"); }
                Err(c) => fail("panic-while-rendering", format!("{} ({spec}): {}", t.what, c.text())),
            }
            require!(ledger().alive == alive, "element-lost", "{} ({spec}): {} elements were alive before the rendering and {} after it", t.what, alive, ledger().alive);
            for f in plan.faults.iter().filter(|f| f.at == i as i64) {
                // (sinks fail at a place counted in the undisturbed rendering)
                let byte = f.arg.rem_euclid(text.len() as i64 + 1) as usize; let wr = 1 + f.arg.rem_euclid(writes.max(1) as i64 + 1) as usize;
                let mode = match f.kind.as_str() {
                    "refuse" => Mode::Refuse(byte), "short" => Mode::Short(byte), "blip" => Mode::Blip(wr), "panic" => Mode::Panic(wr), "again" => Mode::Again(wr),
                    "io" => {
                        let mut st = Stream { bytes: vec![], left: byte, k: f.arg as u64 };
                        let e = sut(|| { struct A<'a>(&'a mut Stream, std::io::Result<()>); impl Write for A<'_> { fn write_str(&mut self, s: &str) -> fmt::Result { use std::io::Write; self.0.write_all(s.as_bytes()).map_err(|e| { self.1 = Err(e); fmt::Error }) } } let mut a = A(&mut st, Ok(())); let r = (t.render)(spec, &mut a); (r.is_ok(), a.1.is_ok()) });
                        match e {
                            Ok((r, io)) => { require!(r == io, if io { "error-invented" } else { "error-lost" }, "{} ({spec}): the stream {} and the rendering says {}", t.what, if io { "took everything" } else { "failed" }, if r { "success" } else { "failure" }); require!(!io || st.bytes == text.as_bytes(), "different-text", "{} ({spec}) through a stream of short writes", t.what); require!(text.as_bytes().starts_with(&st.bytes), "not-a-prefix", "{} ({spec}): the stream got {}", t.what, show(&String::from_utf8_lossy(&st.bytes))); }
                            Err(c) => fail("panic-while-rendering", format!("{} ({spec}) to a failing stream: {}", t.what, c.text())),
                        }
                        continue
                    }
                    _ => continue,
                };
                let again = || { let k = *t.specs.iter().rev().nth(at).unwrap(); let _ = full(&t, k); full(&t, spec).0 };
                let mut s = Sink::new(mode);
                if let Mode::Again(_) = mode { s.again = Some(&again); }
                let e = sut(|| (t.render)(spec, &mut s));
                log_str(&format!("{mode:?}"), &s.text);
                let how = format!("{mode:?}");
                for x in &s.seen { require!(*x == text, "different-text", "{} ({spec}) rendered while it is being rendered: {}", t.what, show(x)); }
                match e {
                    Ok(Ok(())) => { require!(!s.failed, "error-lost", "{} ({spec}), {how}: the sink failed, and the rendering reports success", t.what); require!(s.text == text, "different-text", "{} ({spec}), {how}: {} instead of {}", t.what, show(&s.text), show(&text)); }
                    Ok(Err(_)) => { require!(s.failed, "error-invented", "{} ({spec}), {how}: an error although the sink took everything", t.what); prefix(&t, spec, &how, &s.text, &text); }
                    Err(Caught::Injected(_)) => { require!(s.failed, "harness", "injected without a fault"); prefix(&t, spec, &how, &s.text, &text); }
                    Err(c) => fail("panic-while-rendering", format!("{} ({spec}), {how}: {}", t.what, c.text())),
                }
                if s.failed { let x = full(&t, spec).0; require!(x == text, "value-changed", "{} ({spec}): after {how} it renders as {} instead of {}", t.what, show(&x), show(&text)); }
                require!(ledger().alive == alive, "element-lost", "{} ({spec}), {how}: {} elements were alive before the rendering and {} after it", t.what, alive, ledger().alive);
            }
            for (k, &spec) in t.specs.iter().enumerate() { let x = full(&t, spec).0; require!(x == texts[k].0, "value-changed", "{} ({spec}) renders as {} instead of {}", t.what, show(&x), show(&texts[k].0)); }
            // the same object made again has the same text
            let u = thing(kind, seed, n);
            for (k, &spec) in t.specs.iter().enumerate() { let x = full(&u, spec).0; require!(x == texts[k].0, "different-text", "{} ({spec}), made twice: {} and {}", t.what, show(&texts[k].0), show(&x)); }
        }
    }
}
