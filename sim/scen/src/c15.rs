use crate::common::*;
use crate::el::*;
use alg::lin_alg::{SparseMatrix, Vector};
use alg::non_commutative::permutation::{Cycle, Permutation};
use alg::non_commutative::Group;
use simcore::driver::{Outcome, Scenario};
use simcore::*;
use std::collections::{BTreeMap, BTreeSet};
use topo_spaces::cubical::UdnMorseCplx;
use topo_spaces::graph::{CubeFactor, Graph, RawSimpleGraph};
use util::{BinaryPool, LabeledSet, TupleIterable};

pub struct C15;
type Item = Vec<i64>;

/// an object of the library, with what its iterators must give
enum Obj {
    Pool(BinaryPool, BTreeSet<usize>),
    Set(LabeledSet<String>, Vec<String>, BTreeSet<usize>),
    Slice(Vec<i64>),
    Sparse(SparseMatrix<i64>, (usize, usize), BTreeMap<(usize, usize), i64>),
    Perm(Permutation, BTreeSet<usize>),
    Graph(RawSimpleGraph, usize, BTreeSet<(usize, usize)>),
    Morse(UdnMorseCplx, Vec<Vec<Item>>),
    Sum(Vector<i64, Bas>, Vec<(i64, i64)>),
}
use crate::c13::B as Bas;
fn fitem(f: CubeFactor) -> Item { match f { CubeFactor::Vertex(v) => vec![v as i64], CubeFactor::Edge([a, b]) => vec![a as i64, b as i64] } }

fn object(op: &Op) -> Obj {
    let mut r = Rng::new(op.a(1) as u64 ^ 0xc15);
    let n = op.a(2).clamp(0, 30_000) as usize;
    let dens = *r.pick(&[0u64, 1, 3, 6, 9, 10]);
    let what = format!("making the object '{}'", op.text());
    match op.name.as_str() {
        "pool" => { let m: BTreeSet<usize> = (0..n).filter(|_| r.below(10) < dens).collect(); let m2 = m.clone(); Obj::Pool(plain(&what, || { let mut p = BinaryPool::new(n); for i in m2 { p.add(i); } p }), m) }
        "set" => {
            let labels: Vec<String> = (0..n.min(80)).map(|i| format!("l{}", (i * 37) % 101)).collect();
            let m: BTreeSet<usize> = (0..labels.len()).filter(|_| r.below(10) < dens).collect();
            let l = labels.clone(); let m2 = m.clone();
            Obj::Set(plain(&what, move || { let mut s = LabeledSet::new(l.clone()); for i in m2 { s.add(l[i].clone()); } s }), labels, m)
        }
        "slice" => Obj::Slice((0..n.min(12)).map(|i| (i as i64 * 7 + 3) % 11).collect()),
        "sparse" => {
            let (a, b) = (n.min(12), r.usize(13));
            let m: BTreeMap<(usize, usize), i64> = (0..a).flat_map(|i| (0..b).map(move |j| (i, j))).filter(|_| r.below(10) < dens).map(|k| (k, (k.0 * 31 + k.1 * 7) as i64 % 19 - 9)).collect();
            let m2 = m.clone();
            let t = r.chance(1, 2);
            let s = plain(&what, move || { let f = move |(i, j): (usize, usize)| m2.get(&if t { (j, i) } else { (i, j) }).copied(); if t { SparseMatrix::from(((b, a), f)).transpose() } else { SparseMatrix::from(((a, b), f)) } });
            Obj::Sparse(s, (a, b), m)
        }
        "perm" => {
            let n = n.min(24).max(1);
            let how = r.below(6);
            let mut img: Vec<usize> = (0..n).collect();
            let mut sw: Vec<(usize, usize)> = vec![];
            for _ in 0..r.below(6) { if n < 2 { break; } let a = r.usize(n); let b = r.usize(n); if a != b { sw.push((a.min(b), a.max(b))); } }
            let (x, y, z, w) = { let mut q: Vec<usize> = (0..4).map(|_| r.usize(n + 1)).collect(); q.sort(); (q[0], q[1], q[2], q[3]) };
            let p = match how {
                // a product of transpositions, multiplied left to right or right to left
                0 | 1 => {
                    for &(a, b) in &sw { for v in img.iter_mut() { if *v == a { *v = b } else if *v == b { *v = a } } }
                    let s = sw.clone();
                    let p = plain(&what, move || { let mut p = Permutation::identity(); for (a, b) in s { p = Permutation::from_cycle(Cycle::from(vec![a, b])) * p; } p });
                    if how == 1 { let mut inv = vec![0; n]; for (i, &v) in img.iter().enumerate() { inv[v] = i; } img = inv; plain(&what, move || p.inverse()) } else { p }
                }
                2 => { let k = if y > x { y - x } else { 0 }; for i in 0..k { img[x + i] = x + (i + 1) % k; } plain(&what, move || Permutation::cyclic_from(x..y)) }
                3 => { // exchange two blocks
                    let mut l: Vec<usize> = (0..x).collect(); l.extend(z..w); l.extend(y..z); l.extend(x..y); l.extend(w..n);
                    if x < y && z < w { for (pos, &v) in l.iter().enumerate() { img[v] = pos; } } // (with nothing to exchange nothing moves)
                    let back = r.chance(1, 2);
                    plain(&what, move || if back { Permutation::swap(z..w, x..y) } else { Permutation::swap(x..y, z..w) })
                }
                4 => plain(&what, || Permutation::identity()),
                _ => {
                    let mut v: Vec<usize> = (0..n).collect(); r.shuffle(&mut v);
                    let mut cyc = vec![]; let mut k = 0;
                    while k < n { let l = 1 + r.usize(5.min(n - k)); let c = v[k..k + l].to_vec(); for i in 0..l { img[c[i]] = c[(i + 1) % l]; } cyc.push(c); k += l; }
                    plain(&what, move || Permutation::from_disjoint_cycles(cyc.into_iter().map(Cycle::from).collect()))
                }
            };
            let m: BTreeSet<usize> = (0..n).filter(|&i| img[i] != i).collect();
            for i in 0..n { let g = plain(&what, || p.map(i)); require!(g == img[i], "wrong-object", "{what}: {i} goes to {g}, should go to {}", img[i]); }
            Obj::Perm(p, m)
        }
        "graph" => {
            let n = n.min(60).max(1);
            let m: BTreeSet<(usize, usize)> = (0..n).flat_map(|j| (0..j).map(move |i| (i, j))).filter(|_| r.below(10) < dens).collect();
            let m2 = m.clone();
            Obj::Graph(plain(&what, move || { let mut g = RawSimpleGraph::new(n); for (i, j) in m2 { g.add_edge(i, j); } g }), n, m)
        }
        "long" => { // many vertices, hardly any edges
            let n = n.max(1000);
            let m: BTreeSet<(usize, usize)> = (0..4).map(|_| { let a = r.usize(n - 1); (a, a + 1 + r.usize(n - a - 1)) }).collect();
            let m2 = m.clone();
            Obj::Graph(plain(&what, move || { let mut g = RawSimpleGraph::new(n); for (i, j) in m2 { g.add_edge(i, j); } g }), n, m)
        }
        "morse" => {
            let mut e: Vec<(String, String)> = (1..2 + n % 5).map(|i| (format!("{}", r.usize(i)), format!("{i}"))).collect();
            if r.chance(1, 2) { e.push(("0".into(), "0".into())); }
            e.insert(0, ("tail".into(), "0".into()));
            let k = 2 + r.usize(2);
            let c = plain(&what, || { let g = Graph::<i64>::from(e); UdnMorseCplx::new(&g, k, None) });
            // the branches from the first complete reading of each
            let mut all = vec![];
            loop {
                let b = all.len();
                match call(|| c.factor_iter(b).map(fitem).collect::<Vec<Item>>()) { End::Done(x) => all.push(x), _ => break }
                if all.len() > 400 { break; }
            }
            for x in &all { require!(!x.is_empty() && x.len() <= k && x.windows(2).all(|w| w[0][0] > w[1][0]), "wrong-elements", "{what}: factors {x:?}"); }
            let cells: BTreeSet<Vec<Item>> = all.iter().filter(|x| x.len() == k).cloned().collect();
            let lib: BTreeSet<Vec<Item>> = (0..=k).flat_map(|d| plain(&what, || c.get_cells_of_dim(d)).into_iter().map(|c| c.iter().rev().map(|f| fitem(*f)).collect::<Vec<Item>>()).collect::<Vec<_>>()).collect();
            require!(lib.is_subset(&cells), "wrong-elements", "{what}: some cell is no branch");
            Obj::Morse(c, all)
        }
        _ => {
            let m: Vec<(i64, i64)> = (0..n.min(40) as i64).filter(|_| r.below(10) < dens).map(|k| (k * 3 % 7 + 1, k)).collect();
            let m2 = m.clone();
            Obj::Sum(plain(&what, move || m2.into_iter().map(|(c, k)| c * Bas(E::new(k))).sum::<Vector<i64, Bas>>()), m)
        }
    }
}
type It<'a> = Box<dyn Reader + 'a>;
/// an iterator of the library as the harness reads it: every method is passed on to the iterator's own one
trait Reader {
    fn next(&mut self) -> Option<Item>;
    fn nth(&mut self, n: usize) -> Option<Item>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn take(&mut self, n: usize) -> Vec<Item>;
    fn for_each(&mut self, f: &mut dyn FnMut(Item));
    fn find(&mut self, f: &mut dyn FnMut(&Item) -> bool) -> Option<Item>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Item>;
    fn fold(self: Box<Self>, f: &mut dyn FnMut(Item));
    fn extreme(self: Box<Self>, max: bool) -> Option<Item>;
    fn skip(self: Box<Self>, n: usize, step: usize) -> Vec<Item>;
}
struct Fwd<I, F>(I, F);
impl<I: Iterator, F: Fn(I::Item) -> Item> Reader for Fwd<I, F> {
    fn next(&mut self) -> Option<Item> { self.0.next().map(&self.1) }
    fn nth(&mut self, n: usize) -> Option<Item> { self.0.nth(n).map(&self.1) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn take(&mut self, n: usize) -> Vec<Item> { self.0.by_ref().take(n).map(&self.1).collect() }
    fn for_each(&mut self, f: &mut dyn FnMut(Item)) { self.0.by_ref().for_each(|x| f((self.1)(x))) }
    fn find(&mut self, f: &mut dyn FnMut(&Item) -> bool) -> Option<Item> { let g = &self.1; self.0.find_map(|x| Some(g(x)).filter(|x| f(x))) }
    fn count(self: Box<Self>) -> usize { self.0.count() }
    fn last(self: Box<Self>) -> Option<Item> { self.0.last().map(self.1) }
    fn fold(self: Box<Self>, f: &mut dyn FnMut(Item)) { let g = self.1; self.0.fold((), |_, x| f(g(x))) }
    fn extreme(self: Box<Self>, max: bool) -> Option<Item> { let g = self.1; if max { self.0.map(g).max() } else { self.0.map(g).min() } }
    fn skip(self: Box<Self>, n: usize, step: usize) -> Vec<Item> { let g = self.1; self.0.skip(n).step_by(step).map(g).collect() }
}
fn fwd<'a, I: Iterator + 'a, F: Fn(I::Item) -> Item + 'a>(i: I, f: F) -> It<'a> { Box::new(Fwd(i, f)) }
/// an iterator over the object and what it must yield (None: in the order found by a first reading)
fn open<'a>(o: &'a Obj, which: usize, arg: i64, what: &str) -> Option<(It<'a>, Vec<Item>)> {
    let one = |x: &mut dyn Iterator<Item = usize>| x.map(|i| vec![i as i64]).collect::<Vec<Item>>();
    Some(match o {
        Obj::Pool(p, m) => (plain(what, || fwd(p.iter(), |i| vec![i as i64])), one(&mut m.iter().copied())),
        Obj::Set(s, l, m) => (plain(what, || fwd(s.iter(), |x| x.bytes().map(|b| b as i64).collect())), m.iter().map(|&i| l[i].bytes().map(|b| b as i64).collect()).collect()),
        Obj::Slice(v) => {
            let k = arg.rem_euclid(v.len() as i64 + 2) as usize;
            let mut want: Vec<Vec<usize>> = vec![];
            fn rec(n: usize, k: usize, from: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) { if cur.len() == k { out.push(cur.clone()); return; } for i in from..n { cur.push(i); rec(n, k, i + 1, cur, out); cur.pop(); } }
            rec(v.len(), k, 0, &mut vec![], &mut want);
            (plain(what, || fwd(v.tuple_iter(k), |t| t.into_iter().copied().collect())), want.into_iter().map(|t| t.into_iter().map(|i| v[i]).collect()).collect())
        }
        Obj::Sparse(s, (a, b), m) => {
            if which % 2 == 0 {
                let i = arg.rem_euclid(*a as i64 + 2) as usize; if i >= *a { return None; }
                (plain(what, || fwd(s.row_iter(i), |(j, x)| vec![j as i64, *x])), m.iter().filter(|(k, _)| k.0 == i).map(|(k, x)| vec![k.1 as i64, *x]).collect())
            } else {
                let j = arg.rem_euclid(*b as i64 + 2) as usize; if j >= *b { return None; }
                (plain(what, || fwd(s.col_iter(j), |(i, x)| vec![i as i64, *x])), m.iter().filter(|(k, _)| k.1 == j).map(|(k, x)| vec![k.0 as i64, *x]).collect())
            }
        }
        Obj::Perm(p, m) => {
            // the order is the permutation's own: cycle by cycle
            let first = plain(what, || p.unfixed_indeces_iter().collect::<Vec<usize>>());
            require!(first.iter().copied().collect::<BTreeSet<_>>() == *m && first.len() == m.len(), "wrong-elements", "{what}: the permutation moves {m:?}, the iterator yields {first:?}");
            (plain(what, || fwd(p.unfixed_indeces_iter(), |i| vec![i as i64])), one(&mut first.into_iter()))
        }
        Obj::Graph(g, n, m) => {
            let edges = || { let mut e: Vec<(usize, usize)> = m.iter().copied().collect(); e.sort_by(|x, y| x.1.cmp(&y.1).then(y.0.cmp(&x.0))); e.into_iter().map(|(i, j)| vec![i as i64, j as i64]).collect::<Vec<Item>>() };
            let big = *n > 100;
            match if big { 0 } else { which % 4 } {
                0 => { let v = arg.rem_euclid(*n as i64) as usize; (plain(what, || fwd(g.adjacent_vertices_iter(v), |i| vec![i as i64])), one(&mut m.iter().filter(|e| e.0 == v || e.1 == v).map(|e| e.0 + e.1 - v).collect::<BTreeSet<_>>().into_iter())) }
                1 => (plain(what, || fwd(g.edge_iter(), fitem)), edges()),
                2 => (plain(what, || fwd(g.vertex_iter(), fitem)), one(&mut (0..*n))),
                _ => { let mut w = one(&mut (0..*n)); w.extend(edges()); (plain(what, || fwd(g.iter(), fitem)), w) }
            }
        }
        Obj::Morse(c, all) => { if all.is_empty() { return None; } let b = arg.rem_euclid(all.len() as i64) as usize; (plain(what, || fwd(c.factor_iter(b), fitem)), all[b].clone()) }
        Obj::Sum(v, m) => {
            let w: Vec<Item> = m.iter().map(|&(c, k)| vec![c, k]).collect();
            match which % 2 { 0 => (plain(what, || fwd(v.iter(), |(c, b)| vec![*c, harness(|| b.0.val())])), w), _ => (plain(what, || { let u = v.clone(); fwd(u.into_iter(), |(c, b)| vec![c, harness(|| b.0.val())]) }), w) }
        }
    })
}
struct Cursor<'a> { it: It<'a>, want: Vec<Item>, at: usize, name: String }
fn drive<'a>(objs: &'a [Obj], its: &mut Vec<Option<Cursor<'a>>>, op: &Op, when: &str) {
    let n = its.len();
    if op.name == "open" {
        if objs.is_empty() { return; }
        let k = op.m(0, objs.len());
        if let Some((it, want)) = open(&objs[k], op.m(1, 12), op.a(2), when) {
            let c = Cursor { it, want, at: 0, name: format!("iterator over object {k} opened by '{}'", op.text()) };
            match its.iter().position(|x| x.is_none()) { Some(p) if n >= 6 => its[p] = Some(c), _ => its.push(Some(c)) }
        }
        return;
    }
    if n == 0 { return; }
    let slot = op.m(0, n);
    let Some(c) = its[slot].as_mut() else { return };
    let rest = c.want.len() - c.at;
    let what = format!("{when}: the {} at position {}", c.name, c.at);
    match op.name.as_str() {
        "step" => for _ in 0..op.m(1, 9) + 1 {
            let got = plain(&what, || c.it.next());
            let want = c.want.get(c.at);
            require!(got.as_ref() == want, if want.is_none() { "does-not-stop" } else { "wrong-elements" }, "{what}: position {} is {got:?}, should be {want:?}", c.at);
            if want.is_some() { c.at += 1; } else { probe("next-after-the-end"); }
        },
        "hint" => { let (lo, hi) = plain(&what, || c.it.size_hint()); require!(lo <= rest && hi.is_none_or(|h| h >= rest), "wrong-size-hint", "{what}: {rest} elements remain, the hint is {lo} to {hi:?}"); }
        "nth" => { let k = op.m(1, 7); let got = plain(&what, || c.it.nth(k)); let want = c.want.get(c.at + k); require!(got.as_ref() == want, "wrong-elements", "{what}: nth({k}) is {got:?}, should be {want:?}"); c.at = (c.at + k + 1).min(c.want.len()); }
        "take" => { let k = op.m(1, 7); let it = &mut c.it; let got = plain(&what, || it.take(k)); let want = &c.want[c.at..(c.at + k).min(c.want.len())]; require!(got == want, "wrong-elements", "{what}: take({k}) gives {got:?}, should give {want:?}"); c.at += want.len(); }
        "each" => { // the caller's function may panic: the iterator goes on behind that element
            let mut got: Vec<Item> = vec![];
            let it = &mut c.it;
            let r = call(|| it.for_each(&mut |x| { harness(|| got.push(x)); callback("panic-in-callback"); }));
            let k = got.len();
            let want = &c.want[c.at..];
            match r {
                End::Done(()) => require!(got == want, "wrong-elements", "{what}: for_each sees {got:?}, should see {want:?}"),
                End::Cut => require!(k <= want.len() && got == want[..k], "wrong-elements", "{what}: until the panic for_each sees {got:?}, should see a beginning of {want:?}"),
                End::Refused(t) => fail("unexpected-panic", format!("{what}: {t}")),
            }
            c.at += k;
        }
        "find" => { // an element further on, or none of them
            let k = op.m(1, 9);
            let target = c.want.get(c.at + k).cloned();
            let got = plain(&what, || c.it.find(&mut |x| Some(x) == target.as_ref()));
            let to = c.want[c.at..].iter().position(|x| Some(x) == target.as_ref());
            require!(got == target, "wrong-elements", "{what}: looking for {target:?} finds {got:?}");
            c.at = to.map_or(c.want.len(), |d| c.at + d + 1);
        }
        "fold" | "max" | "min" | "skip" => {
            let Cursor { it, want, at, .. } = its[slot].take().unwrap();
            let want = &want[at..];
            match op.name.as_str() {
                "fold" => { let mut got = vec![]; plain(&what, || it.fold(&mut |x| harness(|| got.push(x)))); require!(got == want, "wrong-elements", "{what}: fold sees {got:?}, should see {want:?}"); }
                "skip" => { let (k, n) = (op.m(1, 7), 1 + op.m(2, 4)); let got = plain(&what, || it.skip(k, n)); let w: Vec<Item> = want.iter().skip(k).step_by(n).cloned().collect(); require!(got == w, "wrong-elements", "{what}: skipping {k} and taking every {n}. one gives {got:?}, should give {w:?}"); }
                _ => { let max = op.name == "max"; let g = plain(&what, || it.extreme(max)); let w = if max { want.iter().max() } else { want.iter().min() }; require!(g.as_ref() == w, "wrong-elements", "{what}: {} gives {g:?}, should give {w:?}", op.name); }
            }
        }
        "count" | "last" => {
            let Cursor { it, want, at, .. } = its[slot].take().unwrap();
            if op.name == "count" { let k = plain(&what, || it.count()); require!(k == want.len() - at, "wrong-elements", "{what}: count gives {k}, should give {}", want.len() - at); }
            else { let g = plain(&what, || it.last()); require!(g.as_ref() == want[at..].last(), "wrong-elements", "{what}: last gives {g:?}, should give {:?}", want[at..].last()); }
        }
        "drop" => { let c = its[slot].take().unwrap(); let it = c.it; plain(&what, move || drop(it)); probe("abandoned-iterator"); }
        _ => {}
    }
}
/// every iterator is read to its end, and past it
fn finish<'a>(objs: &'a [Obj], its: &mut Vec<Option<Cursor<'a>>>) {
    for i in 0..its.len() { for name in ["take", "each", "step", "drop"] { drive(objs, its, &Op::new(name, &[i as i64, 3]), "at the end"); } }
}
struct Shared<'a>(&'a [Obj]);
unsafe impl Send for Shared<'_> {}
unsafe impl Sync for Shared<'_> {}

impl Scenario for C15 {
    fn prop(&self) -> &'static str { "C15" }
    fn seeds(&self, th: bool) -> u64 { if th { 1_200_000 } else { 90_000 } }
    fn chunk(&self) -> u64 { 200 }
    fn generate(&self, rng: &mut Rng, plan: &mut Plan, th: bool) {
        plan.set("leakcheck", 1);
        let threads = if rng.chance(1, 4) { rng.range(2, 3) } else { 0 };
        plan.set("threads", threads);
        let kinds: &[&str] = if threads > 0 { &["pool", "set", "slice", "perm", "graph", "morse"] } else { &["pool", "set", "slice", "slice", "sparse", "sparse", "perm", "perm", "graph", "graph", "morse", "sum"] };
        let no = rng.range(1, 3);
        for _ in 0..no { let k = *rng.pick(kinds); let n = match k { "pool" => *rng.pick(&[0, 1, 2, 63, 64, 65, 127, 128, 129, 20, 200]), _ => rng.small(if k == "slice" { 9 } else { 26 }) as i64 }; plan.op(k, &[0, rng.next() as i64 & 0xffff, n]); }
        if rng.chance(1, 400) { plan.op("long", &[0, rng.next() as i64 & 0xffff, rng.range(5_000, 30_000)]); }
        for _ in 0..rng.range(2, 5) { plan.op("open", &[rng.range(0, 3), rng.range(0, 11), rng.range(0, 40)]); }
        for _ in 0..rng.range(5, if th { 80 } else { 40 }) {
            let name = *rng.pick(&["step", "step", "step", "step", "step", "step", "open", "hint", "nth", "nth", "take", "find", "each", "drop", "count", "last", "fold", "max", "min", "skip"]);
            if name == "open" { plan.op("open", &[rng.range(0, 3), rng.range(0, 11), rng.range(0, 40)]); } else { plan.op(name, &[rng.range(0, 5), rng.small(8) as i64, rng.range(0, 3)]); }
        }
        if threads > 0 { let mut at = 0; for _ in 0..rng.range(2, 40) { let top = *rng.pick(&[3, 30, 400]); at += rng.range(1, top); plan.fault("switch", at, rng.range(0, 3)); } }
    }
    fn variants(&self, rng: &mut Rng, plan: &Plan, out: &Outcome, _th: bool) -> Vec<Plan> {
        if plan.cfg("threads") > 0 { return vec![]; }
        let mut vs = vec![];
        let cand: Vec<(usize, u64)> = out.op_counts.iter().enumerate().filter(|(_, c)| c.callbacks > 0).map(|(i, c)| (i, c.callbacks)).collect();
        if !cand.is_empty() { for _ in 0..2 { let (i, n) = *rng.pick(&cand); let mut p = plan.clone(); p.fault("callback", i as i64, 1 + rng.below(n) as i64); vs.push(p); } }
        vs
    }
    fn run(&self, plan: &Plan) {
        ledger_reset();
        let threads = plan.cfg("threads").clamp(0, 6) as usize;
        let is_obj = |o: &Op| matches!(o.name.as_str(), "pool" | "set" | "slice" | "sparse" | "perm" | "graph" | "morse" | "sum" | "long");
        let objs: Vec<Obj> = plan.ops.iter().filter(|o| is_obj(o) && (threads == 0 || !matches!(o.name.as_str(), "sparse" | "sum"))).map(object).collect();
        crate::mats::stop_if_bad();
        if threads == 0 {
            let mut its: Vec<Option<Cursor>> = vec![];
            for (i, op) in plan.ops.iter().enumerate() {
                if is_obj(op) { continue; }
                begin_op(plan, i);
                drive(&objs, &mut its, op, &format!("step {i} '{}'", op.text()));
                end_op(i);
                crate::mats::stop_if_bad();
                log(&op.name, its.iter().flatten().map(|c| c.at as u64 * 7 + 1).sum());
            }
            finish(&objs, &mut its);
            plain("dropping the iterators", move || drop(its));
        } else {
            let sh = Shared(&objs);
            let sh = &sh;
            let bodies: Vec<Box<dyn FnOnce() + Send + '_>> = (0..threads).map(|t| {
                let ops: Vec<(usize, Op)> = plan.ops.iter().enumerate().filter(|(i, o)| !is_obj(o) && i % threads == t).map(|(i, o)| (i, o.clone())).collect();
                Box::new(move || {
                    let mut its: Vec<Option<Cursor>> = vec![];
                    let objs: &[Obj] = sh.0;
                    for (i, op) in &ops { drive(objs, &mut its, op, &format!("thread {t}, step {i} '{}'", op.text())); log(&op.name, t as u64); }
                    finish(objs, &mut its);
                    plain("dropping the iterators", move || drop(its));
                }) as Box<dyn FnOnce() + Send + '_>
            }).collect();
            let switches = plan.faults.iter().filter(|f| f.kind == "switch").map(|f| (f.at.max(1) as u64, f.arg.max(0) as usize)).collect();
            simcore::sched::run_threads(bodies, switches);
        }
        crate::mats::stop_if_bad();
        plain("dropping the objects", move || drop(objs));
        crate::mats::stop_if_bad();
        require!(ledger().alive == 0, "never-destroyed", "{} elements were never destroyed", ledger().alive);
    }
    fn rule(&self) -> &'static str { "A case is a few seeded objects and a seeded interleaving of iterators over them, some abandoned, some left by a panic of the caller's function, on one thread or on several simulated ones; distinct by the digest of the event log." }
    fn real(&self) -> &'static str { "BinaryPool, LabeledSet, TupleIterator, SparseMatrix, Permutation, RawSimpleGraph, UdnMorseCplx, Vector iterators" }
    fn stub(&self) -> &'static str { "thread scheduler, element type of formal sums, heap" }
    fn fault_kinds(&self) -> &'static [&'static str] { &["panic-in-callback"] }
}
