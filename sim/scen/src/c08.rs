use crate::c01::elem_fault_variants;
use crate::c07::label;
use crate::common::*;
use crate::el::*;
use crate::homology::*;
use alg::commutative::Rational;
use alg::lin_alg::Matrix;
use simcore::driver::{Outcome, Scenario};
use simcore::*;
use std::collections::BTreeSet;
use topo_spaces::simplicial::{Simplex, SimplicialCplx, VertexLabel};
use topo_spaces::{Complex, HomologyWithFieldCoefficients, IntegralHomology};

pub struct C08;
impl VertexLabel for E {}
type Set = BTreeSet<i64>;

#[derive(Clone, Default, PartialEq, Debug)]
struct M { facets: Vec<Set>, verts: Set }
impl M {
    fn attach(&mut self, s: &Set) {
        for &v in s { if self.verts.insert(v) { self.facets.push([v].into()); } }
        if self.facets.iter().any(|f| s.is_subset(f)) { return; }
        self.facets.retain(|f| !f.is_subset(s));
        self.facets.push(s.clone());
    }
    fn dim(&self) -> usize { self.facets.iter().map(|f| f.len()).max().unwrap_or(1) - 1 }
    /// the cells of every dimension, each in order
    fn cells(&self) -> Vec<BTreeSet<Set>> {
        let d = self.dim();
        let mut out: Vec<BTreeSet<Set>> = vec![BTreeSet::new(); d + 1];
        for f in &self.facets { out[f.len() - 1].insert(f.clone()); }
        for k in (1..=d).rev() { let (lo, hi) = out.split_at_mut(k); for c in &hi[0] { for v in c { let mut x = c.clone(); x.remove(v); lo[k - 1].insert(x); } } }
        out
    }
    fn connected(&self) -> bool {
        let Some(&s) = self.verts.iter().next() else { return true };
        let mut seen: Set = [s].into();
        loop { let n = seen.len(); for f in &self.facets { if f.iter().any(|v| seen.contains(v)) { seen.extend(f); } } if seen.len() == n { return n == self.verts.len(); } }
    }
    fn homology(&self) -> Vec<Module> {
        let cells: Vec<Vec<Set>> = self.cells().into_iter().map(|s| s.into_iter().collect()).collect();
        let n: Vec<usize> = cells.iter().map(|c| c.len()).collect();
        let bd: Vec<Vec<Vec<i128>>> = (0..n.len()).map(|k| if k == 0 { vec![] } else {
            let mut m = vec![vec![0; n[k]]; n[k - 1]];
            for (j, c) in cells[k].iter().enumerate() { for (p, v) in c.iter().enumerate() { let mut x = c.clone(); x.remove(v); m[cells[k - 1].binary_search(&x).unwrap()][j] = if p % 2 == 0 { 1 } else { -1 }; } }
            m
        }).collect();
        homology(&bd, &n)
    }
}
trait Lab: VertexLabel { fn mk(kind: i64, v: i64) -> Self; fn back(&self, kind: i64) -> i64; }
impl Lab for E { fn mk(_: i64, v: i64) -> E { E::new(v) } fn back(&self, _: i64) -> i64 { harness(|| self.val()) } }
impl Lab for String { fn mk(k: i64, v: i64) -> String { label(k, v) } fn back(&self, k: i64) -> i64 {
    static MAPS: std::sync::Mutex<Vec<std::collections::BTreeMap<String, i64>>> = std::sync::Mutex::new(vec![]);
    quiet(|| {
        let mut m = MAPS.lock().unwrap();
        if m.is_empty() { *m = (0..5).map(|k| (0..400).rev().map(|v| (label(k, v), v)).collect()).collect(); }
        m[k.clamp(0, 4) as usize].get(self).copied().unwrap_or(-1)
    })
} }
impl Lab for usize { fn mk(_: i64, v: i64) -> usize { (v as usize).wrapping_mul(0x9E37_79B9_7F4A_7C15) } fn back(&self, _: i64) -> i64 { (0..400).find(|&v| Self::mk(0, v) == *self).unwrap_or(-1) } }

fn cheap<T: Lab>(c: &SimplicialCplx<T>, m: &M, kind: i64, when: &str) {
    let (n, names): (usize, Vec<i64>) = plain("reading the vertices", || (c.n_vertices(), c.get_labeled_zero_skeleton().iter().map(|l| harness(|| l.back(kind))).collect()));
    let set: Set = names.iter().copied().collect();
    require!(n == m.verts.len() && names.len() == n && set == m.verts, "wrong-vertices", "{when}: {n} vertices {names:?}, should be {:?}", m.verts);
    let conn = plain("is_connected", || c.is_connected());
    require!(conn == m.connected(), "wrong-connectivity", "{when}: is_connected gives {conn}; maximal cells {:?}", m.facets);
    if m.verts.is_empty() { return; }
    let d = plain("dim", || c.dim());
    require!(d == m.dim(), "wrong-dimension", "{when}: dimension {d}, should be {}; maximal cells {:?}", m.dim(), m.facets);
    if m.facets.len() <= 7 && d <= 6 {
        let cells = m.cells();
        for k in 0..=d + 1 { let x = plain("n_cells_of_dim", || c.n_cells_of_dim(k)); let want = cells.get(k).map(|s| s.len()).unwrap_or(0); require!(x == want, "wrong-cells", "{when}: {x} cells of dimension {k}, should be {want}; maximal cells {:?}", m.facets); }
    }
}
/// cells and boundary maps; a label operation may be told to fail
fn deep<T: Lab>(c: &SimplicialCplx<T>, m: &M, kind: i64, when: &str) {
    if m.verts.is_empty() { return; }
    let Some(bm) = must(when, || c.boundary_map()) else { return };
    let cells = m.cells();
    require!(bm.len() == cells.len(), "wrong-cells", "{when}: boundary maps in {} dimensions, should be {}", bm.len(), cells.len());
    let basis: Vec<Vec<Set>> = bm.iter().map(|(_, b)| b.iter().map(|s| s.vertices_labels.iter().map(|l| harness(|| l.back(kind))).collect()).collect()).collect();
    let dense: Vec<Vec<Vec<i128>>> = bm.iter().map(|(b, _)| { let (r, k) = b.size(); (0..r).map(|i| (0..k).map(|j| b[(i, j)] as i128).collect()).collect() }).collect();
    for k in 0..cells.len() {
        let s: BTreeSet<Set> = basis[k].iter().cloned().collect();
        require!(s == cells[k] && s.len() == basis[k].len(), "wrong-cells", "{when}: cells of dimension {k} {:?}, should be {:?}", basis[k], cells[k]);
        for (i, x) in bm[k].1.iter().enumerate() { require!(x.dim == k && x.vertices_labels.len() == k + 1, "wrong-cells", "{when}: the cell {:?} claims dimension {}", basis[k][i], x.dim); }
        let (r, w) = bm[k].0.size();
        require!(w == basis[k].len() && r == if k == 0 { 1 } else { basis[k - 1].len() }, "wrong-boundary", "{when}: boundary map {k} has size {r} x {w}");
        if k == 0 { require!(dense[0][0].iter().all(|&x| x == 0), "wrong-boundary", "{when}: boundary of a vertex is not zero"); continue; }
        for j in 0..w { for i in 0..r {
            let face = basis[k - 1][i].is_subset(&basis[k][j]);
            require!(dense[k][i][j].abs() == face as i128, "wrong-boundary", "{when}: boundary of {:?} has coefficient {} at {:?}", basis[k][j], dense[k][i][j], basis[k - 1][i]);
        } }
        if k >= 2 { for j in 0..w { for i in 0..basis[k - 2].len() {
            let s: i128 = (0..r).map(|t| dense[k - 1][i][t] * dense[k][t][j]).sum();
            require!(s == 0, "boundary-of-boundary", "{when}: the boundary of the boundary of {:?} has coefficient {s} at {:?}", basis[k][j], basis[k - 2][i]);
        } } }
        if k == 1 { for j in 0..w { require!((0..r).map(|i| dense[1][i][j]).sum::<i128>() == 0, "boundary-of-boundary", "{when}: the ends of {:?} do not cancel", basis[1][j]); } }
    }
    let _ = sut(move || drop(bm));
}
struct OverQ<'a>(&'a SimplicialCplx<String>);
impl HomologyWithFieldCoefficients<Rational> for OverQ<'_> {
    fn get_boundary_map(&self) -> Vec<Matrix<Rational>> {
        self.0.boundary_map().into_iter().map(|(m, _)| { let (a, b) = m.size(); let mut q = Matrix::<Rational>::zero(a, b); for i in 0..a { for j in 0..b { q[(i, j)] = Rational::new(m[(i, j)], 1); } } q }).collect()
    }
}
trait Homol: Lab { fn homol(c: &SimplicialCplx<Self>, m: &M, top: i64, when: &str); }
impl Homol for E { fn homol(_: &SimplicialCplx<E>, _: &M, _: i64, _: &str) {} }
impl Homol for usize { fn homol(_: &SimplicialCplx<usize>, _: &M, _: i64, _: &str) {} }
impl Homol for String {
    fn homol(c: &SimplicialCplx<String>, m: &M, top: i64, when: &str) {
        if m.verts.is_empty() { return; }
        let n: usize = m.cells().iter().map(|s| s.len()).sum();
        if n > 150 { return; }
        let want = m.homology();
        let text = plain(&format!("{when}: homology"), || format!("{}", IntegralHomology::new(c, None)));
        match parse(&text) {
            Ok(h) => require!(h == want, "wrong-homology", "{when}: homology is {text:?}, should be {want:?}; maximal cells {:?}", m.facets),
            Err(e) => fail("wrong-homology", format!("{when}: homology reads {text:?}: {e}; maximal cells {:?}", m.facets)),
        }
        if top >= 0 {
            // cut off above dimension `top`
            let t = plain(&format!("{when}: homology up to {top}"), || format!("{}", topo_spaces::IntegralHomology::new(c, Some(top as usize))));
            let mut w: Vec<&str> = text.lines().take(top as usize + 1).collect();
            while w.last().is_some_and(|l| l.ends_with(": 0,")) { w.pop(); }
            require!(t.lines().collect::<Vec<_>>() == w, "wrong-homology", "{when}: up to dimension {top} homology is {t:?}, as a whole it is {text:?}");
        }
        if n <= 80 {
            let q = plain(&format!("{when}: rational homology"), || OverQ(c).homology());
            let mut w: Vec<usize> = want.iter().map(|x| x.free).collect(); w.resize(m.dim() + 1, 0);
            require!(q == w, "wrong-homology", "{when}: rational Betti numbers {q:?}, should be {w:?}; maximal cells {:?}", m.facets);
        }
        log_str("homology", &text);
    }
}
const SLOTS: usize = 3;
fn go<T: Homol>(plan: &Plan) {
    ledger_reset();
    let kind = plan.cfg("labels");
    let top = if kind == 3 { 16 } else { 400 };
    let lim = |v: i64| v.rem_euclid(top);
    let mut cs: Vec<Option<(SimplicialCplx<T>, M)>> = (0..SLOTS).map(|_| Some((SimplicialCplx::new(), M::default()))).collect();
    for (i, op) in plan.ops.iter().enumerate() {
        let when = format!("step {i} '{}'", op.text());
        let s = op.m(0, SLOTS);
        begin_op(plan, i);
        match op.name.as_str() {
            "new" | "skeleton" | "attach" => {
                let vs: Vec<i64> = op.args.iter().skip(1).map(|&v| lim(v)).collect();
                let set: Set = vs.iter().copied().collect();
                if op.name == "skeleton" && set.len() != vs.len() { continue; }
                let labels: Vec<T> = vs.iter().map(|&v| T::mk(kind, v)).collect();
                let malformed = vs.is_empty() || set.len() != vs.len();
                let mk = move || Simplex { dim: labels.len().wrapping_sub(1), vertices_labels: labels };
                if op.name == "attach" {
                    let Some((c, m)) = cs[s].as_mut() else { continue };
                    match call(|| c.attach(mk())) {
                        End::Done(()) => { require!(!malformed, "not-rejected", "{when}: a malformed simplex was attached"); m.attach(&set); }
                        End::Refused(t) => require!(malformed, "unexpected-panic", "{when} failed: {t}"),
                        End::Cut => {
                            // the state before or the state after: read which, the checks below hold it to that
                            let mut after = m.clone(); if !malformed { after.attach(&set); }
                            let (n, d, conn) = plain(&format!("{when}: reading after a failed attempt"), || (c.n_vertices(), if c.n_vertices() == 0 { 0 } else { c.dim() }, c.is_connected()));
                            if after != *m && n == after.verts.len() && d == after.dim() && conn == after.connected() && (n != m.verts.len() || d != m.dim() || conn != m.connected()) { *m = after; }
                            else if after != *m && n == m.verts.len() && after.verts == m.verts {
                                // sizes cannot tell: the cells do
                                let top: BTreeSet<Set> = plain("reading cells", || c.boundary_map()).iter().flat_map(|(_, b)| b.iter().map(|x| x.vertices_labels.iter().map(|l| l.back(kind)).collect::<Set>()).collect::<Vec<_>>()).collect();
                                if top.contains(&set) { *m = after; }
                            }
                            end_op(i);
                            deep(cs[s].as_ref().map(|x| &x.0).unwrap(), &cs[s].as_ref().unwrap().1, kind, &when);
                        }
                    }
                } else {
                    let mut m = M::default();
                    let r = if op.name == "new" { if malformed { refuse(&when, || SimplicialCplx::new_from(mk())); continue; } m.attach(&set); must(&when, || SimplicialCplx::new_from(mk())) }
                        else { for &v in &vs { m.attach(&[v].into()); } must(&when, || SimplicialCplx::new_from_zero_skeleton(mk().vertices_labels)) };
                    if let Some(c) = r { if let Some(old) = cs[s].take() { let _ = sut(move || drop(old)); } cs[s] = Some((c, m)); }
                }
            }
            "fill" => { let Some((c, m)) = cs[s].as_mut() else { continue }; for v in 0..op.m(1, 140) as i64 { let v = lim(300 - v); let x = T::mk(kind, v); if let Some(()) = must(&when, || c.attach(Simplex { dim: 0, vertices_labels: vec![x] })) { m.attach(&[v].into()); } else { break; } } }
            "giant" => {
                // few simplices of many vertices, one an interval of the vertices each: more cells than could be
                // listed, so they are counted by inclusion and exclusion
                let mut facets: Vec<(i64, i64)> = vec![];
                let c: &mut SimplicialCplx<usize> = &mut plain(&when, SimplicialCplx::new);
                let (mut lo, mut hi) = (i64::MAX, 0);
                for x in op.args[1..].chunks(2) {
                    let (a, n) = (x[0].rem_euclid(60), 1 + x.get(1).copied().unwrap_or(0).rem_euclid(56));
                    let b = a + n;
                    if lo < hi && (b < lo || a > hi) { continue; } // keep it one interval
                    let labels: Vec<usize> = (a..b).map(|v| usize::mk(0, v)).collect();
                    plain(&when, || c.attach(Simplex { dim: labels.len() - 1, vertices_labels: labels }));
                    lo = lo.min(a); hi = hi.max(b);
                    if !facets.iter().any(|f| f.0 <= a && b <= f.1) { facets.retain(|f| !(a <= f.0 && f.1 <= b)); facets.push((a, b)); }
                }
                if facets.is_empty() { continue; }
                let d = facets.iter().map(|f| f.1 - f.0).max().unwrap() - 1;
                let (n, dim) = plain(&when, || (c.n_vertices(), c.dim()));
                require!(n as i64 == hi - lo && dim as i64 == d, "wrong-dimension", "{when}: {n} vertices and dimension {dim}, should be {} and {d}", hi - lo);
                let choose = |n: i64, k: i64| -> i128 { if n < k { 0 } else { (1..=k as i128).fold(1, |b, i| b * (n as i128 - k as i128 + i) / i) } };
                for k in 0..=d + 2 {
                    let mut want = 0; let mut size: i128 = 0;
                    for s in 1..1usize << facets.len() {
                        let of: Vec<&(i64, i64)> = facets.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|x| x.1).collect();
                        let common = of.iter().map(|f| f.1).min().unwrap() - of.iter().map(|f| f.0).max().unwrap();
                        let x = choose(common, k + 1); size += x;
                        if of.len() % 2 == 1 { want += x } else { want -= x }
                    }
                    if size >= 1 << 62 { continue; }
                    let x = plain(&format!("{when}: counting the cells of dimension {k} of {facets:?}"), || c.n_cells_of_dim(k as usize));
                    require!(x as i128 == want, "wrong-cells", "{when}: {x} cells of dimension {k}, should be {want}; maximal cells are the intervals {facets:?}");
                }
                probe("giant");
            }
            "boundary" => { if let Some((c, m)) = &cs[s] { deep(c, m, kind, &when); } }
            "homology" => { if let Some((c, m)) = &cs[s] { T::homol(c, m, op.a(1), &when); } }
            _ => {}
        }
        end_op(i);
        crate::mats::stop_if_bad();
        if let Some((c, m)) = &cs[s] { cheap(c, m, kind, &when); log(&op.name, m.facets.iter().map(|f| f.iter().fold(7u64, |h, &v| h.wrapping_mul(31).wrapping_add(v as u64))).fold(0, |a, b| a ^ b.wrapping_mul(0x9e37))); }
    }
    for (k, x) in cs.iter().enumerate() { if let Some((c, m)) = x { let when = format!("complex {k} at the end"); cheap(c, m, kind, &when); deep(c, m, kind, &when); T::homol(c, m, -1, &when); } }
    let _ = sut(move || drop(cs));
    crate::mats::stop_if_bad();
    require!(ledger().alive == 0, "never-destroyed", "{} labels were never destroyed", ledger().alive);
}
/// facets of a space of some interest
fn space(rng: &mut Rng) -> Vec<Vec<i64>> {
    let cyc = |n: i64| -> Vec<Vec<i64>> { (0..n).map(|i| vec![i, (i + 1) % n]).collect() };
    match rng.below(12) {
        0 => [[1, 2, 5], [1, 2, 6], [1, 3, 4], [1, 3, 5], [1, 4, 6], [2, 3, 4], [2, 3, 6], [2, 4, 5], [3, 5, 6], [4, 5, 6]].iter().map(|x| x.to_vec()).collect(), // projective plane
        1 => (0..7).flat_map(|i| [vec![i, (i + 1) % 7, (i + 3) % 7], vec![i, (i + 2) % 7, (i + 3) % 7]]).collect(), // torus
        2 => cyc(rng.range(3, 9)),
        3 => { let n = rng.range(2, 5); (0..=n).map(|k| (0..=n).filter(|&x| x != k).collect()).collect() } // sphere
        4 => { let n = rng.range(1, 5); vec![(0..=n).collect()] }
        5 => { // a disc wound k times around a circle (Moore space)
            let k = rng.range(2, 4); let n = 3 * k;
            (0..n).flat_map(|i| { let j = (i + 1) % n; [vec![i % 3, j % 3, 10 + i], vec![j % 3, 10 + i, 10 + j], vec![10 + i, 10 + j, 50]] }).collect()
        }
        6 => { let n = rng.range(3, 4); (0..n).flat_map(|i| (0..n).map(move |j| vec![i, 10 + j])).collect() } // complete bipartite
        _ => { let n = rng.range(2, 9); let f = rng.range(1, 9); (0..f).map(|_| { let k = 1 + rng.small(4) as usize; let mut v: Vec<i64> = (0..n).collect(); rng.shuffle(&mut v); v.truncate(k.min(5)); v }).collect() }
    }
}
impl Scenario for C08 {
    fn prop(&self) -> &'static str { "C08" }
    fn seeds(&self, th: bool) -> u64 { if th { 40_000 } else { 4_000 } }
    fn chunk(&self) -> u64 { 100 }
    fn generate(&self, rng: &mut Rng, plan: &mut Plan, th: bool) {
        plan.set("leakcheck", 1);
        plan.set("ty", *rng.pick(&[0, 0, 0, 1, 1, 1, 2]));
        plan.set("labels", rng.range(0, 4));
        if rng.chance(1, 5) { plan.set("stdout", rng.range(1, 3)); }
        let src = rng.range(1, 3);
        let f = { let mut f = space(rng); if rng.chance(1, 3) { let sh = rng.range(1, 12); for x in space(rng) { f.push(x.iter().map(|v| v + sh).collect()) } } f };
        let wide = rng.chance(1, 4);
        let mut queue: Vec<Vec<(String, Vec<i64>)>> = vec![];
        for s in 0..src {
            let mut l: Vec<(String, Vec<i64>)> = vec![];
            for x in &f {
                let mut x = x.clone(); rng.shuffle(&mut x);
                l.push(("attach".into(), x.clone()));
                for _ in 0..rng.below(3) { let mut y = x.clone(); rng.shuffle(&mut y); y.truncate(1 + rng.usize(x.len())); l.push(("attach".into(), y)); }
                if rng.chance(1, 10) { let mut y = x.clone(); y.push(x[0]); rng.shuffle(&mut y); l.push(("attach".into(), y)); }
                if rng.chance(1, 12) { l.push(("attach".into(), vec![])); }
                if rng.chance(1, 14) { let mut y: Vec<i64> = (60..62 + rng.range(0, 5)).collect(); y.push(y[0]); l.push(("attach".into(), y)); }
            }
            if rng.chance(1, 4) { let mut a = vec![]; for _ in 0..rng.range(1, 3) { a.push(rng.range(0, 12)); a.push(rng.range(0, 55)); } l.push(("giant".into(), a)); }
            rng.shuffle(&mut l);
            if rng.chance(1, 2) { let k = rng.usize(l.len()); let at = l[k].clone(); l.push(at); }
            for _ in 0..rng.below(3) { let k = rng.usize(l.len()); l.insert(k, (if rng.chance(1, 2) { "boundary" } else { "homology" }.into(), vec![rng.range(-1, 3)])); }
            if wide { let k = rng.usize(l.len() / 2 + 1); l.insert(k, ("fill".into(), vec![if rng.chance(1, 6) { rng.range(110, 135) } else { rng.range(54, 70) }])); }
            if rng.chance(1, 4) { let mut v: Vec<i64> = (0..rng.range(0, 8)).collect(); rng.shuffle(&mut v); l.insert(0, ("skeleton".into(), v)); } else if rng.chance(1, 5) && l[0].0 == "attach" { let x = l[0].1.clone(); l.insert(0, ("new".into(), x)); }
            if th { let k = rng.usize(l.len()); l.push(("homology".into(), vec![k as i64 % 4])); }
            let _ = s;
            queue.push(l);
        }
        while queue.iter().any(|q| !q.is_empty()) {
            let s = rng.usize(queue.len());
            if queue[s].is_empty() { continue; }
            let (name, v) = queue[s].remove(0);
            let mut a = vec![s as i64]; a.extend(v);
            plan.op(&name, &a);
        }
    }
    fn variants(&self, rng: &mut Rng, plan: &Plan, out: &Outcome, th: bool) -> Vec<Plan> {
        if plan.cfg("ty") != 0 { return vec![]; }
        let mut v = elem_fault_variants(rng, plan, out, if th { 8 } else { 4 });
        // sometimes the failed attempt is repeated at once
        for p in v.iter_mut() { if rng.chance(1, 2) { if let Some(f) = p.faults.first().cloned() { let o = p.ops[f.at as usize].clone(); p.ops.insert(f.at as usize + 1, o); for x in p.faults.iter_mut().skip(1) { if x.at > f.at { x.at += 1; } } } } }
        v
    }
    fn run(&self, plan: &Plan) { match plan.cfg("ty") { 1 => go::<String>(plan), 2 => go::<usize>(plan), _ => go::<E>(plan) } }
    fn rule(&self) -> &'static str { "A case is a seeded delivery of the simplices of one space (surfaces with torsion, spheres, Moore spaces, random) to several complexes at once: shuffled, repeated, faces before cofaces, malformed requests in between, across the 64-vertex word boundary, on a broken standard output; run alone and again with a label operation told to panic and the attempt dropped or repeated; distinct by the digest of the event log." }
    fn real(&self) -> &'static str { "topo_spaces::simplicial, topo_spaces::IntegralHomology and field homology, Matrix<i64>::smith_normal_form, util::TupleIterator" }
    fn stub(&self) -> &'static str { "label type (ledger, may panic), heap, standard output" }
    fn fault_kinds(&self) -> &'static [&'static str] { &["panic-in-eq", "panic-in-clone"] }
}
