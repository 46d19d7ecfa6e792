use crate::c07::{label, Model};
use crate::common::*;
use crate::homology::*;
use simcore::driver::Scenario;
use simcore::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;
use alg::non_commutative::permutation::ConstPermutation;
use topo_spaces::cubical::{Cube, EdgePath, CubicalCplx, UdnMorseCplx};
use topo_spaces::graph::{CubeFactor, Graph, SimpleGraph};
use topo_spaces::{Complex, IntegralHomology};

pub struct C16;

/// unordered configurations of n disjoint cells of a graph; None when there are more than `cap`
fn cells(adj: &[BTreeSet<usize>], n: usize, cap: usize) -> Option<Vec<Vec<[usize; 2]>>> {
    let mut f: Vec<[usize; 2]> = (0..adj.len()).map(|v| [v, v]).collect();
    for (v, a) in adj.iter().enumerate() { for &w in a { if v < w { f.push([v, w]); } } }
    f.sort();
    fn rec(f: &[[usize; 2]], from: usize, left: usize, used: &mut Vec<bool>, cur: &mut Vec<[usize; 2]>, out: &mut Vec<Vec<[usize; 2]>>, cap: usize) -> bool {
        if left == 0 { out.push(cur.clone()); return out.len() <= cap; }
        for k in from..f.len() {
            let [a, b] = f[k];
            if used[a] || used[b] { continue; }
            used[a] = true; used[b] = true; cur.push(f[k]);
            let ok = rec(f, k + 1, left - 1, used, cur, out, cap);
            cur.pop(); used[a] = false; used[b] = false;
            if !ok { return false; }
        }
        true
    }
    let mut out = vec![];
    rec(&f, 0, n, &mut vec![false; adj.len()], &mut vec![], &mut out, cap).then_some(out)
}
/// homology and the number of cells in every dimension
fn conf_homology(adj: &[BTreeSet<usize>], n: usize, cap: usize) -> Option<(Vec<Module>, Vec<usize>)> {
    let all = cells(adj, n, cap)?;
    let mut by: Vec<Vec<Vec<[usize; 2]>>> = vec![vec![]; n + 1];
    for c in all { by[c.iter().filter(|x| x[0] != x[1]).count()].push(c); }
    let sizes: Vec<usize> = by.iter().map(|x| x.len()).collect();
    for b in by.iter_mut() { b.sort(); }
    let ds = (0..=n).map(|d| if d == 0 { vec![] } else {
        let cols: Vec<Vec<(usize, i128)>> = by[d].iter().map(|c| {
            let mut col = vec![]; let mut s = 1;
            for k in 0..n { let [a, b] = c[k]; if a == b { continue; } for (v, t) in [(a, s), (b, -s)] { let mut x = c.clone(); x[k] = [v, v]; x.sort(); col.push((by[d - 1].binary_search(&x).unwrap(), t)); } s = -s; }
            col
        }).collect();
        diagonal_sparse(by[d - 1].len(), &cols)
    }).collect();
    Some((homology_of(ds, &sizes), sizes))
}
fn connected(adj: &[BTreeSet<usize>]) -> bool {
    let mut seen = vec![false; adj.len()]; seen[0] = true; let mut st = vec![0];
    while let Some(v) = st.pop() { for &w in &adj[v] { if !seen[w] { seen[w] = true; st.push(w); } } }
    seen.iter().all(|x| *x)
}
const CAP: usize = 7000;
type Answer = Option<(Vec<Module>, Vec<usize>)>;
/// the answer for a graph, kept over runs: it depends on the shape of the graph and n alone
fn answer(m: &Model, n: usize) -> Answer {
    static SEEN: Mutex<BTreeMap<(Vec<(usize, usize)>, usize), Answer>> = Mutex::new(BTreeMap::new());
    quiet(|| {
        let at = |x: &String| m.names.iter().position(|y| y == x).unwrap();
        let mut key: Vec<(usize, usize)> = m.edges.iter().map(|(a, b)| (at(a).min(at(b)), at(a).max(at(b)))).collect();
        key.sort();
        if let Some(a) = SEEN.lock().unwrap().get(&(key.clone(), n)) { return a.clone(); }
        let a = conf_homology(&m.sub_adj(n), n, CAP);
        let mut s = SEEN.lock().unwrap();
        if s.len() > 500 { s.clear(); }
        s.insert((key, n), a.clone());
        a
    })
}
/// a complex of the library, with what its answers must be
enum Cplx { Morse(UdnMorseCplx, Option<usize>), Full(CubicalCplx) }
struct Held { c: Cplx, m: Model, n: usize, want: (Vec<Module>, Vec<usize>) }

type Maps = Vec<(Vec<Vec<i128>>, Vec<Cube>)>;
fn maps<T: Complex<Cell = Cube>>(c: &T, when: &str) -> Maps {
    let b = plain(when, || c.boundary_map());
    b.into_iter().map(|(m, b)| { let (r, k) = m.size(); ((0..r).map(|i| (0..k).map(|j| m[(i, j)] as i128).collect()).collect(), b) }).collect()
}
fn check_maps(h: &Held, bm: &Maps, when: &str) {
    let (full, top) = match &h.c { Cplx::Full(_) => (true, usize::MAX), Cplx::Morse(_, u) => (false, u.unwrap_or(usize::MAX)) };
    let rank: Vec<usize> = bm.iter().map(|x| x.1.len()).collect();
    for (k, (m, b)) in bm.iter().enumerate() {
        let w = m.first().map(|r| r.len()).unwrap_or(0);
        require!(w == b.len() || m.is_empty(), "wrong-basis", "{when}: boundary map {k} has {w} columns for {} cells", b.len());
        require!(m.len() == if k == 0 { 1 } else { rank[k - 1] }, "wrong-boundary", "{when}: boundary map {k} has {} rows", m.len());
        if k == 0 { require!(m[0].iter().all(|&x| x == 0), "wrong-boundary", "{when}: a vertex has a boundary"); }
        let mut seen = BTreeSet::new();
        for c in b {
            let f: BTreeSet<(usize, usize)> = c.iter().map(|f| match f { CubeFactor::Vertex(v) => (*v, *v), CubeFactor::Edge([a, b]) => (*a, *b) }).collect();
            let ends: Vec<usize> = f.iter().flat_map(|&(a, b)| if a == b { vec![a] } else { vec![a, b] }).collect();
            let distinct: BTreeSet<usize> = ends.iter().copied().collect();
            require!(f.len() == h.n && distinct.len() == ends.len() && f.iter().filter(|x| x.0 != x.1).count() == k, "wrong-basis", "{when}: {c} is no {k}-cell of {} disjoint factors", h.n);
            require!(seen.insert(f), "wrong-basis", "{when}: {c} is there twice");
        }
        if k >= 2 { let (lo, hi) = (&bm[k - 1].0, m); for i in 0..lo.len() { let nz: Vec<usize> = (0..rank[k - 1]).filter(|&t| lo[i][t] != 0).collect(); for j in 0..rank[k] {
            let s: i128 = nz.iter().map(|&t| lo[i][t] * hi[t][j]).sum();
            require!(s == 0, "boundary-of-boundary", "{when}: the boundary of the boundary of {} has coefficient {s}", bm[k].1[j]);
        } } }
        if k == 1 { for j in 0..rank[1] { require!(m.iter().map(|r| r[j]).sum::<i128>() == 0, "boundary-of-boundary", "{when}: the ends of {} do not cancel", bm[1].1[j]); } }
    }
    if full {
        let mut want = h.want.1.clone(); while want.last() == Some(&0) { want.pop(); }
        require!(rank == want, "wrong-cells", "{when}: {rank:?} cells, should be {want:?}");
    } else {
        let e: i64 = h.want.1.iter().enumerate().map(|(k, &x)| if k % 2 == 0 { x as i64 } else { -(x as i64) }).sum();
        let g: i64 = rank.iter().enumerate().map(|(k, &x)| if k % 2 == 0 { x as i64 } else { -(x as i64) }).sum();
        if top == usize::MAX { require!(e == g, "wrong-cells", "{when}: {rank:?} critical cells give Euler characteristic {g}, should be {e}"); }
        else { require!(rank.len() <= top.max(1) + 1, "wrong-cells", "{when}: critical cells of dimension {} in a complex up to {top}", rank.len() - 1); }
    }
}
fn check_homology<T: Complex<Cell = Cube>>(h: &Held, c: &T, top: usize, maxdim: Option<usize>, when: &str) -> String {
    let (text, cyc, bnd) = plain(when, || { let x = IntegralHomology::new(c, maxdim); (format!("{x}"), x.get_description_of_cycles(), x.get_description_of_boundaries()) });
    let got = match parse(&text) { Ok(g) => g, Err(e) => fail("wrong-homology", format!("{when}: homology reads {text:?}: {e}")) };
    let upto = top.min(maxdim.map(|d| d + 1).unwrap_or(usize::MAX));
    let cut = |v: &[Module]| { let mut v: Vec<Module> = v.iter().take(upto).cloned().collect(); while v.last().is_some_and(|m| *m == Module::default()) { v.pop(); } v };
    require!(cut(&got) == cut(&h.want.0), "wrong-homology", "{when} of {:?} with {} points: homology is {text:?}, should be {:?}", h.m.edges, h.n, h.want.0);
    if let Some(d) = maxdim { require!(got.len() <= d + 1, "wrong-homology", "{when}: {text:?} goes beyond dimension {d}"); }
    log_str("homology", &text);
    if h.want.1.iter().all(|&x| x <= 60) || matches!(h.c, Cplx::Morse(..)) {
        let bm = maps(c, when);
        if bm.iter().all(|x| x.1.len() <= 40) { check_chains(&bm, got.len(), &cyc, &bnd, when); }
    }
    format!("{text}|{cyc}|{bnd}")
}
/// formal sums as the library prints them, over cells known by their text
fn read_chains(text: &str, what: &str, dims: usize, bm: &Maps, when: &str) -> Vec<Vec<Vec<i128>>> {
    let mut out: Vec<Vec<Vec<i128>>> = vec![];
    let bad = |l: &str| -> ! { fail("wrong-chains", format!("{when}: cannot read the {what} {l:?}")) };
    for l in text.lines() {
        if l == format!("{}-{what}: ", out.len()) { require!(out.len() < bm.len(), "wrong-chains", "{when}: {what} in dimension {}", out.len()); out.push(vec![]); continue; }
        let Some(t) = l.strip_prefix('\t').and_then(|l| l.strip_suffix(", ")) else { bad(l) };
        if out.is_empty() { bad(l) }
        let k = out.len() - 1;
        let mut v = vec![0i128; bm[k].1.len()];
        if t != "0" { for (i, x) in t.split(" + (").enumerate() {
            let (c, b) = match x.split_once('·') {
                Some((c, b)) => (match c.strip_suffix(')').unwrap_or(c).parse::<i128>() { Ok(c) => c, Err(_) => bad(l) }, b),
                None if i == 0 => match x.strip_prefix('-') { Some(b) => (-1, b), None => (1, x) },
                None => bad(l),
            };
            let Some(j) = bm[k].1.iter().position(|c| c.to_string() == b) else { fail("wrong-chains", format!("{when}: {k}-{what} with {b}, which is no cell of dimension {k}")) };
            v[j] += c;
        } }
        out[k].push(v);
    }
    require!(out.len() == dims, "wrong-chains", "{when}: {what} in {} dimensions, homology in {dims}", out.len());
    out
}
/// the cycles are a basis of the cycles, the boundaries generate the boundaries
fn check_chains(bm: &Maps, dims: usize, cyc: &str, bnd: &str, when: &str) {
    let (z, b) = (read_chains(cyc, "cycles", dims, bm, when), read_chains(bnd, "boundaries", dims, bm, when));
    let col = |m: &Vec<Vec<i128>>, n: usize| -> Vec<Vec<i128>> { (0..n).map(|j| m.iter().map(|r| r[j]).collect()).collect() };
    for k in 0..dims {
        let n = bm[k].1.len();
        for v in &z[k] { for r in &bm[k].0 { let s: i128 = r.iter().zip(v).map(|(a, b)| a * b).sum(); require!(s == 0, "wrong-chains", "{when}: {k}-cycle {v:?} has a boundary"); } }
        let rank = diagonal(bm[k].0.clone()).len();
        let d = diagonal(z[k].clone());
        require!(z[k].len() == n - rank && d.len() == z[k].len() && d.iter().all(|&x| x == 1), "wrong-chains", "{when}: {} {k}-cycles with invariants {d:?} are no basis of the cycles, which have rank {}", z[k].len(), n - rank);
        let im = if k + 1 < bm.len() { col(&bm[k + 1].0, bm[k + 1].1.len()) } else { vec![] };
        let inv = |m: Vec<Vec<i128>>| -> (usize, i128) { let d = diagonal(m); (d.len(), d.iter().product()) };
        let (x, y, s) = (inv(b[k].clone()), inv(im.clone()), inv(b[k].iter().chain(&im).cloned().collect()));
        require!(x == y && y == s && b[k].len() == x.0, "wrong-chains", "{when}: {} {k}-boundaries (rank and index {x:?}) do not generate the boundaries ({y:?}, together {s:?})", b[k].len());
    }
    probe("chains-checked");
}
/// where the points are after the path; it moves points along edges, never two onto one vertex
fn walk(g: &SimpleGraph, path: &EdgePath, mut at: Vec<usize>, what: &str) -> Vec<usize> {
    for step in path.iter() {
        let starts: BTreeSet<usize> = step.iter().map(|e| e[0]).collect();
        let mut next = at.clone();
        for e in step {
            require!(g.contains(e[0].min(e[1]), e[0].max(e[1])), "wrong-path", "{what} uses {e:?}, which is no edge");
            let Some(p) = at.iter().position(|&v| v == e[0]) else { fail("wrong-path", format!("{what} moves from {e:?}, where no point is")) };
            next[p] = e[1];
        }
        require!(starts.len() == step.len() && next.iter().collect::<BTreeSet<_>>().len() == at.len(), "wrong-path", "{what} moves points onto each other");
        at = next;
    }
    at
}
const SLOTS: usize = 4;
#[derive(Default)]
struct Slot { edges: Vec<(String, String)>, g: Option<(Graph<i64>, Model)>, held: Vec<(Held, Option<String>)> }
impl C16 {
    fn held(&self, s: &mut Slot, h: Held) { if s.held.len() >= 2 { let old = s.held.remove(0); let _ = sut(move || drop(old)); } s.held.push((h, None)); }
}
impl Scenario for C16 {
    fn prop(&self) -> &'static str { "C16" }
    fn seeds(&self, th: bool) -> u64 { if th { 60_000 } else { 2_500 } }
    fn chunk(&self) -> u64 { 50 }
    fn generate(&self, rng: &mut Rng, plan: &mut Plan, th: bool) {
        let same = rng.chance(1, 2);
        let shapes: Vec<(Vec<(i64, i64)>, i64)> = (0..SLOTS).map(|_| shape(rng, th)).collect();
        let mut queues: Vec<Vec<(String, Vec<i64>)>> = vec![];
        if rng.chance(1, 5) { plan.set("stdout", rng.range(1, 3)); }
        let nslots = rng.range(1, SLOTS as i64) as usize;
        for s in 0..nslots {
            let (e, n) = if same { shapes[0].clone() } else { shapes[s].clone() };
            let mut e = e;
            let kind = rng.range(0, 4);
            plan.set(&format!("labels{s}"), kind);
            rng.shuffle(&mut e);
            let mut names: Vec<i64> = (0..12).collect(); rng.shuffle(&mut names);
            let mut q: Vec<(String, Vec<i64>)> = vec![];
            for (a, b) in e { let (a, b) = (names[a as usize], names[b as usize]); q.push(("edge".into(), if rng.chance(1, 2) { vec![a, b] } else { vec![b, a] })); }
            q.push(("graph".into(), vec![]));
            for _ in 0..rng.range(1, 3) {
                let n = if rng.chance(1, 4) { rng.range(1, 4) } else { n };
                q.push((if rng.chance(1, 3) { "full" } else { "morse" }.into(), vec![n, if rng.chance(1, 4) { rng.range(1, n) } else { -1 }]));
                for _ in 0..rng.range(1, 3) { q.push((rng.pick(&["boundary", "homology", "homology", "paths", "simple"]).to_string(), vec![rng.range(0, 1), if rng.chance(1, 4) { rng.range(0, 3) } else { -1 }])); }
            }
            queues.push(q);
        }
        while queues.iter().any(|q| !q.is_empty()) {
            let s = rng.usize(queues.len());
            if queues[s].is_empty() { continue; }
            if rng.chance(1, 30) { plan.op("bad", &[rng.range(0, 5)]); }
            for _ in 0..rng.range(1, 4) { if queues[s].is_empty() { break; } let (name, v) = queues[s].remove(0); let mut a = vec![s as i64]; a.extend(v); plan.op(&name, &a); }
        }
    }
    fn run(&self, plan: &Plan) {
        let mut slots: Vec<Slot> = (0..SLOTS).map(|_| Slot::default()).collect();
        for (i, op) in plan.ops.iter().enumerate() {
            let when = format!("step {i} '{}'", op.text());
            let si = op.m(0, SLOTS);
            let kind = plan.cfg(&format!("labels{si}"));
            let s = &mut slots[si];
            match op.name.as_str() {
                "edge" => s.edges.push((label(kind, op.a(1)), label(kind, op.a(2)))),
                "graph" => {
                    if s.edges.is_empty() { continue }
                    let e = s.edges.clone();
                    let g = plain(&when, move || Graph::<i64>::from(e));
                    s.g = Some((g, Model::new(s.edges.clone())));
                }
                "simple" => {
                    let Some((g, m)) = &s.g else { continue };
                    let n = op.m(1, 4) + 1;
                    match call(|| SimpleGraph::subdivided_graph_from(g, n)) {
                        End::Done(x) => { let (nv, ne) = (x.n_vertices(), x.n_edges()); let adj = m.sub_adj(n); require!(nv == adj.len() && ne * 2 == adj.iter().map(|a| a.len()).sum::<usize>(), "wrong-graph", "{when}: {nv} vertices and {ne} edges"); }
                        End::Refused(t) => require!(!m.good_base_point(n), "unexpected-panic", "{when} of {:?}: {t}", m.edges),
                        End::Cut => {}
                    }
                }
                "morse" | "full" => {
                    let Some((g, m)) = &s.g else { continue };
                    let n = op.m(1, 5); if n == 0 { continue; }
                    let Some(want) = answer(m, n) else { probe("too-large"); continue };
                    let total: usize = want.1.iter().sum();
                    let r = if op.name == "full" {
                        if total > 250 { probe("too-large-for-the-full-complex"); continue; }
                        call(|| Cplx::Full(CubicalCplx::udc(g, n)))
                    } else {
                        // the Morse complex is one of a connected graph
                        if !connected(&m.sub_adj(n)) { continue; }
                        let u = if op.a(2) >= 1 { Some(op.a(2) as usize) } else { None };
                        call(|| Cplx::Morse(UdnMorseCplx::new(g, n, u), u))
                    };
                    match r {
                        End::Done(c) => {
                            if let Cplx::Full(x) = &c { let k = plain(&when, || x.n_cells()); require!(k == total, "wrong-cells", "{when} of {:?}: {k} cells, should be {total}", m.edges); }
                            let h = Held { c, m: m.clone(), n, want };
                            self.held(s, h);
                        }
                        End::Refused(t) => { require!(!m.good_base_point(n), "unexpected-panic", "{when} of {:?}: {t}", m.edges); probe("no-base-point"); }
                        End::Cut => {}
                    }
                }
                "boundary" | "homology" | "paths" => {
                    let k = s.held.len(); if k == 0 { continue; }
                    let (h, before) = &mut s.held[op.m(1, k)];
                    let maxdim = if op.a(2) >= 0 { Some(op.a(2) as usize) } else { None };
                    let what = format!("{when} ({} of {:?} with {} points)", match &h.c { Cplx::Full(_) => "full complex".to_string(), Cplx::Morse(_, u) => format!("Morse complex up to {u:?}") }, h.m.edges, h.n);
                    match op.name.as_str() {
                        "boundary" => { let bm = match &h.c { Cplx::Full(c) => maps(c, &what), Cplx::Morse(c, _) => maps(c, &what) }; check_maps(h, &bm, &what); log("boundary", bm.len() as u64); }
                        "homology" => {
                            let t = match &h.c { Cplx::Full(c) => if h.want.1.iter().sum::<usize>() <= 120 { check_homology(h, c, usize::MAX, maxdim, &what) } else { continue }, Cplx::Morse(c, u) => check_homology(h, c, u.unwrap_or(usize::MAX), maxdim, &what) };
                            if maxdim.is_none() { if let Some(b) = before { require!(*b == t, "not-repeatable", "{what}: {t:?} and before {b:?}"); } *before = Some(t); }
                        }
                        _ => if let Cplx::Morse(c, _) = &h.c {
                            for cube in plain(&what, || c.get_cells_of_dim(1)) {
                                let text = format!("{cube}");
                                let path = plain(&format!("{what}: path of {text}"), || c.factor_pool.get_edge_path(cube));
                                // a loop at the base configuration
                                let base: Vec<usize> = (0..h.n).collect();
                                let what = format!("{what}: the path {path:?} of {text}");
                                let end = walk(&c.factor_pool, &path, base.clone(), &what);
                                let mut sorted = end.clone(); sorted.sort();
                                require!(sorted == base, "wrong-path", "{what} ends in {end:?}");
                                let p2 = path.clone();
                                let back = plain(&what, move || p2.inverse());
                                require!(walk(&c.factor_pool, &back, end.clone(), &format!("{what}, backwards ({back:?})")) == base, "wrong-path", "{what}: its inverse {back:?} does not lead back");
                                let p2 = path.clone();
                                let same: Option<bool> = match h.n { 2 => Some(plain(&what, move || p2.evaluate_permutation::<2>() == ConstPermutation::from([end[0], end[1]]))), 3 => Some(plain(&what, move || p2.evaluate_permutation::<3>() == ConstPermutation::from([end[0], end[1], end[2]]))), _ => None };
                                require!(same != Some(false), "wrong-path", "{what} evaluates to another permutation");
                            }
                            // any configuration to the base configuration and from it
                            let nv = c.factor_pool.n_vertices();
                            let mut r = Rng::new(op.a(2) as u64 ^ (op.a(1) as u64) << 8 ^ i as u64);
                            let mut vs: Vec<usize> = (0..nv).collect(); r.shuffle(&mut vs); vs.truncate(h.n);
                            vs.sort();
                            let base: Vec<usize> = (0..h.n).collect();
                            for to in [true, false] {
                                let cube = Cube::from(vs.iter().map(|&v| CubeFactor::Vertex(v)).collect::<Vec<_>>());
                                let what = format!("{what}: path {} {vs:?}", if to { "from" } else { "to" });
                                let path = plain(&what, || c.factor_pool.get_edge_path_to_from_base_pt(cube, to));
                                let (from, goal) = if to { (&vs, &base) } else { (&base, &vs) };
                                let mut end = walk(&c.factor_pool, &path, from.clone(), &format!("{what} is {path:?}, which"));
                                end.sort();
                                require!(end == *goal, "wrong-path", "{what}: {path:?} ends in {end:?}");
                            }
                        },
                    }
                }
                "bad" => {
                    let k = op.a(0);
                    // a graph without a base point
                    let e: Vec<(String, String)> = match k { 0 => vec![("a", "b"), ("c", "d")], 1 => vec![("a", "b"), ("b", "a")], 2 => vec![("a", "a")], 3 => vec![("a", "b"), ("b", "c"), ("c", "a")], 4 => vec![("a", "b"), ("a", "c"), ("a", "d"), ("x", "x")], _ => vec![] }.into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                    let m = Model::new(e.clone());
                    let r = call(move || { let g = Graph::<i64>::from(e); UdnMorseCplx::new(&g, 3, None).dim_of(0) });
                    if let End::Done(_) = r { require!(m.good_base_point(3) || !connected(&m.sub_adj(3)), "not-rejected", "{when}: a Morse complex of a graph without a base point"); }
                }
                _ => {}
            }
            log(&op.name, si as u64);
        }
    }
    fn rule(&self) -> &'static str { "A case is a seeded delivery of the edges of one or several graphs (order, ends and labels shuffled) to several computations whose stages interleave; distinct by the digest of the event log." }
    fn real(&self) -> &'static str { "topo_spaces::cubical (CubicalCplx, UdnMorseCplx, Cube, EdgePath), topo_spaces::graph, IntegralHomology, Smith normal form, LabeledSet, permutations" }
    fn stub(&self) -> &'static str { "heap, hash keys, standard output" }
}
/// edges and number of points
fn shape(rng: &mut Rng, th: bool) -> (Vec<(i64, i64)>, i64) {
    let star = |k: i64| -> Vec<(i64, i64)> { (1..=k).map(|i| (0, i)).collect() };
    let complete = |k: i64| -> Vec<(i64, i64)> { (0..k).flat_map(|i| (0..i).map(move |j| (j, i))).collect() };
    match rng.below(12) {
        0 => (star(rng.range(3, 5)), rng.range(2, 4)),
        1 => (vec![(0, 1), (1, 1)], rng.range(2, if th { 4 } else { 3 })),
        2 => (complete(4), 2),
        3 => (complete(if rng.chance(1, 4) { 5 } else { 4 }), 2),
        4 => (vec![(0, 1), (0, 1), (0, 1)], rng.range(2, 3)),
        5 => (vec![(0, 1), (1, 2), (2, 3), (3, 1)], rng.range(2, 3)),
        6 => (vec![(0, 1), (1, 2), (1, 3), (3, 4), (3, 5)], rng.range(2, 4)),
        7 => (vec![(0, 1), (0, 2), (0, 0)], rng.range(2, 3)),
        8 => ((0..3).flat_map(|i| (3..6).map(move |j| (i, j))).collect(), 2),
        _ => { // random, connected
            let nv = rng.range(2, 6); let mut e: Vec<(i64, i64)> = (1..nv).map(|i| (rng.range(0, i - 1), i)).collect();
            for _ in 0..rng.below(4) { e.push((rng.range(0, nv - 1), rng.range(0, nv - 1))); }
            (e, rng.range(2, 3))
        }
    }
}
