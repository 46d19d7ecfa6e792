use crate::common::*;
use alg::commutative::Rational;
use alg::lin_alg::ConstVector;
use simcore::driver::Scenario;
use simcore::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use topo_spaces::graph::{Graph, SimpleGraph, SimpleVertex};

pub struct C07;
type Key = (String, String, usize, u32);

pub fn label(kind: i64, v: i64) -> String {
    match kind {
        0 => format!("v{v}"),
        1 => "a".repeat(v as usize + 1),
        2 => format!("{}{}", if v % 2 == 0 { "" } else { "0" }, v / 2 + 1),
        3 => ["", " ", "α", "a b", "(", "v\n", "0", "-1", "é", "x,y", "1/2", "'", "aa", "ab", "ba", "\u{1F600}"][v.rem_euclid(16) as usize].to_string(),
        _ => format!("node-{:05}", (v * 7919) % 10007),
    }
}
#[derive(Clone)]
pub struct Model { pub edges: Vec<(String, String)>, pub names: Vec<String> }
impl Model {
    pub fn new(edges: Vec<(String, String)>) -> Model {
        let mut names: Vec<String> = vec![];
        for (a, b) in &edges { for x in [a, b] { if !names.contains(x) { names.push(x.clone()) } } }
        Model { edges, names }
    }
    pub fn parts(m: usize, looped: bool) -> usize { let m = m.max(2); if looped { m } else { (m - 2).max(1) } }
    pub fn n_sub(&self, m: usize) -> usize { self.names.len() + self.edges.iter().map(|(a, b)| Self::parts(m, a == b)).sum::<usize>() }
    /// adjacency of the subdivided graph, original vertices first
    pub fn sub_adj(&self, m: usize) -> Vec<BTreeSet<usize>> {
        let mut adj = vec![BTreeSet::new(); self.n_sub(m)];
        let mut next = self.names.len();
        let at = |x: &String| self.names.iter().position(|y| y == x).unwrap();
        for (a, b) in &self.edges {
            let k = Self::parts(m, a == b);
            let mut prev = at(a);
            for _ in 0..k { adj[prev].insert(next); adj[next].insert(prev); prev = next; next += 1; }
            let e = at(b); adj[prev].insert(e); adj[e].insert(prev);
        }
        adj
    }
    /// can a base point be chosen, as the library's method needs it?
    pub fn good_base_point(&self, m: usize) -> bool {
        let adj = self.sub_adj(m);
        let n = adj.len();
        let conn = |skip: Option<usize>| { let s = (0..n).find(|&x| Some(x) != skip); let Some(s) = s else { return true }; let mut seen = vec![false; n]; seen[s] = true; let mut st = vec![s]; while let Some(v) = st.pop() { for &w in &adj[v] { if Some(w) != skip && !seen[w] { seen[w] = true; st.push(w) } } } (0..n).all(|x| Some(x) == skip || seen[x]) };
        conn(None) && (0..n).any(|v| adj[v].len() == 1 || (adj[v].len() >= 3 && conn(Some(v))))
    }
}
fn check_sub(m: &Model, marks: usize, g: &SimpleGraph, when: &str) {
    let list: Vec<SimpleVertex> = plain("reading the vertices", || g.vertices_list().to_vec());
    let (nv, ness, rawn, ne) = plain("reading sizes", || (g.n_vertices(), g.n_essential_vertices(), std::ops::Deref::deref(g).n_vertices(), g.n_edges()));
    let want_n = m.n_sub(marks);
    require!(list.len() == want_n && nv == want_n && rawn == want_n, "wrong-vertices", "{when}: {} vertices ({nv}, {rawn}), should be {want_n}", list.len());
    require!(ness == m.names.len(), "wrong-vertices", "{when}: {ness} original vertices, should be {}", m.names.len());
    let mut ess: Vec<&String> = list.iter().filter_map(|v| if let SimpleVertex::Essential(s) = v { Some(s) } else { None }).collect();
    ess.sort();
    let mut names: Vec<&String> = m.names.iter().collect(); names.sort();
    require!(ess == names, "wrong-vertices", "{when}: original vertices {ess:?}, should be {names:?}");
    // inserted vertices, grouped by the edge they lie on
    let mut groups: BTreeMap<(String, String, usize), Vec<(f64, Rational, usize)>> = BTreeMap::new();
    for (i, v) in list.iter().enumerate() { if let SimpleVertex::Redundant(r) = v { let f: f64 = plain("a fraction", || r.pos.into()); groups.entry((r.start.clone(), r.end.clone(), r.direction)).or_default().push((f, r.pos, i)); } }
    let at = |x: &String| list.iter().position(|v| matches!(v, SimpleVertex::Essential(s) if s == x)).unwrap();
    let mut mult: BTreeMap<(String, String), usize> = BTreeMap::new();
    for (a, b) in &m.edges { *mult.entry(if a <= b { (a.clone(), b.clone()) } else { (b.clone(), a.clone()) }).or_insert(0) += 1; }
    let mut have: BTreeMap<(String, String), usize> = BTreeMap::new();
    let mut want_edges: BTreeSet<(usize, usize)> = BTreeSet::new();
    for ((s, e, d), mut l) in groups {
        *have.entry(if s <= e { (s.clone(), e.clone()) } else { (e.clone(), s.clone()) }).or_insert(0) += 1;
        let k = Model::parts(marks, s == e);
        l.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        let fr: Vec<f64> = l.iter().map(|x| x.0).collect();
        require!(l.len() == k && (0..k).all(|i| l[i].1 == Rational::new(i as i64 + 1, k as i64 + 1)), "wrong-fractions", "{when}: edge ({s:?}, {e:?}, {d}) carries the fractions {fr:?}, should be {k} even ones");
        let mut prev = at(&s);
        for x in &l { want_edges.insert((prev.min(x.2), prev.max(x.2))); prev = x.2; }
        let t = at(&e); want_edges.insert((prev.min(t), prev.max(t)));
    }
    require!(have == mult, "wrong-vertices", "{when}: edges carrying inserted vertices {have:?}, should be {mult:?}");
    let got: BTreeSet<(usize, usize)> = plain("reading the edges", || { let mut s = BTreeSet::new(); for j in 0..want_n { for i in 0..j { if g.contains(i, j) { s.insert((i, j)); } } } s });
    require!(got == want_edges && ne == want_edges.len(), "wrong-connections", "{when}: connections {got:?} ({ne}), should be {want_edges:?}");
}
fn check_counts(m: &Model, when: &str) {
    let e = m.edges.clone();
    let got = plain("counting", move || { let g = Graph::<i64>::from(e); (g.n_vertices(), g.n_non_loop_edges(), g.n_non_loop_edges_up_to_multiplicity(), g.n_loops()) });
    let loops = m.edges.iter().filter(|(a, b)| a == b).count();
    let kinds: BTreeSet<(&String, &String)> = m.edges.iter().filter(|(a, b)| a != b).map(|(a, b)| if a < b { (a, b) } else { (b, a) }).collect();
    let want = (m.names.len(), m.edges.len() - loops, kinds.len(), loops);
    require!(got == want, "wrong-counts", "{when}: vertices, edges, kinds of edges, loops are {got:?}, should be {want:?}");
}
fn key(v: &SimpleVertex) -> Key { match v { SimpleVertex::Essential(s) => (s.clone(), String::new(), usize::MAX, 0), SimpleVertex::Redundant(r) => { let f: f64 = r.pos.into(); (r.start.clone(), r.end.clone(), r.direction, (f * 1e6) as u32) } } }

fn positions(m: &Model, seed: i64, n: usize) -> Vec<Vec<f64>> {
    let mut r = Rng::new(seed as u64 ^ 0x9090);
    let style = r.below(4);
    m.names.iter().map(|_| (0..n).map(|_| match style { 0 => r.range(-9, 9) as f64, 1 => r.range(-1000, 1000) as f64 / 7.0, 2 => *r.pick(&[0.0, -0.0, 1.0, 1e-30, 1e15, -3.5]), _ => r.range(-1 << 40, 1 << 40) as f64 / 3.0e9 }).collect()).collect()
}
fn embed<const N: usize>(m: &Model, g: &SimpleGraph, op: &Op, when: &str) {
    let pos = positions(m, op.a(1), N);
    let mut first: Option<BTreeMap<Key, Vec<u64>>> = None;
    let mut r = Rng::new(op.a(2) as u64 ^ 0x1234);
    for round in 0..3 {
        let mut order: Vec<usize> = (0..m.names.len()).collect();
        r.shuffle(&mut order);
        let cap = *r.pick(&[0usize, 0, 1, 7, 64, 500]);
        let junk = r.below(3) * r.below(20);
        let how = r.below(4);
        // the map is the caller's: built under fresh keys, with a history of its own
        let map: HashMap<String, ConstVector<f64, N>> = {
            let mut h = HashMap::with_capacity(cap);
            for i in 0..junk { h.insert(format!("junk{i}"), ConstVector::from([i as f64; N])); }
            for &i in &order { let p: [f64; N] = pos[i].clone().try_into().unwrap(); if how == 1 { h.insert(m.names[i].clone(), ConstVector::from([7.5; N])); } h.insert(m.names[i].clone(), ConstVector::from(p)); }
            for i in 0..junk { h.remove(&format!("junk{i}")); }
            match how { 2 => h.shrink_to_fit(), 3 => { h.reserve(300); } _ => {} }
            h
        };
        let map2 = map.clone();
        let out = plain(&format!("{when}, '{}'", op.text()), move || g.modify_embedding(map2));
        let got: BTreeMap<Key, Vec<u64>> = out.iter().map(|(k, v)| (key(k), (0..N).map(|i| v[i].to_bits()).collect())).collect();
        require!(out.len() == g.vertices_list().len() && got.len() == out.len(), "wrong-embedding", "{when}: {} positions for {} vertices", out.len(), g.vertices_list().len());
        for v in g.vertices_list() {
            let Some(p) = out.get(v) else { fail("wrong-embedding", format!("{when}: vertex {:?} has no position", key(v))) };
            let p: Vec<f64> = (0..N).map(|i| p[i]).collect();
            let at = |s: &String| &pos[m.names.iter().position(|x| x == s).unwrap()];
            match v {
                SimpleVertex::Essential(s) => require!((0..N).all(|i| p[i].to_bits() == at(s)[i].to_bits()), "wrong-embedding", "{when}: original vertex {s:?} moved from {:?} to {p:?}", at(s)),
                SimpleVertex::Redundant(x) => {
                    let f: f64 = x.pos.into();
                    let (a, b) = (at(&x.start), at(&x.end));
                    for i in 0..N { let w = a[i] * (1.0 - f) + b[i] * f; require!((p[i] - w).abs() <= 1e-12 * (a[i].abs() + b[i].abs()), "wrong-embedding", "{when}: the vertex at {f} between {:?} and {:?} is placed at {p:?}, should be near {w} in coordinate {i}", (&x.start, a), (&x.end, b)); }
                }
            }
        }
        match &first { None => first = Some(got), Some(f) => require!(*f == got, "depends-on-hash-map", "{when}: round {round}, the same embedding carried by another hash map gives other positions") }
    }
    log("embed", m.names.len() as u64);
}
impl Scenario for C07 {
    fn prop(&self) -> &'static str { "C07" }
    fn seeds(&self, th: bool) -> u64 { if th { 60_000 } else { 9_000 } }
    fn generate(&self, rng: &mut Rng, plan: &mut Plan, th: bool) {
        plan.set("labels", rng.range(0, 4));
        let gr = rng.range(1, if th { 4 } else { 3 });
        for _ in 0..gr {
            plan.op("clear", &[]);
            let nv = rng.range(1, if th { 12 } else { 8 });
            let style = rng.below(4);
            let ne = rng.range(1, 2 * nv);
            for k in 0..ne {
                let (a, b) = match style {
                    0 => (rng.below(nv as u64) as i64, rng.below(nv as u64) as i64),
                    1 if k + 1 < nv => { let p = rng.range(0, k); if rng.chance(1, 2) { (p, k + 1) } else { (k + 1, p) } } // a tree first
                    2 => (k % nv, (k + 1) % nv),
                    3 if k > 0 => { let a = rng.range(0, nv - 1); (a, if rng.chance(1, 4) { a } else { 0 }) }
                    _ => (rng.below(nv as u64) as i64, rng.below(nv as u64) as i64),
                };
                plan.op("edge", &[a, b]);
            }
            for _ in 0..rng.range(1, 3) {
                plan.op("sub", &[*rng.pick(&[0, 1, 2, 2, 2, 3, 3, 4, 5, 6, 8, 11])]);
                for _ in 0..rng.range(1, 2) {
                    if rng.chance(1, 6) { plan.op("bad", &[rng.range(0, 2), rng.next() as i64 & 0xffff]); }
                    plan.op("emb", &[rng.range(1, 3), rng.next() as i64 & 0xffff, rng.next() as i64 & 0xffff]);
                }
            }
        }
    }
    fn run(&self, plan: &Plan) {
        let mut edges: Vec<(String, String)> = vec![];
        let mut cur: Option<(Model, usize, SimpleGraph)> = None;
        for (i, op) in plan.ops.iter().enumerate() {
            let when = format!("step {i} '{}'", op.text());
            match op.name.as_str() {
                "clear" => { edges.clear(); }
                "edge" => { let k = plan.cfg("labels"); edges.push((label(k, op.a(0)), label(k, op.a(1)))); }
                "sub" => {
                    if edges.is_empty() { continue }
                    let m = Model::new(edges.clone());
                    let marks = op.a(0).clamp(0, 40) as usize;
                    let e = edges.clone();
                    let build = || { let e = e.clone(); call(move || { let g = Graph::<i64>::from(e); if marks == 2 { SimpleGraph::from(&g) } else { SimpleGraph::subdivided_graph_from(&g, marks) } }) };
                    let (a, b) = (build(), build());
                    match (a, b) {
                        (End::Done(g), End::Done(h)) => {
                            check_counts(&m, &when);
                            require!(g.vertices_list() == h.vertices_list() && *g == *h, "not-repeatable", "{when}: subdividing the same graph again gives another graph");
                            check_sub(&m, marks, &g, &when);
                            let (t, u) = plain("rendering", || (format!("{g}"), format!("{h}")));
                            require!(t == u, "not-repeatable", "{when}: renders differently the second time");
                            log_str("sub", &t);
                            cur = Some((m, marks, g));
                        }
                        (End::Refused(c), End::Refused(_)) => {
                            require!(!m.good_base_point(marks), "unexpected-panic", "{when} of {:?}: {c}", m.edges);
                            cur = None;
                        }
                        _ => fail("not-repeatable", format!("{when}: subdividing the same graph again ends differently")),
                    }
                }
                "emb" => {
                    let Some((m, marks, g)) = &cur else { continue };
                    match op.m(0, 4) { 2 => embed::<2>(m, g, op, &when), 3 => embed::<3>(m, g, op, &when), _ => embed::<1>(m, g, op, &when) }
                    check_sub(m, *marks, g, &when);
                }
                "bad" => {
                    let Some((m, _, g)) = &cur else { continue };
                    let mut map: HashMap<String, ConstVector<f64, 2>> = m.names.iter().map(|n| (n.clone(), ConstVector::from([1.0, 2.0]))).collect();
                    let victim = m.names[op.m(1, m.names.len())].clone();
                    match op.m(0, 3) { 0 => { map.remove(&victim); } 1 => { map.insert("one too many".into(), ConstVector::from([0.0, 0.0])); } _ => { map.remove(&victim); map.insert("another".into(), ConstVector::from([0.0, 0.0])); } }
                    refuse(&format!("{when}: transferring an embedding of other vertices"), move || g.modify_embedding(map));
                }
                _ => {}
            }
        }
    }
    fn rule(&self) -> &'static str { "A case is a seeded sequence of multigraphs, subdivisions and embeddings, each embedding carried by several hash maps of different keys, capacity, insertion order and removals; distinct by the digest of the event log (subdivided graph and embedding size)." }
    fn real(&self) -> &'static str { "topo_spaces::graph (Graph, SimpleGraph, RawSimpleGraph), alg permutations, Rational, ConstVector, std HashMap" }
    fn stub(&self) -> &'static str { "hash keys (getrandom), heap" }
}
