use crate::common::*;
use crate::el::*;
use crate::mats::stop_if_bad;
use alg::non_commutative::permutation::*;
use alg::non_commutative::Group;
use simcore::driver::Scenario;
use simcore::*;
use std::collections::BTreeSet;
use topo_spaces::graph::RawSimpleGraph;

pub struct C10;
const SLOTS: usize = 3;
type Edges = BTreeSet<(usize, usize)>;
struct G { g: RawSimpleGraph, n: usize, e: Edges, undo: Vec<Undo> }
enum Undo { Add(usize, usize), Rem(usize, usize), Swap(usize, usize), Act(Permutation, Vec<usize>) }
struct L { v: Vec<E>, m: Vec<i64> }

fn ord(a: usize, b: usize) -> (usize, usize) { if a < b { (a, b) } else { (b, a) } }
fn map(p: &[usize], i: usize) -> usize { p.get(i).copied().unwrap_or(i) }
fn relabel(e: &Edges, p: &[usize]) -> Edges { e.iter().map(|&(a, b)| ord(map(p, a), map(p, b))).collect() }
fn mul(p: &[usize], q: &[usize]) -> Vec<usize> { (0..p.len().max(q.len())).map(|i| map(p, map(q, i))).collect() }
fn inv(p: &[usize]) -> Vec<usize> { let mut o = vec![0; p.len()]; for i in 0..p.len() { o[p[i]] = i; } o }

/// A random permutation of 0..n as disjoint cycles.
fn cycles(r: &mut Rng, n: usize) -> (Vec<Vec<usize>>, Vec<usize>) {
    let mut v: Vec<usize> = (0..n).collect();
    r.shuffle(&mut v);
    let moved = match r.below(4) { 0 => n.min(2), 1 => n.min(3), 2 => n, _ => r.below(n as u64 + 1) as usize };
    v.truncate(moved);
    let mut m: Vec<usize> = (0..n).collect();
    let mut cs = vec![];
    while !v.is_empty() {
        let k = (1 + r.below(v.len() as u64) as usize).min(if r.chance(1, 2) { 4 } else { 99 });
        let c: Vec<usize> = v.drain(..k).collect();
        for i in 0..k { m[c[i]] = c[(i + 1) % k]; }
        cs.push(c);
    }
    (cs, m)
}
/// Build the permutation the arguments describe, through one of the ways the library offers.
pub fn perm(seed: i64, kind: usize, n: usize) -> (Permutation, Vec<usize>) {
    let mut r = Rng::new(seed as u64 ^ 0x77);
    let mk = |cs: &[Vec<usize>]| { let cs = cs.to_vec(); plain("building a permutation", move || Permutation::from_disjoint_cycles(cs.into_iter().map(Cycle::from).collect())) };
    let (c, m) = cycles(&mut r, n);
    let p = mk(&c);
    match kind {
        1 => { let (d, k) = cycles(&mut r, n); let q = mk(&d); let w = mul(&m, &k); (plain("a product of permutations", move || p * q), w) }
        2 if n >= 2 => {
            let a = r.below(n as u64 - 1) as usize; let b = a + 1 + r.below((n - a - 1) as u64) as usize;
            let c = b + r.below((n - b) as u64) as usize; let d = c + 1 + r.below((n - c) as u64) as usize;
            let (b, d) = (b.min(n), d.min(n));
            // the blocks a..b and c..d change places, what lies between stays between
            let mut order: Vec<usize> = (0..a).collect(); order.extend(c..d); order.extend(b..c); order.extend(a..b); order.extend(d..n);
            (plain("a block swap", move || Permutation::swap(a..b, c..d)), inv(&order))
        }
        3 => { let k = r.below(5) as i64; let mut w: Vec<usize> = (0..n).collect(); for _ in 0..k { w = mul(&m, &w); } (plain("a power of a permutation", move || p ^ k), w) }
        4 => (plain("an inverse", move || p.inverse()), inv(&m)),
        5 => {
            let (d, k) = cycles(&mut r, n); let q = mk(&d);
            let w = mul(&k, &m); // the first factor acts first
            (plain("a product of a list", move || vec![p, q].into_iter().product::<Permutation>()), w)
        }
        6 if n >= 1 => { let a = r.below(n as u64) as usize; let b = a + 1 + r.below((n - a) as u64) as usize; let mut w: Vec<usize> = (0..n).collect(); for i in a..b { w[i] = if i + 1 == b { a } else { i + 1 }; } (plain("a cyclic permutation", move || Permutation::cyclic_from(a..b)), w) }
        _ => (p, m),
    }
}
fn connected(n: usize, e: &Edges) -> bool {
    let mut seen = vec![false; n]; seen[0] = true; let mut st = vec![0];
    while let Some(v) = st.pop() { for &(a, b) in e { for (x, y) in [(a, b), (b, a)] { if x == v && !seen[y] { seen[y] = true; st.push(y); } } } }
    seen.iter().all(|&x| x)
}
fn check_graph(x: &G, when: &str, deep: bool) {
    let (n, g) = (x.n, &x.g);
    let (ne, nv, has) = plain("reading a graph", || { let mut h = vec![]; for j in 0..n { for i in 0..j { if g.contains(i, j) { h.push((i, j)) } } } (g.n_edges(), g.n_vertices(), h) });
    require!(nv == n, "wrong-size", "{when}: {nv} vertices, should be {n}");
    let has: Edges = has.into_iter().collect();
    require!(has == x.e, "wrong-edges", "{when}: edges {has:?}, should be {:?}", x.e);
    require!(ne == x.e.len(), "wrong-edges", "{when}: reports {ne} edges, has {}", x.e.len());
    if !deep { return; }
    for v in 0..n {
        let want: Vec<usize> = (0..n).filter(|&w| w != v && x.e.contains(&ord(v, w))).collect();
        let (d, a, it) = plain("neighbours", || (g.degree_of(v), g.get_adjacent_vertices(v), g.adjacent_vertices_iter(v).collect::<Vec<_>>()));
        require!(d == want.len(), "wrong-degree", "{when}: vertex {v} has degree {d}, should have {}", want.len());
        require!(a == want && it == want, "wrong-neighbours", "{when}: vertex {v} has neighbours {a:?} / {it:?}, should have {want:?}");
    }
    if n >= 2 { let c = plain("is_connected", || g.is_connected()); require!(c == connected(n, &x.e), "wrong-connectivity", "{when}: is_connected is {c} for edges {:?}", x.e); }
    let edges: Vec<[usize; 2]> = plain("edges", || g.edge_iter().map(|f| f.edge()).collect());
    let set: Edges = edges.iter().map(|e| (e[0], e[1])).collect();
    require!(set == x.e && edges.len() == x.e.len(), "wrong-edges", "{when}: edge_iter gives {edges:?}, should give {:?}", x.e);
    let nv = plain("vertices", || g.vertex_iter().map(|f| f.vertex()).collect::<Vec<_>>());
    require!(nv == (0..n).collect::<Vec<_>>(), "wrong-size", "{when}: vertex_iter gives {nv:?}");
    let text = plain("rendering", || format!("{}", g));
    let mut want = String::new();
    for j in 1..n { for i in 0..j { want.push(if x.e.contains(&(i, j)) { '1' } else { '0' }); } want.push('\n'); }
    require!(text == want, "wrong-text", "{when}: renders as {text:?}, should be {want:?}");
}

impl Scenario for C10 {
    fn prop(&self) -> &'static str { "C10" }
    fn seeds(&self, th: bool) -> u64 { if th { 1_000_000 } else { 70_000 } }
    fn generate(&self, rng: &mut Rng, plan: &mut Plan, th: bool) {
        let top = if th { 40 } else { 14 };
        let n = rng.range(3, if th { 60 } else { 25 });
        let dens = rng.range(0, 3);
        for k in 0..n {
            let s = rng.range(0, SLOTS as i64 - 1);
            if k == 0 || rng.chance(1, 14) { plan.op("new", &[s, rng.range(1, top), rng.next() as i64 & 0xffff, dens]); continue; }
            if k == 1 || rng.chance(1, 14) { plan.op("list", &[s, *rng.pick(&[0, 1, 2, 3, 5, 9, 20])]); continue; }
            let bad = if rng.chance(1, 8) { rng.range(1, 3) } else { 0 };
            match rng.below(10) {
                0 | 1 => plan.op("add", &[s, rng.range(0, 50), rng.range(0, 50), bad]),
                2 => plan.op("rem", &[s, rng.range(0, 50), rng.range(0, 50), bad]),
                3 => plan.op("swap", &[s, rng.range(0, 50), rng.range(0, 50), bad]),
                4 | 5 => plan.op("act", &[s, rng.next() as i64 & 0xffff, rng.range(0, 6), bad, rng.range(0, 1)]),
                6 => plan.op("undo", &[s, rng.range(1, 4)]),
                7 => plan.op("pair", &[s, rng.next() as i64 & 0xffff, rng.next() as i64 & 0xffff, rng.range(0, 6)]),
                8 => plan.op("lact", &[s, rng.next() as i64 & 0xffff, rng.range(0, 6), bad, rng.range(0, 1)]),
                _ => plan.op("lpair", &[s, rng.next() as i64 & 0xffff, rng.next() as i64 & 0xffff]),
            }
        }
        plan.set("leakcheck", 1);
    }
    fn run(&self, plan: &Plan) {
        ledger_reset();
        let mut gs: Vec<Option<G>> = (0..SLOTS).map(|_| None).collect();
        let mut ls: Vec<Option<L>> = (0..SLOTS).map(|_| None).collect();
        for (i, op) in plan.ops.iter().enumerate() {
            begin_op(plan, i);
            step(&mut gs, &mut ls, op);
            end_op(i);
            stop_if_bad();
            for (k, x) in gs.iter().enumerate() { if let Some(x) = x { check_graph(x, &format!("graph {k} after step {i} '{}'", op.text()), k == op.m(0, SLOTS)); } }
            for (k, l) in ls.iter().enumerate() { if let Some(l) = l {
                let got: Vec<i64> = l.v.iter().map(|e| e.val()).collect(); stop_if_bad();
                require!(got == l.m, "wrong-list", "list {k} after step {i} '{}' is {got:?}, should be {:?}", op.text(), l.m);
            } }
            log(&op.name, gs.iter().flatten().map(|x| x.e.iter().map(|e| e.0 * 64 + e.1).sum::<usize>()).sum::<usize>() as u64);
        }
        // undo everything
        for k in 0..SLOTS { if let Some(x) = gs[k].as_mut() { while !x.undo.is_empty() { undo(x); } check_graph(x, &format!("graph {k} after undoing all of its history"), true); } }
        plain("dropping", move || { drop(gs); drop(ls) });
        stop_if_bad();
        require!(ledger().alive == 0, "never-destroyed", "{} list items were never destroyed", ledger().alive);
    }
    fn rule(&self) -> &'static str { "A case is a seeded history of edge edits, swaps, permutation actions built in every way the library offers, undo steps and rejected requests on graphs and on lists of owned items, next to an adjacency-set model, everything undone at the end; distinct by the digest of the event log." }
    fn real(&self) -> &'static str { "topo_spaces::graph::RawSimpleGraph, util::BinaryPool, alg permutations and their actions on graphs and Vec" }
    fn stub(&self) -> &'static str { "list items (ledger), heap" }
}
fn undo(x: &mut G) {
    let g = &mut x.g;
    match x.undo.pop() {
        Some(Undo::Add(a, b)) => { plain("undoing", || g.remove_edge(a, b)); x.e.remove(&(a, b)); }
        Some(Undo::Rem(a, b)) => { plain("undoing", || g.add_edge(a, b)); x.e.insert((a, b)); }
        Some(Undo::Swap(a, b)) => { plain("undoing", || g.swap(a, b)); let mut p: Vec<usize> = (0..x.n).collect(); p.swap(a, b); x.e = relabel(&x.e, &p); }
        Some(Undo::Act(p, m)) => { plain("undoing", || *g <<= p.inverse()); x.e = relabel(&x.e, &inv(&m)); }
        None => {}
    }
}
fn degrees(n: usize, e: &Edges) -> Vec<usize> { let mut d = vec![0; n]; for &(a, b) in e { d[a] += 1; d[b] += 1; } d.sort(); d }
fn step(gs: &mut [Option<G>], ls: &mut [Option<L>], op: &Op) {
    let s = op.m(0, SLOTS);
    let t = op.text();
    match op.name.as_str() {
        "new" => {
            let n = op.a(1).clamp(1, 64) as usize;
            let g = plain(&t, || RawSimpleGraph::new(n));
            let mut x = G { g, n, e: Edges::new(), undo: vec![] };
            let mut r = Rng::new(op.a(2) as u64);
            let d = op.m(3, 4) as u64;
            for j in 0..n { for i in 0..j { if match d { 0 => r.chance(1, n as u64), 1 => r.chance(1, 3), 2 => r.chance(2, 3), _ => j == i + 1 || r.chance(1, n as u64) } { let g = &mut x.g; plain("adding", || g.add_edge(i, j)); x.e.insert((i, j)); } } }
            gs[s] = Some(x);
        }
        "list" => { let n = op.m(1, 64); let m: Vec<i64> = (0..n as i64).map(|i| i * 5 + 1).collect(); ls[s] = Some(L { v: m.iter().map(|&x| E::new(x)).collect(), m }); }
        "add" | "rem" | "swap" => {
            let Some(x) = gs[s].as_mut() else { return };
            let (mut i, mut j) = (op.m(1, x.n), op.m(2, x.n));
            let bad = op.a(3);
            if i > j { std::mem::swap(&mut i, &mut j); }
            match bad { 1 => j = x.n + op.m(2, 3), 2 => std::mem::swap(&mut i, &mut j), 3 => { i = x.n + 1; j = x.n + 2 } _ => {} }
            let ok = i < j && j < x.n;
            let g = &mut x.g;
            match (op.name.as_str(), ok) {
                ("add", true) => { plain(&t, || g.add_edge(i, j)); if x.e.insert((i, j)) { x.undo.push(Undo::Add(i, j)); } }
                ("add", false) => refuse(&t, || g.add_edge(i, j)),
                ("rem", true) => { plain(&t, || g.remove_edge(i, j)); if x.e.remove(&(i, j)) { x.undo.push(Undo::Rem(i, j)); } }
                ("rem", false) => refuse(&t, || g.remove_edge(i, j)),
                ("swap", true) => { plain(&t, || g.swap(i, j)); let mut p: Vec<usize> = (0..x.n).collect(); p.swap(i, j); x.e = relabel(&x.e, &p); x.undo.push(Undo::Swap(i, j)); }
                (_, _) => { if i == j { let _ = call(|| g.swap(i, j)); } else { refuse(&t, || g.swap(i, j)) } }
            }
        }
        "act" => {
            let Some(x) = gs[s].as_mut() else { return };
            let bad = op.a(3) == 1;
            let (p, m) = perm(op.a(1), op.m(2, 7), if bad { x.n + 3 } else { x.n });
            let moved_out = (x.n..m.len()).any(|i| m[i] != i) ;
            let consume = op.m(4, 2) == 1;
            let q = p.clone();
            let end = if consume { let g = x.g.clone(); let r = call(move || g << q); match r { End::Done(g) => { x.g = g; End::Done(()) } End::Refused(c) => { if !moved_out { fail("unexpected-panic", format!("'{t}' failed: {c}")) } return; } End::Cut => return } } else { let g = &mut x.g; call(|| *g <<= q) };
            match end {
                End::Done(()) => {
                    require!(!moved_out, "not-rejected", "'{t}' moves a vertex the graph does not have and was carried out");
                    x.e = relabel(&x.e, &m); x.undo.push(Undo::Act(p, m));
                }
                End::Refused(c) => {
                    if !moved_out { fail("unexpected-panic", format!("'{t}' failed: {c}")) }
                    // what was done so far must be a relabelling: go on from there
                    let (g, n) = (&x.g, x.n);
                    let now: Edges = plain("reading", || { let mut h = Edges::new(); for j in 0..n { for i in 0..j { if g.contains(i, j) { h.insert((i, j)); } } } h });
                    require!(degrees(n, &now) == degrees(n, &x.e), "wrong-edges", "refused '{t}' left edges {now:?} where {:?} were", x.e);
                    x.e = now; x.undo.clear();
                }
                End::Cut => {}
            }
        }
        "undo" => { let Some(x) = gs[s].as_mut() else { return }; for _ in 0..op.a(1).clamp(0, 9) { undo(x); } }
        "pair" => {
            // acting with a product is acting one after the other
            let Some(x) = gs[s].as_mut() else { return };
            let ((p, mp), (q, mq)) = (perm(op.a(1), op.m(3, 7), x.n), perm(op.a(2), 0, x.n));
            let g = &x.g;
            let (a, b, c) = plain(&t, || { let mut a = g.clone(); a <<= q.clone(); a <<= p.clone(); let b = g.clone() << (p.clone() * q.clone()); let mut c = a.clone(); c <<= (p.clone() * q.clone()).inverse(); (a, b, c) });
            require!(a == b, "product-acts-differently", "'{t}': acting with a product differs from acting one after the other");
            require!(c == *g, "not-restored", "'{t}': undoing a product action does not restore the graph");
            let e = relabel(&x.e, &mul(&mp, &mq));
            check_graph(&G { g: a, n: x.n, e, undo: vec![] }, &t, true);
        }
        "lact" => {
            let Some(l) = ls[s].as_mut() else { return };
            let n = l.m.len();
            let bad = op.a(3) == 1;
            let (p, m) = perm(op.a(1), op.m(2, 7), if bad { n + 3 } else { n });
            let moved_out = (n..m.len()).any(|i| m[i] != i);
            let mut want = l.m.clone();
            for i in 0..n { if map(&m, i) < n { want[map(&m, i)] = l.m[i]; } }
            if op.m(4, 2) == 1 && !bad { let v = std::mem::take(&mut l.v); l.v = plain(&t, move || v << p); l.m = want; return; }
            let v = &mut l.v;
            match call(|| *v <<= p) {
                End::Done(()) => { require!(!moved_out, "not-rejected", "'{t}' moves an item the list does not have and was carried out"); l.m = want; }
                End::Refused(c) => {
                    if !moved_out { fail("unexpected-panic", format!("'{t}' failed: {c}")) }
                    let now: Vec<i64> = l.v.iter().map(|e| e.val()).collect();
                    let (mut a, mut b) = (now.clone(), l.m.clone()); a.sort(); b.sort();
                    require!(a == b, "wrong-list", "refused '{t}' left {now:?} where {:?} were", l.m);
                    l.m = now;
                }
                End::Cut => {}
            }
        }
        "lpair" => {
            let Some(l) = ls[s].as_mut() else { return };
            let n = l.m.len();
            let ((p, mp), (q, mq)) = (perm(op.a(1), 0, n), perm(op.a(2), 1, n));
            let m = l.m.clone();
            let (a, b, c) = plain(&t, || { let mut a = m.clone(); a <<= q.clone(); a <<= p.clone(); let b = m.clone() << (p.clone() * q.clone()); let c = b.clone() << (p.clone() * q.clone()).inverse(); (a, b, c) });
            let w = mul(&mp, &mq); let mut want = m.clone(); for i in 0..n { want[w[i]] = m[i]; }
            require!(a == want && b == want && c == m, "product-acts-differently", "'{t}': {a:?}, {b:?}, undone {c:?}, should be {want:?} and {m:?}");
        }
        _ => {}
    }
}
