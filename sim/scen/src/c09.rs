use crate::c01::elem_fault_variants;
use crate::common::*;
use crate::el::*;
use simcore::driver::{Outcome, Scenario};
use simcore::*;
use std::collections::BTreeSet;
use util::{BinaryPool, LabeledSet};

pub struct C09;
#[derive(Clone, PartialEq, Debug)]
struct M { len: usize, s: BTreeSet<usize> }
const SLOTS: usize = 4;

fn check_pool(p: &BinaryPool, m: &M, when: &str) {
    let (len, n, full, it, has): (usize, usize, bool, Vec<usize>, Vec<bool>) = plain("reading a pool", || (p.len(), p.n_elements(), p.is_full(), p.iter().collect(), (0..p.len()).map(|i| p.contains(i)).collect()));
    require!(len == m.len, "wrong-size", "{when}: the pool has length {len}, should have {}", m.len);
    require!(n == m.s.len(), "wrong-size", "{when}: the pool reports {n} elements, should report {}", m.s.len());
    require!(full == (m.s.len() == m.len), "wrong-content", "{when}: is_full is {full}");
    require!(it == m.s.iter().copied().collect::<Vec<_>>(), "wrong-content", "{when}: iterating gives {it:?}, should give {:?}", m.s);
    for i in 0..len { require!(has[i] == m.s.contains(&i), "wrong-content", "{when}: contains({i}) is {}", has[i]); }
}
fn set_of(seed: i64, len: usize, dense: usize) -> BTreeSet<usize> {
    let mut r = Rng::new(seed as u64);
    if len == 0 { return BTreeSet::new(); }
    let k = match dense { 0 => 0, 1 => r.below(4) as usize, 2 => r.below(len as u64 + 1) as usize, _ => len };
    if k == len { (0..len).collect() } else { (0..k).map(|_| r.below(len as u64) as usize).collect() }
}

impl Scenario for C09 {
    fn prop(&self) -> &'static str { "C09" }
    fn seeds(&self, th: bool) -> u64 { if th { 1_500_000 } else { 80_000 } }
    fn generate(&self, rng: &mut Rng, plan: &mut Plan, th: bool) {
        plan.set("leakcheck", 1);
        let lens = [0i64, 1, 2, 5, 10, 31, 32, 33, 62, 63, 64, 65, 66, 100, 127, 128, 129, 191, 192, 193, 256, 300];
        let base = *rng.pick(&lens);
        let n = if th { rng.range(3, 60) } else { rng.range(3, 30) };
        let lab = rng.chance(1, 2);
        for k in 0..n {
            let len = if rng.chance(3, 4) { base } else { *rng.pick(&lens) };
            let i = match rng.below(10) { 0 => 1000 + rng.range(0, 130), 1 => 2000, _ => rng.range(0, 400) };
            let s = rng.range(0, 3);
            if lab && k > 1 && rng.chance(2, 3) { plan.op(*rng.pick(&["ladd", "ladd", "ladd", "lrem", "lrem", "liter", "lclone", "leq"]), &[s, rng.range(0, 14)]); continue; }
            if lab && rng.chance(1, 3) { plan.op("lnew", &[s, *rng.pick(&[0, 1, 2, 3, 6, 12, 63, 64, 65, 70]), rng.range(0, 10)]); continue; }
            if k < 2 || rng.chance(1, 8) { plan.op(*rng.pick(&["new", "from", "from", "from"]), &[s, len, rng.next() as i64 & 0xffff, rng.range(0, 3), if rng.chance(1, 6) { i } else { -1 }]); continue; }
            plan.op(*rng.pick(&["add", "add", "add", "remove", "remove", "has", "union", "inter", "subset", "fill", "resize", "clone", "eq", "iter2"]), &[s, rng.range(0, 3), i, rng.range(0, 3), len]);
        }
    }
    fn variants(&self, rng: &mut Rng, plan: &Plan, out: &Outcome, th: bool) -> Vec<Plan> { elem_fault_variants(rng, plan, out, if th { 5 } else { 2 }) }
    fn run(&self, plan: &Plan) {
        ledger_reset();
        let mut p: Vec<Option<(BinaryPool, M)>> = (0..SLOTS).map(|_| None).collect();
        let mut l: Vec<Option<(LabeledSet<E>, Vec<i64>, BTreeSet<usize>)>> = (0..SLOTS).map(|_| None).collect();
        for (i, op) in plan.ops.iter().enumerate() {
            begin_op(plan, i);
            if op.name.starts_with('l') { label_step(&mut l, op) } else { pool_step(&mut p, op) }
            end_op(i);
            crate::mats::stop_if_bad();
            for (k, x) in p.iter().enumerate() { if let Some((a, m)) = x { check_pool(a, m, &format!("pool {k} after step {i} '{}'", op.text())); } }
            for (k, x) in l.iter().enumerate() { if let Some((a, lab, s)) = x { check_set(a, lab, s, &format!("set {k} after step {i} '{}'", op.text())); } }
            crate::mats::stop_if_bad();
            log(&op.name, p.iter().flatten().map(|x| x.1.s.iter().sum::<usize>() + x.1.len).sum::<usize>() as u64 ^ (l.iter().flatten().map(|x| x.2.len()).sum::<usize>() as u64) << 32);
        }
        let _ = sut(move || { drop(p); drop(l) });
        crate::mats::stop_if_bad();
        require!(ledger().alive == 0, "never-destroyed", "{} labels were never destroyed", ledger().alive);
    }
    fn rule(&self) -> &'static str { "A case is a seeded history of pool and labelled-set operations (sizes around word boundaries, several pools, requests out of range or between different sizes) next to a reference set, run alone and again with a label operation told to panic; distinct by the digest of the event log." }
    fn real(&self) -> &'static str { "util::BinaryPool, util::LabeledSet and their iterators" }
    fn stub(&self) -> &'static str { "label type (ledger, may panic), heap" }
    fn fault_kinds(&self) -> &'static [&'static str] { &["panic-in-eq", "panic-in-clone"] }
}
/// An index: below 1000 inside, from 1000 just outside, 2000 far outside.
fn index(x: i64, len: usize) -> usize { if x >= 2000 { usize::MAX / 2 } else if x >= 1000 { len + (x - 1000) as usize } else if len == 0 { 0 } else { x as usize % len } }
fn pool_step(p: &mut Vec<Option<(BinaryPool, M)>>, op: &Op) {
    let (a, b) = (op.m(0, SLOTS), op.m(1, SLOTS));
    let t = op.text();
    match op.name.as_str() {
        "new" => { let len = op.m(1, 1000); if let Some(x) = must(&t, || BinaryPool::new(len)) { p[a] = Some((x, M { len, s: BTreeSet::new() })); } return; }
        "from" => {
            let len = op.m(1, 1000);
            let s = set_of(op.a(2), len, op.m(3, 4));
            let mut v: Vec<usize> = s.iter().copied().collect();
            Rng::new(op.a(2) as u64 + 1).shuffle(&mut v);
            if let Some(x) = v.first().copied() { v.push(x); }
            let bad = op.a(4) >= 1000;
            if bad { v.push(index(op.a(4), len)); refuse(&t, move || BinaryPool::from(len, v)); return; }
            if let Some(x) = must(&t, move || BinaryPool::from(len, v)) { p[a] = Some((x, M { len, s })); }
            return;
        }
        _ => {}
    }
    if p[a].is_none() { return; }
    match op.name.as_str() {
        "add" | "remove" | "has" => {
            let (x, m) = p[a].as_mut().unwrap();
            let i = index(op.a(2), m.len);
            if i >= m.len { match op.name.as_str() { "add" => refuse(&t, || x.add(i)), "remove" => refuse(&t, || x.remove(i)), _ => refuse(&t, || x.contains(i)) } return; }
            match op.name.as_str() {
                "add" => { plain(&t, || x.add(i)); m.s.insert(i); }
                "remove" => { plain(&t, || x.remove(i)); m.s.remove(&i); }
                _ => { let r = plain(&t, || x.contains(i)); require!(r == m.s.contains(&i), "wrong-content", "'{t}' gives {r}"); }
            }
        }
        "fill" => { let (x, m) = p[a].as_mut().unwrap(); plain(&t, || x.fill()); m.s = (0..m.len).collect(); }
        "resize" => {
            let (x, m) = p[a].as_mut().unwrap();
            let n = op.m(4, 1000);
            plain(&t, || x.resize(n));
            if n > m.len { m.len = n; }
        }
        "clone" => { let (x, m) = p[a].as_ref().unwrap(); let y = plain(&t, || x.clone()); let m = m.clone(); p[b] = Some((y, m)); }
        "iter2" => {
            let (x, m) = p[a].as_ref().unwrap();
            let want: Vec<usize> = m.s.iter().copied().collect();
            let got = plain(&t, || { let mut i = x.iter(); let _ = i.next(); let j = x.iter(); let mut k = x.iter(); k.next(); drop(k); let mut v: Vec<usize> = i.collect(); v.extend(j); v });
            let mut w: Vec<usize> = want.iter().skip(1).copied().collect(); w.extend(want);
            require!(got == w, "wrong-content", "'{t}' iterates {got:?}, should iterate {w:?}");
        }
        "union" | "inter" => {
            let (Some((x, m)), Some((y, k))) = (p[a].clone_pair(), p[b].clone_pair()) else { return };
            let dst = op.m(3, SLOTS);
            if m.len != k.len { if op.name == "union" { refuse(&t, move || x.union(y)) } else { refuse(&t, move || x.intersection(y)) } return; }
            let s: BTreeSet<usize> = if op.name == "union" { m.s.union(&k.s).copied().collect() } else { m.s.intersection(&k.s).copied().collect() };
            let r = if op.name == "union" { plain(&t, move || x.union(y)) } else { plain(&t, move || x.intersection(y)) };
            p[dst] = Some((r, M { len: m.len, s }));
        }
        "subset" | "eq" => {
            let (Some((x, m)), Some((y, k))) = (p[a].as_ref(), p[b].as_ref()) else { return };
            if op.name == "eq" { let r = plain(&t, || x == y); require!(r == (m == k), "wrong-content", "'{t}' gives {r}"); return; }
            if m.len != k.len { refuse(&t, || x.is_subset_of(y)); return; }
            let r = plain(&t, || x.is_subset_of(y));
            require!(r == m.s.is_subset(&k.s), "wrong-content", "'{t}' gives {r}");
        }
        _ => {}
    }
}
trait ClonePair { fn clone_pair(&self) -> Option<(BinaryPool, M)>; }
impl ClonePair for Option<(BinaryPool, M)> { fn clone_pair(&self) -> Option<(BinaryPool, M)> { self.as_ref().map(|(x, m)| (plain("cloning a pool", || x.clone()), m.clone())) } }

fn check_set(x: &LabeledSet<E>, lab: &[i64], s: &BTreeSet<usize>, when: &str) {
    let want: Vec<i64> = s.iter().map(|&i| lab[i]).collect();
    let (n, got): (usize, Vec<i64>) = plain("reading a set", || (x.n_elements(), x.iter().map(|e| harness(|| e.val())).collect()));
    require!(n == s.len(), "wrong-size", "{when}: the set reports {n} elements, should report {}", s.len());
    require!(got == want, "wrong-content", "{when}: iterating gives {got:?}, should give {want:?}");
}
fn label_step(l: &mut Vec<Option<(LabeledSet<E>, Vec<i64>, BTreeSet<usize>)>>, op: &Op) {
    let (a, t) = (op.m(0, SLOTS), op.text());
    if op.name == "lnew" {
        let n = op.m(1, 80);
        let mut r = Rng::new(op.a(2) as u64);
        let mut lab: Vec<i64> = (1..=n as i64).map(|x| x * 3).collect();
        r.shuffle(&mut lab);
        // a label may be registered more than once: it is one element all the same
        if n > 1 && op.a(2) >= 6 { for _ in 0..n / 3 + 1 { let (i, j) = (r.below(n as u64) as usize, r.below(n as u64) as usize); lab[i] = lab[j]; } }
        let es: Vec<E> = lab.iter().map(|&x| E::new(x)).collect();
        if let Some(x) = must(&t, move || LabeledSet::new(es)) { if let Some(old) = l[a].take() { let _ = sut(move || drop(old.0)); } l[a] = Some((x, lab, BTreeSet::new())); }
        return;
    }
    if l[a].is_none() { return; }
    match op.name.as_str() {
        "ladd" | "lrem" => {
            let (x, lab, s) = l[a].as_mut().unwrap();
            // a registered label most of the time
            let label = if op.a(1) >= 13 || lab.is_empty() { 1 + 3 * op.a(1) } else { lab[op.a(1) as usize * 7 % lab.len()] };
            let pos = lab.iter().position(|&v| v == label);
            let e = E::new(label);
            let add = op.name == "ladd";
            match (call(|| if add { x.add(e) } else { x.remove(e) }), pos) {
                (End::Done(()), Some(i)) => { if add { s.insert(i); } else { s.remove(&i); } }
                (End::Done(()), None) => fail("not-rejected", format!("'{t}': an unregistered label was accepted")),
                (End::Refused(c), Some(_)) => fail("unexpected-panic", format!("'{t}' failed: {c}")),
                (End::Refused(_), None) => {}
                (End::Cut, i) => {
                    // before or after, nothing else
                    if let Some(i) = i {
                        let n = plain("counting", || x.n_elements());
                        let mut after = s.clone(); if add { after.insert(i); } else { after.remove(&i); }
                        if n == after.len() && n != s.len() { *s = after; }
                    }
                }
            }
        }
        "liter" => {
            let (x, lab, s) = l[a].as_ref().unwrap();
            let want: Vec<i64> = s.iter().map(|&i| lab[i]).collect();
            let got: Vec<i64> = plain(&t, || { let mut i = x.iter(); let j = x.iter(); let _ = i.next(); let mut v: Vec<i64> = i.map(|e| harness(|| e.val())).collect(); v.extend(j.map(|e| harness(|| e.val()))); v });
            let mut w: Vec<i64> = want.iter().skip(1).copied().collect(); w.extend(want);
            require!(got == w, "wrong-content", "'{t}' iterates {got:?}, should iterate {w:?}");
        }
        "lclone" => {
            let (x, lab, s) = l[a].as_ref().unwrap();
            if let Some(y) = must(&t, || x.clone()) { let v = (y, lab.clone(), s.clone()); let d = (a + 1) % SLOTS; if let Some(old) = l[d].take() { let _ = sut(move || drop(old.0)); } l[d] = Some(v); }
        }
        "leq" => {
            let b = op.m(1, SLOTS);
            let (Some(x), Some(y)) = (l[a].as_ref(), l[b].as_ref()) else { return };
            if let Some(r) = must(&t, || x.0 == y.0) { require!(r == (x.1 == y.1 && x.2 == y.2), "wrong-content", "'{t}' gives {r}"); }
        }
        _ => {}
    }
}
