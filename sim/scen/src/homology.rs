//! An independent computation of integral homology, and the reading of the library's text form of it.
use std::collections::BTreeMap;

/// invariant factors of an integer matrix (all positive, without order)
pub fn diagonal(mut a: Vec<Vec<i128>>) -> Vec<i128> {
    let mut out = vec![];
    loop {
        let (mut best, mut at) = (0i128, (0, 0));
        for (i, r) in a.iter().enumerate() { for (j, &x) in r.iter().enumerate() { if x != 0 && (best == 0 || x.abs() < best) { best = x.abs(); at = (i, j); } } }
        if best == 0 { return out; }
        let (i, j) = at;
        let p = a[i][j];
        let mut clean = true;
        for k in 0..a.len() { if k != i && a[k][j] != 0 { let q = a[k][j].div_euclid(p); for l in 0..a[k].len() { let x = a[i][l]; a[k][l] -= q * x; } if a[k][j] != 0 { clean = false; } } }
        if !clean { continue; }
        for l in 0..a[i].len() { if l != j && a[i][l] != 0 { let q = a[i][l].div_euclid(p); a[i][l] -= q * p; if a[i][l] != 0 { clean = false; } } }
        if !clean {
            // the column holds the pivot only, so the row alone can be reduced on
            continue;
        }
        out.push(p.abs());
        a.remove(i);
        for r in a.iter_mut() { r.remove(j); }
    }
}
/// the same for a sparse matrix given by its columns: pivots of one are taken first, where they fill in least
pub fn diagonal_sparse(n_rows: usize, cols: &[Vec<(usize, i128)>]) -> Vec<i128> {
    let mut rows: Vec<BTreeMap<usize, i128>> = vec![BTreeMap::new(); n_rows];
    let mut at: Vec<std::collections::BTreeSet<usize>> = vec![Default::default(); cols.len()];
    for (j, c) in cols.iter().enumerate() { for &(i, x) in c { if x != 0 { *rows[i].entry(j).or_insert(0) += x; } } }
    for (i, r) in rows.iter_mut().enumerate() { r.retain(|_, x| *x != 0); for &j in r.keys() { at[j].insert(i); } }
    let mut out = vec![];
    loop {
        let mut best: Option<(usize, usize, usize)> = None;
        for (i, r) in rows.iter().enumerate() {
            if r.is_empty() || best.is_some_and(|b| r.len() - 1 > b.0) { continue; }
            for (&j, x) in r { if x.abs() == 1 { let cost = (r.len() - 1) * (at[j].len() - 1); if best.is_none_or(|b| cost < b.0) { best = Some((cost, i, j)); } } }
            if best.is_some_and(|b| b.0 == 0) { break; }
        }
        let Some((_, i, j)) = best else { break };
        let pr = std::mem::take(&mut rows[i]);
        for &l in pr.keys() { at[l].remove(&i); }
        let p = pr[&j];
        for k in std::mem::take(&mut at[j]) {
            let q = rows[k][&j] * p;
            for (&l, &x) in &pr {
                let e = rows[k].entry(l).or_insert(0);
                *e -= q * x;
                if *e == 0 { rows[k].remove(&l); at[l].remove(&k); } else { at[l].insert(k); }
            }
        }
        out.push(1);
    }
    let used: Vec<usize> = (0..cols.len()).filter(|&j| !at[j].is_empty()).collect();
    let rest: Vec<Vec<i128>> = rows.iter().filter(|r| !r.is_empty()).map(|r| used.iter().map(|j| r.get(j).copied().unwrap_or(0)).collect()).collect();
    out.extend(diagonal(rest));
    out
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Module { pub free: usize, pub torsion: BTreeMap<i128, usize> }
impl Module {
    fn add(&mut self, d: i128, times: usize) {
        let (mut d, mut p) = (d, 2);
        while d > 1 { if p * p > d { p = d; } if d % p == 0 { let mut q = 1; while d % p == 0 { d /= p; q *= p; } *self.torsion.entry(q).or_insert(0) += times; } p += 1; }
    }
    fn zero(&self) -> bool { self.free == 0 && self.torsion.is_empty() }
}
/// modules in degree 0, 1, ... without the zero ones at the end; bd[k] maps degree k to degree k-1
pub fn homology(bd: &[Vec<Vec<i128>>], n: &[usize]) -> Vec<Module> { homology_of(bd.iter().map(|m| diagonal(m.clone())).collect(), n) }
pub fn homology_of(ds: Vec<Vec<i128>>, n: &[usize]) -> Vec<Module> {
    let mut out: Vec<Module> = (0..n.len()).map(|k| {
        let below = if k == 0 { 0 } else { ds[k].len() };
        let above: &[i128] = if k + 1 < ds.len() { &ds[k + 1] } else { &[] };
        let mut m = Module { free: n[k] - below - above.len(), torsion: BTreeMap::new() };
        for &d in above { m.add(d, 1); }
        m
    }).collect();
    while out.last().is_some_and(|m| m.zero()) { out.pop(); }
    out
}
/// "dim 0: Z,\ndim 1: Z^2 + (Z_2)^3,\n"
pub fn parse(text: &str) -> Result<Vec<Module>, String> {
    let mut out = vec![];
    for (k, l) in text.lines().enumerate() {
        let r = l.strip_prefix(&format!("dim {k}: ")).ok_or("wrong line")?.strip_suffix(',').ok_or("wrong line")?;
        let mut m = Module::default();
        if r != "0" {
            for t in r.split(" + ") {
                let num = |x: &str| x.parse::<i128>().map_err(|_| format!("cannot read '{t}'"));
                if t == "Z" { m.free += 1; continue; }
                if let Some(x) = t.strip_prefix("Z^") { m.free += num(x)? as usize; continue; }
                let (d, c) = if let Some(x) = t.strip_prefix("(Z_") { let (d, c) = x.split_once(")^").ok_or(format!("cannot read '{t}'"))?; (num(d)?, num(c)? as usize) } else { (num(t.strip_prefix("Z_").ok_or(format!("cannot read '{t}'"))?)?, 1) };
                if d <= 1 { return Err(format!("'{t}' is no torsion module")); }
                m.add(d, c);
            }
        }
        out.push(m);
    }
    Ok(out)
}
