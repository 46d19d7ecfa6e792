//! A plan is everything one simulated execution depends on besides the code: configuration, operations, faults.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Op { pub name: String, pub args: Vec<i64> }
#[derive(Clone, Debug, PartialEq)]
pub struct Fault { pub kind: String, pub at: i64, pub arg: i64 }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub cfg: BTreeMap<String, i64>,
    pub ops: Vec<Op>,
    pub faults: Vec<Fault>,
    pub expect: String,
    pub note: Vec<String>,
}

impl Op {
    pub fn new(name: &str, args: &[i64]) -> Op { Op { name: name.into(), args: args.to_vec() } }
    /// argument i, 0 if absent (a plan stays executable whatever the minimiser removes)
    pub fn a(&self, i: usize) -> i64 { self.args.get(i).copied().unwrap_or(0) }
    /// argument i reduced into 0..n
    pub fn m(&self, i: usize, n: usize) -> usize { if n == 0 { 0 } else { self.a(i).rem_euclid(n as i64) as usize } }
    pub fn text(&self) -> String {
        let mut s = self.name.clone();
        for a in &self.args { s.push(' '); s.push_str(&a.to_string()); }
        s
    }
}
impl Plan {
    pub fn new(prop: &str, seed: u64) -> Plan { Plan { prop: prop.into(), seed, ..Default::default() } }
    pub fn cfg(&self, k: &str) -> i64 { self.cfg.get(k).copied().unwrap_or(0) }
    pub fn set(&mut self, k: &str, v: i64) { self.cfg.insert(k.into(), v); }
    pub fn op(&mut self, name: &str, args: &[i64]) { self.ops.push(Op::new(name, args)); }
    pub fn fault(&mut self, kind: &str, at: i64, arg: i64) { self.faults.push(Fault { kind: kind.into(), at, arg }); }
    pub fn render(&self) -> String {
        let mut s = String::from("toppo-sim-plan 1\n");
        s += &format!("prop {}\nseed {}\n", self.prop, self.seed);
        for (k, v) in &self.cfg { s += &format!("cfg {} {}\n", k, v); }
        for o in &self.ops { s += &format!("op {}\n", o.text()); }
        for f in &self.faults { s += &format!("fault {} {} {}\n", f.kind, f.at, f.arg); }
        if !self.expect.is_empty() { s += &format!("expect {}\n", self.expect); }
        for n in &self.note { s += &format!("# {}\n", n.replace('\n', " | ")); }
        s
    }
    pub fn parse(t: &str) -> Result<Plan, String> {
        let mut p = Plan::default();
        let mut lines = t.lines();
        if lines.next() != Some("toppo-sim-plan 1") { return Err("not a toppo-sim plan".into()); }
        for l in lines {
            let mut w = l.split_whitespace();
            let int = |x: Option<&str>| -> Result<i64, String> { x.ok_or("missing number")?.parse().map_err(|e| format!("{e}: {l}")) };
            match w.next() {
                None | Some("#") => {}
                Some("prop") => p.prop = w.next().unwrap_or("").into(),
                Some("seed") => p.seed = w.next().and_then(|x| x.parse().ok()).unwrap_or(0),
                Some("cfg") => { let k = w.next().unwrap_or("").to_string(); p.cfg.insert(k, int(w.next())?); }
                Some("op") => {
                    let name = w.next().unwrap_or("").to_string();
                    let mut args = vec![];
                    for a in w { args.push(int(Some(a))?); }
                    p.ops.push(Op { name, args });
                }
                Some("fault") => { let kind = w.next().unwrap_or("").to_string(); let at = int(w.next())?; let arg = int(w.next())?; p.faults.push(Fault { kind, at, arg }); }
                Some("expect") => p.expect = w.collect::<Vec<_>>().join(" "),
                Some(x) => return Err(format!("unknown line: {x}")),
            }
        }
        Ok(p)
    }
}
