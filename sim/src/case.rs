//! A case is everything that decides one simulated execution (or a few that belong together): it is
//! made from a seed, evaluated against the property, minimised when it fails, and written down so
//! that evaluating the file gives the same execution again.
use crate::json::{self, obj, s, J};
use crate::lab::Lab;
use crate::prog::ProgCase;
use crate::rng::Rng;
use crate::rt::RtCase;
use crate::scen::WorldCase;
use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String, // what kind of breakage, kept while minimising
    pub msg: String,
    pub wall: bool, // decided by the wall clock: to be confirmed with more patience
}
pub fn viol(class: &str, msg: String) -> Option<Violation> {
    Some(Violation { class: class.into(), msg, wall: false })
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub by: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>, // non-trivial cases
    pub schedules: HashSet<u64>,
    pub sim_ms: i64,
    pub ops: u64,
    pub samples: Vec<J>,
}
impl Stats {
    pub fn inc(&mut self, k: &str) {
        *self.by.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.by.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.by.entry(format!("max {}", k)).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn fault(&mut self, k: &str) {
        *self.faults.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        for (k, v) in o.by {
            let e = self.by.entry(k.clone()).or_insert(0);
            *e = if k.starts_with("max ") { (*e).max(v) } else { *e + v };
        }
        for (k, v) in o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        self.schedules.extend(o.schedules);
        self.sim_ms += o.sim_ms;
        self.ops += o.ops;
        for x in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(x);
            }
        }
    }
}

#[derive(Clone)]
pub enum Case {
    Prog(ProgCase),
    World(WorldCase),
    Rt(RtCase),
}

pub fn make(prop: &str, lab: &mut Lab, r: &mut Rng, k: u64) -> Case {
    match prop {
        "C01" | "C02" | "C03" | "C04" => Case::Prog(crate::prog::make(prop, r, k)),
        "C11" if k % 4 != 0 => Case::Prog(crate::prog::make(prop, r, k)),
        "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" => Case::World(crate::scen::make(prop, lab, r, k)),
        "C12" | "C13" | "C14" => Case::Rt(crate::rt::make(prop, lab, r, k)),
        _ => panic!("no such property: {}", prop),
    }
}

impl Case {
    pub fn eval(&self, lab: &mut Lab, st: &mut Stats) -> Option<Violation> {
        match self {
            Case::Prog(c) => c.eval(lab, st),
            Case::World(c) => c.eval(lab, st),
            Case::Rt(c) => c.eval(lab, st),
        }
    }
    pub fn shrink(&self, lab: &mut Lab, v: &Violation, until: Instant) -> Case {
        match self {
            Case::Prog(c) => Case::Prog(c.shrink(lab, v, until)),
            Case::World(c) => Case::World(c.shrink(lab, v, until)),
            Case::Rt(c) => Case::Rt(c.shrink(lab, v, until)),
        }
    }
    pub fn prop(&self) -> &str {
        match self {
            Case::Prog(c) => &c.prop,
            Case::World(c) => &c.prop,
            Case::Rt(c) => &c.prop,
        }
    }
    pub fn json(&self) -> J {
        let (k, b) = match self {
            Case::Prog(c) => ("program", c.json()),
            Case::World(c) => ("world", c.json()),
            Case::Rt(c) => ("runtime", c.json()),
        };
        obj(vec![("property", s(self.prop())), ("kind", s(k)), ("case", b)])
    }
    pub fn from(j: &J) -> Case {
        let c = j.get("case");
        match j.get("kind").str() {
            "program" => Case::Prog(ProgCase::from(c)),
            "world" => Case::World(WorldCase::from(c)),
            "runtime" => Case::Rt(RtCase::from(c)),
            k => panic!("not a replay file: kind {:?}", k),
        }
    }
}

/// text when it is text
pub fn bj(b: &[u8]) -> J {
    match std::str::from_utf8(b) {
        Ok(t) if !t.contains('\0') => s(t),
        _ => obj(vec![("hex", s(&json::hex(b)))]),
    }
}
pub fn jb(j: &J) -> Vec<u8> {
    match j {
        J::S(t) => t.as_bytes().to_vec(),
        o => json::unhex(o.get("hex").str()),
    }
}
