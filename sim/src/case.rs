//! One simulated run: everything that decides it, and what came out of it.
use crate::scen::Scen;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(tag = "kind", content = "case")]
pub enum Case {
    Lib(Scen),
    Sched(crate::sched::Sched),
    Points(crate::points::Points),
    Poly(crate::poly::Poly),
    Edges(crate::edges::Edges),
    Mesh(crate::meshops::MeshOps),
    Cli(crate::cli::Cli),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Viol {
    pub class: String,
    pub step: usize,
    pub msg: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Report {
    pub viol: Vec<Viol>,
    pub tags: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    /// everything observed, in order: equal digests = the same execution
    pub digest: u64,
    pub ticks: u64,
    /// simulated nanoseconds, for runs that have a clock
    pub sim_ns: u64,
}

impl Report {
    pub fn add(&mut self, class: &str, step: usize, msg: String) {
        self.viol.push(Viol { class: class.into(), step, msg });
    }
    pub fn tag(&mut self, t: &str) {
        self.count(t, 1);
    }
    pub fn count(&mut self, t: &str, n: u64) {
        *self.tags.entry(t.into()).or_insert(0) += n;
    }
    pub fn max(&mut self, t: &str, n: u64) {
        let e = self.maxima.entry(t.into()).or_insert(0);
        *e = (*e).max(n);
    }
}
