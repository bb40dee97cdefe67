//! What every simulated world reports to the driver.
use crate::rng::mix;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

const MAX_TRACES: usize = 1 << 20;

#[derive(Default, Serialize, Deserialize, Clone)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub ops: BTreeMap<String, u64>,
    pub traces: BTreeSet<u64>,
    pub digests: BTreeSet<u64>,
    pub samples: Vec<Value>,
}

impl Stats {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.into()).or_default() += n;
    }
    pub fn get(&self, k: &str) -> u64 {
        self.counts.get(k).copied().unwrap_or(0)
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxes.entry(k.into()).or_default();
        *e = (*e).max(n);
    }
    pub fn fault(&mut self, k: &str) {
        self.fault_n(k, 1);
    }
    pub fn fault_n(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(k.into()).or_default() += n;
        }
    }
    pub fn op(&mut self, k: &str) {
        *self.ops.entry(k.into()).or_default() += 1;
    }
    pub fn trace(&mut self, h: u64) {
        if self.traces.len() < MAX_TRACES {
            self.traces.insert(h);
        }
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for (k, v) in o.maxes {
            let e = self.maxes.entry(k).or_default();
            *e = (*e).max(v);
        }
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.ops {
            *self.ops.entry(k).or_default() += v;
        }
        self.traces.extend(o.traces);
        self.digests.extend(o.digests);
        self.samples.extend(o.samples);
    }
}

pub enum Verdict {
    Pass { digest: u64, nontrivial: bool },
    Fail { class: String, detail: String, plan: Value },
    /// the simulator itself could not judge this run
    Harness(String),
}

pub fn digest_words(v: &[u64]) -> u64 {
    let mut h = 0x9E37u64 ^ v.len() as u64;
    for x in v {
        h = mix(h, *x);
    }
    h
}

/// One simulated world: plans in, verdicts out.  Plans travel as JSON, so that what is judged is
/// exactly what a replay file holds.
#[derive(Clone, Copy)]
pub struct World {
    pub props: &'static [&'static str],
    /// whether half of the search runs on the library as shipped
    pub twin: bool,
    pub generate: fn(prop: &str, seed: u64, run: u64, thorough: bool) -> Value,
    pub execute: fn(&Value, &mut Stats) -> Verdict,
    pub shrink: fn(&Value) -> Vec<Value>,
    /// called once in every worker
    pub init: fn(),
    pub rule: fn(prop: &str) -> String,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: fn(prop: &str) -> Vec<String>,
    /// (edges reached, edges instrumented)
    pub edges: fn() -> (u64, u64),
}
