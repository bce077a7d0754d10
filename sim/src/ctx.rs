//! What an execution leaves behind: counters, a hash over everything observed, optionally a log.

use std::collections::BTreeMap;

pub struct Ctx {
    pub hash: u64,
    /// hash over the schedule only (edges, interrupts, polls, faults), the interleaving measure
    pub sched: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub counts: BTreeMap<&'static str, u64>,
    pub sim_ns: u128,
    pub log: Option<Vec<String>>,
}

impl Ctx {
    pub fn new(log: bool) -> Self {
        Ctx {
            hash: 0xcbf2_9ce4_8422_2325,
            sched: 0xcbf2_9ce4_8422_2325,
            faults: BTreeMap::new(),
            counts: BTreeMap::new(),
            sim_ns: 0,
            log: log.then(Vec::new),
        }
    }
    pub fn h(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(23);
    }
    pub fn s(&mut self, v: u64) {
        self.sched = (self.sched ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(23);
        self.h(v);
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_default() += 1;
    }
    pub fn faults(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.faults.entry(k).or_default() += n;
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_default() += n;
    }
    pub fn get(&self, k: &str) -> u64 {
        self.counts.get(k).copied().unwrap_or(0)
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            if l.len() < 4000 {
                l.push(f());
            }
        }
    }
}

/// A broken property.
#[derive(Clone, Debug)]
pub struct Viol {
    /// coarse kind, kept fixed while minimising
    pub class: String,
    pub detail: String,
}
pub fn viol<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { class: class.into(), detail: detail.into() })
}
pub type Res = Result<(), Viol>;
