//! Random sources and other parts shared by the monitors of generation (C22 to C24).

use crate::refg::{G, closure_of};
use crate::rng::Rng;
use crate::run::{Inconclusive, inconclusive, sut};
use cfg_generate::weighted::random::GenRange;
use std::cell::Cell;
use std::collections::BTreeSet;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
use std::rc::Rc;

/// Steps left before a run is given up. Shared by the clones of a source.
#[derive(Clone)]
pub struct Fuel(Rc<Cell<u64>>);

impl Fuel {
    pub fn new(n: u64) -> Self {
        Fuel(Rc::new(Cell::new(n)))
    }
    pub fn refill(&self, n: u64) {
        self.0.set(n);
    }
    pub fn burn(&self) {
        match self.0.get().checked_sub(1) {
            Some(n) => self.0.set(n),
            None => inconclusive(),
        }
    }
}

/// A call that may run out of fuel.
pub fn fueled<R>(label: &'static str, f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(|| sut(label, f))) {
        Ok(r) => Some(r),
        Err(p) if p.is::<Inconclusive>() => None,
        Err(p) => resume_unwind(p),
    }
}

/// A generator of the `rand` crate's kind.
#[derive(Clone)]
pub struct Bits(pub Rng, pub Fuel);

impl rand::RngCore for Bits {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.1.burn();
        self.0.next()
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        for b in dst {
            *b = self.next_u64() as u8;
        }
    }
}

/// Bytes for a `ByteSource`: the given ones, and then random ones, or none.
#[derive(Clone)]
pub struct Bytes {
    pub head: Rc<Vec<u8>>,
    pub at: usize,
    pub tail: Option<Rng>,
    pub fuel: Fuel,
}

impl Iterator for Bytes {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        self.fuel.burn();
        self.at += 1;
        match self.head.get(self.at - 1) {
            Some(&b) => Some(b),
            None => self.tail.as_mut().map(|r| r.next() as u8),
        }
    }
}

/// A caller's own source of fractions, favouring the ends of the range.
#[derive(Clone)]
pub struct Edges(pub Rng, pub Fuel);

impl GenRange for Edges {
    fn generate(&mut self, limit: f64) -> f64 {
        self.1.burn();
        match self.0.below(8) {
            0 => 0.0,
            1 => limit * (1.0 - f64::EPSILON),
            2 => limit * f64::EPSILON,
            3 => limit / 2.0,
            _ => (self.0.next() >> 11) as f64 / (1u64 << 53) as f64 * limit,
        }
    }
    fn mutate_start(&mut self, n: u64) {
        self.1.burn();
        for _ in 0..=n % 7 {
            self.0.next();
        }
    }
}

/// Whether the symbols with a single rule derive each other in a circle: such a grammar is
/// expanded forever without a choice being made.
pub fn choiceless_loop(g: &G) -> bool {
    let mut n = vec![0; g.n];
    for (l, _) in &g.rules {
        n[*l] += 1;
    }
    let mut d = vec![BTreeSet::new(); g.n];
    for (l, r) in &g.rules {
        if n[*l] == 1 {
            d[*l].extend(r.iter().copied());
        }
    }
    let c = closure_of(&d);
    (0..g.n).any(|s| c[s].contains(&s))
}

/// Whether every derivation ends.
pub fn finite(g: &G) -> bool {
    let c = closure_of(&g.direct());
    (0..g.n).all(|s| !c[s].contains(&s))
}
