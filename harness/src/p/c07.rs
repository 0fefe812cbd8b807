//! C07: FOLLOW sets are exact, including end of input.

use crate::ensure;
use crate::gcfg::{any, build, snapshot};
use crate::p::c06::compare;
use crate::run::{C, Prop, sut};
use cfg_predict_sets::{CfgSetsExt, PredictSets};
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C07",
    quick: 1_000_000,
    thorough: 6_000_000,
    rule: "FOLLOW sets of every nonterminal of a generated grammar with random roots (none, some, many, duplicates, terminals), through both entry points, compared with a textbook fixpoint. Non-trivial if some FOLLOW set is inherited through a nullable tail; distinct by grammar and roots",
    assumptions: &["sentential forms are those derivable from any nonterminal, end of input those derivable from a root"],
    run,
};

fn run(c: &mut C) {
    let g = any(c);
    let mut cfg = build(&g);
    let mut g = g;
    if c.rng.chance(1, 8) {
        sut("wrap_input", || cfg.wrap_input());
        g = crate::gcfg::read(&cfg);
    }
    let before = snapshot(&cfg);
    let follow = g.follow();
    let none: Vec<bool> = follow.iter().map(|f| f.contains(&usize::MAX)).collect();
    let terms: Vec<BTreeSet<usize>> = follow.iter().map(|f| f.iter().copied().filter(|&x| x != usize::MAX).collect()).collect();
    let sets = sut("follow_sets", || {
        if c.idx % 2 == 0 {
            cfg.follow_sets()
        } else {
            let first = cfg.first_sets();
            cfg.follow_sets_with_first(&first)
        }
    });
    compare("FOLLOW", sets.predict_sets(), &g, &terms, &none);
    ensure!(snapshot(&cfg) == before, "computing sets changed the grammar");
    let nullable = g.nullable();
    let nt = g.nonterminal();
    if g.rules.iter().any(|(_, r)| (0..r.len()).any(|i| nt[r[i]] && i + 1 < r.len() && r[i + 1..].iter().all(|&x| nullable[x]))) {
        c.nontrivial((&g.rules, &g.roots));
        c.sample(|| g.show());
    }
    c.count("nonterminals at the end of input", none.iter().zip(&nt).filter(|(a, b)| **a && **b).count() as u64);
}
