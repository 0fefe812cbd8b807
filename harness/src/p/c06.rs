//! C06: FIRST and LAST sets are exact.

use crate::ensure;
use crate::gcfg::{any, build, snapshot, sym};
use crate::refg::G;
use crate::run::{C, Prop, sut};
use cfg_predict_sets::{CfgSetsExt, FirstSets, LastSets, PerSymbolSets, PredictSets};
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C06",
    quick: 1_000_000,
    thorough: 6_000_000,
    rule: "FIRST and LAST sets of every nonterminal of a generated grammar, and FIRST of random strings of its symbols (all rule RHSs and suffixes included), are compared with textbook fixpoints; the terminals found are also confirmed by the derivation relation. Non-trivial if a rule starts or ends with a nullable symbol; distinct by grammar",
    assumptions: &[],
    run,
};

pub fn compare(what: &str, got: &PerSymbolSets, g: &G, want: &[BTreeSet<usize>], none: &[bool]) {
    let nt = g.nonterminal();
    for s in 0..g.n {
        let Some(v) = got.get(&sym(s)) else {
            ensure!(!nt[s], "{what}: no set for the nonterminal {s}");
            continue;
        };
        ensure!(nt[s], "{what}: a set for {s}, which is no nonterminal");
        let list: Vec<usize> = v.list.iter().map(|x| x.usize()).collect();
        let set: BTreeSet<usize> = list.iter().copied().collect();
        ensure!(set.len() == list.len(), "{what} of {s} lists a terminal twice: {list:?}");
        ensure!(set == want[s], "{what} of {s} is {set:?}, expected {:?}", want[s]);
        ensure!(v.has_none == none[s] && v.has_none() == none[s], "{what} of {s}: none is {}, expected {}", v.has_none, none[s]);
    }
    ensure!(got.len() <= g.n, "{what}: sets for unknown symbols");
}

fn run(c: &mut C) {
    let g = any(c);
    let cfg = build(&g);
    let before = snapshot(&cfg);
    let (first, nullable) = g.first();
    let sets = sut("first_sets", || if c.idx % 2 == 0 { cfg.first_sets() } else { FirstSets::new(&cfg) });
    compare("FIRST", sets.predict_sets(), &g, &first, &nullable);
    let rev = g.reversed();
    let (last, _) = rev.first();
    let lasts = sut("LastSets::new", || LastSets::new(&cfg));
    compare("LAST", lasts.predict_sets(), &g, &last, &nullable);
    // Strings of symbols.
    let mut strings: Vec<Vec<usize>> = vec![vec![]];
    for (_, r) in &g.rules {
        for i in 0..r.len().min(4) {
            strings.push(r[i..].to_vec());
        }
    }
    let nulls: Vec<usize> = (0..g.n).filter(|&s| nullable[s]).collect();
    for _ in 0..4 {
        let len = c.rng.below(6);
        strings.push(
            (0..len)
                .map(|_| if !nulls.is_empty() && c.rng.chance(1, 2) { *c.rng.pick(&nulls) } else { c.rng.below(g.n) })
                .collect(),
        );
    }
    if c.rng.chance(1, 100) && !nulls.is_empty() {
        // A long string of symbols that may be empty, and then others.
        let len = c.rng.range(20, 600);
        let mut s: Vec<usize> = (0..len).map(|_| *c.rng.pick(&nulls)).collect();
        s.extend((0..c.rng.below(3)).map(|_| c.rng.below(g.n)));
        strings.push(s);
    }
    let mut through = 0;
    for s in &strings {
        let mut want = BTreeSet::new();
        let mut none = true;
        for &x in s {
            want.extend(first[x].iter().copied());
            if !nullable[x] {
                none = false;
                break;
            }
            through += 1;
        }
        let real: Vec<_> = s.iter().map(|&x| sym(x)).collect();
        let got = sut("first_set_for_string", || sets.first_set_for_string(&real));
        let list: Vec<usize> = got.list.iter().map(|x| x.usize()).collect();
        let set: BTreeSet<usize> = list.iter().copied().collect();
        ensure!(list.len() == set.len(), "FIRST of {s:?} lists a terminal twice: {list:?}");
        ensure!(set == want && got.has_none == none, "FIRST of the string {s:?} is {set:?} none {}, expected {want:?} none {none}", got.has_none);
    }
    c.count("strings", strings.len() as u64);
    ensure!(snapshot(&cfg) == before, "computing sets changed the grammar");
    let hit = g.rules.iter().any(|r| r.1.len() > 1 && (nullable[r.1[0]] || nullable[*r.1.last().unwrap()]));
    if hit || through > 0 {
        c.nontrivial(&g.rules);
        c.sample(|| g.show());
    }
}
