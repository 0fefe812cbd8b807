//! C08: LL(1) classification is correct.

use crate::ensure;
use crate::gcfg::{any, build, profile, snapshot, sym, Prof};
use crate::run::{C, Prop, sut};
use cfg_classify::CfgClassifyExt;
use cfg_classify::ll::LlNonterminalClass;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C08",
    quick: 1_000_000,
    thorough: 6_000_000,
    rule: "the LL(1) classification of every nonterminal of a generated grammar (many of them nearly LL(1)) compared with one made from textbook FIRST, FOLLOW and reachability. Non-trivial if both classes occur or a prediction uses FOLLOW; distinct by grammar and roots",
    assumptions: &["two equal rules are two rules"],
    run,
};

fn run(c: &mut C) {
    let g = if c.idx % 4 != 0 && c.rng.chance(1, 2) {
        let mut g = profile(&mut c.rng, Prof::LlLike);
        g.rules.truncate(12);
        c.size = g.size();
        c.note(|| format!("grammar: {}", g.show()));
        g
    } else {
        any(c)
    };
    let cfg = build(&g);
    let before = snapshot(&cfg);
    let (first, nullable) = g.first();
    let follow = g.follow();
    // The rules predicted by each lookahead.
    let mut table: BTreeMap<(usize, usize), BTreeSet<usize>> = BTreeMap::new();
    let mut by_follow = 0u64;
    for (i, (l, r)) in g.rules.iter().enumerate() {
        let mut empty = true;
        for &x in r {
            for &t in &first[x] {
                table.entry((*l, t)).or_default().insert(i);
            }
            if !nullable[x] {
                empty = false;
                break;
            }
        }
        if empty {
            for &t in &follow[*l] {
                table.entry((*l, t)).or_default().insert(i);
                by_follow += 1;
            }
        }
    }
    let mut conflict = vec![false; g.n];
    let mut present = vec![false; g.n];
    for ((l, _), rules) in &table {
        present[*l] = true;
        conflict[*l] |= rules.len() > 1;
    }
    let got = sut("ll_parse_table", || {
        let t = cfg.ll_parse_table();
        let a = t.classify();
        assert!(a == t.classify(), "classify gives different answers");
        a
    });
    let mut classes = [0u64; 2];
    for s in 0..g.n {
        let want = present[s].then(|| {
            let reach = g.reachable_from(&[s]);
            if (0..g.n).any(|x| reach[x] && conflict[x]) { LlNonterminalClass::ContextFree } else { LlNonterminalClass::Ll1 }
        });
        let have = got.classes().get(&sym(s)).copied();
        ensure!(have == want, "nonterminal {s} is classified {have:?}, expected {want:?}");
        if let Some(w) = want {
            classes[(w == LlNonterminalClass::Ll1) as usize] += 1;
        }
    }
    ensure!(got.classes().len() as u64 == classes[0] + classes[1], "unknown symbols are classified");
    ensure!(snapshot(&cfg) == before, "classifying changed the grammar");
    c.count("LL(1) nonterminals", classes[1]);
    c.count("context-free nonterminals", classes[0]);
    c.count("predictions by FOLLOW", by_follow);
    if (classes[0] > 0 && classes[1] > 0) || by_follow > 0 {
        c.nontrivial((&g.rules, &g.roots));
        c.sample(|| g.show());
    }
}
