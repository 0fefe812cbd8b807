//! C11: unit cycles are found exactly; rewriting them keeps the language.

use crate::ensure;
use crate::gcfg::{Prof, any, build, profile, read, snapshot};
use crate::refg::{Hom, closure_of};
use crate::run::{C, Prop, sut, viol};
use cfg_classify::cyclical::Cycles;

pub const PROP: Prop = Prop {
    id: "C11",
    quick: 800_000,
    thorough: 6_000_000,
    rule: "cycle_free, classify, cycle_participants, remove_cycles and rewrite_cycles on generated grammars (half of them dense in unit rules; with wrapped roots too) compared with the unit relation's transitive closure and the languages of all roots. Non-trivial if there is a cycle; distinct by grammar and roots",
    assumptions: &[],
    run,
};

fn run(c: &mut C) {
    let mut g = if c.idx % 4 != 0 && c.rng.chance(1, 2) {
        let g = profile(&mut c.rng, Prof::UnitDense);
        c.size = g.size();
        c.note(|| format!("grammar: {}", g.show()));
        g
    } else {
        any(c)
    };
    let mut cfg = build(&g);
    let wrapped = c.rng.chance(1, 6);
    if wrapped {
        cfg.wrap_input();
        g = read(&cfg);
    }
    let u = closure_of(&g.unit());
    let cyclic = (0..g.n).any(|s| u[s].contains(&s));
    let part: Vec<bool> = g.rules.iter().map(|(l, r)| r.len() == 1 && u[r[0]].contains(l)).collect();
    let before = snapshot(&cfg);
    {
        let mut cy = sut("Cycles::new", || Cycles::new(&cfg));
        let free = sut("cycle_free", || cy.cycle_free());
        ensure!(free == !cyclic, "cycle_free is {free}, expected {}", !cyclic);
        ensure!(cy.cycle_free() == free, "cycle_free changes its mind");
        let got: Vec<bool> = cy.classify().map(|(_, b)| b).collect();
        ensure!(got == part, "classify gives {got:?}, expected {part:?} for {:?}", g.rules);
        ensure!(cy.classify().map(|(r, _)| r).eq(cfg.rules()), "classify lists other rules");
        for want in [true, false] {
            let got: Vec<u32> = cy.cycle_participants(want).map(|r| r.history.origin().id).collect();
            let exp: Vec<u32> =
                cfg.rules().zip(&part).filter(|(_, p)| **p == want).map(|(r, _)| r.history.origin().id).collect();
            ensure!(got == exp, "cycle_participants({want}) lists {got:?}, expected {exp:?}");
        }
    }
    ensure!(snapshot(&cfg) == before, "analysing cycles changed the grammar");
    // Removal.
    let mut removed = cfg.clone();
    sut("remove_cycles", || Cycles::new(&mut removed).remove_cycles());
    let keep: Vec<_> = g.rules.iter().zip(&part).filter(|(_, p)| !**p).map(|(r, _)| r.clone()).collect();
    let after = read(&removed);
    ensure!(after.rules == keep, "remove_cycles left {:?}, expected {keep:?}", after.rules);
    ensure!(after.roots == g.roots && after.n == g.n, "remove_cycles changed roots or symbols");
    // Rewriting.
    let hom = Hom::random(&g, &mut c.rng);
    sut("rewrite_cycles", || {
        let mut cy = Cycles::new(&mut cfg);
        if c.idx % 3 == 0 {
            cy.cycle_free();
        }
        cy.rewrite_cycles();
    });
    let after = read(&cfg);
    let u2 = closure_of(&after.unit());
    if let Some(s) = (0..after.n).find(|&s| u2[s].contains(&s)) {
        viol(format!("after rewriting, {s} is still in a cycle: {}", after.show()));
    }
    ensure!(Cycles::new(&cfg).cycle_free(), "after rewriting, cycle_free is still false");
    ensure!(after.roots.len() == g.roots.len(), "rewriting changed the number of roots");
    ensure!(after.n == g.n, "rewriting changed the number of symbols");
    let (la, lb) = (hom.languages(&g), hom.languages(&after));
    for (a, b) in g.roots.iter().zip(&after.roots) {
        if let Some(d) = hom.diff(&la[*a], &lb[*b]) {
            viol(format!("rewriting cycles: root {a} (now {b}) {d}; now: {}", after.show()));
        }
    }
    if wrapped {
        for (w, w0) in cfg.wrapped_roots().iter().zip(&before.wrapped) {
            let (a, b) = (w0[2], w.inner_root.usize());
            if let Some(d) = hom.diff(&la[a], &lb[b]) {
                viol(format!("rewriting cycles: inner root {a} (now {b}) {d}"));
            }
            let want = (w.root.usize(), vec![w.start_of_input.usize(), b, w.end_of_input.usize()]);
            ensure!(after.rules.contains(&want), "the wrapped root {w:?} is out of step with the rules {:?}", after.rules);
        }
    }
    if !cyclic {
        ensure!(snapshot(&cfg) == before, "rewriting a grammar without cycles changed it");
    } else {
        c.count("grammars with cycles", 1);
        c.count("rules in cycles", part.iter().filter(|p| **p).count() as u64);
        c.nontrivial((&g.rules, &g.roots));
        c.sample(|| g.show());
        if g.roots.iter().zip(&after.roots).any(|(a, b)| a != b) {
            c.count("grammars with a rewritten root", 1);
        }
    }
}
