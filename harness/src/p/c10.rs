//! C10: usefulness is exact and pruning keeps the language.

use crate::ensure;
use crate::gcfg::{any, build, read, snapshot, sym};
use crate::refg::{G, Hom};
use crate::run::{C, Prop, sut, viol};
use cfg_classify::CfgClassifyExt;
use cfg_classify::useful::Usefulness;
use cfg_symbol::Symbol;

pub const PROP: Prop = Prop {
    id: "C10",
    quick: 800_000,
    thorough: 5_000_000,
    rule: "productivity of every symbol, usefulness of every rule (grammar roots, other roots, roots given one by one) and the all-useful verdicts compared with the definitions; make_proper is run and its result compared: no useless rule left, the rules kept are exactly the useful ones, the language of every root unchanged, the report right. Non-trivial if a rule is useless; distinct by grammar and roots",
    assumptions: &["symbols in no rule count as useful in the all-useful verdicts"],
    run,
};

fn judge(u: &Usefulness, cfg: &cfg_grammar::Cfg, g: &G, roots: &[usize], what: &str) -> u64 {
    let productive = g.productive();
    let reach = g.reachable_from(roots);
    let used = g.used();
    for s in 0..g.n {
        ensure!(u.productivity(sym(s)) == productive[s], "{what}: symbol {s} is reported productive: {}, expected {}", u.productivity(sym(s)), productive[s]);
    }
    let mut useless = 0;
    let mut list = u.useless_rules(cfg);
    for (i, r) in cfg.rules().enumerate() {
        let (l, rhs) = &g.rules[i];
        let p = rhs.iter().all(|&x| productive[x]);
        let got = u.usefulness(r);
        ensure!(got.rule() == r, "usefulness of {r:?} speaks of {:?}", got.rule());
        let got = got.usefulness();
        ensure!(got.productive == p, "{what}: rule {l} ::= {rhs:?} is reported productive: {}, expected {p}", got.productive);
        ensure!(got.reachable == reach[*l], "{what}: rule {l} ::= {rhs:?} is reported reachable: {}, expected {}", got.reachable, reach[*l]);
        if !p || !reach[*l] {
            useless += 1;
            match list.next() {
                Some(x) if x.rule() == r && x.usefulness().productive == p && x.usefulness().reachable == reach[*l] => {}
                other => viol(format!("{what}: the useless rule {l} ::= {rhs:?} is not listed; listed is {other:?}")),
            }
        }
    }
    if let Some(x) = list.next() {
        viol(format!("{what}: {x:?} is listed as useless"));
    }
    let all_p = (0..g.n).all(|s| productive[s] || !used[s]);
    let all_r = (0..g.n).all(|s| reach[s] || !used[s]);
    ensure!(u.all_productive() == all_p, "{what}: all_productive is {}, expected {all_p}", u.all_productive());
    ensure!(u.all_reachable() == all_r, "{what}: all_reachable is {}, expected {all_r}", u.all_reachable());
    ensure!(u.all_useful() == (useless == 0), "{what}: all_useful is {} with {useless} useless rules", u.all_useful());
    useless
}

fn run(c: &mut C) {
    let g = any(c);
    let mut cfg = build(&g);
    let before = snapshot(&cfg);
    let u = sut("usefulness", || cfg.usefulness());
    let useless = judge(&u, &cfg, &g, &g.roots, "with the grammar's roots");
    let other: Vec<usize> = (0..c.rng.below(4)).map(|_| c.rng.below(g.n)).collect();
    c.note(|| format!("other roots {other:?}"));
    let real: Vec<Symbol> = other.iter().map(|&x| sym(x)).collect();
    let v = sut("usefulness_with_roots", || {
        if c.idx % 2 == 0 {
            cfg.usefulness_with_roots(&real)
        } else {
            let mut v = Usefulness::new(&cfg);
            for &r in &real {
                v.reachable([r]);
            }
            v
        }
    });
    judge(&v, &cfg, &g, &other, "with other roots");
    ensure!(snapshot(&cfg) == before, "analysing usefulness changed the grammar");
    // Removing the useless rules once removes exactly these.
    let mut once = cfg.clone();
    sut("remove_useless_rules", || u.remove_useless_rules(&mut once));
    let (productive, reach) = (g.productive(), g.reachable_from(&g.roots));
    let keep: Vec<(usize, Vec<usize>)> =
        g.rules.iter().filter(|(l, r)| reach[*l] && r.iter().all(|&x| productive[x])).cloned().collect();
    ensure!(read(&once).rules == keep, "remove_useless_rules left {:?}, expected {keep:?}", read(&once).rules);
    // make_proper.
    let was_proper = sut("make_proper", || cfg.make_proper());
    let after = read(&cfg);
    ensure!(was_proper == (after.rules.len() == g.rules.len()), "make_proper returned {was_proper} although {} of {} rules are left", after.rules.len(), g.rules.len());
    ensure!(was_proper == (useless == 0), "make_proper returned {was_proper} although {useless} rules were useless");
    let (p2, r2) = (after.productive(), after.reachable_from(&after.roots));
    for (l, r) in &after.rules {
        ensure!(r2[*l] && r.iter().all(|&x| p2[x]), "make_proper left the useless rule {l} ::= {r:?}");
    }
    ensure!(after.roots == g.roots && after.n == g.n, "make_proper changed roots or symbols");
    // Histories show that what is left are the old rules, in order.
    let mut at = 0;
    for (r, rule) in after.rules.iter().zip(cfg.rules()) {
        let i = (rule.history.origin().id as usize).wrapping_sub(1);
        ensure!(i >= at && g.rules.get(i) == Some(r), "make_proper made or moved the rule {r:?}");
        at = i + 1;
    }
    let hom = Hom::random(&g, &mut c.rng);
    let (la, lb) = (hom.languages(&g), hom.languages(&after));
    for &r in &g.roots {
        // A root that lost all its rules derives nothing, it is no terminal of the language.
        if let Some(d) = hom.diff(&la[r], &lb[r]) {
            viol(format!("make_proper: root {r} {d}"));
        }
    }
    ensure!(sut("make_proper", || cfg.make_proper()), "make_proper finds useless rules in its own result");
    c.count("useless rules", useless);
    if useless > 0 {
        c.nontrivial((&g.rules, &g.roots));
        c.sample(|| g.show());
        if after.rules.len() != keep.len() {
            c.count("grammars that need a second pass", 1);
        }
    }
}
