//! C04: nulling elimination keeps every language except the empty string.

use crate::ensure;
use crate::gcfg::{any, build, read};
use crate::refg::{Earley, G, Hom, sentence};
use crate::run::{C, Prop, sut, viol};

pub const PROP: Prop = Prop {
    id: "C04",
    quick: 400_000,
    thorough: 4_000_000,
    rule: "a grammar (exhaustive small, random, hostile; sometimes limited, wrapped or already processed before) is binarized and freed of nulling rules; rule lengths, the image of every original symbol's language under a random letter homomorphism up to a length bound, membership of longer random sentences both ways, and the nulling grammar are compared with the reference. Non-trivial if some symbol is nullable; distinct by grammar",
    assumptions: &["languages are over the terminals of the original grammar"],
    run,
};

fn run(c: &mut C) {
    let mut g = any(c);
    let mut cfg = build(&g);
    match c.rng.below(8) {
        0 => sut("limit_rhs_len", || cfg.limit_rhs_len(Some(2))),
        1 => sut("limit_rhs_len", || cfg.limit_rhs_len(Some(3))),
        2 => {
            sut("wrap_input", || cfg.wrap_input());
            g = read(&cfg);
        }
        _ => {}
    }
    judge(c, &g, &mut cfg);
    if c.rng.chance(1, 4) {
        // Again, on its own result.
        let n = g.n;
        let mut g2 = read(&cfg);
        // Terminals stay those of the original grammar.
        let term = g.terminal();
        if (0..g2.n).all(|s| g2.nonterminal()[s] || (s < n && term[s]) || !g2.used()[s]) {
            c.note(|| "second elimination".into());
            g2.roots = vec![];
            judge(c, &g2, &mut cfg);
        }
    }
}

fn judge(c: &mut C, g: &G, cfg: &mut cfg_grammar::Cfg) {
    let base_len = *c.rng.pick(&[(2usize, 7usize), (2, 7), (3, 4), (1, 16), (1, 16)]);
    let term = g.terminal();
    let mut img: Vec<Option<Option<usize>>> = vec![None; g.n];
    for s in 0..g.n {
        if term[s] {
            img[s] = Some(Some(c.rng.below(base_len.0)));
        }
    }
    let hom = Hom { base: base_len.0, len: base_len.1, img };
    let nullable = g.nullable();
    let nulling = sut("binarize_and_eliminate_nulling_rules", || cfg.binarize_and_eliminate_nulling_rules());
    let after = read(cfg);
    for (l, r) in &after.rules {
        ensure!((1..=2).contains(&r.len()), "a rule with {} symbols is left: {l} ::= {r:?}", r.len());
    }
    let before_l = hom.languages(g);
    let after_l = hom.resized(after.n).languages(&after);
    for s in 0..g.n {
        let mut want = before_l[s].clone();
        want[0] = 0;
        if let Some(d) = hom.diff(&want, &after_l[s]) {
            viol(format!("symbol {s} {d}; now: {}", after.show()));
        }
    }
    // Longer sentences, both ways.
    let ea = Earley::new(&after);
    let eb = Earley::new(g);
    let nts: Vec<usize> = (0..g.n).filter(|&s| !term[s]).collect();
    for _ in 0..2 {
        if nts.is_empty() {
            break;
        }
        let s = *c.rng.pick(&nts);
        if let Some(w) = sentence(g, s, &mut c.rng, 14) {
            if !w.is_empty() && w.len() < 40 {
                ensure!(ea.run(s, w.len(), &|x, p| w[p] == x && x < g.n && term[x], &|_, _| None).accepted, "symbol {s} lost the sentence {w:?}");
                c.count("long sentences checked", 1);
            }
        }
        if after.nonterminal()[s] {
            if let Some(w) = sentence(&after, s, &mut c.rng, 14) {
                if w.len() < 40 && w.iter().all(|&x| x < g.n && term[x]) {
                    ensure!(eb.accepts(s, &w), "symbol {s} gained the sentence {w:?}");
                    ensure!(!w.is_empty(), "symbol {s} still derives the empty string");
                }
            }
        }
    }
    if c.rng.chance(1, 8) {
        // Rules stay short.
        let mut cfg = cfg.clone();
        let rhs: Vec<_> = (0..c.rng.range(2, 9)).map(|_| crate::gcfg::sym(c.rng.below(after.n.max(1)))).collect();
        if after.n > 0 {
            let parts = sut("add_rule", || cfg.add_rule(cfg_grammar::CfgRule::new(rhs[0], &rhs[..], crate::gcfg::origin(0))));
            let now = read(&cfg);
            ensure!(
                now.rules.iter().all(|r| r.1.len() <= 2) && parts as usize == rhs.len() - 1 && now.rules.len() == after.rules.len() + rhs.len() - 1,
                "a rule of {} symbols added after elimination became {parts} rules, with those before: {:?}", rhs.len(), now.rules
            );
            c.count("rules added after elimination", 1);
        }
    }
    let ng = read(&nulling);
    let nn = ng.nullable();
    for s in 0..g.n {
        ensure!(nn[s] == nullable[s], "the nulling grammar says symbol {s} derives the empty string: {}, but it is {}", nn[s], nullable[s]);
    }
    // With every original terminal as a letter, nothing else comes out of nonterminals.
    let nl = hom.resized(ng.n).languages(&ng);
    for s in 0..g.n {
        if !term[s] {
            let mut want = vec![0u128; hom.len + 1];
            want[0] = nullable[s] as u128;
            if let Some(d) = hom.diff(&want, &nl[s]) {
                viol(format!("in the nulling grammar symbol {s} {d}"));
            }
        }
    }
    let k = nullable.iter().filter(|&&b| b).count();
    c.count("nullable symbols", k as u64);
    if k > 0 {
        c.nontrivial(&g.rules);
        c.sample(|| g.show());
    }
    if g.rules.iter().any(|r| r.1.len() == 2 && nullable[r.1[0]] != nullable[r.1[1]]) {
        c.count("grammars with one nullable symbol of two", 1);
    }
}
