//! C03: limiting rule length preserves the language and stays in force.

use crate::ensure;
use crate::gcfg::{any, build, origin, read, snapshot, sym};
use crate::refg::{G, Hom, counts};
use crate::run::{C, Prop, sut};
use cfg_classify::cyclical::Cycles;
use cfg_grammar::precedenced_rule::Associativity;
use cfg_grammar::{Cfg, CfgRule};
use cfg_sequence::{CfgSequenceExt, Separator};
use cfg_symbol::Symbol;
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;

pub const PROP: Prop = Prop {
    id: "C03",
    quick: 400_000,
    thorough: 2_000_000,
    rule: "a grammar (exhaustive small, random, hostile) is limited to k = 2..8 symbols per RHS and then grows through random additions; after every step all rule lengths, the reported number of parts and, against an unlimited reference, the languages of all symbols (images under a random homomorphism, up to a length bound) and the numbers of derivations (where finite) are compared. Non-trivial if some rule was split; distinct by grammar and k",
    assumptions: &["k >= 2", "rules added by extension use symbols of the extended grammar"],
    run,
};

fn lengths(cfg: &Cfg, k: usize, when: &str) {
    for r in cfg.rules() {
        ensure!(r.rhs.len() <= k, "{when}: a rule with {} symbols although the limit is {k}: {:?}", r.rhs.len(), r);
    }
}

/// `cfg` (real) must describe, on the symbols `map[i]`, what `model` describes on `i`.
fn same_language(cfg: &Cfg, model: &G, map: &[usize], hom: &Hom, when: &str) {
    let g = read(cfg);
    let before = hom.resized(model.n).languages(model);
    let mut h = Hom { base: hom.base, len: hom.len, img: vec![None; g.n] };
    for (i, &m) in map.iter().enumerate() {
        h.img[m] = hom.img.get(i).copied().flatten();
    }
    let after = h.languages(&g);
    for (i, &m) in map.iter().enumerate() {
        if let Some(d) = hom.diff(&before[i], &after[m]) {
            crate::run::viol(format!("{when}: symbol {m} {d}; now: {}", g.show()));
        }
    }
}

fn counted(cfg: &Cfg, model: &G, map: &[usize], letters: &[Option<usize>], c: &mut C, when: &str) {
    if !model.acyclic() || model.n > 14 || model.rules.len() > 24 {
        return;
    }
    let g = read(cfg);
    let mut l = letters.to_vec();
    l.resize(model.n, None);
    let mut l2 = vec![None; g.n];
    for (i, &m) in map.iter().enumerate() {
        l2[m] = l[i];
    }
    let (Some(a), Some(b)) = (counts(model, &l, 2, 4), counts(&g, &l2, 2, 4)) else { return };
    c.count("grammars with derivations counted", 1);
    for (i, &m) in map.iter().enumerate() {
        ensure!(a[i] == b[m], "{when}: symbol {m} has other numbers of derivations: {:?} before, {:?} now", a[i], b[m]);
    }
}

/// One rule far longer than any other.
fn endless(c: &mut C) {
    let n = c.rng.range(3, 12);
    let len = *c.rng.pick(&[255, 256, 257, 4000, 32_769, 65_530, 65_537, 66_000, 70_000]) + c.rng.below(3);
    let k = *c.rng.pick(&[2, 2, 3, 5]);
    let rhs: Vec<usize> = (0..len).map(|_| 1 + c.rng.below(n - 1)).collect();
    c.note(|| format!("a rule of {len} symbols among {n}, limit {k}"));
    c.max("symbols of a rule", len as u64);
    let mut cfg = Cfg::new();
    let syms: Vec<Symbol> = (0..n).map(|_| cfg.next_sym(None)).collect();
    let real: Vec<Symbol> = rhs.iter().map(|&x| syms[x]).collect();
    if c.rng.bool() {
        cfg.limit_rhs_len(Some(k));
        let parts = sut("add_rule", || cfg.add_rule(CfgRule::new(syms[0], &real[..], origin(5))));
        let made = cfg.rules().count();
        ensure!(parts as usize == made, "add_rule of {len} symbols (limit {k}) reported {parts} parts but added {made} rules");
    } else {
        cfg.limit_rhs_len(None);
        cfg.add_rule(CfgRule::new(syms[0], &real[..], origin(5)));
        ensure!(cfg.rules().count() == 1, "without a limit, a rule was split");
        sut("limit_rhs_len", || cfg.limit_rhs_len(Some(k)));
    }
    lengths(&cfg, k, "after limiting");
    // Walking down from the whole must give the rule back.
    let g = read(&cfg);
    let mut of: Vec<Option<usize>> = vec![None; g.n];
    for (i, (l, _)) in g.rules.iter().enumerate() {
        ensure!(of[*l].is_none(), "two rules for symbol {l}, which stands for a part");
        of[*l] = Some(i);
    }
    let mut stack = vec![syms[0].usize()];
    let mut got = vec![];
    let mut steps = 0;
    while let Some(x) = stack.pop() {
        steps += 1;
        ensure!(steps <= 8 * len + 100, "the parts hold more than the {len} symbols of the rule");
        if let Some(i) = of[x] {
            stack.extend(g.rules[i].1.iter().rev());
        } else {
            got.push(x);
        }
    }
    ensure!(got.len() == len, "the parts hold {} symbols, expected {len}", got.len());
    ensure!(got == rhs, "the parts hold other symbols than the rule, or in another order");
    c.count("rules split", 1);
    c.nontrivial((rhs, k));
}

fn run(c: &mut C) {
    if c.idx % 8192 == 77 {
        return endless(c);
    }
    let g = any(c);
    let mut cfg = build(&g);
    let k = *c.rng.pick(&[2, 2, 2, 3, 3, 4, 5, 6, 8]);
    c.note(|| format!("limit {k}"));
    let hom = Hom::random(&g, &mut c.rng);
    let term = g.terminal();
    let letters: Vec<Option<usize>> = (0..g.n).map(|s| term[s].then(|| c.rng.below(2))).collect();
    sut("limit_rhs_len", || cfg.limit_rhs_len(Some(k)));
    lengths(&cfg, k, "after limiting");
    let mut map: Vec<usize> = (0..g.n).collect();
    let mut model = g.clone();
    ensure!(read(&cfg).roots == g.roots, "limiting changed the roots");
    same_language(&cfg, &model, &map, &hom, "after limiting");
    counted(&cfg, &model, &map, &letters, c, "after limiting");
    let split = g.rules.iter().filter(|r| r.1.len() > k).count();
    c.count("rules split", split as u64);
    if split > 0 {
        c.nontrivial((&g.rules, k));
        c.sample(|| format!("k = {k}: {}", g.show()));
    }
    let before = snapshot(&cfg);
    sut("limit_rhs_len again", || cfg.limit_rhs_len(Some(k)));
    ensure!(snapshot(&cfg) == before, "limiting to {k} again changed the grammar: {:?} became {:?}", before.g.rules, read(&cfg).rules);

    // Later additions. Modelled ones keep `model`; the others are compared with a twin without limit.
    let adds = if c.rng.chance(1, 2) { c.rng.below(5) } else { 0 };
    for _ in 0..adds {
        let n = model.n;
        let op = c.rng.below(10);
        match op {
            0..=2 => {
                // Rules for old nonterminals, or for symbols that were no terminals before.
                let nts: Vec<usize> = (0..n).filter(|&s| hom.img.get(s).copied().flatten().is_none()).collect();
                if nts.is_empty() {
                    continue;
                }
                let lhs = *c.rng.pick(&nts);
                let len = if c.rng.chance(1, 2) { c.rng.below(4) } else { c.rng.range(3, 10) };
                let rhs: Vec<usize> = (0..len).map(|_| c.rng.below(n)).collect();
                let real: Vec<Symbol> = rhs.iter().map(|&x| sym(map[x])).collect();
                let rules = cfg.rules().count();
                c.note(|| format!("add {lhs} ::= {rhs:?}"));
                if op == 0 {
                    let parts = sut("add_rule", || cfg.add_rule(CfgRule::new(sym(map[lhs]), &real[..], origin(77))));
                    let made = cfg.rules().count() - rules;
                    ensure!(parts as usize == made, "add_rule of {len} symbols (limit {k}) reported {parts} parts but added {made} rules");
                    ensure!(made >= 1, "add_rule added nothing");
                } else {
                    sut("rule().rhs()", || {
                        cfg.rule(sym(map[lhs])).rhs(&real[..]);
                    });
                }
                model.rules.push((lhs, rhs));
                c.count("rules added later", 1);
            }
            3 => {
                // Extension by another grammar over the same symbols.
                let nts: Vec<usize> = (0..n).filter(|&s| hom.img.get(s).copied().flatten().is_none()).collect();
                if nts.is_empty() {
                    continue;
                }
                // The other grammar may have a limit of its own, under which its rules stay whole.
                let mut other = if c.rng.bool() {
                    Cfg::with_sym_source(cfg.sym_source().clone())
                } else {
                    let mut o = cfg.clone();
                    o.clear_rules();
                    o.limit_rhs_len(None);
                    o
                };
                let own = c.rng.chance(1, 2).then(|| c.rng.range(2, 9));
                other.limit_rhs_len(own);
                let longest = own.unwrap_or(8);
                c.note(|| format!("extend with a grammar limited to {own:?}"));
                for _ in 0..c.rng.range(1, 3) {
                    let lhs = *c.rng.pick(&nts);
                    let rhs: Vec<usize> = (0..c.rng.below(longest + 1)).map(|_| c.rng.below(n)).collect();
                    let real: Vec<Symbol> = rhs.iter().map(|&x| sym(map[x])).collect();
                    other.rule(sym(map[lhs])).rhs(&real[..]);
                    c.note(|| format!("extend with {lhs} ::= {rhs:?}"));
                    model.rules.push((lhs, rhs));
                }
                sut("extend", || cfg.extend(&other));
                c.count("extensions", 1);
            }
            9 => {
                // The limit outlives the rules.
                c.note(|| "clear_rules".into());
                sut("clear_rules", || cfg.clear_rules());
                model.rules.clear();
                c.count("limited grammars emptied", 1);
            }
            4 => {
                c.note(|| "wrap_input".into());
                let roots = model.roots.clone();
                sut("wrap_input", || cfg.wrap_input());
                let w = cfg.wrapped_roots().to_vec();
                ensure!(w.len() == roots.len(), "wrap_input made {} wrapped roots for {} roots", w.len(), roots.len());
                model.roots.clear();
                for (w, r) in w.iter().zip(roots) {
                    ensure!(w.inner_root == sym(map[r]), "wrapped root {w:?} does not wrap {r}");
                    let b = model.n;
                    model.n += 3;
                    map.extend([w.root.usize(), w.start_of_input.usize(), w.end_of_input.usize()]);
                    model.rules.push((b, vec![b + 1, r, b + 2]));
                    model.roots.push(b);
                }
                // The new terminals have no letter in `hom`: give the model the same.
            }
            5 => {
                let mut twin = cfg.clone();
                twin.limit_rhs_len(None);
                let n0 = cfg.num_syms();
                let (lhs, el) = (sut("next_sym", || (cfg.next_sym(None), twin.next_sym(None))).0, sym(map[c.rng.below(n)]));
                let (lo, hi) = (c.rng.below(4) as u32, c.rng.below(4) as u32);
                let sep = sym(map[c.rng.below(n)]);
                let kind = c.rng.below(4);
                for g in [&mut cfg, &mut twin] {
                    sut("sequence", || {
                        let b = g.sequence(lhs);
                        let b = match kind {
                            0 => b,
                            1 => b.separator(Separator::Proper(sep)),
                            2 => b.separator(Separator::Trailing(sep)),
                            _ => b.separator(Separator::Liberal(sep)),
                        };
                        b.inclusive(lo, Some(lo + hi)).rhs(el);
                    });
                }
                c.note(|| format!("sequence {lo}..={} kind {kind}", lo + hi));
                twin_same(&cfg, &twin, n0 + 1, &hom, &map, "after adding a sequence");
                c.count("sequences added later", 1);
                lengths(&cfg, k, "after adding a sequence");
                return;
            }
            6 => {
                let mut twin = cfg.clone();
                twin.limit_rhs_len(None);
                let n0 = cfg.num_syms();
                let lhs = sut("next_sym", || (cfg.next_sym(None), twin.next_sym(None))).0;
                let t: Vec<Symbol> = (0..4).map(|_| sym(map[c.rng.below(n)])).collect();
                let long: Vec<Symbol> = (0..c.rng.range(3, 7)).map(|i| if i % 2 == 0 { lhs } else { t[i % 4] }).collect();
                for g in [&mut cfg, &mut twin] {
                    sut("precedenced_rule", || {
                        let _ = g
                            .precedenced_rule(lhs)
                            .rhs([t[0]])
                            .associativity(Associativity::Group)
                            .rhs([t[1], lhs, t[2]])
                            .lower_precedence()
                            .associativity(Associativity::Right)
                            .rhs(&long)
                            .lower_precedence()
                            .rhs([lhs, t[3], lhs])
                            .finalize();
                    });
                }
                twin_same(&cfg, &twin, n0 + 1, &hom, &map, "after adding a precedenced rule");
                c.count("precedenced rules added later", 1);
                lengths(&cfg, k, "after adding a precedenced rule");
                return;
            }
            7 => {
                sut("rewrite_cycles", || Cycles::new(&mut cfg).rewrite_cycles());
                lengths(&cfg, k, "after rewriting cycles");
                return;
            }
            _ => {
                sut("remap", || cfg.remap().reorder_symbols(|a, b| b.cmp(&a)));
                lengths(&cfg, k, "after reordering symbols");
                sut("remap", || cfg.remap().remove_unused_symbols());
                lengths(&cfg, k, "after removing unused symbols");
                return;
            }
        }
        lengths(&cfg, k, "after an addition");
        let hom2 = hom.resized(model.n);
        same_language(&cfg, &model, &map, &hom2, "after an addition");
        counted(&cfg, &model, &map, &letters, c, "after an addition");
    }
    if c.rng.chance(1, 8) {
        // Without a limit rules are kept as they are.
        sut("limit_rhs_len", || cfg.limit_rhs_len(None));
        let before = read(&cfg).rules;
        let real: Vec<Symbol> = (0..12).map(|_| sym(c.rng.below(cfg.num_syms()))).collect();
        let parts = sut("add_rule", || cfg.add_rule(CfgRule::new(real[0], &real[..], origin(5))));
        let after = read(&cfg).rules;
        ensure!(
            parts == 1 && after.len() == before.len() + 1 && after.last().unwrap().1.len() == 12,
            "without a limit a rule of 12 symbols became {parts} parts"
        );
    }
}

fn twin_same(cfg: &Cfg, twin: &Cfg, n: usize, hom: &Hom, map: &[usize], when: &str) {
    let (a, b) = (read(twin), read(cfg));
    let mut ha = Hom { base: hom.base, len: hom.len, img: vec![None; a.n] };
    let mut hb = Hom { base: hom.base, len: hom.len, img: vec![None; b.n] };
    for (i, &m) in map.iter().enumerate() {
        let x = hom.img.get(i).copied().flatten();
        ha.img[m] = x;
        hb.img[m] = x;
    }
    let (la, lb) = (ha.languages(&a), hb.languages(&b));
    for s in 0..n {
        if let Some(d) = ha.diff(&la[s], &lb[s]) {
            crate::run::viol(format!("{when}: symbol {s} {d} compared with no limit"));
        }
    }
}
