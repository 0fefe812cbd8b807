use crate::ensure;
use crate::gcfg::{self, Snapshot};
use crate::run::{C, Prop, sut, viol};
use cfg_symbol::Symbol;
use cfg_symbol_bit_matrix::{CfgRemapSymbolsExt, Remap};
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C16",
    quick: 600_000,
    thorough: 3_000_000,
    rule: "non-trivial: at least one symbol got another number or was removed; distinct: by grammar and steps",
    assumptions: &[
        "orders given to `reorder_symbols` are total preorders; `remap_symbols` is given a permutation",
        "the order of rules after a remap is not specified",
    ],
    run,
};

#[derive(Clone, Debug, Hash)]
enum Step {
    Reorder(Vec<usize>),
    Prune,
}

type Rule = (usize, Vec<usize>, String);

fn rules(s: &Snapshot) -> Vec<Rule> {
    let mut v: Vec<Rule> =
        s.g.rules.iter().zip(&s.histories).map(|((l, r), h)| (*l, r.clone(), format!("{h:?}"))).collect();
    v.sort();
    v
}

/// `map[before] = after`, `None` for a removed symbol.
fn isomorphic(before: &Snapshot, after: &Snapshot, map: &[Option<usize>], new_n: usize) {
    ensure!(after.g.n == new_n, "the grammar has {} symbols, expected {new_n}", after.g.n);
    let m = |x: usize| map[x].unwrap_or_else(|| viol(format!("symbol {x} is in use but was removed")));
    let mut want: Vec<Rule> = before
        .g
        .rules
        .iter()
        .zip(&before.histories)
        .map(|((l, r), h)| (m(*l), r.iter().map(|&x| m(x)).collect(), format!("{h:?}")))
        .collect();
    want.sort();
    let got = rules(after);
    ensure!(got == want, "the rules are {got:?}, expected {want:?}");
    let roots: Vec<usize> = before.g.roots.iter().map(|&x| m(x)).collect();
    ensure!(after.g.roots == roots, "the roots are {:?}, expected {roots:?}", after.g.roots);
    let wrapped: Vec<[usize; 4]> = before.wrapped.iter().map(|w| w.map(m)).collect();
    ensure!(after.wrapped == wrapped, "the wrapped roots are {:?}, expected {wrapped:?}", after.wrapped);
    let mut names: Vec<Option<String>> = vec![None; new_n];
    for (i, n) in before.names.iter().enumerate() {
        if let Some(j) = map[i] {
            names[j] = n.clone();
        }
    }
    ensure!(after.names == names, "the names are {:?}, expected {names:?}", after.names);
}

fn run(c: &mut C) {
    let g = gcfg::any(c);
    let rng = &mut c.rng;
    let mut cfg = sut("Cfg: build", || {
        let mut cfg = cfg_grammar::Cfg::new();
        let s: Vec<Symbol> = (0..g.n)
            .map(|i| if rng.chance(1, 2) { cfg.next_sym(Some(format!("n{i}").into())) } else { cfg.next_sym(None) })
            .collect();
        for (i, (l, r)) in g.rules.iter().enumerate() {
            let rhs: Vec<Symbol> = r.iter().map(|&x| s[x]).collect();
            cfg.rule(s[*l]).rhs_with_history(rhs, gcfg::origin(i));
        }
        let roots: Vec<Symbol> = g.roots.iter().map(|&x| s[x]).collect();
        cfg.set_roots(&roots);
        if rng.chance(1, 3) {
            cfg.wrap_input();
            if rng.chance(1, 4) {
                // Roots and wrapped roots whose rules are gone.
                let n = rng.range(1, 4);
                cfg.retain(|_| rng.below(n) > 0);
            }
        }
        if rng.chance(1, 6) {
            cfg.limit_rhs_len(Some(2));
        }
        if rng.chance(1, 6) {
            // Symbols that nothing uses, between and after the others.
            for _ in 0..rng.range(1, 3) {
                cfg.next_sym(None);
            }
        }
        cfg
    });
    let before = sut("read", || gcfg::snapshot(&cfg));
    let n = before.g.n;
    match rng.below(8) {
        0 => {
            let p = rng.perm(n);
            c.note(|| format!("remap_symbols with {p:?}"));
            let s = gcfg::syms(n);
            sut("remap_symbols", || Remap::new(&mut cfg).remap_symbols(|x| s[p[x.usize()]]));
            let after = sut("read", || gcfg::snapshot(&cfg));
            let map: Vec<Option<usize>> = p.iter().map(|&x| Some(x)).collect();
            isomorphic(&before, &after, &map, n);
            c.count("renumberings by a permutation", 1);
            if (0..n).any(|i| p[i] != i) {
                c.nontrivial((&before.g, p));
            }
        }
        1 => {
            // An order with ties.
            let k = rng.range(1, 4);
            let rank: Vec<usize> = (0..n).map(|_| rng.below(k)).collect();
            c.note(|| format!("reorder by the ranks {rank:?}"));
            let m = sut("reorder_symbols", || {
                let mut r = cfg.remap();
                r.reorder_symbols(|a, b| rank[a.usize()].cmp(&rank[b.usize()]));
                r.get_mapping()
            });
            let after = sut("read", || gcfg::snapshot(&cfg));
            let map: Vec<Option<usize>> = m.to_internal.iter().map(|x| x.map(|x| x.usize())).collect();
            let ext: Vec<usize> = m.to_external.iter().map(|x| x.usize()).collect();
            ensure!(
                map.len() == n && ext.len() == n && (0..n).all(|i| map[i].is_some_and(|j| ext.get(j) == Some(&i))),
                "the mapping is no bijection: {map:?} and {ext:?}"
            );
            ensure!(ext.windows(2).all(|w| rank[w[0]] <= rank[w[1]]), "the order is not the one asked for: {ext:?} with ranks {rank:?}");
            isomorphic(&before, &after, &map, n);
            c.count("reorderings with ties", 1);
            if (0..n).any(|i| ext[i] != i) {
                c.nontrivial((&before.g, rank));
            }
        }
        _ => {
            let mut steps = vec![];
            // cur[i]: the original symbol that now has number i.
            let mut cur: Vec<usize> = (0..n).collect();
            let mut used: BTreeSet<usize> = (0..n).filter(|&i| before.g.used()[i]).collect();
            used.extend(before.g.roots.iter());
            used.extend(before.wrapped.iter().flatten());
            let mut remap = cfg.remap();
            for _ in 0..rng.range(1, 4) {
                if rng.chance(1, 2) {
                    let mut rank = rng.perm(cur.len());
                    if rng.chance(1, 4) && rank.len() > 1 {
                        rank = (0..cur.len()).collect();
                        let (a, b) = (rng.below(rank.len()), rng.below(rank.len()));
                        rank.swap(a, b);
                    }
                    sut("reorder_symbols", || remap.reorder_symbols(|a, b| rank[a.usize()].cmp(&rank[b.usize()])));
                    let mut order: Vec<usize> = (0..cur.len()).collect();
                    order.sort_by_key(|&i| rank[i]);
                    cur = order.iter().map(|&i| cur[i]).collect();
                    steps.push(Step::Reorder(rank));
                    c.st.counters.entry("reorderings").and_modify(|v| *v += 1).or_insert(1);
                } else {
                    sut("remove_unused_symbols", || remap.remove_unused_symbols());
                    cur.retain(|x| used.contains(x));
                    steps.push(Step::Prune);
                    c.st.counters.entry("removals of unused symbols").and_modify(|v| *v += 1).or_insert(1);
                }
            }
            let m = sut("get_mapping", || remap.get_mapping());
            c.note(|| format!("before: {before:?}; steps {steps:?}"));
            let after = sut("read", || gcfg::snapshot(&cfg));
            let mut map = vec![None; n];
            for (j, &x) in cur.iter().enumerate() {
                map[x] = Some(j);
            }
            isomorphic(&before, &after, &map, cur.len());
            let internal: Vec<Option<usize>> = m.to_internal.iter().map(|x| x.map(|x| x.usize())).collect();
            let external: Vec<usize> = m.to_external.iter().map(|x| x.usize()).collect();
            ensure!(internal == map, "the mapping to internal symbols is {internal:?}, expected {map:?}");
            ensure!(external == cur, "the mapping to external symbols is {external:?}, expected {cur:?}");
            c.count("symbols removed", (n - cur.len()) as u64);
            if cur.len() < n || (0..n).any(|i| cur[i] != i) {
                c.nontrivial((&before.g, &steps));
            }
            if c.rng.chance(1, 4) {
                // A second remap with a mapping of its own, and the two mappings as one.
                let rank = c.rng.perm(cur.len());
                let (reorder, prune) = (c.rng.chance(2, 3), c.rng.chance(2, 3));
                let second = sut("second remap", || {
                    let mut remap = cfg.remap();
                    if reorder {
                        remap.reorder_symbols(|a, b| rank[a.usize()].cmp(&rank[b.usize()]));
                    }
                    if prune {
                        remap.remove_unused_symbols();
                    }
                    remap.get_mapping()
                });
                if reorder {
                    let mut order: Vec<usize> = (0..cur.len()).collect();
                    order.sort_by_key(|&i| rank[i]);
                    cur = order.iter().map(|&i| cur[i]).collect();
                }
                if prune {
                    cur.retain(|x| used.contains(x));
                }
                let mut both = m.clone();
                sut("Mapping::translate", || both.translate(&second));
                let mut map = vec![None; n];
                for (j, &x) in cur.iter().enumerate() {
                    map[x] = Some(j);
                }
                let internal: Vec<Option<usize>> = both.to_internal.iter().map(|x| x.map(|x| x.usize())).collect();
                let external: Vec<usize> = both.to_external.iter().map(|x| x.usize()).collect();
                ensure!(internal == map, "after a second remap ({rank:?}, {reorder}, {prune}) both mappings in one map to internal symbols by {internal:?}, expected {map:?}");
                ensure!(external == cur, "after a second remap ({rank:?}, {reorder}, {prune}) both mappings in one map to external symbols by {external:?}, expected {cur:?}");
                c.count("mappings combined", 1);
            }
            // The grammar is usable afterwards: fresh symbols are fresh.
            let x = sut("next_sym", || cfg.next_sym(None));
            ensure!(x.usize() == cur.len(), "the next symbol is {}, expected {}", x.usize(), cur.len());
        }
    }
    c.sample(|| format!("{}", before.g.show()));
}
