//! C26: grammar container operations do exactly what they document.

use crate::ensure;
use crate::gcfg::{origin, snapshot, sym};
use crate::rng::Rng;
use crate::run::{C, Prop, sut};
use cfg_classify::CfgClassifyExt;
use cfg_grammar::{Cfg, CfgRule, NamedCfgRule, WrappedRoot};
use cfg_history::earley::History;
use cfg_history::{HistoryNodeWeight, LinkedHistoryNode, RootHistoryNode};
use cfg_predict_sets::CfgSetsExt;
use cfg_symbol::Symbol;
use cfg_symbol_bit_matrix::CfgSymbolBitMatrixExt;
use std::borrow::Cow;

pub const PROP: Prop = Prop {
    id: "C26",
    quick: 300_000,
    thorough: 4_000_000,
    rule: "random histories of up to 30 container operations on one to three grammars, some of them clones of others, each shadowed by plain lists (symbol names, rules with histories, roots, wrapped roots); after every step every grammar is compared with its shadow through all its readers, so that an operation that reaches another part, or another grammar, is seen. Non-trivial if a grammar had at least three rules and five operations; distinct by final rules and operations",
    assumptions: &["the order of rules that compare equal when sorting, and which of two duplicates keeps its history, are not judged", "comparing grammars whose rules differ only in order is not judged"],
    run,
};

#[derive(Clone, Debug, PartialEq)]
struct R {
    lhs: usize,
    rhs: Vec<usize>,
    history: History,
}

#[derive(Clone, Debug, Default)]
struct M {
    names: Vec<Option<String>>,
    rules: Vec<R>,
    roots: Vec<usize>,
    wrapped: Vec<[usize; 4]>,
    /// Whether `is_empty` has one clear answer.
    clear: bool,
}

const NAMES: &[&str] = &[
    "a",
    "b",
    "expr",
    "x y",
    "é",
    "a",
    "g0",
    "ζ",
    "",
    "an-unusually-long-name-of-a-symbol-that-goes-on-for-more-than-sixty-four-characters-é-1",
    "an-unusually-long-name-of-a-symbol-that-goes-on-for-more-than-sixty-four-characters-é-2",
];

fn s(v: &[usize]) -> Vec<Symbol> {
    v.iter().map(|&x| sym(x)).collect()
}

fn real(r: &CfgRule) -> R {
    R { lhs: r.lhs.usize(), rhs: r.rhs.iter().map(|x| x.usize()).collect(), history: r.history }
}

fn text(m: &M) -> String {
    let plain = m.names.iter().all(|n| n.is_none());
    let one = |x: usize| {
        if plain {
            format!("{x}")
        } else {
            match &m.names[x] {
                Some(n) => format!("{n}({x})"),
                None => format!("g{x}({x})"),
            }
        }
    };
    let mut t = String::new();
    for r in &m.rules {
        let rhs: Vec<String> = r.rhs.iter().map(|&x| one(x)).collect();
        t.push_str(&format!("{} ::= {};\n", one(r.lhs), if rhs.is_empty() { "()".into() } else { rhs.join(" ~ ") }));
    }
    t
}

fn same(cfg: &Cfg, m: &M, what: &str, c: &mut C) {
    let rules: Vec<R> = cfg.rules().map(real).collect();
    ensure!(rules.len() == m.rules.len(), "{what}: {} rules, expected {}: {:?}", rules.len(), m.rules.len(), rules);
    for (i, (r, w)) in rules.iter().zip(&m.rules).enumerate() {
        ensure!(r.lhs == w.lhs && r.rhs == w.rhs, "{what}: rule {i} is {} ::= {:?}, expected {} ::= {:?}", r.lhs, r.rhs, w.lhs, w.rhs);
        ensure!(r.history == w.history, "{what}: rule {i} ({} ::= {:?}) has the history {:?}, expected {:?}", r.lhs, r.rhs, r.history, w.history);
    }
    let roots: Vec<usize> = cfg.roots().iter().map(|x| x.usize()).collect();
    ensure!(roots == m.roots, "{what}: the roots are {roots:?}, expected {:?}", m.roots);
    ensure!(cfg.has_roots() == !m.roots.is_empty(), "{what}: has_roots is {} with the roots {:?}", cfg.has_roots(), m.roots);
    let w: Vec<[usize; 4]> =
        cfg.wrapped_roots().iter().map(|w| [w.root.usize(), w.start_of_input.usize(), w.inner_root.usize(), w.end_of_input.usize()]).collect();
    ensure!(w == m.wrapped, "{what}: the wrapped roots are {w:?}, expected {:?}", m.wrapped);
    ensure!(cfg.num_syms() == m.names.len(), "{what}: {} symbols, expected {}", cfg.num_syms(), m.names.len());
    for (i, n) in m.names.iter().enumerate() {
        let name = cfg.sym_source().name_of(sym(i)).to_string();
        let want = n.clone().unwrap_or_else(|| format!("g{i}"));
        ensure!(name == want, "{what}: symbol {i} is named {name:?}, expected {want:?}");
    }
    // Rules of the caller that use the symbols made for wrapping are no ordinary rules.
    let odd = m.rules.iter().any(|r| m.wrapped.iter().any(|w| r.lhs != w[0] && [w[0], w[1], w[3]].iter().any(|x| *x == r.lhs || r.rhs.contains(x))));
    if m.clear && !odd {
        let want = if m.wrapped.is_empty() { m.rules.is_empty() } else { m.rules.iter().all(|r| m.wrapped.iter().any(|w| w[0] == r.lhs)) };
        let got = sut("is_empty", || cfg.is_empty());
        ensure!(got == want, "{what}: is_empty() is {got} for the rules {:?}, wrapped roots {:?}", rules, m.wrapped);
        c.count("emptiness verdicts", 1);
    }
}

/// A more costly look: text, columns, names of rules.
fn deep(cfg: &Cfg, m: &M, c: &mut C) {
    let t = sut("stringify_to_bnf", || cfg.stringify_to_bnf());
    ensure!(t == text(m), "the grammar is written\n{t}expected\n{}", text(m));
    for col in [0, 1, 2, 3, c.rng.below(10), c.rng.below(50), usize::MAX] {
        let got: Vec<_> = sut("column", || cfg.column(col).collect());
        ensure!(got.len() == m.rules.len(), "column {col} has {} entries for {} rules", got.len(), m.rules.len());
        for (d, r) in got.iter().zip(&m.rules) {
            let pre = col.checked_sub(1).and_then(|p| r.rhs.get(p)).copied();
            let post = r.rhs.get(col).copied();
            ensure!(
                d.lhs == sym(r.lhs) && d.predot.map(|x| x.usize()) == pre && d.postdot.map(|x| x.usize()) == post,
                "column {col} of {} ::= {:?} is {d:?}, expected {pre:?} before and {post:?} after the dot",
                r.lhs,
                r.rhs
            );
            ensure!(d.earley == Some(r.history.dot(col)), "column {col} of {} ::= {:?} has the dot {:?}, expected {:?}", r.lhs, r.rhs, d.earley, r.history.dot(col));
        }
        c.count("dot positions read", got.len() as u64);
    }
    let named: Vec<NamedCfgRule> = cfg.rules().map(|r| r.named(cfg.sym_source())).collect();
    let list = |r: &R| -> Vec<Option<String>> { std::iter::once(&r.lhs).chain(&r.rhs).map(|&x| m.names[x].clone()).collect() };
    for (i, a) in named.iter().enumerate().take(6) {
        let own = NamedCfgRule::new(list(&m.rules[i]).into_iter().map(|n| n.map(|n| n.as_str().into())).collect());
        ensure!(*a == own, "rule {i} is not equal to the rule of its own names: {a:?}, {own:?}");
        let names = |k: usize| -> Vec<_> { list(&m.rules[k]).into_iter().map(|n| n.map(|n| n.as_str().into())).collect() };
        let with = NamedCfgRule::with_history(names(i), m.rules[i].history);
        ensure!(*a == with && own == with && with == own, "rule {i} is not equal to the rule of its own names and history: {a:?}, {with:?}");
        let k = c.rng.below(m.rules.len());
        let other = NamedCfgRule::with_history(names(i), m.rules[k].history);
        ensure!((*a == other) == (m.rules[i].history == m.rules[k].history), "{a:?} and {other:?} compare {}", *a == other);
        let other = NamedCfgRule::new(names(k));
        ensure!((*a == other) == (list(&m.rules[i]) == list(&m.rules[k])), "{a:?} and {other:?} compare {}", *a == other);
        let shown = sut("NamedCfgRule::fmt", || format!("{a:?}"));
        let show: Vec<String> = list(&m.rules[i]).into_iter().map(|n| format!("{:?}", n.unwrap_or("gensym".into()))).collect();
        let want = format!("NamedCfgRule {{ lhs: {}, rhs: [{}], history: ", show[0], show[1..].join(", "));
        ensure!(shown.starts_with(&want), "a named rule is shown as {shown}, expected {want}…");
        for (j, b) in named.iter().enumerate().take(6) {
            let want = list(&m.rules[i]) == list(&m.rules[j]) && m.rules[i].history == m.rules[j].history;
            ensure!((a == b) == want, "named rules {a:?} and {b:?} compare {}", a == b);
        }
    }
}

fn rule(r: &mut Rng, n: usize) -> (usize, Vec<usize>) {
    let pool = if r.bool() { n } else { n.min(3) };
    let len = if r.chance(1, 60) { r.range(18, 300) } else { *r.pick(&[0, 1, 1, 2, 2, 2, 3, 3, 5, 9, 17]) };
    (r.below(pool), (0..len).map(|_| r.below(pool)).collect())
}

fn analyse(cfg: &mut Cfg, which: usize) {
    let before = snapshot(cfg);
    match which {
        0 => drop(sut("first_sets", || cfg.first_sets())),
        1 => drop(sut("follow_sets", || cfg.follow_sets())),
        2 => drop(sut("usefulness", || cfg.usefulness().all_useful())),
        3 => drop(sut("recursion", || cfg.recursion().recursive_rules().count())),
        4 => drop(sut("reachability", || cfg.reachability_matrix())),
        5 => drop(sut("terminal_symbols", || (cfg.terminal_symbols(), cfg.nulling_symbols(), cfg.unused_symbols()))),
        6 => drop(sut("ll_parse_table", || cfg.ll_parse_table())),
        _ => drop(sut("debug", || format!("{cfg:?}"))),
    }
    ensure!(snapshot(cfg) == before, "analysis {which} changed the grammar");
}

/// A grammar whose roots are wrapped is empty if it has no rules besides the wrapping, whatever
/// its limit on RHS length makes of the wrapping rules.
fn wrapped_empty(c: &mut C) {
    let r = &mut c.rng;
    let mut cfg = Cfg::new();
    let n = r.range(2, 5);
    let syms: Vec<Symbol> = (0..n).map(|_| cfg.next_sym(None)).collect();
    let rules = r.below(4);
    let roots: Vec<Symbol> = (0..r.below(4)).map(|_| *r.pick(&syms)).collect();
    let mut log = vec![];
    sut("building a wrapped grammar", || {
        let order = r.below(3);
        let limit = *r.pick(&[None, Some(2), Some(3)]);
        cfg.set_roots(&roots);
        if order == 0 {
            cfg.limit_rhs_len(limit);
        }
        for _ in 0..rules {
            let rhs: Vec<Symbol> = (0..r.below(4)).map(|_| *r.pick(&syms)).collect();
            cfg.rule(*r.pick(&syms)).rhs(rhs);
        }
        if order == 1 {
            cfg.limit_rhs_len(limit);
        }
        cfg.wrap_input();
        if order == 2 {
            cfg.limit_rhs_len(limit);
        }
        log.push(format!("{n} symbols, {rules} rules, roots {roots:?}, limit {limit:?} in order {order}"));
    });
    let got = sut("is_empty", || cfg.is_empty());
    ensure!(got == (rules == 0), "{log:?}, wrapped: is_empty gives {got}: {}", cfg.stringify_to_bnf());
    c.count("wrapped grammars asked whether they are empty", 1);
}

fn run(c: &mut C) {
    if c.idx % 16 == 7 {
        wrapped_empty(c);
    }
    let mut all: Vec<(Cfg, M)> = vec![(Cfg::new(), M { clear: true, ..M::default() })];
    let mut log: Vec<String> = vec![];
    let steps = c.rng.range(4, 30);
    let bulk = c.rng.below(40);
    let mut next_origin = 0;
    if c.rng.chance(1, 40) {
        // Many symbols without a name before the first that has one.
        for _ in 0..*c.rng.pick(&[30, 63, 64, 65, 130, 260]) {
            all[0].0.next_sym(None);
            all[0].1.names.push(None);
        }
    }
    for step in 0..steps {
        let i = c.rng.below(all.len());
        let n = all[i].1.names.len();
        let op = if n < 2 { 0 } else { c.rng.below(24) };
        if op == 1 && all.len() < 3 {
            let copy = sut("clone", || all[i].0.clone());
            let m = all[i].1.clone();
            all.push((copy, m));
            log.push(format!("clone {i}"));
            continue;
        }
        if op == 2 {
            // Comparison.
            let j = c.rng.below(all.len());
            let key = |m: &M| m.rules.iter().map(|r| (r.lhs, r.rhs.clone())).collect::<Vec<_>>();
            let (a, b) = (key(&all[i].1), key(&all[j].1));
            let got = sut("equivalent", || all[i].0.equivalent(&all[j].0));
            let (mut sa, mut sb) = (a.clone(), b.clone());
            sa.sort();
            sb.sort();
            if a == b {
                ensure!(got, "grammars with the same rules are not equivalent: {a:?}");
            } else if sa != sb {
                ensure!(!got, "grammars with the rules {a:?} and {b:?} are equivalent");
            }
            c.count("comparisons", 1);
            if n > 1 && c.rng.chance(1, 6) {
                // One more rule, or hundreds, or one that differs at one place.
                let s = crate::gcfg::syms(n);
                let mut other = sut("clone", || all[i].0.clone());
                let more = *c.rng.pick(&[1, 1, 2, 3, 16, 64, 128, 255, 256, 257, 512]);
                sut("rule", || {
                    for _ in 0..more {
                        other.rule(s[0]).rhs([s[1]]);
                    }
                });
                let got = sut("equivalent", || (all[i].0.equivalent(&other), other.equivalent(&all[i].0)));
                ensure!(got == (false, false), "a grammar and one with {more} more rules are equivalent: {got:?}");
                let len = *c.rng.pick(&[1, 2, 3, 5, 10, 20, 40, 70, 140, 300]);
                let mut r = vec![s[0]; len];
                let (mut x, mut y, mut z) = sut("clone", || (all[i].0.clone(), all[i].0.clone(), all[i].0.clone()));
                let at = c.rng.below(len);
                sut("rule", || {
                    x.rule(s[0]).rhs(&r);
                    y.rule(s[0]).rhs(&r);
                    r[at] = s[1];
                    z.rule(s[0]).rhs(&r);
                });
                let got = sut("equivalent", || (x.equivalent(&y), x.equivalent(&z), z.equivalent(&y)));
                ensure!(got == (true, false, false), "comparing grammars with rules of {len} symbols, the same and different at {at}: {got:?}");
                c.count("comparisons of grammars that differ a little", 1);
            }
            continue;
        }
        if op == 3 && all.len() > 1 {
            let j = c.rng.below(all.len());
            let fits = all[j].1.rules.iter().all(|r| r.lhs < n && r.rhs.iter().all(|&x| x < n));
            if fits && all[i].1.rules.len() + all[j].1.rules.len() < 100 {
                let other = sut("clone", || all[j].0.clone());
                sut("extend", || all[i].0.extend(&other));
                let add = all[j].1.rules.clone();
                all[i].1.rules.extend(add);
                let m = all[j].1.clone();
                if i != j {
                    same(&other, &m, "the grammar extended with", c);
                }
                all[i].1.clear &= all[i].1.wrapped.is_empty();
                log.push(format!("extend {i} {j}"));
            }
        } else {
            let (cfg, m) = &mut all[i];
            let r = &mut c.rng;
            let what = match op {
                0 | 4 => {
                    let name = r.chance(1, 2).then(|| r.pick(NAMES).to_string());
                    let cow = name.clone().map(Cow::<str>::Owned);
                    let k = r.below(4);
                    let first = m.names.len();
                    let got: Vec<Symbol> = sut("new symbols", || match k {
                        0 => vec![cfg.next_sym(cow)],
                        1 => vec![cfg.lexeme(cow)],
                        2 => cfg.sym::<3>().to_vec(),
                        _ => vec![cfg.sym_source_mut().next_sym(cow)],
                    });
                    if k == 2 {
                        m.names.extend([None, None, None]);
                    } else {
                        m.names.push(name);
                    }
                    let got: Vec<usize> = got.iter().map(|x| x.usize()).collect();
                    let want: Vec<usize> = (first..m.names.len()).collect();
                    ensure!(got == want, "new symbols {got:?}, expected {want:?}");
                    format!("symbols {i} {k}")
                }
                5 | 6 | 7 => {
                    let k = if step < 3 { bulk } else { 1 };
                    for _ in 0..=k {
                        let (mut lhs, mut rhs) = rule(r, n);
                        if let Some(near) = m.rules.last().filter(|_| r.chance(1, 4)) {
                            // Nearly the last rule.
                            (lhs, rhs) = (near.lhs, near.rhs.clone());
                            if rhs.len() < 8 && r.chance(1, 4) {
                                rhs = (0..r.range(10, 40)).map(|k| rhs.get(k).copied().unwrap_or(k % n)).collect();
                            }
                            match r.below(5) {
                                0 => {
                                    rhs.pop();
                                }
                                1 => rhs.push(r.below(n)),
                                2 if !rhs.is_empty() => {
                                    let k = rhs.len() - 1 - r.below(rhs.len()) / 2;
                                    rhs[k] = r.below(n);
                                }
                                3 if rhs.len() > 1 => {
                                    let k = rhs.len() - 2;
                                    rhs.swap(k, k + 1);
                                }
                                _ => {}
                            }
                        }
                        next_origin += 1;
                        let h = if r.chance(1, 4) { HistoryNodeWeight { prev: origin(next_origin), weight: 2.5 }.into() } else { origin(next_origin) };
                        let parts = sut("add_rule", || cfg.add_rule(CfgRule::new(sym(lhs), s(&rhs), h)));
                        ensure!(parts == 1, "add_rule without a limit reports {parts} parts");
                        m.clear &= m.wrapped.is_empty() || !m.wrapped.iter().any(|w| w[0] == lhs);
                        m.rules.push(R { lhs, rhs, history: h });
                    }
                    format!("add_rule {i} x{}", k + 1)
                }
                8 | 9 => {
                    // The builder.
                    let (l1, r1) = rule(r, n);
                    let (l2, r2) = rule(r, n);
                    let (_, r3) = rule(r, n);
                    next_origin += 3;
                    let (h1, h2) = (origin(next_origin), origin(next_origin + 1));
                    let default = |l: usize| -> History { RootHistoryNode::Rule { lhs: sym(l) }.into() };
                    let weighted = History { weight: Some(500), ..default(l2) };
                    sut("rule builder", || {
                        cfg.rule(sym(l1))
                            .history(h1)
                            .rhs(s(&r1))
                            .rhs(s(&r2))
                            .history(h1)
                            .rhs_with_history(s(&r3), h2)
                            .rule(sym(l2))
                            .rhs(s(&r3))
                            .rhs_with_linked_history(s(&r1), LinkedHistoryNode::Weight { weight: 0.5 });
                    });
                    // The third alternative's own history counts; whether the one set before is
                    // then used up is not said, so the builder moves to another LHS.
                    for (lhs, rhs, history) in [(l1, &r1, h1), (l1, &r2, default(l1)), (l1, &r3, h2), (l2, &r3, default(l2)), (l2, &r1, weighted)] {
                        m.clear &= m.wrapped.is_empty() || !m.wrapped.iter().any(|w| w[0] == lhs);
                        m.rules.push(R { lhs, rhs: rhs.clone(), history });
                    }
                    format!("builder {i}")
                }
                10 => {
                    let roots: Vec<usize> = (0..*r.pick(&[0, 1, 1, 2, 3, 9, 12])).map(|_| r.below(n)).collect();
                    sut("set_roots", || cfg.set_roots(s(&roots)));
                    m.clear &= m.wrapped.is_empty();
                    m.roots = roots;
                    format!("set_roots {i}")
                }
                11 => {
                    if m.names.len() > 60 {
                        continue;
                    }
                    let again = !m.wrapped.is_empty();
                    let first = m.names.len();
                    sut("wrap_input", || cfg.wrap_input());
                    let roots = std::mem::take(&mut m.roots);
                    m.clear &= !again;
                    m.wrapped.clear();
                    let w: Vec<WrappedRoot> = cfg.wrapped_roots().to_vec();
                    ensure!(w.len() == roots.len(), "wrap_input made {} wrapped roots for {} roots", w.len(), roots.len());
                    for (k, (w, inner)) in w.iter().zip(roots).enumerate() {
                        let mut fresh = [w.root.usize(), w.start_of_input.usize(), w.end_of_input.usize()];
                        m.rules.push(R { lhs: fresh[0], rhs: vec![fresh[1], inner, fresh[2]], history: RootHistoryNode::Rule { lhs: w.root }.into() });
                        m.wrapped.push([fresh[0], fresh[1], inner, fresh[2]]);
                        m.roots.push(fresh[0]);
                        m.names.extend([None, None, None]);
                        let b = first + 3 * k;
                        for (x, name) in [(fresh[0], "root"), (fresh[1], "start_of_input"), (fresh[2], "end_of_input")] {
                            ensure!(x >= b && x < b + 3, "wrap_input uses symbol {x}, the new ones start at {b}");
                            m.names[x] = Some(name.into());
                        }
                        fresh.sort();
                        ensure!(fresh == [b, b + 1, b + 2], "wrap_input uses the symbols {fresh:?}");
                    }
                    format!("wrap_input {i}")
                }
                12 => {
                    let mut w = m.wrapped.clone();
                    w.reverse();
                    if r.bool() {
                        w.clear();
                    }
                    let v: Vec<WrappedRoot> = w
                        .iter()
                        .map(|w| WrappedRoot { root: sym(w[0]), start_of_input: sym(w[1]), inner_root: sym(w[2]), end_of_input: sym(w[3]) })
                        .collect();
                    sut("set_wrapped_roots", || cfg.set_wrapped_roots(&v));
                    m.clear &= m.wrapped.is_empty() || w.len() == m.wrapped.len();
                    m.clear |= w.is_empty();
                    m.wrapped = w;
                    format!("set_wrapped_roots {i}")
                }
                13 | 14 => {
                    let by_len = r.bool();
                    let key = move |lhs: usize, rhs: &[usize]| if by_len { (rhs.len(), vec![]) } else { (lhs, rhs.to_vec()) };
                    let desc = by_len && r.bool();
                    if by_len {
                        sut("sort_by", || {
                            cfg.sort_by(|a, b| {
                                let o = a.rhs.len().cmp(&b.rhs.len());
                                if desc { o.reverse() } else { o }
                            })
                        });
                    } else {
                        sut("sort", || cfg.sort());
                    }
                    let got: Vec<R> = cfg.rules().map(real).collect();
                    let mut left = m.rules.clone();
                    for x in &got {
                        let Some(k) = left.iter().position(|y| y == x) else {
                            crate::run::viol(format!("sorting made the rule {x:?}; before: {:?}", m.rules))
                        };
                        left.swap_remove(k);
                    }
                    ensure!(left.is_empty(), "sorting lost the rules {left:?}");
                    for w in got.windows(2) {
                        let o = key(w[0].lhs, &w[0].rhs).cmp(&key(w[1].lhs, &w[1].rhs));
                        let o = if desc { o.reverse() } else { o };
                        ensure!(o.is_le(), "after sorting, {:?} comes before {:?}", w[0], w[1]);
                    }
                    m.rules = got;
                    format!("sort {i} {by_len}")
                }
                15 | 16 => {
                    sut("dedup", || cfg.dedup());
                    let got: Vec<R> = cfg.rules().map(real).collect();
                    let mut k = 0;
                    let mut at = 0;
                    let mut now = vec![];
                    while at < m.rules.len() {
                        let mut end = at + 1;
                        while end < m.rules.len() && m.rules[end].lhs == m.rules[at].lhs && m.rules[end].rhs == m.rules[at].rhs {
                            end += 1;
                        }
                        let group = &m.rules[at..end];
                        let pick = got.get(k).and_then(|x| group.iter().find(|y| *y == x)).unwrap_or(&group[0]);
                        now.push(pick.clone());
                        c.st.counters.entry("duplicates removed").and_modify(|v| *v += (end - at - 1) as u64).or_default();
                        k += 1;
                        at = end;
                    }
                    m.rules = now;
                    format!("dedup {i}")
                }
                17 | 18 => {
                    let p = r.below(5);
                    let keep = |lhs: usize, rhs: &[usize]| match p {
                        0 => lhs % 2 == 0,
                        1 => rhs.len() != 1,
                        2 => !rhs.contains(&lhs),
                        3 => rhs.first() != Some(&0),
                        _ => rhs.len() < 9,
                    };
                    sut("retain", || {
                        cfg.retain(|r| {
                            let r = real(r);
                            keep(r.lhs, &r.rhs)
                        })
                    });
                    m.rules.retain(|r| keep(r.lhs, &r.rhs));
                    format!("retain {i} {p}")
                }
                19 => {
                    if r.chance(1, 3) {
                        sut("clear_rules", || cfg.clear_rules());
                        m.rules.clear();
                    }
                    format!("clear {i}")
                }
                20 | 21 => {
                    sut("reverse", || cfg.reverse());
                    for r in &mut m.rules {
                        r.rhs.reverse();
                    }
                    format!("reverse {i}")
                }
                22 => {
                    let which = r.below(8);
                    if n == 0 {
                        continue;
                    }
                    analyse(cfg, which);
                    format!("analyse {i} {which}")
                }
                _ => {
                    let other = Cfg::with_sym_source(cfg.sym_source().clone());
                    let names = m.names.clone();
                    same(&other, &M { names: names.clone(), clear: true, ..M::default() }, "a grammar made with a symbol source", c);
                    if all.len() < 3 {
                        all.push((other, M { names, clear: true, ..M::default() }));
                    }
                    format!("with_sym_source {i}")
                }
            };
            log.push(what);
        }
        c.count("operations", 1);
        let what = log.last().cloned().unwrap_or_default();
        c.note(|| format!("{what}: {:?}", all.iter().map(|x| x.1.rules.iter().map(|r| (r.lhs, &r.rhs)).collect::<Vec<_>>()).collect::<Vec<_>>()));
        for (cfg, m) in &all {
            same(cfg, m, &what, c);
        }
    }
    for (cfg, m) in &all {
        deep(cfg, m, c);
        c.max("number of rules", m.rules.len() as u64);
        c.max("number of roots", m.roots.len() as u64);
        if m.rules.len() >= 3 && log.len() >= 5 {
            let rules: Vec<_> = m.rules.iter().map(|r| (r.lhs, &r.rhs)).collect();
            c.nontrivial((rules, &log));
        }
    }
    c.size = log.len() * 20 + all.iter().map(|x| x.1.rules.len()).sum::<usize>();
    c.sample(|| format!("{log:?}"));
}
