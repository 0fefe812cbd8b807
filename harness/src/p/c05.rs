//! C05: rule history traces every rewritten rule back to its source.

use crate::bnf;
use crate::ensure;
use crate::gcfg::{any, read, sym, syms};
use crate::refg::{G, closure_of};
use crate::run::{C, Prop, sut, viol};
use cfg_classify::cyclical::Cycles;
use cfg_grammar::{Cfg, CfgRule};
use cfg_history::earley::rule_dot::RuleDot;
use cfg_history::earley::{EventId, History, MinimalDistance};
use cfg_history::{HistoryNodeWeight, RootHistoryNode};
use cfg_load::{CfgLoadAdvancedExt, CfgLoadExt};
use cfg_sequence::builder::SequenceRuleBuilder;
use cfg_sequence::rewrite::SequencesToProductions;
use cfg_sequence::{CfgSequenceExt, Separator};
use cfg_symbol_bit_matrix::CfgRemapSymbolsExt;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C05",
    quick: 1_200_000,
    thorough: 8_000_000,
    rule: "every rule of a generated grammar gets a history of its own (origin, dots, weight); after binarization, nulling elimination or a random sequence of sorting, de-duplicating, cycle removal and rewriting, remapping, reversing, extending, loading and declaring with precedence, every rule's history is compared with the one a shadow copy of the rules predicts. Non-trivial if at least one rule was rewritten; distinct by grammar and kind of operation",
    assumptions: &[
        "histories of sequence rewriting are not judged (unfinished upstream)",
        "when both of two symbols are nullable only the origin is judged",
    ],
    run,
};

/// A history that no other rule has.
fn history(c: &mut C, i: usize) -> History {
    let root: History = RootHistoryNode::Origin { origin: i + 1 }.into();
    if c.rng.chance(1, 50) {
        let far = *c.rng.pick(&[255, 256, 65_535, 65_536, 1 << 24, (1 << 31) + 5, u32::MAX as usize - 1]) - c.rng.below(3);
        let h: History = RootHistoryNode::Origin { origin: far }.into();
        ensure!(h.origin().id as usize == far && !h.origin().is_null(), "the history of origin {far} has the origin {:?}", h.origin());
    }
    let mut h = root;
    if c.rng.chance(1, 2) {
        // Weights are kept in thousandths.
        let eighths = match c.rng.below(4) {
            0 => c.rng.below(20),
            1 => c.rng.below(40_000),
            2 => *c.rng.pick(&[0, 8, 524, 525, 134_217, 34_359_736]),
            _ => (i % 97) * 8 + 4,
        };
        let before = h;
        h = HistoryNodeWeight { prev: h, weight: eighths as f64 / 8.0 }.into();
        let want = History { weight: Some(eighths as u32 * 125), ..before };
        ensure!(eighths > 34_000_000 || h == want, "a weight of {} eighths gives the history {h:?}, expected {want:?}", eighths);
    }
    if c.rng.chance(1, 2) {
        for d in 0..3 {
            h.dots[d] = RuleDot::new(i as u32 + 1, d as u32 + 7);
            h.dots[d].event = EventId { id: c.rng.below(5) as u32 };
            h.dots[d].distance = MinimalDistance { distance: c.rng.below(9) as u32 };
        }
    }
    h
}

type Shadow = Vec<(usize, Vec<usize>, History)>;

fn make(c: &mut C, g: &G) -> (Cfg, Shadow) {
    let mut cfg = Cfg::new();
    for _ in 0..g.n {
        cfg.next_sym(None);
    }
    let mut shadow = vec![];
    for (i, (l, r)) in g.rules.iter().enumerate() {
        let h = history(c, i);
        let rhs: Vec<_> = r.iter().map(|&x| sym(x)).collect();
        if i % 2 == 0 {
            cfg.rule(sym(*l)).rhs_with_history(rhs, h);
        } else {
            cfg.rule(sym(*l)).history(h).rhs(rhs);
        }
        shadow.push((*l, r.clone(), h));
    }
    let roots: Vec<_> = g.roots.iter().map(|&x| sym(x)).collect();
    cfg.set_roots(&roots);
    (cfg, shadow)
}

fn real(cfg: &Cfg) -> Shadow {
    cfg.rules().map(|r| (r.lhs.usize(), r.rhs.iter().map(|s| s.usize()).collect(), r.history)).collect()
}

fn run(c: &mut C) {
    if c.idx == 150_000 || c.idx == 250_000 {
        return loaded_rich(c);
    }
    let mut g = any(c);
    match c.rng.below(5) {
        0 | 1 => binarize(c, &g),
        2 => {
            for (_, r) in &mut g.rules {
                r.truncate(2);
            }
            nulling(c, &g)
        }
        3 => operations(c, &g),
        _ => match c.rng.below(5) {
            0 => both(c, &g),
            1 => loaded(c),
            2 => precedenced(c),
            3 => sequences(c),
            _ => operations(c, &g),
        },
    }
}

fn binarize(c: &mut C, g: &G) {
    let (mut cfg, shadow) = make(c, g);
    c.note(|| "binarize".into());
    // Half of the time the limit is there before the rules.
    if c.rng.chance(1, 2) {
        sut("limit_rhs_len", || cfg.limit_rhs_len(Some(2)));
    } else {
        let rules: Vec<CfgRule> = cfg.rules().cloned().collect();
        cfg.clear_rules();
        sut("limit_rhs_len", || cfg.limit_rhs_len(Some(2)));
        for r in rules {
            sut("add_rule", || cfg.add_rule(r));
        }
    }
    judge_binarized(c, g, &cfg, &shadow);
    // Again: nothing changes any more.
    let before = real(&cfg);
    sut("limit_rhs_len", || cfg.limit_rhs_len(Some(2)));
    ensure!(real(&cfg) == before, "binarizing again changed rules or histories");
}

fn judge_binarized(c: &mut C, g: &G, cfg: &Cfg, shadow: &Shadow) {
    let rules = real(cfg);
    let mut parts: BTreeMap<usize, (Vec<usize>, History)> = BTreeMap::new();
    let mut tops: BTreeMap<u32, (usize, Vec<usize>, History)> = BTreeMap::new();
    for (l, r, h) in rules {
        if l < g.n {
            ensure!(
                tops.insert(h.origin().id, (l, r.clone(), h)).is_none(),
                "two rules with an original LHS carry origin {}: one is {l} ::= {r:?}",
                h.origin().id
            );
        } else {
            ensure!(h.origin().is_null(), "the inner rule {l} ::= {r:?} carries origin {}", h.origin().id);
            ensure!(parts.insert(l, (r, h)).is_none(), "two rules for the new symbol {l}");
        }
    }
    ensure!(tops.len() == shadow.len(), "{} rules became {} with an original LHS", shadow.len(), tops.len());
    let mut split = 0;
    for (i, (l, r, h)) in shadow.iter().enumerate() {
        let id = i as u32 + 1;
        let Some((tl, tr, th)) = tops.remove(&id) else { viol(format!("no rule with an original LHS carries origin {id}")) };
        ensure!(tl == *l, "the rule with origin {id} has LHS {tl}, the source rule {l}");
        ensure!(th.weight == h.weight, "the rule with origin {id} has weight {:?}, the source rule {:?}", th.weight, h.weight);
        ensure!(th.nullable == h.nullable, "the rule with origin {id} gained {:?}", th.nullable);
        if r.len() <= 2 {
            ensure!(tr == *r && th == *h, "the short rule {l} ::= {r:?} with {h:?} became {tr:?} with {th:?}");
            continue;
        }
        split += 1;
        let n = r.len();
        // Walks the tree of parts; returns how much of the source it covers.
        fn walk(
            rhs: &[usize],
            n: usize,
            parts: &mut BTreeMap<usize, (Vec<usize>, History)>,
            start: usize,
            out: &mut Vec<usize>,
            check: &mut dyn FnMut(&[usize], &History, &[usize]),
        ) -> Vec<usize> {
            let mut at = vec![start + out.len() - start];
            for &x in rhs {
                if x < n {
                    out.push(x);
                } else {
                    let Some((r, h)) = parts.remove(&x) else { viol(format!("the new symbol {x} is used twice or has no rule")) };
                    let inner = walk(&r, n, parts, start, out, check);
                    check(&r, &h, &inner);
                }
                at.push(out.len());
            }
            at
        }
        let mut out = vec![];
        let mut check = |rhs: &[usize], h: &History, at: &[usize]| {
            if at.len() == 3 {
                let want = RuleDot::new(id, at[1] as u32).trace();
                ensure!(
                    h.dot(1).trace() == want,
                    "an inner rule {rhs:?} of rule {id} ({n} symbols) has {:?} between its symbols, expected {want:?}",
                    h.dot(1).trace()
                );
                for d in [0, 2] {
                    let t = h.dot(d).trace();
                    ensure!(
                        t == RuleDot::none().trace() || t == RuleDot::new(id, at[d] as u32).trace(),
                        "an inner rule {rhs:?} of rule {id} has {t:?} at dot {d}"
                    );
                }
            }
        };
        let at = walk(&tr, g.n, &mut parts, 0, &mut out, &mut check);
        ensure!(out == *r, "the parts of {l} ::= {r:?} expand to {out:?}");
        ensure!(at.len() == 3, "the top part of a rule of {n} symbols has {} symbols", at.len() - 1);
        for d in 0..3 {
            let want = RuleDot::new(id, at[d] as u32).trace();
            ensure!(
                th.dot(d).trace() == want,
                "the top rule {l} ::= {tr:?} of rule {id} ({n} symbols) has {:?} at dot {d}, expected {want:?}",
                th.dot(d).trace()
            );
        }
    }
    ensure!(parts.is_empty(), "left-over parts: {parts:?}");
    // The same through the column iterator.
    for col in [0, 1, 2, 3, 4, 9] {
        for (info, r) in cfg.column(col).zip(cfg.rules()) {
            ensure!(
                col < 3 || info.earley == Some(RuleDot::none()),
                "column {col}, which a binarized rule does not have, gives {:?} for {r:?}",
                info.earley
            );
            ensure!(info.earley.is_some_and(|e| e == r.history.dot(col)), "column {col} gives {:?} for {r:?}", info.earley);
        }
    }
    c.count("rules split", split);
    if split > 0 {
        c.nontrivial((0, &g.rules));
        c.sample(|| format!("binarized: {}", g.show()));
    }
}

fn nulling(c: &mut C, g: &G) {
    let (mut cfg, shadow) = make(c, g);
    c.note(|| format!("nulling, rules cut to two symbols: {}", g.show()));
    let nullable = g.nullable();
    let term = g.terminal();
    sut("binarize_and_eliminate_nulling_rules", || cfg.binarize_and_eliminate_nulling_rules());
    let after = real(&cfg);
    let mut judged = 0;
    let mut seen: BTreeMap<(u32, usize, Vec<usize>), usize> = BTreeMap::new();
    for (l, r, h) in &after {
        let id = h.origin().id as usize;
        ensure!(id >= 1 && id <= shadow.len(), "{l} ::= {r:?} has origin {id}, which no rule had");
        let (sl, sr, sh) = &shadow[id - 1];
        ensure!(sl == l, "{l} ::= {r:?} carries the origin of a rule of {sl}");
        let copies = seen.entry((id as u32, *l, r.clone())).or_insert(0);
        *copies += 1;
        if r == sr {
            // Unchanged, unless it is X X with one X dropped, which has another length.
            ensure!(h == sh, "the rule {l} ::= {r:?} was kept but its history changed: {sh:?} became {h:?}");
            ensure!(*copies == 1, "the rule {l} ::= {r:?} is there twice");
            continue;
        }
        ensure!(sr.len() == 2 && r.len() == 1, "{l} ::= {r:?} carries the origin of {sl} ::= {sr:?}");
        let (n0, n1) = (nullable[sr[0]], nullable[sr[1]]);
        match (n0, n1) {
            (true, false) => {
                ensure!(r[0] == sr[1], "{sl} ::= {sr:?} was cut to {r:?} although only the first symbol is nullable");
                ensure!(h.nullable() == Some((sym(sr[0]), false)), "dropping the first symbol of {sl} ::= {sr:?} was recorded as {:?}", h.nullable());
            }
            (false, true) => {
                ensure!(r[0] == sr[0], "{sl} ::= {sr:?} was cut to {r:?} although only the second symbol is nullable");
                ensure!(h.nullable() == Some((sym(sr[1]), true)), "dropping the second symbol of {sl} ::= {sr:?} was recorded as {:?}", h.nullable());
            }
            (true, true) => continue,
            (false, false) => viol(format!("{sl} ::= {sr:?} was cut to {r:?} although neither symbol is nullable")),
        }
        ensure!(h.weight == sh.weight, "cutting {sl} ::= {sr:?} changed the weight from {:?} to {:?}", sh.weight, h.weight);
        ensure!(*copies == 1, "{sl} ::= {sr:?} was cut twice");
        judged += 1;
    }
    for (i, (l, r, _)) in shadow.iter().enumerate() {
        if r.len() == 2 && nullable[r[0]] != nullable[r[1]] {
            let keep = if nullable[r[0]] { r[1] } else { r[0] };
            if term[keep] {
                ensure!(
                    after.iter().any(|a| a.2.origin().id as usize == i + 1 && a.1 == [keep]),
                    "no rule {l} ::= {keep} traces back to {l} ::= {r:?}"
                );
            }
        }
    }
    c.count("rules with one symbol dropped", judged);
    if judged > 0 {
        c.nontrivial((1, &g.rules));
        c.sample(|| format!("nulling elimination: {}", g.show()));
    }
}

/// Binarization of long rules followed by nulling elimination.
fn both(c: &mut C, g: &G) {
    let (mut cfg, shadow) = make(c, g);
    c.note(|| "binarize and eliminate".into());
    sut("binarize_and_eliminate_nulling_rules", || cfg.binarize_and_eliminate_nulling_rules());
    for (l, r, h) in real(&cfg) {
        if l >= g.n {
            ensure!(h.origin().is_null(), "the inner rule {l} ::= {r:?} carries origin {}", h.origin().id);
        } else {
            let id = h.origin().id as usize;
            ensure!(id >= 1 && id <= shadow.len() && shadow[id - 1].0 == l, "{l} ::= {r:?} carries origin {id}");
        }
    }
    c.nontrivial((2, &g.rules));
}

fn operations(c: &mut C, g: &G) {
    let (mut cfg, mut shadow) = make(c, g);
    let n = g.n;
    let mut changed = false;
    let mut next = shadow.len();
    for _ in 0..c.rng.range(1, 6) {
        let op = c.rng.below(8);
        c.note(|| format!("operation {op}"));
        match op {
            0 => {
                sut("sort", || cfg.sort());
                shadow.sort_by(|a, b| (a.0, &a.1).cmp(&(b.0, &b.1)));
                // The order of equal rules is up to the code.
                let now = real(&cfg);
                ensure!(
                    now.iter().map(|a| (a.0, &a.1)).eq(shadow.iter().map(|a| (a.0, &a.1))),
                    "sorting gave {:?}",
                    now.iter().map(|a| (a.0, &a.1)).collect::<Vec<_>>()
                );
                by_origin(&cfg, &mut shadow);
                changed = true;
            }
            1 => {
                sut("dedup", || cfg.dedup());
                // Which of several equal rules stays is up to the code.
                let now = real(&cfg);
                let mut k = 0;
                let mut groups = 0;
                while k < shadow.len() {
                    let mut e = k;
                    while e < shadow.len() && shadow[e].0 == shadow[k].0 && shadow[e].1 == shadow[k].1 {
                        e += 1;
                    }
                    ensure!(
                        now.get(groups).is_some_and(|r| shadow[k..e].contains(r)),
                        "after removing duplicates rule {groups} is {:?}, expected one of {:?}",
                        now.get(groups),
                        &shadow[k..e]
                    );
                    groups += 1;
                    k = e;
                }
                ensure!(now.len() == groups, "{groups} rules expected after removing duplicates, {} found", now.len());
                shadow = now;
            }
            2 => {
                sut("reverse", || cfg.reverse());
                for s in &mut shadow {
                    s.1.reverse();
                }
                changed = true;
            }
            3 => {
                let p = c.rng.perm(n);
                sut("reorder_symbols", || cfg.remap().reorder_symbols(|a, b| p[a.usize()].cmp(&p[b.usize()])));
                for s in &mut shadow {
                    s.0 = p[s.0];
                    for x in &mut s.1 {
                        *x = p[*x];
                    }
                }
                by_origin(&cfg, &mut shadow);
                changed = true;
            }
            4 => {
                let g2 = G { n, rules: shadow.iter().map(|s| (s.0, s.1.clone())).collect(), roots: vec![] };
                let u = closure_of(&g2.unit());
                sut("remove_cycles", || Cycles::new(&mut cfg).remove_cycles());
                shadow.retain(|s| !(s.1.len() == 1 && u[s.1[0]].contains(&s.0)));
                changed = true;
            }
            5 => {
                let g2 = G { n, rules: shadow.iter().map(|s| (s.0, s.1.clone())).collect(), roots: vec![] };
                let u = closure_of(&g2.unit());
                let same = |a: usize, b: usize| a == b || (u[a].contains(&b) && u[b].contains(&a));
                sut("rewrite_cycles", || Cycles::new(&mut cfg).rewrite_cycles());
                // Which symbol stands for a class of equivalent ones is up to the code.
                let now = real(&cfg);
                shadow.retain(|s| !(s.1.len() == 1 && u[s.1[0]].contains(&s.0)));
                ensure!(now.len() == shadow.len(), "rewriting cycles: {} rules expected, {} found", shadow.len(), now.len());
                let mut rest = shadow.clone();
                for (l, r, h) in &now {
                    let Some(k) = rest.iter().position(|s| {
                        s.2 == *h && same(s.0, *l) && s.1.len() == r.len() && s.1.iter().zip(r).all(|(a, b)| same(*a, *b))
                    }) else {
                        viol(format!("after rewriting cycles {l} ::= {r:?} has the history {h:?}, which belongs to another rule or to none"))
                    };
                    rest.swap_remove(k);
                }
                shadow = now;
                changed = true;
            }
            6 => {
                let mut other = Cfg::with_sym_source(cfg.sym_source().clone());
                for _ in 0..c.rng.range(1, 3) {
                    let l = c.rng.below(n);
                    let r: Vec<usize> = (0..c.rng.below(4)).map(|_| c.rng.below(n)).collect();
                    let h = history(c, next);
                    next += 1;
                    let rhs: Vec<_> = r.iter().map(|&x| sym(x)).collect();
                    other.rule(sym(l)).rhs_with_history(rhs, h);
                    shadow.push((l, r, h));
                }
                sut("extend", || cfg.extend(&other));
                changed = true;
            }
            _ => {
                let k = c.rng.range(2, 5);
                sut("retain", || cfg.retain(|r| r.history.origin().id as usize % k != 0));
                shadow.retain(|s| s.2.origin().id as usize % k != 0);
            }
        }
        let now = real(&cfg);
        if now != shadow {
            for (a, b) in now.iter().zip(&shadow) {
                if a != b {
                    viol(format!("operation {op}: expected the rule {b:?} but found {a:?}"));
                }
            }
            viol(format!("operation {op}: {} rules expected, {} found", shadow.len(), now.len()));
        }
    }
    ensure!(read(&cfg).n == n, "the number of symbols changed");
    if changed {
        c.nontrivial((3, &g.rules));
    }
}

/// Remapping may move rules: compare as sets, then take over the order.
fn by_origin(cfg: &Cfg, shadow: &mut Shadow) {
    let now = real(cfg);
    ensure!(now.len() == shadow.len(), "remapping: {} rules expected, {} found", shadow.len(), now.len());
    let mut rest = shadow.clone();
    for r in &now {
        let Some(k) = rest.iter().position(|s| s == r) else {
            viol(format!("after remapping {} ::= {:?} has the history {:?}, which belongs to another rule or to none", r.0, r.1, r.2))
        };
        rest.swap_remove(k);
    }
    *shadow = now;
}

/// Alternatives declared with precedence carry the history they were given.
fn precedenced(c: &mut C) {
    use cfg_grammar::precedenced_rule::Associativity;
    let mut cfg = Cfg::new();
    let n = c.rng.range(2, 5);
    for _ in 0..n {
        cfg.next_sym(None);
    }
    let limit = c.rng.bool();
    if limit && c.rng.bool() {
        cfg.limit_rhs_len(Some(2));
    }
    let lhs = c.rng.below(n);
    let mut given: Vec<(Vec<usize>, History)> = vec![];
    let mut plan = vec![];
    for level in 0..c.rng.range(1, 5) {
        for _ in 0..c.rng.range(1, 3) {
            let rhs: Vec<usize> = (0..c.rng.below(6)).map(|_| c.rng.below(n)).collect();
            let h = history(c, given.len());
            if c.rng.chance(1, 5) {
                // None given.
                plan.push((level, c.rng.below(4), 3, rhs, h));
                continue;
            }
            plan.push((level, c.rng.below(4), c.rng.below(3), rhs.clone(), h));
            given.push((rhs, h));
        }
    }
    c.note(|| format!("precedenced rule for {lhs} (level, associativity, way, RHS, history): {plan:?}; limited: {limit}"));
    sut("precedenced_rule", || {
        let mut b = cfg.precedenced_rule(sym(lhs));
        let mut at = 0;
        for (level, assoc, how, rhs, h) in &plan {
            while at < *level {
                b = b.lower_precedence();
                at += 1;
            }
            b = match assoc {
                0 => b,
                1 => b.associativity(Associativity::Left),
                2 => b.associativity(Associativity::Right),
                _ => b.associativity(Associativity::Group),
            };
            let rhs: Vec<_> = rhs.iter().map(|&x| sym(x)).collect();
            b = match how {
                0 => b.history(*h).rhs(rhs),
                // The one given later counts.
                1 => b.history(RootHistoryNode::Origin { origin: 999 }.into()).rhs_with_history(rhs, *h),
                2 => b.rhs_with_history(rhs, *h),
                _ => b.rhs(rhs),
            };
        }
        b.finalize();
    });
    let whole = cfg.clone();
    if limit {
        sut("limit_rhs_len", || cfg.limit_rhs_len(Some(2)));
    }
    for (i, (rhs, h)) in given.iter().enumerate() {
        let with: Vec<&CfgRule> = cfg.rules().filter(|r| r.history.origin().id as usize == i + 1).collect();
        ensure!(with.len() == 1, "{} rules carry the origin {} of alternative {rhs:?}", with.len(), i + 1);
        ensure!(with[0].history.weight == h.weight, "the rule of alternative {rhs:?} has weight {:?}, given {:?}", with[0].history.weight, h.weight);
        if rhs.len() <= 2 || !limit {
            ensure!(with[0].history == *h, "the rule of alternative {rhs:?} has the history {:?}, given {h:?}", with[0].history);
            // Symbols other than the LHS stay where they are.
            let got: Vec<usize> = with[0].rhs.iter().map(|s| s.usize()).collect();
            ensure!(
                got.len() == rhs.len() && rhs.iter().zip(&got).all(|(&a, &b)| a == lhs || a == b),
                "the rule with the history of alternative {rhs:?} is {got:?}"
            );
        }
    }
    let others = whole.rules().filter(|r| r.history.origin().id == 999).count();
    ensure!(others == 0, "a history that was replaced shows up");
    c.nontrivial((5, &given.iter().map(|g| &g.0).collect::<Vec<_>>(), limit));
    c.count("precedenced rules", 1);
}

/// A history given for one sequence is not given to the sequences built after it.
fn sequences(c: &mut C) {
    let k = c.rng.range(2, 5);
    let mut cfg = Cfg::new();
    for _ in 0..k + 3 {
        cfg.next_sym(None);
    }
    let mut plan = vec![];
    for i in 0..k {
        let start = c.rng.below(4) as u32;
        let end = c.rng.bool().then(|| start + c.rng.below(4) as u32);
        plan.push((start, end, k + c.rng.below(2), c.rng.below(4), c.rng.bool().then_some(i + 1)));
    }
    // A builder on the grammar itself, or one that collects into the rewrite.
    let direct = c.rng.bool();
    c.note(|| format!("sequences (start, end, element, separator, origin): {plan:?}"));
    sut("sequence", || {
        let sep = |how: usize| match how {
            0 => Separator::Null,
            1 => Separator::Proper(sym(k + 2)),
            2 => Separator::Trailing(sym(k + 2)),
            _ => Separator::Liberal(sym(k + 2)),
        };
        if direct {
            let mut b = cfg.sequence(sym(0));
            for (i, &(start, end, el, how, h)) in plan.iter().enumerate() {
                b = b.sequence(sym(i)).separator(sep(how)).inclusive(start, end);
                if let Some(h) = h {
                    b = b.history(RootHistoryNode::Origin { origin: h }.into());
                }
                b = b.rhs(sym(el));
            }
        } else {
            let mut b = SequenceRuleBuilder::new(SequencesToProductions::new(&mut cfg));
            for (i, &(start, end, el, how, h)) in plan.iter().enumerate() {
                b = b.sequence(sym(i)).separator(sep(how)).inclusive(start, end);
                if let Some(h) = h {
                    b = b.history(RootHistoryNode::Origin { origin: h }.into());
                }
                b = b.rhs(sym(el));
            }
        }
    });
    // The rules of a sequence are those reached from its LHS.
    let g = read(&cfg);
    let rules: Vec<(Vec<usize>, u32)> = cfg.rules().map(|r| (r.rhs.iter().map(|s| s.usize()).collect(), r.history.origin().id)).collect();
    for (i, p) in plan.iter().enumerate() {
        let mut seen = vec![false; g.n];
        let mut work = vec![i];
        while let Some(x) = work.pop() {
            if std::mem::replace(&mut seen[x], true) {
                continue;
            }
            for (at, (l, r)) in g.rules.iter().enumerate().filter(|(_, r)| r.0 == x) {
                let id = rules[at].1 as usize;
                let own = p.4.is_none_or(|h| h != id);
                ensure!(
                    !(own && (1..=k).contains(&id)),
                    "{l} ::= {r:?}, a rule of sequence {i} ({p:?}), carries the origin {id} given to another sequence"
                );
                work.extend(r);
            }
        }
    }
    c.nontrivial((6, &plan));
    c.count("runs of sequences", 1);
}

fn loaded_rich(c: &mut C) {
    let huge = c.idx == 150_000 || c.idx == 250_000;
    let (large, rich) = (huge || c.rng.chance(1, 500), if huge { c.idx == 150_000 } else { c.rng.chance(2, 3) });
    let n = if huge { 4200 } else { *c.rng.pick(&[260, 300, 520, 700, 1100, 1400]) };
    let decls = match (large, rich) {
        (true, _) => bnf::big(&mut c.rng, rich, n),
        (_, true) => super::c18::tree(&mut c.rng),
        _ => bnf::basic(&mut c.rng),
    };
    let toks = bnf::tokens(&decls, rich, &mut c.rng);
    let text = bnf::render(&toks, &mut c.rng);
    c.size = text.len();
    c.note(|| format!("text: {text}"));
    let (parser, lexer) = bnf::ordered(&decls);
    let in_parser: std::collections::BTreeSet<&String> = parser.iter().map(|r| &r.lhs).collect();
    if lexer.iter().any(|r| in_parser.contains(&r.lhs)) {
        return;
    }
    let cfg = if rich { sut("load_advanced", || Cfg::load_advanced(&text)).map(|g| g.cfg) } else { sut("load", || Cfg::load(&text)) };
    let cfg = match cfg {
        Ok(cfg) => cfg,
        Err(e) => viol(format!("a well-formed text was refused: {e}")),
    };
    let alts: Vec<(&String, &bnf::Alt)> = parser.iter().chain(&lexer).flat_map(|r| r.alts.iter().map(move |a| (&r.lhs, a))).collect();
    let mut with: Vec<Vec<&CfgRule>> = vec![vec![]; alts.len()];
    for r in cfg.rules() {
        let id = r.history.origin().id as usize;
        // Other rules carry numbers that no alternative has.
        if id > 0 && id <= alts.len() {
            with[id - 1].push(r);
        }
    }
    let name = |s: cfg_symbol::Symbol| cfg.sym_source().name_of(s).to_string();
    for (i, (l, a)) in alts.iter().enumerate() {
        ensure!(with[i].len() == 1, "{} rules carry the number {} of alternative {l} ::= {a:?}", with[i].len(), i + 1);
        let r = with[i][0];
        ensure!(name(r.lhs) == **l, "the rule numbered {} is of {:?} instead of {l}", i + 1, name(r.lhs));
        let plain: Option<Vec<&String>> =
            a.frags.iter().filter(|f| !matches!(f, bnf::Frag::Unit)).map(|f| if let bnf::Frag::Name(n) = f { Some(n) } else { None }).collect();
        if let Some(plain) = plain {
            ensure!(r.rhs.iter().map(|&s| name(s)).eq(plain.into_iter().cloned()), "the rule numbered {} is {r:?} instead of alternative {l} ::= {a:?}", i + 1);
        }
    }
    c.nontrivial((5, &decls));
    c.max("alternatives of a text", alts.len() as u64);
    c.count("texts loaded", 1);
}

fn loaded(c: &mut C) {
    if c.rng.chance(1, 3) {
        return loaded_rich(c);
    }
    let names = ["a", "b", "Cc", "d_1", "E"];
    let mut text = String::new();
    let mut alts: Vec<(usize, Vec<usize>)> = vec![];
    for _ in 0..c.rng.range(1, 5) {
        let l = c.rng.below(names.len());
        text.push_str(names[l]);
        text.push_str(" ::= ");
        for k in 0..c.rng.range(1, 4) {
            if k > 0 {
                text.push_str("| ");
            }
            let r: Vec<usize> = (0..c.rng.below(4)).map(|_| c.rng.below(names.len())).collect();
            for &x in &r {
                text.push_str(names[x]);
                text.push(' ');
            }
            if r.is_empty() {
                text.push_str("() ");
            }
            alts.push((l, r));
        }
        text.push_str(";\n");
    }
    c.note(|| format!("text: {text}"));
    let cfg = match sut("load", || Cfg::load(&text)) {
        Ok(cfg) => cfg,
        Err(e) => viol(format!("a well-formed text was refused: {e}")),
    };
    let all = syms(cfg.num_syms());
    for (i, (l, r)) in alts.iter().enumerate() {
        let with: Vec<&CfgRule> = cfg.rules().filter(|q| q.history.origin().id as usize == i + 1).collect();
        ensure!(with.len() == 1, "{} rules carry the number {} of alternative {l} ::= {r:?}", with.len(), i + 1);
        let name = |s: cfg_symbol::Symbol| cfg.sym_source().name_of(s).to_string();
        let _ = &all;
        ensure!(
            name(with[0].lhs) == names[*l] && with[0].rhs.iter().map(|&s| name(s)).eq(r.iter().map(|&x| names[x].to_string())),
            "the rule numbered {} is {:?} instead of alternative {l} ::= {r:?}",
            i + 1,
            with[0]
        );
    }
    c.nontrivial((4, &alts));
    c.count("texts loaded", 1);
}
