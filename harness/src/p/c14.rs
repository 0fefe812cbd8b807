use crate::ensure;
use crate::gcfg;
use crate::refg::{self, G};
use crate::rng::Rng;
use crate::run::{C, Prop, inconclusive, sut, viol};
use cfg_grammar::Cfg;
use cfg_sequence::builder::SequenceRuleBuilder;
use cfg_sequence::destination::SequenceDestination;
use cfg_sequence::rewrite::SequencesToProductions;
use cfg_sequence::{CfgSequenceExt, Separator, Sequence};
use cfg_symbol::Symbol;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;

pub const PROP: Prop = Prop {
    id: "C14",
    quick: 120_000,
    thorough: 1_500_000,
    rule: "non-trivial: the range allows at least two elements; distinct: by range, separation and API path",
    assumptions: &[
        "empty ranges such as 0..0 and start > end are outside the domain",
        "the LHS of a sequence has no rules but sequences, and no second rule beside an unbounded repetition from one",
    ],
    run,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Sep {
    Null,
    Proper,
    Trailing,
    Liberal,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Spelling {
    Inclusive,
    RangeInclusive,
    Range,
    RangeToInclusive,
    RangeTo,
    RangeFrom,
    RangeFull,
    Bounds(bool, bool),
    RhsWithRange(bool),
}

#[derive(Clone, Debug)]
struct Job {
    lhs: usize,
    el: usize,
    sep_sym: usize,
    sep: Sep,
    start: u32,
    end: Option<u32>,
    spelling: Spelling,
    path: usize,
    intersperse: bool,
    history: usize,
}

fn bounds(start: u32, end: Option<u32>, ex_s: bool, ex_e: bool) -> (Bound<u32>, Bound<u32>) {
    let s = if start == 0 && ex_s {
        Bound::Unbounded
    } else if ex_s {
        Bound::Excluded(start - 1)
    } else {
        Bound::Included(start)
    };
    let e = match end {
        None => Bound::Unbounded,
        Some(e) if ex_e && e < u32::MAX => Bound::Excluded(e + 1),
        Some(e) => Bound::Included(e),
    };
    (s, e)
}

fn spelling(rng: &mut Rng, start: u32, end: Option<u32>) -> Spelling {
    loop {
        let s = match rng.below(9) {
            0 => Spelling::Inclusive,
            1 => Spelling::RangeInclusive,
            2 => Spelling::Range,
            3 => Spelling::RangeToInclusive,
            4 => Spelling::RangeTo,
            5 => Spelling::RangeFrom,
            6 => Spelling::RangeFull,
            7 => Spelling::Bounds(rng.bool(), rng.bool()),
            _ => Spelling::RhsWithRange(rng.bool()),
        };
        let ok = match s {
            Spelling::RangeInclusive => end.is_some(),
            Spelling::Range => end.is_some_and(|e| e < u32::MAX),
            Spelling::RangeToInclusive => start == 0 && end.is_some(),
            Spelling::RangeTo => start == 0 && end.is_some_and(|e| e < u32::MAX),
            Spelling::RangeFrom => end.is_none(),
            Spelling::RangeFull => start == 0 && end.is_none(),
            _ => true,
        };
        if ok {
            return s;
        }
    }
}

macro_rules! ranged {
    ($b:expr, $j:expr) => {{
        let (b, s, e) = ($b, $j.start, $j.end);
        match $j.spelling {
            Spelling::Inclusive | Spelling::RhsWithRange(_) => b.inclusive(s, e),
            Spelling::RangeInclusive => b.range(s..=e.unwrap()),
            Spelling::Range => b.range(s..e.unwrap() + 1),
            Spelling::RangeToInclusive => b.range(..=e.unwrap()),
            Spelling::RangeTo => b.range(..e.unwrap() + 1),
            Spelling::RangeFrom => b.range(s..),
            Spelling::RangeFull => b.range(..),
            Spelling::Bounds(x, y) => b.range(bounds(s, e, x, y)),
        }
    }};
}

fn separator(j: &Job, s: &[Symbol]) -> Separator {
    match j.sep {
        Sep::Null => Separator::Null,
        Sep::Proper => Separator::Proper(s[j.sep_sym]),
        Sep::Trailing => Separator::Trailing(s[j.sep_sym]),
        Sep::Liberal => Separator::Liberal(s[j.sep_sym]),
    }
}

fn add<D: SequenceDestination>(b: SequenceRuleBuilder<D>, j: &Job, s: &[Symbol]) -> SequenceRuleBuilder<D> {
    let mut b = b.sequence(s[j.lhs]);
    let early = j.history % 2 == 0;
    let sep = |b: SequenceRuleBuilder<D>| {
        if j.sep == Sep::Proper && j.intersperse {
            b.intersperse(s[j.sep_sym])
        } else if j.sep == Sep::Null && j.intersperse {
            b
        } else {
            b.separator(separator(j, s))
        }
    };
    if early {
        b = sep(b);
    }
    b = match j.spelling {
        Spelling::RhsWithRange(_) => b,
        _ => ranged!(b, j),
    };
    if !early {
        b = sep(b);
    }
    if let Spelling::RhsWithRange(x) = j.spelling {
        return b.rhs_with_range(s[j.el], bounds(j.start, j.end, x, !x));
    }
    match j.history {
        0 | 1 => b.rhs(s[j.el]),
        2 | 3 => b.history(gcfg::origin(77)).rhs(s[j.el]),
        4 => b.rhs_with_history(s[j.el], None),
        _ => b.rhs_with_history(s[j.el], Some(gcfg::origin(78))),
    }
}

fn range(rng: &mut Rng) -> (u32, Option<u32>) {
    let big = |rng: &mut Rng| -> u32 {
        let p = 1u64 << rng.range(2, 32);
        let v = match rng.below(5) {
            0 => p - 1,
            1 => p,
            2 => p + 1,
            3 => p / 2 + rng.next() % p,
            _ => p / 2 + p / 4,
        };
        v.min(u32::MAX as u64) as u32
    };
    match rng.below(10) {
        0..=3 => {
            let a = rng.below(6) as u32;
            let b = a + rng.below(7) as u32;
            (a, if rng.chance(1, 4) { None } else { Some(b) })
        }
        4 | 5 => {
            let a = rng.below(40) as u32;
            (a, if rng.chance(1, 4) { None } else { Some(a + rng.below(40) as u32) })
        }
        6 => (rng.below(3) as u32, Some(big(rng))),
        7 => {
            let a = big(rng);
            (a, Some(a))
        }
        8 => (big(rng), None),
        _ => {
            let (a, b) = (big(rng), big(rng));
            (a.min(b), Some(a.max(b)))
        }
    }
}

const INF: u64 = u64::MAX;
/// Counts of elements, as disjoint sorted intervals that do not touch.
type Set = Vec<(u64, u64)>;
/// 0: empty; 1: e..e; 2: e..s; 3: s..e; 4: s..s; 5: two separators or two elements in a row.
type Shapes = BTreeMap<u8, Set>;

fn insert(set: &mut Set, mut iv: (u64, u64)) -> bool {
    if set.iter().any(|&(a, b)| a <= iv.0 && iv.1 <= b) {
        return false;
    }
    set.retain(|&(a, b)| {
        let touch = a <= iv.1.saturating_add(1) && iv.0 <= b.saturating_add(1);
        if touch {
            iv = (a.min(iv.0), b.max(iv.1));
        }
        !touch
    });
    set.push(iv);
    set.sort();
    true
}

fn cat(a: u8, b: u8, separated: bool) -> u8 {
    if a == 0 {
        return b;
    }
    if b == 0 {
        return a;
    }
    if a == 5 || b == 5 {
        return 5;
    }
    if !separated {
        return 1;
    }
    let (af, al) = (matches!(a, 3 | 4), matches!(a, 2 | 4));
    let (bf, bl) = (matches!(b, 3 | 4), matches!(b, 2 | 4));
    if al == bf {
        return 5;
    }
    1 + 2 * af as u8 + bl as u8
}

fn plus(a: u64, b: u64) -> u64 {
    if a == INF || b == INF { INF } else { a + b }
}

/// The shapes and element counts of the strings `lhs` derives, or `None` if not settled.
fn shapes(rules: &[(usize, Vec<usize>)], n: usize, lhs: usize, el: usize, sep: Option<usize>) -> (Shapes, bool) {
    let mut v: Vec<Shapes> = vec![Shapes::new(); n];
    v[el].insert(1, vec![(1, 1)]);
    if let Some(s) = sep {
        v[s].insert(4, vec![(0, 0)]);
    }
    let rounds = n + 8;
    for round in 0..3 * rounds {
        let mut changed = false;
        for (l, r) in rules {
            let mut acc: Shapes = BTreeMap::from([(0, vec![(0, 0)])]);
            for &x in r {
                let mut next: Shapes = BTreeMap::new();
                for (&sa, ia) in &acc {
                    for (&sb, ib) in &v[x] {
                        let t = next.entry(cat(sa, sb, sep.is_some())).or_default();
                        for &a in ia {
                            for &b in ib {
                                insert(t, (plus(a.0, b.0), plus(a.1, b.1)));
                            }
                        }
                        if t.len() > 200 {
                            return (v.swap_remove(lhs), false);
                        }
                    }
                }
                acc = next;
            }
            for (s, ivs) in acc {
                for iv in ivs {
                    let t = v[*l].entry(s).or_default();
                    let before = t.clone();
                    if insert(t, iv) {
                        changed = true;
                        if round >= rounds {
                            // Still growing after every chain has been followed: a recursion.
                            if t.len() == before.len() && t.len() == 1 && t[0].0 == before[0].0 {
                                t[0].1 = INF;
                            }
                        }
                    }
                }
            }
        }
        if !changed {
            return (v.swap_remove(lhs), true);
        }
    }
    (v.swap_remove(lhs), false)
}

/// The rules `lhs` needs, those of the symbols a rule uses before the rule.
fn bottom_up(g: &G, lhs: usize) -> Vec<(usize, Vec<usize>)> {
    let mut by: Vec<Vec<usize>> = vec![vec![]; g.n];
    for (i, (l, _)) in g.rules.iter().enumerate() {
        by[*l].push(i);
    }
    let mut seen = vec![false; g.n];
    let mut out = vec![];
    let mut work = vec![(lhs, false)];
    while let Some((x, done)) = work.pop() {
        if done {
            out.extend(by[x].iter().map(|&i| g.rules[i].clone()));
        } else if !std::mem::replace(&mut seen[x], true) {
            work.push((x, true));
            for &i in &by[x] {
                work.extend(g.rules[i].1.iter().map(|&y| (y, false)));
            }
        }
    }
    out
}

fn expected_shapes(j: &Job, want: &mut Shapes) {
    let (a, b) = (j.start as u64, j.end.map_or(INF, |e| e as u64));
    if a == 0 {
        insert(want.entry(0).or_default(), (0, 0));
    }
    let a = a.max(1);
    if a > b {
        return;
    }
    if matches!(j.sep, Sep::Null | Sep::Proper | Sep::Liberal) {
        insert(want.entry(1).or_default(), (a, b));
    }
    if matches!(j.sep, Sep::Trailing | Sep::Liberal) {
        insert(want.entry(2).or_default(), (a, b));
    }
}

fn expected_small(j: &Job, len: usize, want: &mut BTreeSet<Vec<u16>>) {
    let top = j.end.map_or(len, |e| (e as usize).min(len));
    for k in j.start as usize..=top {
        let mut proper: Vec<u16> = vec![];
        for i in 0..k {
            if i > 0 && j.sep != Sep::Null {
                proper.push(j.sep_sym as u16);
            }
            proper.push(j.el as u16);
        }
        let mut trailing = proper.clone();
        if k > 0 {
            trailing.push(j.sep_sym as u16);
        }
        let both = match j.sep {
            Sep::Null | Sep::Proper => vec![proper],
            Sep::Trailing => vec![trailing],
            Sep::Liberal => vec![proper, trailing],
        };
        want.extend(both.into_iter().filter(|w| w.len() <= len));
    }
}

fn subset(a: &Shapes, b: &Shapes) -> Option<String> {
    for (s, ivs) in a {
        for iv in ivs {
            let ok = b.get(s).is_some_and(|t| t.iter().any(|&(x, y)| x <= iv.0 && iv.1 <= y));
            if !ok {
                let name = ["empty", "e…e", "e…s", "s…e", "s…s", "two alike in a row"][*s as usize];
                return Some(format!("strings of the form {name} with {iv:?} elements"));
            }
        }
    }
    None
}

fn run(c: &mut C) {
    let rng = &mut c.rng;
    // A grammar around, whose rules must not change.
    let mut g = if rng.chance(1, 3) { G { n: 4, ..G::default() } } else { gcfg::profile(rng, gcfg::Prof::Small) };
    let n_jobs = if rng.chance(2, 3) { 1 } else { rng.range(2, 3) };
    let old = g.n;
    g.n += n_jobs;
    let mut cfg: Cfg = gcfg::build(&g);
    let limit = rng.chance(1, 6);
    if limit {
        sut("limit_rhs_len", || cfg.limit_rhs_len(Some(2)));
    }
    let s = gcfg::syms(g.n);
    let mut jobs: Vec<Job> = vec![];
    for k in 0..n_jobs {
        let (start, end) = range(rng);
        let el = rng.below(old);
        let sep = *rng.pick(&[Sep::Null, Sep::Proper, Sep::Trailing, Sep::Liberal]);
        let same = k > 0 && rng.chance(1, 3) && jobs[k - 1].el == el;
        jobs.push(Job {
            lhs: if same { jobs[k - 1].lhs } else { old + k },
            el,
            sep_sym: rng.below(old),
            sep,
            start,
            end,
            spelling: spelling(rng, start, end),
            path: 0,
            intersperse: rng.bool(),
            history: rng.below(6),
        });
    }
    if jobs.iter().enumerate().any(|(i, j)| {
        (j.start, j.end) == (1, None) && jobs.iter().enumerate().any(|(k, o)| k != i && o.lhs == j.lhs)
    }) {
        jobs.truncate(1);
    }
    let path = rng.below(5);
    for j in &mut jobs {
        j.path = path;
    }
    c.size = jobs.len() * 100 + g.size() + jobs.iter().map(|j| (32 - j.start.leading_zeros() + 32 - j.end.unwrap_or(0).leading_zeros()) as usize).sum::<usize>();
    c.note(|| format!("grammar: {}; limited to 2: {limit}; sequences: {jobs:?}", g.show()));
    let before = gcfg::snapshot(&cfg);
    sut("sequence", || match path {
        0 => {
            let mut it = jobs.iter();
            let j = it.next().unwrap();
            let mut b = add(CfgSequenceExt::sequence(&mut cfg, s[j.lhs]), j, &s);
            for j in it {
                b = add(b, j, &s);
            }
        }
        1 => {
            for j in &jobs {
                add(CfgSequenceExt::sequence(&mut cfg, s[j.lhs]), j, &s);
            }
        }
        2 => {
            let mut list: Vec<Sequence> = vec![];
            for j in &jobs {
                add((&mut list).sequence(s[j.lhs]), j, &s);
            }
            let mut rw = SequencesToProductions::new(&mut cfg);
            for q in list {
                rw.rewrite(q);
            }
        }
        3 => {
            let mut rw = SequencesToProductions::new(&mut cfg);
            for j in &jobs {
                let q = Sequence {
                    lhs: s[j.lhs],
                    rhs: s[j.el],
                    start: 9,
                    end: Some(9),
                    separator: Separator::Null,
                    history: (j.history > 2).then(|| gcfg::origin(79)),
                };
                rw.add_sequence(ranged!(q, j).separator(separator(j, &s)));
            }
        }
        _ => {
            let mut b = SequenceRuleBuilder::new(SequencesToProductions::new(&mut cfg));
            for j in &jobs {
                b = add(b, j, &s);
            }
        }
    });
    let after = sut("read", || gcfg::snapshot(&cfg));
    let nr = before.g.rules.len();
    ensure!(
        after.g.rules.len() > nr && after.g.rules[..nr] == before.g.rules[..] && after.histories[..nr] == before.histories[..],
        "rules that were there before changed: {} became {}", before.g.show(), after.g.show()
    );
    ensure!(after.g.roots == before.g.roots && after.wrapped == before.wrapped, "the roots changed");
    ensure!(after.names[..before.g.n] == before.names[..], "names of symbols changed");
    let new = &after.g.rules[nr..];
    for (l, r) in new {
        ensure!(*l >= before.g.n || jobs.iter().any(|j| j.lhs == *l), "a rule of symbol {l}, which is no sequence, was added: {l} ::= {r:?}");
        ensure!(!limit || r.len() <= 2, "a rule of {} symbols in a grammar limited to 2", r.len());
    }
    let mut logs = 0u64;
    let mut lhss: BTreeSet<usize> = BTreeSet::new();
    for j in &jobs {
        lhss.insert(j.lhs);
        logs += 2 + (64 - (j.start as u64).leading_zeros() + 64 - (j.end.unwrap_or(0) as u64).leading_zeros()) as u64;
    }
    c.max("rules added for one sequence", new.len() as u64 / jobs.len() as u64);
    c.max("100 × rules per bit of the bounds", 100 * new.len() as u64 / logs);
    ensure!(new.len() as u64 <= 18 * logs + 60, "{} rules were added for {jobs:?}", new.len());
    c.count("sequences rewritten", jobs.len() as u64);
    c.count("rules added", new.len() as u64);
    let all = G { n: after.g.n, rules: new.to_vec(), roots: vec![] };
    for &lhs in &lhss {
        let new = bottom_up(&all, lhs);
        let mine: Vec<&Job> = jobs.iter().filter(|j| j.lhs == lhs).collect();
        let key: Vec<_> = mine.iter().map(|j| (j.start, j.end, j.sep, j.spelling, j.path)).collect();
        if mine.iter().any(|j| j.end.is_none_or(|e| e >= 2)) {
            c.nontrivial(&key);
        }
        let terms: BTreeSet<usize> = mine.iter().flat_map(|j| [j.el, j.sep_sym]).collect();
        let small = mine.iter().all(|j| j.start.max(j.end.unwrap_or(0)) <= 12);
        if small {
            // Exactly, string by string.
            let mx = mine.iter().map(|j| j.start.max(j.end.unwrap_or(0))).max().unwrap() as usize;
            let len = (2 * mx + 3).max(9);
            let sub = G { n: after.g.n, rules: new.to_vec(), roots: vec![] };
            let mut term = vec![false; sub.n];
            for &t in &terms {
                term[t] = true;
            }
            let Some(mut langs) = refg::sparse(&sub, &term, len, 2000) else { inconclusive() };
            let got = std::mem::take(&mut langs[lhs]);
            let mut want = BTreeSet::new();
            for j in &mine {
                expected_small(j, len, &mut want);
            }
            if let Some(w) = got.symmetric_difference(&want).next() {
                viol(format!(
                    "the sequence {mine:?} {} the string {w:?}",
                    if got.contains(w) { "derives" } else { "does not derive" }
                ));
            }
            c.count("sequences compared string by string", 1);
        } else {
            // One separator symbol, different from the element.
            let seps: BTreeSet<usize> = mine.iter().filter(|j| j.sep != Sep::Null).map(|j| j.sep_sym).collect();
            let els: BTreeSet<usize> = mine.iter().map(|j| j.el).collect();
            if els.len() > 1 || seps.len() > 1 || seps.iter().any(|x| els.contains(x)) || (seps.len() == 1 && mine.iter().any(|j| j.sep == Sep::Null)) {
                c.count("large sequences with equal symbols, structure only", 1);
                continue;
            }
            let el = *els.first().unwrap();
            let (got, settled) = shapes(&new, after.g.n, lhs, el, seps.first().copied());
            let mut want = Shapes::new();
            for j in &mine {
                expected_shapes(j, &mut want);
            }
            if let Some(d) = subset(&got, &want) {
                viol(format!("the sequence {mine:?} derives {d}, expected {want:?}"));
            }
            if !settled {
                inconclusive()
            }
            if let Some(d) = subset(&want, &got) {
                viol(format!("the sequence {mine:?} does not derive all {d}, only {got:?}"));
            }
            c.count("large sequences compared by shape and count", 1);
        }
    }
    c.sample(|| format!("{jobs:?} -> {} rules", new.len()));
}
