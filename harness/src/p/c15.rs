use crate::ensure;
use crate::gcfg;
use crate::refg::{self, G, Hom};
use crate::run::{C, Prop, sut, viol};
use cfg_grammar::Cfg;
use cfg_grammar::precedenced_rule::{Associativity, PrecedencedRuleBuilder};
use cfg_grammar::rule_builder::RuleBuilder;
use cfg_symbol::Symbol;

pub const PROP: Prop = Prop {
    id: "C15",
    quick: 240_000,
    thorough: 2_000_000,
    rule: "non-trivial: two or more levels or an alternative with two operands; distinct: by the precedenced rule",
    assumptions: &[
        "the rule is finished (`finalize`, or another rule is started on the builder)",
        "one precedenced rule per symbol, which has no other rules",
        "trees are counted modulo 2^64 and for strings up to a bounded length; with cyclic alternatives only the languages are compared",
    ],
    run,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum A {
    Left,
    Right,
    Group,
}

#[derive(Clone, Debug, Hash)]
struct Alt {
    /// `None`: the associativity is not mentioned.
    assoc: Option<A>,
    rhs: Vec<usize>,
    how: usize,
}

#[derive(Clone, Debug, Hash)]
struct Prec {
    lhs: usize,
    levels: Vec<Vec<Alt>>,
    /// A stray associativity set before `lower_precedence`, which the next alternative gets.
    stray: Vec<Option<A>>,
}

fn assoc(a: A) -> Associativity {
    match a {
        A::Left => Associativity::Left,
        A::Right => Associativity::Right,
        A::Group => Associativity::Group,
    }
}

fn apply<'a>(mut b: PrecedencedRuleBuilder<'a>, p: &Prec, s: &[Symbol], k: &mut usize) -> PrecedencedRuleBuilder<'a> {
    for (i, level) in p.levels.iter().enumerate() {
        if i > 0 {
            if let Some(a) = p.stray[i] {
                b = b.associativity(assoc(a));
            }
            b = b.lower_precedence();
        }
        for alt in level {
            if let Some(a) = alt.assoc {
                b = b.associativity(assoc(a));
            }
            let rhs: Vec<Symbol> = alt.rhs.iter().map(|&x| s[x]).collect();
            *k += 1;
            b = match alt.how {
                0 => b.rhs(&rhs),
                1 => b.history(gcfg::origin(*k)).rhs(rhs),
                _ => b.rhs_with_history(rhs, gcfg::origin(*k)),
            };
        }
    }
    b
}

fn run(c: &mut C) {
    let rng = &mut c.rng;
    // Now and then hundreds of levels.
    let deep = c.idx % 2000 == 77;
    let ts = if deep { 2 } else { rng.range(1, 4) };
    let others = rng.below(3);
    let n_prec = if rng.chance(1, 3) { 2 } else { 1 };
    let n = ts + others + n_prec;
    let perm = rng.perm(n);
    let terms: Vec<usize> = perm[..ts].to_vec();
    let nts: Vec<usize> = perm[ts..ts + others].to_vec();
    let lhss: Vec<usize> = perm[ts + others..].to_vec();
    let mut plain: Vec<(usize, Vec<usize>)> = vec![];
    for &x in &nts {
        for _ in 0..rng.range(1, 2) {
            let r = (0..rng.below(4)).map(|_| if rng.chance(2, 3) { *rng.pick(&terms) } else { perm[rng.below(n)] }).collect();
            plain.push((x, r));
        }
    }
    let mut precs = vec![];
    for &lhs in &lhss {
        let nl = if deep {
            rng.range(60, 300)
        } else if rng.chance(1, 100) { rng.range(5, 20) } else { rng.range(1, 4) };
        let mut levels: Vec<Vec<Alt>> = vec![];
        let mut stray = vec![];
        for l in 0..nl {
            let mut alts = vec![];
            let na = match rng.below(300) {
                0 => rng.range(4, 20),
                _ if l == 0 => rng.range(1, 3),
                _ if deep => rng.below(3).min(1),
                _ => rng.below(4),
            };
            for a in 0..na {
                let rhs: Vec<usize> = if deep && l > 0 && rng.chance(3, 4) {
                    let t = *rng.pick(&terms);
                    rng.pick(&[[t, lhs, lhs], [lhs, t, lhs], [lhs, lhs, t]]).to_vec()
                } else if l == 0 && a == 0 && rng.chance(7, 8) {
                    vec![*rng.pick(&terms)]
                } else {
                    match rng.below(6) {
                        0 => vec![lhs, *rng.pick(&terms), lhs],
                        1 => vec![*rng.pick(&terms), lhs],
                        2 => vec![lhs, *rng.pick(&terms), lhs, *rng.pick(&terms), lhs],
                        3 if rng.chance(1, 12) => (0..rng.range(6, 12)).map(|_| if rng.chance(1, 3) { lhs } else { perm[rng.below(n)] }).collect(),
                        _ => (0..rng.below(6)).map(|_| if rng.chance(1, 2) { lhs } else { perm[rng.below(n)] }).collect(),
                    }
                };
                let assoc = if deep && rng.bool() { None } else { *rng.pick(&[None, None, Some(A::Left), Some(A::Right), Some(A::Group)]) };
                alts.push(Alt { assoc, rhs, how: rng.below(3) });
            }
            levels.push(alts);
            stray.push(if rng.chance(1, if deep { 2 } else { 8 }) { Some(*rng.pick(&[A::Left, A::Right, A::Group])) } else { None });
        }
        precs.push(Prec { lhs, levels, stray });
    }
    let extra: Option<(usize, Vec<usize>)> = if !nts.is_empty() && rng.chance(1, 2) {
        Some((*rng.pick(&nts), vec![*rng.pick(&terms), lhss[0]]))
    } else {
        None
    };
    let limit = rng.chance(1, 6);
    let chain = rng.bool();
    let g0 = G { n, rules: plain.clone(), roots: vec![lhss[0]] };
    c.size = g0.size() + precs.iter().flat_map(|p| &p.levels).map(|l| 1 + l.iter().map(|a| a.rhs.len() + 2).sum::<usize>()).sum::<usize>();
    c.note(|| format!("plain rules: {}; extra {extra:?}; limited: {limit}; chained: {chain}; precedenced rules, tightest level first: {precs:?}", g0.show()));
    let mut cfg: Cfg = gcfg::build(&g0);
    if limit {
        sut("limit_rhs_len", || cfg.limit_rhs_len(Some(2)));
    }
    let before = gcfg::snapshot(&cfg);
    let s = gcfg::syms(n);
    let mut k = 1000;
    sut("precedenced_rule", || {
        let finish = |b: RuleBuilder<'_>| {
            if let Some((l, r)) = &extra {
                let rhs: Vec<Symbol> = r.iter().map(|&x| s[x]).collect();
                b.rule(s[*l]).rhs(rhs);
            }
        };
        if chain {
            let mut it = precs.iter();
            let p = it.next().unwrap();
            let mut b = apply(cfg.precedenced_rule(s[p.lhs]), p, &s, &mut k);
            for p in it {
                b = apply(b.precedenced_rule(s[p.lhs]), p, &s, &mut k);
            }
            match &extra {
                Some((l, r)) => {
                    let rhs: Vec<Symbol> = r.iter().map(|&x| s[x]).collect();
                    b.rule(s[*l]).rhs(rhs);
                }
                None => {
                    b.finalize();
                }
            }
        } else {
            let last = precs.len() - 1;
            for (i, p) in precs.iter().enumerate() {
                let b = apply(PrecedencedRuleBuilder::new(&mut cfg, s[p.lhs]), p, &s, &mut k).finalize();
                if i == last {
                    finish(b);
                }
            }
        }
    });
    let after = sut("read", || gcfg::snapshot(&cfg));
    let nr = before.g.rules.len();
    ensure!(
        after.g.rules.len() >= nr && after.g.rules[..nr] == before.g.rules[..] && after.histories[..nr] == before.histories[..],
        "rules that were there before changed: {} became {}", before.g.show(), after.g.show()
    );
    ensure!(after.g.roots == before.g.roots, "the roots changed");
    ensure!(after.names[..before.g.n] == before.names[..], "names of symbols changed");
    // The reference: T[l] lists all alternatives of level l and tighter.
    let mut r = G { n, rules: plain, roots: vec![] };
    r.rules.extend(extra.clone());
    let mut rich = false;
    for p in &precs {
        let nl = p.levels.len();
        let t: Vec<usize> = (0..nl).map(|l| r.n + l).collect();
        r.n += nl;
        rich |= nl > 1;
        let mut pending: Option<A> = None;
        for (l, level) in p.levels.iter().enumerate() {
            if l > 0 && p.stray[l].is_some() {
                pending = p.stray[l];
            }
            for alt in level {
                if alt.assoc.is_some() {
                    pending = alt.assoc;
                }
                let a = pending.take().unwrap_or(A::Left);
                let own: Vec<usize> = (0..alt.rhs.len()).filter(|&i| alt.rhs[i] == p.lhs).collect();
                rich |= own.len() > 1;
                let mut rhs = alt.rhs.clone();
                for &i in &own {
                    rhs[i] = match a {
                        A::Group => t[nl - 1],
                        A::Left if i == own[0] => t[l],
                        A::Right if i == *own.last().unwrap() => t[l],
                        _ => t[l.saturating_sub(1)],
                    };
                }
                for &x in if nl > 40 { &t[l..=l] } else { &t[l..] } {
                    r.rules.push((x, rhs.clone()));
                }
            }
            if nl > 40 && l > 0 {
                r.rules.push((t[l], vec![t[l - 1]]));
            }
        }
        r.rules.push((p.lhs, vec![t[nl - 1]]));
    }
    if rich {
        c.nontrivial(&(&precs, &extra, limit));
    }
    let watch: Vec<usize> = lhss.iter().chain(&nts).copied().collect();
    c.count("precedenced rules compared", precs.len() as u64);
    if r.acyclic() {
        let (base, len) = if ts <= 2 { (2, 5) } else { (3, 4) };
        let letter = |n: usize| {
            let mut v = vec![None; n];
            for (i, &t) in terms.iter().enumerate() {
                v[t] = Some(i % base);
            }
            v
        };
        let want = refg::counts(&r, &letter(r.n), base, len);
        let got = refg::counts(&after.g, &letter(after.g.n), base, len);
        let (Some(want), Some(got)) = (want, got) else {
            viol(format!("a string has infinitely many trees: {}", after.g.show()))
        };
        for &x in &watch {
            if want[x] != got[x] {
                let mut at = (0..want[x].len()).find(|&i| want[x][i] != got[x][i]).unwrap();
                let (w, g) = (want[x][at], got[x][at]);
                let (mut k, mut width) = (0, 1);
                while at >= width {
                    at -= width;
                    width *= base;
                    k += 1;
                }
                let mut word = vec![];
                for _ in 0..k {
                    word.push(at % base);
                    at /= base;
                }
                word.reverse();
                viol(format!(
                    "symbol {x} derives the string of letters {word:?} in {g} ways, expected {w} (terminals {terms:?} read as letters modulo {base}); built: {}",
                    after.g.show()
                ));
            }
        }
        c.count("numbers of trees compared", watch.iter().map(|&x| want[x].len() as u64).sum());
        c.count("strings with several trees", watch.iter().map(|&x| want[x].iter().filter(|&&v| v > 1).count() as u64).sum());
    }
    let long = precs.iter().flat_map(|p| &p.levels).flatten().any(|a| a.rhs.len() > 5);
    if !r.acyclic() || long || c.rng.chance(1, 8) {
        let mut img = vec![None; r.n];
        // Long alternatives derive nothing short unless some terminals are dropped.
        let drop = long || c.rng.bool();
        for (i, &t) in terms.iter().enumerate() {
            img[t] = Some((!drop || c.rng.chance(1, 3)).then_some(i % 2));
        }
        let h = Hom { base: 2, len: 6, img };
        let want = h.languages(&r);
        let got = h.resized(after.g.n).languages(&after.g);
        for &x in &watch {
            if let Some(d) = h.diff(&want[x], &got[x]) {
                viol(format!("symbol {x} {d}; built: {}", after.g.show()));
            }
        }
        c.count("rules with languages compared", 1);
        if long {
            c.count("rules with long alternatives compared", 1);
        }
    }
    c.sample(|| format!("{precs:?}"));
}
