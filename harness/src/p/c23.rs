//! C23: alternatives are picked in proportion to their weights.

use crate::ensure;
use crate::gcfg::sym;
use crate::rng::Rng;
use crate::run::{C, Prop, sut, viol};
use crate::source::{Bits, Bytes, Fuel};
use cfg_generate::weighted::random::{ByteSource, GenRange, Limits, RandomGenError};
use cfg_generate::weighted::{Random, Weight, WeightedRhsByLhs};
use cfg_grammar::Cfg;
use cfg_history::earley::History;
use cfg_history::{HistoryNodeWeight, RootHistoryNode};
use cfg_symbol::Symbol;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C23",
    quick: 1_500,
    thorough: 60_000,
    rule: "long generations from grammars in which every rule begins with a terminal of its own, so that the recorded terminals give every pick in order; the picks of each symbol, and those after each particular earlier pick, are compared with the weights by a Chernoff bound (an alarm needs a deviation of probability below 2^-80), and rules of weight zero must not be picked at all, also with byte sources; weighted production maps of every weight type are sampled directly. Non-trivial if a symbol has rules of different weights; distinct by weights",
    assumptions: &["a deviation of a pick's frequency by less than about two percent of all picks of its symbol may go unnoticed", "symbols all of whose rules have weight zero are left out"],
    run,
};

/// Largest value of N * KL(observed, expected) that is accepted.
const BOUND: f64 = 60.0;

#[derive(Clone)]
struct Uniform(Rng);

impl GenRange for Uniform {
    fn generate(&mut self, limit: f64) -> f64 {
        (self.0.next() >> 11) as f64 / (1u64 << 53) as f64 * limit
    }
    fn mutate_start(&mut self, n: u64) {
        for _ in 0..=n {
            self.0.next();
        }
    }
}

fn kl(k: u64, n: u64, p: f64) -> f64 {
    let q = k as f64 / n as f64;
    let t = |a: f64, b: f64| if a <= 0.0 { 0.0 } else { a * (a / b).ln() };
    n as f64 * (t(q, p) + t(1.0 - q, 1.0 - p))
}

/// Judges how often each of `weights.len()` choices was made.
fn judge(counts: &[u64], weights: &[f64], what: &dyn Fn(usize) -> String) {
    let n: u64 = counts.iter().sum();
    let total: f64 = weights.iter().sum();
    if n == 0 {
        return;
    }
    for i in 0..counts.len() {
        let p = weights[i] / total;
        if weights[i] == 0.0 {
            ensure!(counts[i] == 0, "{} has weight zero and was picked {} times of {n}", what(i), counts[i]);
        } else if p >= 1.0 {
            continue;
        } else {
            let d = kl(counts[i], n, p);
            ensure!(d < BOUND, "{} was picked {} times of {n}; its weight is {} of {total}, so about {:.0} are expected", what(i), counts[i], weights[i], n as f64 * p);
        }
    }
}

fn weight(r: &mut Rng, style: usize) -> Option<u32> {
    match style {
        0 => None,
        1 => Some(r.range(1, 8) as u32 * 125),
        2 => Some(*r.pick(&[0, 0, 1000, 2000, 3000])),
        3 => Some(*r.pick(&[1, 10, 1000, 100_000, 1_000_000])),
        4 => r.bool().then(|| r.range(0, 4) as u32 * 500),
        5 => Some(*r.pick(&[0, 1000])),
        7 => Some(*r.pick(&[1_000_000, 2_000_000, 70_000_000, 1_000_000_000, 2_000_000_000, 4_000_000_000, u32::MAX])),
        _ => Some(r.range(0, 3000) as u32),
    }
}

struct W {
    cfg: Cfg,
    rules: Vec<(usize, Vec<usize>)>,
    weights: Vec<f64>,
    nts: usize,
    /// Marker terminal of each rule (shared by duplicates, which are judged together).
    marker: Vec<usize>,
}

fn grammar(c: &mut C) -> W {
    let r = &mut c.rng;
    let nts = r.range(1, 5);
    let plain = 2;
    let style = r.below(8);
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    let mut marker: Vec<usize> = vec![];
    let mut n = nts + plain;
    let big = r.chance(1, 10);
    for l in 0..nts {
        for _ in 0..if big { r.range(1, 80) } else { r.range(1, 6) } {
            let mut rhs = vec![n];
            let len = r.below(4);
            for _ in 0..len {
                rhs.push(if r.chance(3, 5) { r.below(nts) } else { nts + r.below(plain) });
            }
            rules.push((l, rhs));
            marker.push(n);
            n += 1;
        }
    }
    if r.chance(1, 4) {
        for _ in 0..r.range(1, 3) {
            let i = r.below(rules.len());
            rules.push(rules[i].clone());
            marker.push(marker[i]);
        }
    }
    if r.bool() {
        let p = r.perm(rules.len());
        rules = p.iter().map(|&i| rules[i].clone()).collect();
        marker = p.iter().map(|&i| marker[i]).collect();
    }
    let mut ws: Vec<Option<u32>> = rules.iter().map(|_| weight(r, style)).collect();
    for l in 0..nts {
        let mine: Vec<usize> = (0..rules.len()).filter(|&i| rules[i].0 == l).collect();
        if mine.iter().all(|&i| ws[i] == Some(0)) {
            ws[*r.pick(&mine)] = Some(1000);
        }
    }
    let linked = r.bool();
    let cfg = sut("Cfg: build", || {
        let mut cfg = Cfg::new();
        for _ in 0..n {
            cfg.next_sym(None);
        }
        for (i, (l, rhs)) in rules.iter().enumerate() {
            let mut h: History = RootHistoryNode::Origin { origin: i + 1 }.into();
            if let Some(w) = ws[i] {
                if linked && w % 125 == 0 {
                    h = HistoryNodeWeight { prev: h, weight: w as f64 / 1000.0 }.into();
                } else {
                    h.weight = Some(w);
                }
            }
            cfg.rule(sym(*l)).rhs_with_history(rhs.iter().map(|&x| sym(x)).collect::<Vec<_>>(), h);
        }
        cfg.set_roots([sym(0)]);
        cfg
    });
    c.size = rules.len();
    c.note(|| format!("rules {rules:?}\nweights {ws:?}"));
    W { cfg, rules, weights: ws.iter().map(|w| w.map_or(1.0, |w| w as f64 / 1000.0)).collect(), nts, marker }
}

/// Reads the picks off the terminals produced.
fn picks(w: &W, start: usize, log: &[usize], ended: bool, mut pick: impl FnMut(usize)) {
    let mut by_marker: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for i in (0..w.rules.len()).rev() {
        by_marker.insert((w.rules[i].0, w.marker[i]), i);
    }
    let mut stack = vec![start];
    let mut at = 0;
    while let Some(s) = stack.pop() {
        let Some(&t) = log.get(at) else {
            ensure!(!ended, "generation ended before its derivation did");
            return;
        };
        at += 1;
        if s < w.nts {
            let Some(&i) = by_marker.get(&(s, t)) else { viol(format!("terminal {t} begins no rule of {s}, which is expanded there")) };
            pick(i);
            stack.extend(w.rules[i].1[1..].iter().rev());
        } else {
            ensure!(s == t, "terminal {t} was produced where {s} was due");
        }
    }
    ensure!(at == log.len(), "generation goes on after its derivation ended");
}

fn sample<R: GenRange + Clone>(c: &mut C, w: &W, mut src: R, total: u64, uniform: bool) {
    let n = w.rules.len();
    // Rules with the same marker count as one.
    let rep: Vec<usize> = (0..n).map(|i| (0..n).find(|&j| w.marker[j] == w.marker[i]).unwrap()).collect();
    let mut weights = vec![0.0; n];
    for i in 0..n {
        weights[rep[i]] += w.weights[i];
    }
    let mut single = vec![0u64; n];
    let mut pairs: BTreeMap<(usize, usize), Vec<u64>> = BTreeMap::new();
    let mut prev = usize::MAX;
    let mut seen = 0;
    while seen < total {
        let start = c.rng.below(w.nts);
        let log = RefCell::new(vec![]);
        let out = sut("random", || {
            w.cfg.random(sym(start), Some(Limits { terminals: 1000, negative_rule_attempts: 0 }), &mut src, &[], |s, _: &mut R| {
                log.borrow_mut().push(s.usize());
                Some('x')
            })
        });
        let ended = match out {
            Ok(_) => true,
            Err(RandomGenError::LimitExceeded) => false,
            Err(e) => viol(format!("generation fails with {e:?}")),
        };
        picks(w, start, &log.into_inner(), ended, |i| {
            single[i] += 1;
            seen += 1;
            if n <= 40 {
                pairs.entry((prev, w.rules[i].0)).or_insert_with(|| vec![0; n])[i] += 1;
            }
            prev = i;
        });
        if seen == 0 {
            viol("generation picks no rule")
        }
    }
    c.count("picks read off generated terminals", seen);
    let show = |i: usize| format!("rule {} ::= {:?}", w.rules[i].0, w.rules[i].1);
    for i in 0..n {
        ensure!(weights[rep[i]] > 0.0 || single[i] == 0, "{} has weight zero and was picked {} times", show(i), single[i]);
    }
    if !uniform {
        return;
    }
    for l in 0..w.nts {
        let mine: Vec<usize> = (0..n).filter(|&i| w.rules[i].0 == l && rep[i] == i).collect();
        let ws: Vec<f64> = mine.iter().map(|&i| weights[i]).collect();
        let k: Vec<u64> = mine.iter().map(|&i| single[i]).collect();
        judge(&k, &ws, &|i| show(mine[i]));
        c.count("frequencies judged", mine.len() as u64);
    }
    for ((prev, l), k) in &pairs {
        let mine: Vec<usize> = (0..n).filter(|&i| w.rules[i].0 == *l && rep[i] == i).collect();
        let ws: Vec<f64> = mine.iter().map(|&i| weights[i]).collect();
        let k: Vec<u64> = mine.iter().map(|&i| k[i]).collect();
        judge(&k, &ws, &|i| format!("right after rule {prev}, {}", show(mine[i])));
        c.count("frequencies after an earlier pick judged", mine.len() as u64);
    }
    let mut distinct: Vec<u64> = w.weights.iter().map(|x| (x * 1000.0) as u64).collect();
    if distinct.iter().any(|x| *x != distinct[0]) {
        c.sample(|| format!("rules {:?} of weights {:?} were picked {single:?} times", w.rules, w.weights));
        distinct.push(n as u64);
        c.nontrivial((distinct, &w.rules));
    }
}

/// The map of weighted productions, used directly.
fn direct<W: Weight>(c: &mut C, conv: impl Fn(u32) -> W, max: u32) {
    let r = &mut c.rng;
    let n = r.range(1, 9);
    let mut weights: Vec<u32> = vec![];
    let mut left = max;
    for i in 0..n {
        let w = if r.chance(1, 4) { 0 } else { r.range(0, (left as usize / (n - i)).max(1)) as u32 }.min(left);
        left -= w;
        weights.push(w);
    }
    if weights.iter().all(|&w| w == 0) {
        weights[0] = 1;
    }
    c.note(|| format!("weights {weights:?} of a {}", std::any::type_name::<W>()));
    let mut map = WeightedRhsByLhs::<W>::new();
    let other = c.rng.bool();
    sut("add_weight", || {
        for (i, &w) in weights.iter().enumerate() {
            if other {
                map.add_weight(conv(1), sym(1), &[sym(50), sym(i)]);
            }
            map.add_weight(conv(w), sym(0), &[sym(10 + i)]);
        }
    });
    let count = |src: &mut dyn FnMut() -> Vec<Symbol>, picks: u64| {
        let mut k = vec![0u64; n];
        for _ in 0..picks {
            let rhs = src();
            let i = rhs.first().map_or(usize::MAX, |s| s.usize().wrapping_sub(10));
            ensure!(rhs.len() == 1 && i < n, "pick_rhs gives {rhs:?}, which is no production of the symbol");
            k[i] += 1;
        }
        k
    };
    let mut u = Uniform(Rng::new(c.rng.next()));
    let k = count(&mut || sut("pick_rhs", || map.pick_rhs(sym(0), &mut u).to_vec()), 20_000);
    let ws: Vec<f64> = weights.iter().map(|&w| w as f64).collect();
    judge(&k, &ws, &|i| format!("production {i} of {weights:?}"));
    let mut bytes = ByteSource::new((0..=255u8).chain([255, 0]));
    let k = count(&mut || sut("pick_rhs", || map.pick_rhs(sym(0), &mut bytes).to_vec()), 300);
    for i in 0..n {
        ensure!(weights[i] > 0 || k[i] == 0 || n == 1, "production {i} of weight zero was picked from a byte source");
    }
    let none = sut("pick_rhs", || map.pick_rhs(sym(5), &mut u).to_vec());
    ensure!(none.is_empty(), "a symbol without productions has {none:?}");
    c.count("picks from a production map", 20_300);
}

/// Hundreds of alternatives of one symbol.
fn many(c: &mut C) {
    let r = &mut c.rng;
    let n = *r.pick(&[100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 513, 700, 1023, 1025, 1500]) + r.below(2);
    // Only some can be picked, or all, with weights that are the same over a stretch.
    let mut ws = vec![0u32; n];
    if r.bool() {
        for _ in 0..r.range(1, 5) {
            let at = match r.below(4) {
                0 => n - 1,
                1 => (*r.pick(&[0, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512])).min(n - 1),
                _ => r.below(n),
            };
            ws[at] = *r.pick(&[1000, 2000, 3000, 500]);
        }
    } else {
        let (u, v) = (*r.pick(&[1000, 3000]), *r.pick(&[1000, 2000, 8000]));
        let cut = r.below(n);
        for (i, w) in ws.iter_mut().enumerate() {
            *w = if i < cut { u } else { v };
        }
    }
    c.size = n;
    c.note(|| format!("{n} alternatives with weights {ws:?}"));
    let weights: Vec<f64> = ws.iter().map(|&w| w as f64 / 1000.0).collect();
    let mut k = vec![0u64; n];
    let total = 40_000;
    let mut u = Uniform(Rng::new(c.rng.next()));
    if c.rng.bool() {
        let mut map = WeightedRhsByLhs::<f64>::new();
        sut("add_weight", || {
            for (i, &w) in weights.iter().enumerate() {
                map.add_weight(w, sym(0), &[sym(1 + i)]);
            }
        });
        for _ in 0..total {
            let rhs = sut("pick_rhs", || map.pick_rhs(sym(0), &mut u).to_vec());
            ensure!(rhs.len() == 1 && (1..=n).contains(&rhs[0].usize()), "pick_rhs gives {rhs:?}, which is no production of the symbol");
            k[rhs[0].usize() - 1] += 1;
        }
    } else {
        // 0 ::= 1 1 1 …; 1 ::= marker
        let cfg = sut("Cfg: build", || {
            let mut cfg = Cfg::new();
            for _ in 0..n + 2 {
                cfg.next_sym(None);
            }
            cfg.rule(sym(0)).rhs(vec![sym(1); 500]);
            for (i, &w) in ws.iter().enumerate() {
                let mut h: History = RootHistoryNode::Origin { origin: i + 1 }.into();
                h.weight = Some(w);
                cfg.rule(sym(1)).rhs_with_history([sym(2 + i)], h);
            }
            cfg
        });
        for _ in 0..total / 500 {
            let out = sut("random", || cfg.random(sym(0), None, &mut u, &[], |_, _: &mut Uniform| None));
            let Ok((syms, _)) = out else { viol(format!("generation fails with {out:?}")) };
            ensure!(syms.len() == 500, "{} terminals are generated instead of 500", syms.len());
            for s in syms {
                ensure!((2..n + 2).contains(&s.usize()), "symbol {} is generated, which is no alternative", s.usize());
                k[s.usize() - 2] += 1;
            }
        }
    }
    judge(&k, &weights, &|i| format!("alternative {i} of {n}"));
    // Stretches of alternatives are judged, too.
    for parts in [2, 5, 16] {
        let at = |i: usize| i * parts / n;
        let mut ks = vec![0; parts];
        let mut wsum = vec![0.0; parts];
        for i in 0..n {
            ks[at(i)] += k[i];
            wsum[at(i)] += weights[i];
        }
        judge(&ks, &wsum, &|i| format!("stretch {i} of {parts} of {n} alternatives"));
    }
    c.max("number of alternatives", n as u64);
    c.nontrivial(&ws);
}

fn run(c: &mut C) {
    if c.idx % 16 == 5 {
        return many(c);
    }
    if c.idx % 4 == 3 {
        match c.rng.below(5) {
            0 => direct::<u8>(c, |w| w as u8, 100),
            1 => direct::<u16>(c, |w| w as u16, 60_000),
            2 => direct::<u32>(c, |w| w, 4_000_000_000),
            3 => direct::<f32>(c, |w| w as f32 / 8.0, 10_000),
            _ => direct::<f64>(c, |w| w as f64 / 8.0, 1_000_000),
        }
        return;
    }
    let w = grammar(c);
    let rng = Rng::new(c.rng.next());
    match c.rng.below(5) {
        0 => sample(c, &w, Bits(rng, Fuel::new(u64::MAX)), 50_000, true),
        1 => sample(c, &w, Uniform(rng), 50_000, true),
        2 => {
            use rand::SeedableRng;
            let seed = c.rng.next();
            sample(c, &w, rand::rngs::SmallRng::seed_from_u64(seed), 50_000, true)
        }
        3 => {
            use rand::SeedableRng;
            let seed = c.rng.next();
            sample(c, &w, rand::rngs::StdRng::seed_from_u64(seed), 50_000, true)
        }
        _ => {
            let head: Vec<u8> = (0..c.rng.below(300)).map(|_| *c.rng.pick(&[0, 1, 127, 128, 254, 255])).collect();
            let tail = c.rng.bool().then_some(rng);
            sample(c, &w, ByteSource::new(Bytes { head: Rc::new(head), at: 0, tail, fuel: Fuel::new(u64::MAX) }), 2_000, false)
        }
    }
}
