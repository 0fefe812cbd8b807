//! C25: symbol sets and closures compute what they say.

use crate::ensure;
use crate::gcfg::{Prof, any, build, profile, snapshot, sym, syms};
use crate::refg::G;
use crate::run::{C, Prop, sut};
use cfg_grammar::{Cfg, RhsPropertyMode, SymbolBitSet};

pub const PROP: Prop = Prop {
    id: "C25",
    quick: 1_000_000,
    thorough: 6_000_000,
    rule: "random histories of set operations shadowed by a list of booleans and compared after each step through every reader (index, iterator, bit vector, space, all, is_empty); the sets derived from grammars; closures for all and any, and closures over values, repeated on the same grammar, compared with naive fixpoints; symbol counts around multiples of the word size included. Non-trivial if a closure added a symbol; distinct by grammar and initial set",
    assumptions: &["sets of different sizes are not united, and sums stay below 2^32"],
    run,
};

fn same(set: &SymbolBitSet, want: &[bool], what: &str) {
    let all = syms(want.len());
    ensure!(set.space() == want.len(), "{what}: the set has space for {} symbols, expected {}", set.space(), want.len());
    for (i, &w) in want.iter().enumerate() {
        ensure!(set[all[i]] == w, "{what}: membership of symbol {i} is {}, expected {w}", set[all[i]]);
    }
    let members: Vec<usize> = sut("iter", || set.iter().map(|s| s.usize()).collect());
    let expected: Vec<usize> = (0..want.len()).filter(|&i| want[i]).collect();
    ensure!(members == expected, "{what}: iterating gives {members:?}, expected {expected:?}");
    let bits: Vec<bool> = set.bit_vec().iter().collect();
    ensure!(bits == want, "{what}: the bit vector is {bits:?}, expected {want:?}");
    let bits: Vec<bool> = set.clone().into_bit_vec().iter().collect();
    ensure!(bits == want, "{what}: the bit vector is {bits:?}, expected {want:?}");
    ensure!(sut("all", || set.all()) == want.iter().all(|&b| b), "{what}: all() is {} for {want:?}", set.all());
    ensure!(sut("is_empty", || set.is_empty()) == !want.iter().any(|&b| b), "{what}: is_empty() is {} for {want:?}", set.is_empty());
}

fn history(c: &mut C, g: &G, cfg: &Cfg) {
    let n = g.n;
    let nonterminal = g.nonterminal();
    let empty_rule: Vec<bool> = (0..n).map(|s| g.rules.iter().any(|(l, r)| *l == s && r.is_empty())).collect();
    let used = g.used();
    let mut sets: Vec<(SymbolBitSet, Vec<bool>)> = vec![];
    let mut log: Vec<String> = vec![];
    let steps = c.rng.range(3, 16);
    for _ in 0..steps {
        let op = c.rng.below(18);
        let i = if sets.is_empty() { 0 } else { c.rng.below(sets.len()) };
        if op < 3 || sets.is_empty() {
            let (s, w) = match c.rng.below(6) {
                0 => (SymbolBitSet::new(), vec![]),
                1 => (SymbolBitSet::default(), vec![]),
                2 => {
                    let b = c.rng.bool();
                    (sut("from_elem", || SymbolBitSet::from_elem(cfg, b)), vec![b; n])
                }
                3 => (sut("terminal_symbols", || cfg.terminal_symbols()), nonterminal.iter().map(|b| !b).collect()),
                4 => (sut("nulling_symbols", || cfg.nulling_symbols()), empty_rule.clone()),
                _ => (sut("unused_symbols", || cfg.unused_symbols()), used.iter().map(|b| !b).collect()),
            };
            same(&s, &w, "a new set");
            log.push("new set".into());
            sets.push((s, w));
            continue;
        }
        if op == 3 {
            let copy = sets[i].clone();
            sets.push(copy);
            log.push(format!("clone {i}"));
            continue;
        }
        if op == 4 && sets.len() > 1 {
            let j = c.rng.below(sets.len());
            if sets[i].1.len() == sets[j].1.len() {
                let other = sets[j].0.clone();
                let ow = sets[j].1.clone();
                sut("union", || sets[i].0.union(&other));
                for (a, b) in sets[i].1.iter_mut().zip(ow) {
                    *a |= b;
                }
                log.push(format!("union {i} {j}"));
                same(&sets[j].0, &sets[j].1.clone(), "the other set of a union");
            }
        } else {
            let (s, w) = &mut sets[i];
            let fits = w.is_empty() || w.len() >= n;
            let name = match op {
                5 => {
                    sut("reset", || s.reset(cfg.sym_source()));
                    *w = vec![false; n];
                    "reset"
                }
                6 => {
                    sut("set_all", || s.set_all(cfg.sym_source()));
                    *w = vec![true; n];
                    "set_all"
                }
                7 => {
                    sut("used", || s.used(cfg));
                    *w = used.clone();
                    "used"
                }
                8 => {
                    sut("unused", || s.unused(cfg));
                    *w = used.iter().map(|b| !b).collect();
                    "unused"
                }
                9 => {
                    sut("negate", || s.negate());
                    for b in w.iter_mut() {
                        *b = !*b;
                    }
                    "negate"
                }
                10 => {
                    sut("terminal", || s.terminal(cfg));
                    *w = nonterminal.iter().map(|b| !b).collect();
                    "terminal"
                }
                11 if fits => {
                    sut("nulling", || s.nulling(cfg));
                    if w.is_empty() {
                        *w = vec![false; n];
                    }
                    for x in 0..n {
                        w[x] |= empty_rule[x];
                    }
                    "nulling"
                }
                12 if fits => {
                    sut("productive", || s.productive(cfg));
                    if w.is_empty() {
                        *w = vec![false; n];
                    }
                    for x in 0..n {
                        w[x] |= nonterminal[x];
                    }
                    "productive"
                }
                13 if fits => {
                    sut("subtract_productive", || s.subtract_productive(cfg));
                    if w.is_empty() {
                        *w = vec![true; n];
                    }
                    for x in 0..n {
                        w[x] &= !nonterminal[x];
                    }
                    "subtract_productive"
                }
                14 | 15 if !w.is_empty() => {
                    let (x, b) = (c.rng.below(w.len()), c.rng.bool());
                    sut("set", || s.set(sym(x), b));
                    w[x] = b;
                    "set"
                }
                16 => {
                    let k = c.rng.below(n + 40);
                    sut("reserve", || s.reserve(k));
                    if w.len() < k {
                        w.resize(k, false);
                    }
                    "reserve"
                }
                _ => continue,
            };
            log.push(format!("{name} {i}"));
        }
        let w = sets[i].1.clone();
        same(&sets[i].0, &w, log.last().unwrap());
        c.count("set operations", 1);
    }
    for (s, w) in &sets {
        same(s, w, "at the end");
    }
    c.note(|| format!("operations: {log:?}"));
}

fn closures(c: &mut C, g: &G, cfg: &mut Cfg) {
    for _ in 0..2 {
        let init: Vec<bool> = match c.rng.below(5) {
            0 => g.terminal(),
            1 => (0..g.n).map(|s| g.rules.iter().any(|(l, r)| *l == s && r.is_empty())).collect(),
            2 => vec![false; g.n],
            3 => {
                let mut v = vec![false; g.n];
                v[c.rng.below(g.n)] = true;
                v
            }
            _ => (0..g.n).map(|_| c.rng.bool()).collect(),
        };
        let mut set = SymbolBitSet::from_elem(cfg, false);
        for (i, &b) in init.iter().enumerate() {
            set.set(sym(i), b);
        }
        c.note(|| format!("closing {init:?}"));
        let all = g.closure(init.clone(), true);
        let any = g.closure(init.clone(), false);
        let mut s = set.clone();
        sut("rhs_closure_for_all", || cfg.rhs_closure_for_all(&mut s));
        same(&s, &all, "closure for all");
        sut("rhs_closure_for_all", || cfg.rhs_closure_for_all(&mut s));
        same(&s, &all, "closure for all, again");
        let mut s = set.clone();
        sut("rhs_closure_for_any", || cfg.rhs_closure_for_any(&mut s));
        same(&s, &any, "closure for any");
        let mode_all = c.rng.bool();
        let mut s = set.clone();
        sut("rhs_closure", || cfg.rhs_closure(&mut s, if mode_all { RhsPropertyMode::All } else { RhsPropertyMode::Any }));
        same(&s, if mode_all { &all } else { &any }, "closure");
        let grown = all.iter().zip(&init).chain(any.iter().zip(&init)).filter(|(a, b)| a != b).count();
        c.count("symbols added by closures", grown as u64);
        if grown > 0 {
            c.nontrivial((&g.rules, &init));
            c.sample(|| format!("{}: closing {init:?}", g.show()));
        }
        // Values.
        let big = c.rng.chance(1, 4);
        // No sum met on the way may exceed 32 bits.
        let longest = g.rules.iter().map(|r| r.1.len()).max().unwrap_or(0).max(1) as f64;
        let nts = g.nonterminal().iter().filter(|&&b| b).count() as i32;
        let vast = (((1u64 << 32) - 1) as f64 / longest.powi(nts + 1)).floor().max(1.0) as usize;
        let below = if big && c.rng.chance(1, 4) { vast } else if big { 4000 } else { 5 };
        let value: Vec<Option<u32>> = (0..g.n)
            .map(|s| match c.rng.below(4) {
                0 => None,
                1 if init[s] => Some(0),
                _ if init[s] => Some(if below > 4000 && c.rng.bool() { below - 1 - c.rng.below(3) } else { c.rng.below(below) } as u32),
                _ => None,
            })
            .collect();
        let mut want: Vec<Option<u64>> = value.iter().map(|v| v.map(|v| v as u64)).collect();
        loop {
            let mut changed = false;
            for (l, r) in &g.rules {
                if r.is_empty() {
                    continue;
                }
                let sum = r.iter().try_fold(0u64, |acc, &x| want[x].map(|v| acc + v));
                if let Some(sum) = sum {
                    if want[*l].is_none_or(|old| sum < old) {
                        want[*l] = Some(sum);
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        if below <= vast {
            let mut got = value.clone();
            sut("rhs_closure_with_values", || cfg.rhs_closure_with_values(&mut got));
            let got: Vec<Option<u64>> = got.iter().map(|v| v.map(|v| v as u64)).collect();
            ensure!(got == want, "closing over the values {value:?} gives {got:?}, expected {want:?}");
            c.count("values computed", want.iter().zip(&value).filter(|(w, v)| w.is_some() && v.is_none()).count() as u64);
        }
    }
}

fn run(c: &mut C) {
    let g = if c.idx % 8 == 5 {
        let mut g = profile(&mut c.rng, Prof::ManySymbols);
        if c.rng.chance(1, 24) {
            g.n += c.rng.range(400, 1200);
        }
        c.size = g.size();
        c.note(|| format!("grammar: {}", g.show()));
        c.max("number of symbols", g.n as u64);
        g
    } else {
        any(c)
    };
    let mut cfg = build(&g);
    let before = snapshot(&cfg);
    if c.idx % 3 == 0 {
        history(c, &g, &cfg);
    } else {
        closures(c, &g, &mut cfg);
    }
    ensure!(snapshot(&cfg) == before, "computing symbol sets changed the grammar");
}
