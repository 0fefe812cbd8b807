//! C22: generated strings belong to the language and respect the limits.

use crate::ensure;
use crate::gcfg::{Prof, any, build_weighted, profile, snapshot, sym};
use crate::source::{Bits, Bytes, Edges, Fuel, choiceless_loop, finite, fueled};
use crate::refg::{Earley, G};
use crate::rng::Rng;
use crate::run::{C, Prop, viol};
use cfg_generate::weighted::Random;
use cfg_generate::weighted::random::{ByteSource, GenRange, Limits, RandomGenError};
use cfg_grammar::Cfg;
use cfg_symbol::Symbol;
use std::cell::RefCell;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C22",
    quick: 240_000,
    thorough: 6_000_000,
    rule: "generation from any symbol of weighted and unweighted grammars, driven by a `rand` generator, byte sources (also exhausted ones), a caller's own source and the thread's generator, with every call of the caller's character mapping recorded; each success is parsed by an Earley recogniser, and each run is replayed from the same source state with no limit and with limits around the number of terminals produced. Non-trivial if at least two terminals were produced; distinct by grammar, start and terminals",
    assumptions: &["runs that make more than 3000 choices are given up", "grammars whose symbols with a single rule derive each other in a circle are left out: they are expanded forever without using the source"],
    run,
};

const FUEL: u64 = 3000;
const BIG: u64 = 60;

type Out = Result<(Vec<Symbol>, Vec<char>), RandomGenError>;

/// How the caller maps terminals to characters.
#[derive(Clone, Copy)]
enum Map {
    All,
    Some,
    Drawn,
    Odd,
}

const ODD: &[char] = &['\0', '\u{1}', '\n', '\r', ' ', '\u{7f}', '\u{80}', '\u{ff}', '\u{300}', '\u{200b}', '\u{feff}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];

fn map<R: GenRange>(how: Map, s: Symbol, r: &mut R) -> Option<char> {
    let i = s.usize() as u32;
    match how {
        Map::All => char::from_u32('a' as u32 + i % 26),
        Map::Some => (i % 3 != 0).then(|| char::from_u32(0x100 + i).unwrap()),
        Map::Odd => Some(ODD[i as usize % ODD.len()]),
        Map::Drawn => {
            let v = r.generate(4.0);
            (v >= 1.0).then(|| char::from_u32('a' as u32 + 4 * (i % 6) + v as u32).unwrap())
        }
    }
}

struct Job<'a> {
    cfg: &'a Cfg,
    g: &'a G,
    start: usize,
    how: Map,
    fuel: Fuel,
}

impl Job<'_> {
    /// One run; `None` if it was given up. Checks what was recorded against what was returned.
    fn run<R: GenRange + Clone>(&self, src: &mut R, limit: Option<u64>, attempts: u64) -> Option<Out> {
        self.fuel.refill(FUEL);
        let log = RefCell::new(vec![]);
        let out = fueled("random", || {
            self.cfg.random(sym(self.start), limit.map(|terminals| Limits { terminals, negative_rule_attempts: attempts }), src, &[], |s, r: &mut R| {
                self.fuel.burn();
                let ch = map(self.how, s, r);
                log.borrow_mut().push((s, ch));
                ch
            })
        })?;
        if let Ok((syms, chars)) = &out {
            let log = log.into_inner();
            let want: Vec<Symbol> = log.iter().map(|x| x.0).collect();
            ensure!(*syms == want, "the terminals returned are {syms:?}, those mapped to characters {want:?}");
            let want: Vec<char> = log.iter().filter_map(|x| x.1).collect();
            ensure!(*chars == want, "the characters returned are {chars:?}, those given by the mapping {want:?}");
            if let Some(n) = limit {
                ensure!(syms.len() as u64 <= n, "{} terminals were returned with a limit of {n}", syms.len());
            }
        }
        Some(out)
    }

    fn judge<R: GenRange + Clone>(&self, c: &mut C, src: R) {
        let mut one = src.clone();
        let Some(first) = self.run(&mut one, Some(BIG), 5) else {
            c.count("runs given up", 1);
            return;
        };
        let mut two = src.clone();
        let again = self.run(&mut two, Some(BIG), 5);
        ensure!(again.as_ref() == Some(&first), "the same source state gives {first:?} and then {again:?}");
        // The source is left in the same state as well.
        let next = self.run(&mut one, Some(BIG), 5);
        let next2 = self.run(&mut two, Some(BIG), 5);
        ensure!(next == next2, "the next runs from the same source state give {next:?} and {next2:?}");
        c.count("runs finished", 1);
        match &first {
            Ok((syms, _)) => {
                let len = syms.len() as u64;
                c.count("terminals produced", len);
                c.max("number of terminals", len);
                let word: Vec<usize> = syms.iter().map(|s| s.usize()).collect();
                ensure!(
                    Earley::new(self.g).accepts(self.start, &word),
                    "{word:?} was generated from {} but is not derived by it",
                    self.start
                );
                if len >= 2 {
                    c.nontrivial((&self.g.rules, self.start, &word));
                    c.sample(|| format!("{}: {} generates {word:?}", self.g.show(), self.start));
                }
                let mut limits = vec![Some(0), Some(1), Some(len), Some(len + 1), Some(u64::MAX), None, Some(c.rng.below(len as usize + 4) as u64)];
                limits.push(Some((c.rng.range(1, 5) as u64) << *c.rng.pick(&[8, 16, 31, 32, 33, 48, 61])));
                limits.extend(len.checked_sub(1).map(Some));
                limits.extend(len.checked_sub(2).map(Some));
                for limit in limits {
                    let attempts = *c.rng.pick(&[0, 1, 1000, u64::MAX]);
                    let got = self.run(&mut src.clone(), limit, attempts);
                    let want = match limit {
                        Some(n) if n < len => Err(RandomGenError::LimitExceeded),
                        _ => first.clone(),
                    };
                    ensure!(
                        got.as_ref() == Some(&want),
                        "with the limit {limit:?} the result is {got:?}; {len} terminals are produced from this source state"
                    );
                    c.count("replays with another limit", 1);
                }
            }
            Err(RandomGenError::LimitExceeded) => {
                c.count("runs over the limit", 1);
                for n in [0, 1, BIG / 2, BIG - 1] {
                    let got = self.run(&mut src.clone(), Some(n), 5);
                    ensure!(
                        got == Some(Err(RandomGenError::LimitExceeded)),
                        "more than {BIG} terminals are produced, but with a limit of {n} the result is {got:?}"
                    );
                }
                if let Some(Ok((syms, _))) = self.run(&mut src.clone(), Some(400), 5) {
                    ensure!(syms.len() as u64 > BIG, "a limit of {BIG} was exceeded, but only {} terminals are produced", syms.len());
                    c.count("runs over the limit that end", 1);
                }
            }
            Err(e) => viol(format!("generation without negative rules fails with {e:?}")),
        }
    }
}

/// Outputs of thousands of terminals, whose number the grammar fixes.
fn long(c: &mut C) {
    // Symbol i + 1 derives i some number of times; 0 is `a` or `b`.
    let mut g = G { n: 2, roots: vec![], rules: vec![] };
    let base = 2;
    g.n += 1;
    g.rules.push((base, vec![0]));
    g.rules.push((base, vec![1]));
    let mut len = 1usize;
    let mut at = base;
    let goal = c.rng.range(200, 40_000);
    while len < goal {
        let k = c.rng.range(2, 9).min(goal / len + 1);
        let extra = if c.rng.chance(1, 12) { c.rng.range(250, 1500) } else { c.rng.below(3) };
        let mut rhs = vec![at; k];
        for _ in 0..extra {
            rhs.insert(c.rng.below(rhs.len() + 1), c.rng.below(3));
        }
        len = len * k + extra;
        at = g.n;
        g.n += 1;
        g.rules.push((at, rhs));
    }
    g.roots.push(at);
    c.size = g.size();
    c.note(|| format!("grammar: {}; every sentence has {len} terminals", g.show()));
    let cfg = build_weighted(&g, &[]);
    let fuel = Fuel::new(u64::MAX);
    let src = Bits(Rng::new(c.rng.next()), fuel.clone());
    let mut first: Option<Vec<Symbol>> = None;
    for limit in [None, Some(len as u64), Some(len as u64 - 1), Some(len as u64 + 1), Some(len as u64 / 2), Some(u64::MAX)] {
        let out = fueled("random", || {
            cfg.random(sym(at), limit.map(|terminals| Limits { terminals, negative_rule_attempts: 3 }), &mut src.clone(), &[], |s, _| Some(ODD[s.usize()]))
        });
        let Some(out) = out else { return };
        let small = limit.is_some_and(|n| n < len as u64);
        match out {
            Ok((syms, chars)) => {
                ensure!(!small, "{} terminals were returned with the limit {limit:?}", syms.len());
                ensure!(syms.len() == len, "{} terminals were generated; every sentence has {len}", syms.len());
                ensure!(syms.iter().all(|s| s.usize() < 2), "a symbol generated is not a terminal");
                ensure!(chars.iter().copied().eq(syms.iter().map(|s| ODD[s.usize()])), "the characters do not spell the terminals");
                let f = first.get_or_insert_with(|| syms.clone());
                ensure!(*f == syms, "the same source state gives another sentence with the limit {limit:?}");
            }
            Err(e) => ensure!(small && e == RandomGenError::LimitExceeded, "generation fails with {e:?} and the limit {limit:?}; every sentence has {len} terminals"),
        }
    }
    c.count("long outputs", 1);
    c.max("number of terminals", len as u64);
    c.nontrivial((&g.rules, first));
}

fn run(c: &mut C) {
    if c.idx % 400 == 11 {
        return long(c);
    }
    let g = if c.idx % 4 == 3 {
        let p = *c.rng.pick(&[Prof::Layered, Prof::Layered, Prof::LongRhs, Prof::Recursive]);
        let g = profile(&mut c.rng, p);
        c.size = g.size();
        c.note(|| format!("grammar: {}", g.show()));
        g
    } else {
        any(c)
    };
    if choiceless_loop(&g) {
        c.count("grammars left out (expanded forever without a choice)", 1);
        return;
    }
    let mut weights = vec![];
    if c.rng.bool() {
        let t = g.terminal();
        for (_, r) in &g.rules {
            // Favour rules that end the derivation.
            let w = if r.iter().all(|&s| t[s]) { c.rng.range(500, 4000) } else { c.rng.range(0, 1000) } as u32;
            weights.push(c.rng.chance(3, 4).then_some(w));
        }
        if (0..g.n).any(|s| {
            let w: Vec<_> = (0..g.rules.len()).filter(|&i| g.rules[i].0 == s).map(|i| weights[i].unwrap_or(1000)).collect();
            w.len() > 1 && w.iter().sum::<u32>() == 0
        }) {
            weights.clear();
        }
        c.note(|| format!("weights: {weights:?}"));
    }
    let cfg = build_weighted(&g, &weights);
    let before = snapshot(&cfg);
    let prod = g.productive();
    let nt = g.nonterminal();
    let good: Vec<usize> = (0..g.n).filter(|&s| prod[s] && nt[s]).collect();
    let start = if good.is_empty() || c.rng.chance(1, 12) { c.rng.below(g.n) } else { *c.rng.pick(&good) };
    let how = *c.rng.pick(&[Map::All, Map::Some, Map::Drawn, Map::Odd]);
    let fuel = Fuel::new(FUEL);
    let job = Job { cfg: &cfg, g: &g, start, how, fuel: fuel.clone() };
    c.note(|| format!("start symbol {start}"));
    for _ in 0..2 {
        let rng = Rng::new(c.rng.next());
        match c.rng.below(8) {
            0..=2 => job.judge(c, Bits(rng.clone(), fuel.clone())),
            3 => {
                use rand::SeedableRng;
                if finite(&g) {
                    c.count("runs of a generator of the rand crate", 1);
                    let seed = c.rng.next();
                    job.judge(c, rand::rngs::SmallRng::seed_from_u64(seed));
                    let out = fueled("with_thread_rng", || {
                        cfg.with_thread_rng(sym(start), Some(Limits { terminals: BIG, negative_rule_attempts: 0 }), &[], |_, _| Some('x'))
                    });
                    if let Some(Ok((syms, chars))) = out {
                        let word: Vec<usize> = syms.iter().map(|s| s.usize()).collect();
                        ensure!(word.len() as u64 <= BIG && Earley::new(&g).accepts(start, &word), "{word:?} was generated from {start} but is not derived by it");
                        ensure!(chars == vec!['x'; word.len()], "{word:?} is written {chars:?} though every terminal is mapped to x");
                    }
                }
            }
            4 | 5 => {
                let head: Vec<u8> = (0..c.rng.below(12)).map(|_| *c.rng.pick(&[0, 1, 127, 128, 254, 255])).collect();
                let tail = !finite(&g) || c.rng.bool();
                c.count("runs of byte sources", 1);
                job.judge(c, ByteSource::new(Bytes { head: Rc::new(head), at: 0, tail: tail.then(|| rng.clone()), fuel: fuel.clone() }));
            }
            _ => {
                c.count("runs of the caller's own source", 1);
                job.judge(c, Edges(rng.clone(), fuel.clone()));
            }
        }
    }
    ensure!(snapshot(&cfg) == before, "generation changed the grammar");
}
