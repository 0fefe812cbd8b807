//! C24: negative lookahead is never violated in generated output.

use crate::ensure;
use crate::gcfg::{build, renumber, snapshot, sym};
use crate::refg::{Earley, G};
use crate::rng::Rng;
use crate::run::{C, Prop, sut, viol};
use crate::source::{Bits, Bytes, Edges, Fuel, choiceless_loop, finite, fueled};
use cfg_generate::weighted::random::{ByteSource, GenRange, Limits, RandomGenError};
use cfg_generate::weighted::{NegativeRule, Random};
use cfg_grammar::Cfg;
use cfg_symbol::Symbol;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::OnceLock;

pub const PROP: Prop = Prop {
    id: "C24",
    quick: 600_000,
    thorough: 6_000_000,
    rule: "generation with one to three negative symbols (with one to three forbidden texts each) at random places of finite and recursive grammars, terminals read as one character, a drawn character or none, driven by a `rand` generator, byte sources and a caller's own source whose restarts are counted; each success is parsed by an Earley recogniser in which a negative symbol is a zero-width test of the characters that follow. Grammars without choices, whose one output is forbidden or is not, must be refused or generated. Scripted sources check that exactly the allowed number of attempts is made, and grammars in which each attempt may well succeed check that it does in the end. Non-trivial if generation had to go back at least once and succeeded; distinct by grammar and output",
    assumptions: &["negative symbols are nonterminals with an empty rule, as in the library's own use", "runs that take more than 20000 choices are given up", "whether a number of failures equal to the allowed number of attempts is still accepted is not judged"],
    run,
};

const FUEL: u64 = 20_000;
const POOL: &[&str] = &["a", "b", "c", "aa", "ab", "ba", "bb", "ac", "aab", "aba", "bba", "bbb", "abc", "aaaa", "ξ", "aξ"];
/// Texts that no terminal here can complete, though much of each can be written.
const NEVER: &[&str] = &["š", "Ţ", "aš", "ša", "ab\u{1}", "z", "A", "aa\u{10061}", "b\u{161}", "\u{3be}\u{4be}", "aaaaaaaaaaaaz", "abababababababz", "bbbbbbbbbbbbbbbbbbš"];
/// Texts longer than most outputs.
const LONG: &[&str] = &["aaaaaaaaa", "aaaaaaaaaaaa", "ababababab", "bbbbbbbbbbbbbbbbbbbb", "abbbbbbbbb"];

/// Texts of up to hundreds of characters: an `a` some number of times, perhaps followed by a `b`.
fn lengthy(r: &mut Rng) -> (usize, &'static str) {
    static TEXTS: OnceLock<Vec<(usize, String)>> = OnceLock::new();
    let all = TEXTS.get_or_init(|| {
        let lens = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300];
        lens.iter().flat_map(|&k| [(k, "a".repeat(k)), (k, "a".repeat(k) + "b")]).collect()
    });
    let (k, t) = r.pick(all);
    (*k, t)
}

#[derive(Clone)]
struct Watch<R> {
    inner: R,
    restarts: Rc<Cell<u64>>,
}

impl<R: GenRange> GenRange for Watch<R> {
    fn generate(&mut self, limit: f64) -> f64 {
        self.inner.generate(limit)
    }
    fn mutate_start(&mut self, attempt_number: u64) {
        self.restarts.set(self.restarts.get() + 1);
        self.inner.mutate_start(attempt_number)
    }
}

/// What a terminal is read as.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Read {
    Ch(char),
    Nothing,
    AnyOf(&'static [char]),
}

struct Job {
    g: G,
    cfg: Cfg,
    start: usize,
    read: Vec<Read>,
    neg: Vec<(usize, &'static str)>,
}

type Out = Result<(Vec<Symbol>, Vec<char>), RandomGenError>;

impl Job {
    fn random<R: GenRange + Clone>(&self, src: &mut R, limits: Option<Limits>, fuel: &Fuel) -> Option<Out> {
        let neg: Vec<NegativeRule> = self.neg.iter().map(|&(s, chars)| NegativeRule { sym: sym(s), chars }).collect();
        fueled("random", || {
            self.cfg.random(sym(self.start), limits, src, &neg, |s, r: &mut R| {
                fuel.burn();
                match self.read[s.usize()] {
                    Read::Ch(c) => Some(c),
                    Read::Nothing => None,
                    Read::AnyOf(set) => Some(set[(r.generate(set.len() as f64) as usize).min(set.len() - 1)]),
                }
            })
        })
    }

    /// Judges a success.
    fn judge(&self, syms: &[Symbol], chars: &[char]) {
        let word: Vec<usize> = syms.iter().map(|s| s.usize()).collect();
        // The number of characters before each terminal.
        let mut at = vec![0];
        for &t in &word {
            let k = at[at.len() - 1];
            let ch = chars.get(k);
            let n = match self.read[t] {
                Read::Ch(c) => (ch == Some(&c)).then_some(1),
                Read::Nothing => Some(0),
                Read::AnyOf(set) => ch.is_some_and(|ch| set.contains(ch)).then_some(1),
            };
            let Some(n) = n else { viol(format!("the terminals {word:?} cannot be written {chars:?}")) };
            at.push(k + n);
        }
        ensure!(at[word.len()] == chars.len(), "the terminals {word:?} cannot be written {chars:?}");
        let text: String = chars.iter().collect();
        let ok = |s: usize, pos: usize| -> Option<bool> {
            if !self.neg.iter().any(|n| n.0 == s) {
                return None;
            }
            let rest: String = chars[at[pos]..].iter().collect();
            Some(!self.neg.iter().any(|n| n.0 == s && rest.starts_with(n.1)))
        };
        let earley = Earley::new(&self.g);
        let reads = |s: usize, pos: usize| word[pos] == s;
        ensure!(
            earley.run(self.start, word.len(), &reads, &|s, _| self.neg.iter().any(|n| n.0 == s).then_some(true)).accepted,
            "{word:?} was generated from {} but is not derived by it",
            self.start
        );
        ensure!(
            earley.run(self.start, word.len(), &reads, &ok).accepted,
            "{word:?} = {text:?} was generated, but every derivation of it has a negative symbol followed by a forbidden text ({:?})",
            self.neg
        );
    }
}

fn job(c: &mut C) -> Job {
    let r = &mut c.rng;
    let recursive = r.chance(1, 4);
    let nts = r.range(1, 7);
    let negs = r.range(1, 3);
    let ts = r.range(2, 5);
    let n = nts + negs + ts;
    let drawn = r.chance(1, 4);
    let none = !drawn && r.chance(1, 3);
    let mut read = vec![Read::Nothing; n];
    for t in 0..ts {
        read[nts + negs + t] = match (t, r.below(6)) {
            (0, _) => Read::Ch('a'),
            (1, _) => Read::Ch('b'),
            (_, 0 | 1) if none => Read::Nothing,
            (_, 0..=2) if drawn => Read::AnyOf(&['a', 'b']),
            (_, 3) if drawn => Read::AnyOf(&['b', 'c', 'ξ']),
            (_, 4) => Read::Ch('ξ'),
            _ => Read::Ch(*r.pick(&['a', 'b', 'c'])),
        };
    }
    let alts = r.range(2, 4);
    let mut rules = vec![];
    for l in 0..nts {
        for _ in 0..r.range(1, alts) {
            let mut rhs = vec![];
            for _ in 0..r.range(r.clone().below(2), 5) {
                let after = rhs.last().is_some_and(|&x| x >= nts && x < nts + negs);
                rhs.push(match if after && r.chance(2, 3) { 0 } else { r.below(8) } {
                    0..=2 if recursive && r.chance(1, 3) => r.below(nts),
                    0..=2 if l + 1 < nts => r.range(l + 1, nts - 1),
                    3 | 4 => nts + r.below(negs),
                    _ => nts + negs + r.below(ts),
                });
            }
            rules.push((l, rhs));
        }
        if recursive {
            rules.push((l, vec![nts + negs + r.below(ts)]));
        }
    }
    for k in 0..negs {
        rules.push((nts + k, vec![]));
    }
    let mut g = G { n, rules, roots: vec![0] };
    let short = r.bool();
    let mut neg: Vec<(usize, &'static str)> = vec![];
    for k in 0..negs {
        for _ in 0..if short { 1 } else { r.range(1, 3) } {
            let i = if short { r.below(2) } else if r.chance(3, 4) { r.below(9) } else { r.below(POOL.len()) };
            neg.push((nts + k, POOL[i]));
        }
    }
    let never = r.chance(1, 5);
    for x in &mut neg {
        if never {
            x.1 = *r.pick(NEVER);
        } else if r.chance(1, 12) {
            let from = if r.bool() { NEVER } else { LONG };
            x.1 = *r.pick(from);
        }
    }
    r.shuffle(&mut neg);
    let mut start = 0;
    if r.bool() {
        // Any numbering of the symbols; follow the marked ones through it.
        g.roots = (0..n).collect();
        renumber(&mut g, r);
        let p = g.roots.clone();
        let old = read.clone();
        for s in 0..n {
            read[p[s]] = old[s];
        }
        for x in &mut neg {
            x.0 = p[x.0];
        }
        start = p[0];
        g.roots = vec![start];
    }
    c.size = g.size();
    c.note(|| format!("grammar: {}\nread as {read:?}\nforbidden {neg:?}", g.show()));
    let cfg = build(&g);
    Job { g, cfg, start, read, neg }
}

const AS: &str = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa";

/// An early choice is undone after places were passed that the other choices do not pass, while
/// much the same text follows.
fn undone(c: &mut C) -> Job {
    let r = &mut c.rng;
    let (s, x, l, n1, n2, a, b, cc, d, e) = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9);
    let len: usize = *r.pick(&[1, 2, 3, 5, 8, 15, 16, 17, 20, 31, 32, 33, 40, 70, 130]);
    // Many places within the text, or at the place where it begins.
    let dense = r.chance(1, 3);
    let heap = if r.chance(1, 8) { r.range(10, 150) } else { 1 };
    let mut rules = vec![(n1, vec![]), (n2, vec![])];
    let mut top = vec![n1, x];
    if r.bool() {
        top.insert(0, a);
    }
    if r.bool() {
        top.push(d);
    }
    rules.push((s, top));
    let mut ends = vec![d, e, b];
    r.shuffle(&mut ends);
    for first in [b, cc, cc] {
        let mut rhs = vec![first, l];
        if r.chance(3, 4) {
            rhs.splice(1..1, vec![n2; heap]);
        }
        if r.bool() {
            rhs.insert(1, b);
        }
        if r.chance(3, 4) {
            rhs.push(ends.pop().unwrap());
        }
        rules.push((x, rhs));
    }
    for k in [len, len + 1, len.saturating_sub(1), r.range(1, len + 2), 1] {
        let mut rhs = vec![a; k];
        if r.chance(1, 4) {
            rhs.push(b);
        }
        if dense {
            rhs = rhs.into_iter().flat_map(|x| [n1, x]).collect();
        }
        rules.push((l, rhs));
    }
    r.shuffle(&mut rules);
    let mut read = vec![Read::Nothing; 10];
    for (t, ch) in [(a, 'a'), (b, 'b'), (cc, 'c'), (d, 'd'), (e, 'ξ')] {
        read[t] = Read::Ch(ch);
    }
    let mut neg = vec![(n2, &AS[..len]), (n1, *r.pick(&["ca", "cb", "cba", "caa", "c", "b", "ba"]))];
    if r.chance(1, 3) {
        neg.push((n2, *r.pick(&["ab", "aad", "d"])));
    }
    r.shuffle(&mut neg);
    let g = G { n: 10, rules, roots: vec![0] };
    c.size = g.size();
    c.note(|| format!("grammar: {}\nread as {read:?}\nforbidden {neg:?}", g.show()));
    Job { cfg: build(&g), g, start: 0, read, neg }
}

fn random(c: &mut C) {
    let job = if c.rng.chance(1, 16) { undone(c) } else { job(c) };
    if choiceless_loop(&job.g) {
        return;
    }
    let finite = finite(&job.g);
    let before = snapshot(&job.cfg);
    for _ in 0..3 {
        let fuel = Fuel::new(FUEL);
        let rng = Rng::new(c.rng.next());
        let attempts = *c.rng.pick(&[0, 1, 2, 5, 30, 30]);
        let terminals = if finite { 100_000 } else { 40 };
        let limits = Some(Limits { terminals, negative_rule_attempts: attempts });
        let restarts = Rc::new(Cell::new(0));
        let (out, twin) = match c.rng.below(4) {
            0 => {
                let head: Vec<u8> = (0..c.rng.below(12)).map(|_| c.rng.next() as u8).collect();
                let tail = !finite || c.rng.bool();
                let inner = ByteSource::new(Bytes { head: Rc::new(head), at: 0, tail: tail.then_some(rng), fuel: fuel.clone() });
                let src = Watch { inner, restarts: restarts.clone() };
                let twin = job.random(&mut src.clone(), limits, &fuel);
                restarts.set(0);
                fuel.refill(FUEL);
                (job.random(&mut src.clone(), limits, &fuel), twin)
            }
            1 => {
                let src = Watch { inner: Edges(rng, fuel.clone()), restarts: restarts.clone() };
                let twin = job.random(&mut src.clone(), limits, &fuel);
                restarts.set(0);
                fuel.refill(FUEL);
                (job.random(&mut src.clone(), limits, &fuel), twin)
            }
            _ => {
                let src = Watch { inner: Bits(rng, fuel.clone()), restarts: restarts.clone() };
                let twin = job.random(&mut src.clone(), limits, &fuel);
                restarts.set(0);
                fuel.refill(FUEL);
                (job.random(&mut src.clone(), limits, &fuel), twin)
            }
        };
        let Some(out) = out else {
            c.count("runs given up", 1);
            continue;
        };
        ensure!(twin.as_ref() == Some(&out), "the same source state gives {twin:?} and then {out:?}");
        c.count("runs finished", 1);
        c.count("restarts seen", restarts.get());
        if job.neg.iter().all(|n| NEVER.contains(&n.1)) {
            ensure!(
                restarts.get() == 0,
                "generation went back {} times, but none of the forbidden texts {:?} can be written",
                restarts.get(),
                job.neg
            );
            c.count("runs with nothing to avoid", 1);
        }
        c.max("number of restarts in a run", restarts.get());
        match &out {
            Ok((syms, chars)) => {
                job.judge(syms, chars);
                c.count("successes judged", 1);
                c.max("number of terminals", syms.len() as u64);
                if restarts.get() > 0 {
                    c.count("successes after going back", 1);
                    c.nontrivial((&job.g.rules, chars));
                    c.sample(|| format!("{} forbidden {:?}: after {} restarts {:?}", job.g.show(), job.neg, restarts.get(), chars.iter().collect::<String>()));
                }
            }
            Err(RandomGenError::NegativeRuleAttemptsExceeded) => {
                c.count("runs in which the attempts ran out", 1);
                ensure!(
                    job.neg.iter().any(|n| !NEVER.contains(&n.1)),
                    "generation fails because of negative rules, but none of the forbidden texts {:?} can be written",
                    job.neg
                );
                ensure!(
                    restarts.get() + 1 >= attempts,
                    "the attempts ran out after {} restarts, {attempts} are allowed",
                    restarts.get()
                );
            }
            Err(RandomGenError::LimitExceeded) => {
                ensure!(!finite, "the limit of {terminals} terminals is reported as exceeded, but no derivation is that long");
                c.count("runs over the limit", 1);
            }
        }
    }
    ensure!(snapshot(&job.cfg) == before, "generation changed the grammar");
}

/// Each attempt may well succeed: with many attempts, generation has to.
fn avoidable(c: &mut C) {
    let r = &mut c.rng;
    // S ::= (N_i A_i)+ ; every A_i has alternatives of which some begin with a character that is
    // not forbidden to N_i, all of them not empty.
    let k = r.range(1, 3);
    let (a, b) = (1 + 2 * k, 2 + 2 * k);
    let mut rules = vec![];
    let mut s = vec![];
    let mut neg = vec![];
    let lead = r.below(3);
    for _ in 0..lead {
        s.push(*r.pick(&[a, b]));
    }
    for i in 0..k {
        let (n, x) = (1 + i, 1 + k + i);
        rules.push((n, vec![]));
        let bad = r.bool();
        neg.push((n, if bad { "a" } else { "b" }));
        let (bad, good) = if bad { (a, b) } else { (b, a) };
        let mut alts = vec![];
        for _ in 0..r.range(1, 5) {
            alts.push(bad);
        }
        for _ in 0..r.range(1, 2) {
            alts.push(good);
        }
        r.shuffle(&mut alts);
        for first in alts {
            let mut rhs = vec![first];
            for _ in 0..r.below(3) {
                rhs.push(*r.pick(&[a, b]));
            }
            rules.push((x, rhs));
        }
        s.extend([n, x]);
    }
    rules.push((0, s));
    r.shuffle(&mut rules);
    let g = G { n: 3 + 2 * k, rules, roots: vec![0] };
    c.size = g.size();
    c.note(|| format!("grammar: {}\n{a} is read as a, {b} as b; forbidden {neg:?}", g.show()));
    let mut read = vec![Read::Nothing; g.n];
    read[a] = Read::Ch('a');
    read[b] = Read::Ch('b');
    let cfg = build(&g);
    let job = Job { cfg, start: 0, read, neg, g };
    let fuel = Fuel::new(u64::MAX);
    let rng = Rng::new(c.rng.next());
    let restarts = Rc::new(Cell::new(0));
    let bytes = c.rng.below(4) == 0;
    let limits = Some(Limits { terminals: 100, negative_rule_attempts: if bytes { 260 } else { 500 } });
    let out = match bytes {
        // The byte that the next pick is made from takes every second value at least in the
        // course of 256 attempts.
        true => {
            let tail = c.rng.bool().then_some(rng);
            let head: Vec<u8> = (0..c.rng.below(6)).map(|_| c.rng.next() as u8).collect();
            let inner = ByteSource::new(Bytes { head: Rc::new(head), at: 0, tail, fuel: fuel.clone() });
            job.random(&mut Watch { inner, restarts: restarts.clone() }, limits, &fuel)
        }
        false => job.random(&mut Watch { inner: Bits(rng, fuel.clone()), restarts: restarts.clone() }, limits, &fuel),
    };
    match out {
        Some(Ok((syms, chars))) => job.judge(&syms, &chars),
        other => viol(format!(
            "the result is {other:?} after {} restarts; at each place at least one attempt in seven should succeed",
            restarts.get()
        )),
    }
    c.count("avoidable texts avoided", 1);
    if restarts.get() > 0 {
        c.nontrivial(&job.g.rules);
    }
}

/// There is no choice at all: the one output is either forbidden or not.
fn inevitable(c: &mut C) {
    let r = &mut c.rng;
    let nts = r.range(1, 4);
    let negs = r.range(1, 3);
    let ts = r.range(1, 3);
    let n = nts + negs + ts;
    let mut read = vec![Read::Nothing; n];
    for t in 0..ts {
        read[nts + negs + t] = [Read::Ch('a'), Read::Ch('b'), Read::Nothing][t];
    }
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    for l in 0..nts {
        let rhs = (0..if r.chance(1, 10) { r.range(5, 16) } else { r.below(5) })
            .map(|_| match r.below(6) {
                0 | 1 => nts + r.below(negs),
                2 if l + 1 < nts => r.range(l + 1, nts - 1),
                _ => nts + negs + r.below(ts),
            })
            .collect();
        rules.push((l, rhs));
    }
    for k in 0..negs {
        rules.push((nts + k, vec![]));
    }
    let mut neg: Vec<(usize, &'static str)> = vec![];
    for k in 0..negs {
        for _ in 0..r.range(1, 2) {
            neg.push((nts + k, match r.below(12) {
                0 => *r.pick(NEVER),
                1 => *r.pick(LONG),
                _ => POOL[*r.pick(&[0, 0, 1, 3, 4, 5, 6, 8])],
            }));
        }
    }
    if r.chance(1, 40) {
        // Long forbidden texts, and an output that is nearly or exactly one of them.
        let (a, b) = (nts + negs, nts + negs + 1);
        let (k, t) = lengthy(r);
        let mut rhs = vec![a; r.below(3)];
        rhs.push(nts);
        rhs.extend(vec![a; k + r.below(3) - 1]);
        if ts > 1 && r.bool() {
            rhs.push(b);
        }
        rules[0].1 = rhs;
        neg = vec![(nts, t)];
        if r.bool() {
            neg.push((nts, lengthy(r).1));
        }
    }
    r.shuffle(&mut neg);
    let limit = r.below(4) as u64;
    // Expand.
    let mut work = vec![0];
    let mut word = vec![];
    let mut text = String::new();
    let mut places: Vec<(usize, usize)> = vec![];
    while let Some(x) = work.pop() {
        if x < nts {
            work.extend(rules[x].1.iter().rev());
        } else if x < nts + negs {
            places.push((x, text.len()));
        } else {
            word.push(sym(x));
            if let Read::Ch(ch) = read[x] {
                text.push(ch);
            }
        }
    }
    if places.is_empty() || places.len() > 5 {
        return;
    }
    let forbidden = places.iter().any(|&(x, at)| neg.iter().any(|&(y, t)| x == y && text[at..].starts_with(t)));
    let g = G { n, rules, roots: vec![0] };
    c.size = g.size();
    c.note(|| format!("grammar: {}\nread as {read:?}\nforbidden {neg:?}; {limit} attempts allowed", g.show()));
    let cfg = build(&g);
    let job = Job { cfg, start: 0, read, neg, g };
    let fuel = Fuel::new(1_000_000);
    let restarts = Rc::new(Cell::new(0));
    let mut src = Watch { inner: Bits(Rng::new(c.rng.next()), fuel.clone()), restarts: restarts.clone() };
    let out = job.random(&mut src, Some(Limits { terminals: 1000, negative_rule_attempts: limit }), &fuel);
    match out {
        None => viol(format!("generation goes on after {} restarts, though only {text:?} can be generated", restarts.get())),
        Some(Ok(out)) => {
            ensure!(!forbidden, "{text:?} is generated, though it is forbidden ({:?})", job.neg);
            let chars: Vec<char> = text.chars().collect();
            ensure!(out == (word, chars), "{out:?} is generated instead of {text:?}");
            ensure!(restarts.get() == 0, "generation went back {} times, though nothing forbidden was generated", restarts.get());
            c.count("allowed texts without choices generated", 1);
        }
        Some(Err(e)) => {
            ensure!(forbidden && e == RandomGenError::NegativeRuleAttemptsExceeded, "generation of {text:?} fails with {e:?} ({:?})", job.neg);
            c.count("forbidden texts without choices refused", 1);
            c.nontrivial((&job.g.rules, &job.neg, limit));
        }
    }
}

/// Gives one of two fractions, depending on how often the start was mutated.
#[derive(Clone)]
struct Script {
    bad: f64,
    good: f64,
    fail: u64,
    restarts: Rc<Cell<u64>>,
    fuel: Fuel,
}

impl GenRange for Script {
    fn generate(&mut self, limit: f64) -> f64 {
        self.fuel.burn();
        limit * if self.restarts.get() < self.fail { self.bad } else { self.good }
    }
    fn mutate_start(&mut self, _: u64) {
        self.fuel.burn();
        self.restarts.set(self.restarts.get() + 1);
    }
}

/// The attempts made are those allowed.
fn scripted(c: &mut C) {
    let r = &mut c.rng;
    // S ::= lead N A; A ::= bad | good
    let (n, x, a, b) = (1, 2, 3, 4);
    let (bad, good, text) = if r.bool() { (a, b, "a") } else { (b, a, "b") };
    let mut s: Vec<usize> = (0..r.below(3)).map(|_| *r.pick(&[a, b])).collect();
    s.extend([n, x]);
    let mut alts = [bad, good];
    r.shuffle(&mut alts);
    let extra = r.below(3);
    let mut rules: Vec<(usize, Vec<usize>)> = vec![(0, s), (n, vec![])];
    for t in alts {
        let mut rhs = vec![t];
        rhs.extend((0..extra).map(|_| a));
        rules.push((x, rhs));
    }
    let g = G { n: 5, rules, roots: vec![0] };
    let text: &'static str = if extra > 0 && r.bool() { if text == "a" { "aa" } else { "ba" } } else { text };
    let limit: u64 = if r.chance(1, 500) { *r.pick(&[16384, 16385, 40_000, 65_535, 65_536, 70_000]) } else { *r.pick(&[0, 1, 2, 3, 7, 40, 100, 300]) };
    let unavoidable = r.chance(1, 4);
    let fail = if unavoidable { u64::MAX } else { (limit + r.below(5) as u64).saturating_sub(2) };
    c.size = g.size();
    c.note(|| format!("grammar: {}\nforbidden after {n}: {text:?}; {limit} attempts allowed, the first {fail} fail", g.show()));
    let cfg = build(&g);
    let mut read = vec![Read::Nothing; g.n];
    read[a] = Read::Ch('a');
    read[b] = Read::Ch('b');
    let mut job = Job { cfg, start: 0, read, neg: vec![], g };
    // Which fraction gives which alternative?
    let fuel = Fuel::new(1_000_000);
    let script = |lo: f64, hi: f64, fail: u64| Script { bad: lo, good: hi, fail, restarts: Rc::new(Cell::new(0)), fuel: fuel.clone() };
    let limits = Some(Limits { terminals: 100, negative_rule_attempts: limit });
    let probe = |f: f64| match job.random(&mut script(f, f, 0), limits, &fuel) {
        Some(Ok((syms, _))) => syms[syms.len() - 1 - extra].usize(),
        other => viol(format!("generation without negative rules gives {other:?}")),
    };
    let (lo, hi) = (probe(0.25), probe(0.75));
    if lo == hi {
        // Left to C23.
        return;
    }
    let (fbad, fgood) = if lo == bad { (0.25, 0.75) } else { (0.75, 0.25) };
    job.neg = vec![(n, text)];
    let mut src = script(fbad, fgood, fail);
    let restarts = src.restarts.clone();
    let Some(out) = job.random(&mut src, limits, &fuel) else {
        viol(format!("generation goes on after {} restarts, {limit} attempts are allowed", restarts.get()))
    };
    match &out {
        Ok((syms, chars)) => {
            job.judge(syms, chars);
            ensure!(fail <= limit, "generation succeeds after {fail} failures, {limit} attempts are allowed");
            if fail > 0 {
                c.nontrivial((&job.g.rules, limit, fail));
            }
        }
        Err(RandomGenError::NegativeRuleAttemptsExceeded) => {
            ensure!(fail >= limit, "generation gives up, though only {fail} attempts fail and {limit} are allowed");
            c.count("scripted runs in which the attempts ran out", 1);
        }
        Err(e) => viol(format!("generation fails with {e:?}")),
    }
    ensure!(restarts.get() <= limit + 2, "{} restarts were made, {limit} attempts are allowed", restarts.get());
    c.count("scripted runs", 1);
    if unavoidable && c.idx % 4096 == 6 {
        // Without limits there is a default number of attempts.
        let mut src = script(fbad, fgood, u64::MAX);
        let out = sut("random", || job.random(&mut src, None, &fuel));
        ensure!(out == Some(Err(RandomGenError::NegativeRuleAttemptsExceeded)), "without limits an unavoidable text gives {out:?}");
        c.count("default numbers of attempts used up", 1);
    }
}

fn run(c: &mut C) {
    match c.idx % 8 {
        5 => inevitable(c),
        6 => scripted(c),
        7 => avoidable(c),
        _ => random(c),
    }
}
