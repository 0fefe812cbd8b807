//! One deterministic tour of the whole API per index, logged line by line (C27, C28).

use crate::gcfg::{self, any_of, snapshot, sym, syms};
use crate::refg::G;
use crate::rng::{Rng, hash_bytes, mix};
use crate::source::{Bits, Bytes, Fuel, choiceless_loop, finite};
use crate::{bnf, rx};
use cfg_classify::CfgClassifyExt;
use cfg_classify::cyclical::Cycles;
use cfg_classify::useful::Usefulness;
use cfg_generate::weighted::random::{ByteSource, GenRange, Limits};
use cfg_generate::weighted::{NegativeRule, Random};
use cfg_grammar::precedenced_rule::Associativity;
use cfg_grammar::{Cfg, SymbolBitSet};
use cfg_load::{CfgLoadAdvancedExt, CfgLoadExt, LoadError};
use cfg_predict_distance::{DistanceDirection, MinimalDistance};
use cfg_predict_sets::{CfgSetsExt, LastSets, PredictSets};
use cfg_regexp_logic::{CfgRegexpExt, LexerMap};
use cfg_sequence::{CfgSequenceExt, Separator};
use cfg_symbol::Symbol;
use cfg_symbol_bit_matrix::{CfgRemapSymbolsExt, CfgSymbolBitMatrixExt, Remap};
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;

pub struct Log {
    pub lines: Vec<String>,
}

impl Log {
    fn put(&mut self, label: &str, text: String) {
        self.lines.push(format!("{label}: {text}"));
    }
    /// A step. A panic is an outcome like any other.
    fn step<R>(&mut self, label: &str, f: impl FnOnce(&mut Self) -> R) -> Option<R> {
        match catch_unwind(AssertUnwindSafe(|| f(self))) {
            Ok(r) => Some(r),
            Err(p) => {
                let what = if p.is::<crate::run::Inconclusive>() { "gave up" } else { "panicked" };
                self.put(label, what.into());
                None
            }
        }
    }
    pub fn hash(&self) -> u64 {
        self.lines.iter().fold(7, |h, l| mix(h ^ hash_bytes(l.as_bytes())))
    }
}

fn grammar(log: &mut Log, label: &str, cfg: &Cfg) {
    let s = snapshot(cfg);
    log.put(label, format!("{:?}", s.g));
    log.put(label, format!("{:?} {:?}", s.wrapped, s.names));
    log.put(label, format!("{:?}", s.histories));
    log.put(label, s.text);
}

fn bits(b: &SymbolBitSet) -> String {
    format!("{:?} of {}", b.iter().map(|s| s.usize()).collect::<Vec<_>>(), b.space())
}

fn analyses(log: &mut Log, g: &G, cfg: &Cfg, rng: &mut Rng) {
    let s = syms(g.n);
    // Lengths within the range of 32 bits.
    let moderate = g.minlen().iter().flatten().all(|&n| n < 1_000_000);
    log.step("sets", |log| {
        log.put("terminal", bits(&cfg.terminal_symbols()));
        log.put("nulling", bits(&cfg.nulling_symbols()));
        log.put("unused", bits(&cfg.unused_symbols()));
        let mut p = SymbolBitSet::new();
        p.productive(cfg);
        log.put("productive", bits(&p));
        log.put("bits", format!("{} {} {:?}", p.all(), p.is_empty(), p.bit_vec().to_bytes()));
        log.put("mini", miniserde::json::to_string(&p));
    });
    log.step("first", |log| {
        let first = cfg.first_sets();
        log.put("first", format!("{:?}", first.predict_sets()));
        for _ in 0..3 {
            let w: Vec<Symbol> = (0..rng.below(5)).map(|_| *rng.pick(&s)).collect();
            log.put("first of string", format!("{w:?} {:?}", first.first_set_for_string(&w)));
        }
        log.put("last", format!("{:?}", LastSets::new(cfg).predict_sets()));
        log.put("follow", format!("{:?}", cfg.follow_sets().predict_sets()));
    });
    log.step("ll", |log| log.put("ll", format!("{:?}", cfg.ll_parse_table().classify().classes())));
    log.step("lr", |log| {
        if g.size() < 40 {
            let mut copy = cfg.clone();
            let nodes = copy.lr0_fsm_builder().make_lr0_fsm(*rng.pick(&s));
            for n in nodes.iter().take(60) {
                log.put("lr", format!("{:?} {:?}", n.items, n.link));
            }
            grammar(log, "after lr", &copy);
        }
    });
    log.step("useful", |log| {
        let mut u = Usefulness::new(cfg);
        u.reachable(cfg.roots());
        log.put("useful", format!("{} {} {}", u.all_useful(), u.all_productive(), u.all_reachable()));
        for (r, _) in cfg.rules().zip(0..) {
            log.put("useful", format!("{:?}", u.usefulness(r).usefulness()));
        }
        log.put("useless", format!("{:?}", u.useless_rules(cfg).map(|r| r.rule().clone()).collect::<Vec<_>>()));
    });
    log.step("cycles", |log| {
        let mut cy = Cycles::new(cfg);
        log.put("cycles", format!("{} {:?}", cy.cycle_free(), cy.classify().collect::<Vec<_>>()));
    });
    log.step("recursion", |log| {
        let r = cfg.recursion();
        for x in r.recursive_rules() {
            log.put("recursion", format!("{:?} {:?}", x.rule, x.recursion));
        }
        for x in r.minimal_distances().take(if moderate { usize::MAX } else { 0 }) {
            log.put("recursion distance", format!("{:?} {:?} {:?}", x.rule, x.recursion, x.distances));
        }
    });
    log.step("distance", |log| {
        if !moderate || g.rules.is_empty() {
            return;
        }
        let mut md = MinimalDistance::new(cfg);
        let marks: Vec<(usize, usize)> = (0..rng.range(1, 3))
            .map(|_| {
                let i = rng.below(g.rules.len());
                (i, rng.below(g.rules[i].1.len() + 1))
            })
            .collect();
        log.put("distance", format!("{:?}", md.minimal_distances(&marks[..1], DistanceDirection::Forward)));
        log.put("distance", format!("{:?}", md.minimal_distances(&marks, DistanceDirection::Backward)));
        log.put("distance", format!("{:?}", md.minimal_distances(&marks, DistanceDirection::Symmetric)));
    });
    log.step("matrix", |log| {
        let (d, r, u) = (cfg.direct_derivation_matrix(), cfg.reachability_matrix(), cfg.unit_derivation_matrix());
        for &x in &s {
            log.put("direct", format!("{:?}", d.iter_row_syms(x).map(|y| y.usize()).collect::<Vec<_>>()));
            log.put("reach", format!("{:?}", r.iter_row_syms(x).map(|y| y.usize()).collect::<Vec<_>>()));
            log.put("unit", format!("{:?}", u.iter_row_syms(x).map(|y| y.usize()).collect::<Vec<_>>()));
        }
    });
    log.step("values", |log| {
        if !moderate {
            return;
        }
        let mut copy = cfg.clone();
        let t = g.terminal();
        let mut v: Vec<Option<u32>> = (0..g.n).map(|x| t[x].then_some(1)).collect();
        copy.rhs_closure_with_values(&mut v);
        log.put("values", format!("{v:?}"));
    });
}

fn transforms(log: &mut Log, cfg: &Cfg, rng: &mut Rng) {
    let limit = rng.range(2, 4);
    log.step("limit", |log| {
        let mut x = cfg.clone();
        x.limit_rhs_len(Some(limit));
        grammar(log, "limit", &x);
        for col in 0..3 {
            log.put("column", format!("{:?}", x.column(col).map(|d| (d.lhs, d.predot, d.postdot, d.earley)).collect::<Vec<_>>()));
        }
    });
    log.step("binarize", |log| {
        let mut x = cfg.clone();
        x.limit_rhs_len(Some(2));
        let nulling = x.binarize_and_eliminate_nulling_rules();
        grammar(log, "binarized", &x);
        grammar(log, "nulling", &nulling);
        x.wrap_input();
        grammar(log, "wrapped", &x);
        log.put("empty", format!("{} {}", x.is_empty(), x.has_roots()));
    });
    log.step("proper", |log| {
        let mut x = cfg.clone();
        let was = x.make_proper();
        log.put("proper", format!("{was}"));
        grammar(log, "proper", &x);
    });
    log.step("cycles", |log| {
        let mut x = cfg.clone();
        Cycles::new(&mut x).remove_cycles();
        grammar(log, "cycles removed", &x);
        let mut x = cfg.clone();
        Cycles::new(&mut x).rewrite_cycles();
        grammar(log, "cycles rewritten", &x);
    });
    log.step("remap", |log| {
        let mut x = cfg.clone();
        let n = x.num_syms();
        let rank = rng.perm(n);
        let mut r = Remap::new(&mut x);
        r.reorder_symbols(|a, b| rank[a.usize()].cmp(&rank[b.usize()]));
        r.remove_unused_symbols();
        let m = r.get_mapping();
        log.put("mapping", format!("{:?} {:?} {}", m.to_internal, m.to_external, miniserde::json::to_string(&m)));
        grammar(log, "remapped", &x);
        let mut x = cfg.clone();
        x.remap().remove_unused_symbols();
        grammar(log, "used only", &x);
    });
    log.step("container", |log| {
        let mut x = cfg.clone();
        x.sort();
        grammar(log, "sorted", &x);
        x.dedup();
        grammar(log, "deduped", &x);
        x.reverse();
        x.sort_by(|a, b| (b.rhs.len(), &a.rhs).cmp(&(a.rhs.len(), &b.rhs)));
        x.extend(cfg);
        x.retain(|r| r.rhs.len() != 2);
        grammar(log, "shuffled", &x);
        log.put("equivalent", format!("{} {}", x.equivalent(cfg), cfg.equivalent(&cfg.clone())));
        let mut names: Vec<(String, usize)> = x.sym_source().name_map().into_iter().map(|(n, s)| (n.to_string(), s.usize())).collect();
        names.sort();
        log.put("names", format!("{names:?}"));
    });
    log.step("sequence", |log| {
        let mut x = cfg.clone();
        let [a, b, sep] = x.sym();
        let lo = *rng.pick(&[0u32, 0, 1, 2, 3, 7, 100]);
        let hi = lo + rng.below(20) as u32 + 1;
        let sep = match rng.below(4) {
            0 => Separator::Null,
            1 => Separator::Proper(sep),
            2 => Separator::Trailing(sep),
            _ => Separator::Liberal(sep),
        };
        let open = rng.bool();
        let e = syms(1)[0];
        if open {
            CfgSequenceExt::sequence(&mut x, a).separator(sep).inclusive(lo, None).rhs(e);
        } else {
            CfgSequenceExt::sequence(&mut x, a).separator(sep).inclusive(lo, Some(hi)).rhs(e);
        }
        CfgSequenceExt::sequence(&mut x, b).inclusive(1, None).rhs(e);
        grammar(log, "sequences", &x);
    });
    log.step("precedence", |log| {
        let mut x = cfg.clone();
        let [e, num, op, neg] = x.sym();
        let assoc = *rng.pick(&[Associativity::Left, Associativity::Right, Associativity::Group]);
        x.precedenced_rule(e)
            .rhs([num])
            .lower_precedence()
            .rhs([neg, e])
            .associativity(assoc)
            .lower_precedence()
            .rhs([e, op, e])
            .associativity(assoc)
            .finalize();
        grammar(log, "precedence", &x);
    });
}

fn generate(log: &mut Log, g: &G, cfg: &Cfg, rng: &mut Rng) {
    if choiceless_loop(g) {
        return;
    }
    let fuel = Fuel::new(20_000);
    let start = g.rules.first().map_or(0, |r| r.0);
    let neg: Vec<NegativeRule> = if rng.chance(1, 3) && g.rules.len() > 1 {
        vec![NegativeRule { sym: sym(g.rules[1].0), chars: "ab".into() }]
    } else {
        vec![]
    };
    fn one<R: GenRange + Clone>(log: &mut Log, cfg: &Cfg, start: usize, mut src: R, neg: &[NegativeRule], fuel: &Fuel) {
        for limit in [Some(30), Some(5), Some(0)] {
            log.step("generate", |log| {
                fuel.refill(20_000);
                let limits = limit.map(|terminals| Limits { terminals, negative_rule_attempts: 10 });
                let fuel = fuel.clone();
                let out = cfg.random(sym(start), limits, &mut src, neg, move |s, _| {
                    fuel.burn();
                    Some((b'a' + s.usize() as u8 % 3) as char)
                });
                log.put("generated", format!("{out:?}"));
            });
        }
    }
    let seed = rng.next();
    one(log, cfg, start, Bits(Rng::new(seed), fuel.clone()), &neg, &fuel);
    one(
        log,
        cfg,
        start,
        ByteSource::new(Bytes { head: Rc::new(vec![0, 255, 128]), at: 0, tail: Some(Rng::new(seed)), fuel: fuel.clone() }),
        &neg,
        &fuel,
    );
    if finite(g) {
        use rand::SeedableRng;
        one(log, cfg, start, rand::rngs::SmallRng::seed_from_u64(seed), &[], &fuel);
    }
}

fn lexer(log: &mut Log, map: &mut LexerMap, rng: &mut Rng) {
    map.compute();
    log.put("classes", format!("{:?}", map.classes.iter().map(|(c, s)| (c.iter().collect::<Vec<_>>(), s.usize())).collect::<Vec<_>>()));
    for _ in 0..12 {
        let ch = match rng.below(3) {
            0 => *rng.pick(&['a', 'b', 'z', 'A', '0', '9', ' ', '\n', '_', '\u{0}']),
            1 => rng.below(128) as u8 as char,
            _ => char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('é'),
        };
        log.put("lexer", format!("{ch:?} {:?}", map.get(ch)));
    }
}

fn error(e: &LoadError) -> String {
    format!("{e:?} {e}")
}

fn load(log: &mut Log, rng: &mut Rng) {
    let decls = bnf::basic(rng);
    let mut toks = bnf::tokens(&decls, false, rng);
    if rng.chance(1, 4) {
        let at = rng.below(toks.len());
        toks.remove(at);
    }
    let text = bnf::render(&toks, rng);
    basic(log, &text);
    let decls = crate::p::c18::tree(rng);
    let mut toks = bnf::tokens(&decls, true, rng);
    if rng.chance(1, 4) {
        let at = rng.below(toks.len());
        toks.remove(at);
    }
    let text = bnf::render(&toks, rng);
    rich(log, &text, rng);
}

fn basic(log: &mut Log, text: &str) {
    log.put("text", text.to_string());
    log.step("load", |log| match Cfg::load(text) {
        Ok(cfg) => {
            grammar(log, "loaded", &cfg);
            log.put("bnf", cfg.to_bnf());
        }
        Err(e) => log.put("error", error(&e)),
    });
}

fn rich(log: &mut Log, text: &str, rng: &mut Rng) {
    log.put("text", text.to_string());
    log.step("load advanced", |log| match Cfg::load_advanced(text) {
        Ok(mut got) => {
            grammar(log, "loaded", &got.cfg);
            let map: BTreeMap<_, _> = got.sym_map.iter().collect();
            let actions: BTreeMap<_, _> = got.actions.iter().collect();
            log.put("names", format!("{map:?} {actions:?} {}", bits(&got.sbs)));
            lexer(log, &mut got.lexer_map, rng);
        }
        Err(e) => log.put("error", error(&e)),
    });
}

fn regexp(log: &mut Log, p: &str, rng: &mut Rng) {
    log.put("pattern", p.to_string());
    if matches!(rx::compile(p), Some(None)) {
        return;
    }
    log.step("regexp", |log| match Cfg::from_regexp(p) {
        Ok((cfg, mut map)) => {
            grammar(log, "regexp", &cfg);
            lexer(log, &mut map, rng);
        }
        Err(e) => log.put("error", e.to_string()),
    });
}

/// The tour of one index.
pub fn tour(seed: u64, idx: u64) -> Log {
    let mut rng = Rng::new(mix(seed) ^ mix(idx.wrapping_mul(0x9137_0017)));
    let mut log = Log { lines: vec![] };
    let g = any_of(&mut rng, idx, seed, false);
    let weights: Vec<Option<u32>> = g.rules.iter().map(|_| rng.chance(1, 2).then(|| rng.range(1, 5000) as u32)).collect();
    let cfg = gcfg::build_weighted(&g, if rng.bool() { &weights } else { &[] });
    grammar(&mut log, "grammar", &cfg);
    analyses(&mut log, &g, &cfg, &mut rng);
    transforms(&mut log, &cfg, &mut rng);
    generate(&mut log, &g, &cfg, &mut rng);
    load(&mut log, &mut rng);
    let p = rx::pattern(&mut rng);
    regexp(&mut log, &p, &mut rng);
    log
}

/// The tour, and what the monitor of another property observes in one of its cases.
pub fn entry(seed: u64, idx: u64) -> Log {
    let mut log = tour(seed, idx);
    let others: Vec<_> = crate::p::PROPS.iter().filter(|p| !["C02", "C27", "C28"].contains(&p.id)).collect();
    let prop = others[idx as usize % others.len()];
    log.lines.extend(crate::run::observe(prop, seed, idx / others.len() as u64));
    log
}

/// A part of the tour that an interpreter can run in tens of seconds.
pub fn short(seed: u64, idx: u64) -> Log {
    let mut rng = Rng::new(mix(seed) ^ mix(idx.wrapping_mul(0x7137_0017)));
    let mut log = Log { lines: vec![] };
    match idx % 4 {
        0 | 1 => {
            let mut g = any_of(&mut rng, idx / 4 * 4 + 1, seed, true);
            g.rules.truncate(6);
            let cfg = gcfg::build(&g);
            grammar(&mut log, "grammar", &cfg);
            if idx % 4 == 0 {
                analyses(&mut log, &g, &cfg, &mut rng);
                generate(&mut log, &g, &cfg, &mut rng);
            } else {
                transforms(&mut log, &cfg, &mut rng);
            }
        }
        2 => basic(&mut log, *rng.pick(&["A ::= b A | () ;", "s ::= x+ ;", "s ::= x* s | y;", "s ::= ;", "a ::= b c\nd"])),
        _ => {
            let p = *rng.pick(&["a", "ab|c", "[a-c]x", "(ab)*", "a{2,3}", "[^x]?"]);
            regexp(&mut log, p, &mut rng);
            rich(&mut log, *rng.pick(&["A ::= \"x\" > z;", "A ::= b; lexer { b ::= Regexp(\"a\"); }", "A ::= ;", "A ::= b |"]), &mut rng);
        }
    }
    log
}
