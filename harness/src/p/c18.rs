use crate::bnf::{self, Alt, Decl, Frag, Rule};
use crate::ensure;
use crate::gcfg;
use crate::refg::Earley;
use crate::rng::Rng;
use crate::run::{C, Prop, inconclusive, sut, viol};
use crate::rx;
use cfg_grammar::Cfg;
use cfg_load::CfgLoadAdvancedExt;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C18",
    quick: 40_000,
    thorough: 1_200_000,
    rule: "non-trivial: a name with a non-empty language; distinct: by syntax tree",
    assumptions: &[
        "regular expressions are well-formed and without look-around; regex-automata decides what they match",
        "all strings over up to three chosen characters (and one letter for each undefined name) up to a length",
    ],
    run,
};

pub fn literal(rng: &mut Rng) -> String {
    if rng.chance(1, 20) {
        // Long ones that differ somewhere only.
        let n = *rng.pick(&[8, 16, 17, 32, 33, 64, 65]);
        let mut s = "ab".repeat(n).chars().take(n).collect::<Vec<_>>();
        match rng.below(4) {
            0 => s.push(*rng.pick(&['a', 'b', ' '])),
            1 => {
                let k = rng.below(n);
                s[k] = *rng.pick(&['a', 'b', 'c']);
            }
            2 => s[n - 1] = *rng.pick(&['B', 'A', 'á']),
            _ => {}
        }
        return s.into_iter().collect();
    }
    let n = if rng.chance(1, 12) { 0 } else { rng.range(1, 3) };
    (0..n)
        .map(|_| if rng.chance(2, 3) { *rng.pick(&['a', 'b']) } else { *rng.pick(&['"', '\\', 'c', ' ', '\n', ';', 'é', '漢', '\u{10ffff}', '\u{80}', 'ÿ', 'Z', '~']) })
        .collect()
}

pub fn tree(rng: &mut Rng) -> Vec<Decl> {
    let mut pool = bnf::names(rng, 2);
    let extra = rng.below(4);
    for n in bnf::names(rng, extra + 2) {
        if !pool.contains(&n) {
            pool.push(n);
        }
    }
    if rng.chance(1, 10) {
        // Names like those that might be given to the symbols of literals.
        for _ in 0..rng.range(1, 2) {
            let n = rng.pick(&["__lex0", "__lex1", "__lex_0", "__lex", "__lex__1", "__regexp0"]).to_string();
            if !pool.contains(&n) {
                pool.push(n);
            }
        }
        rng.shuffle(&mut pool);
    }
    let big = bnf::many(rng, &mut pool);
    let (wide, long) = bnf::extents(rng);
    let split = rng.below(pool.len() + 1);
    let rule = |rng: &mut Rng, lexer: bool, pool: &[String]| -> Rule {
        let lhs = if lexer { &pool[split.min(pool.len() - 1)..] } else { &pool[..split.max(1)] };
        let l = rng.pick(lhs).clone();
        let act = |rng: &mut Rng| {
            rng.chance(1, 4).then(|| if rng.chance(1, 300) { "act_".repeat(*rng.pick(&[4, 16, 64, 100])) } else { rng.pick(&["act", "A", "do_it2", "_"]).to_string() })
        };
        let alts = if rng.chance(1, 8) {
            vec![Alt { frags: vec![], action: act(rng) }]
        } else {
            (0..rng.range(1, wide))
                .map(|_| Alt {
                    frags: (0..rng.range(1, long))
                        .map(|_| {
                            let n = rng.pick(pool).clone();
                            match rng.below(if lexer { 12 } else { 10 }) {
                                0 => Frag::Plus(n),
                                1 => Frag::Star(n),
                                2 | 3 | 10 => Frag::Str(literal(rng)),
                                4 | 11 => {
                                    let mut p = rx::pattern(rng);
                                    if !matches!(rx::compile(&p), Some(Some(_))) {
                                        p = "[ab]".into();
                                    }
                                    Frag::Regexp(p)
                                }
                                _ => Frag::Name(n),
                            }
                        })
                        .collect(),
                    action: act(rng),
                })
                .collect()
        };
        Rule { lhs: l, alts }
    };
    let n_rules = if big > 0 { rng.range(1, big / 5) } else if rng.chance(1, 60) { rng.range(8, 20) } else { rng.range(1, 5) };
    let mut out = vec![];
    for _ in 0..n_rules {
        if rng.chance(1, 4) {
            let k = rng.range(1, 3);
            out.push(Decl::Lexer((0..k).map(|_| rule(rng, true, &pool)).collect()));
        } else {
            out.push(Decl::Rule(rule(rng, false, &pool)));
        }
    }
    out
}

fn run(c: &mut C) {
    let decls = if c.idx % 8192 == 300 {
        let n = *c.rng.pick(&[260, 300, 520, 700, 1100, 1400]);
        bnf::big(&mut c.rng, true, n)
    } else {
        tree(&mut c.rng)
    };
    let toks = bnf::tokens(&decls, true, &mut c.rng);
    let text = bnf::render(&toks, &mut c.rng);
    c.size = text.len();
    c.note(|| format!("text: {text}"));
    let (parser, lexer) = bnf::ordered(&decls);
    let in_parser: BTreeSet<&String> = parser.iter().map(|r| &r.lhs).collect();
    let in_lexer: BTreeSet<&String> = lexer.iter().map(|r| &r.lhs).collect();
    let r = sut("Cfg::load_advanced", || Cfg::load_advanced(&text));
    if in_parser.intersection(&in_lexer).next().is_some() {
        ensure!(r.is_err(), "a name is defined in both the parser and the lexer of {text:?}, but it is no error");
        c.count("names in both parser and lexer refused", 1);
        return;
    }
    let mut got = match r {
        Ok(g) => g,
        Err(e) => viol(format!("the well-formed text {text:?} was refused: {e}")),
    };
    let d = bnf::describe(&decls);
    let g = sut("read", || gcfg::read(&got.cfg));
    // Names.
    // Each literal has a symbol with a name of its own.
    let lexnames: BTreeSet<String> = got.sym_map.keys().filter(|&n| !d.names.contains_key(n)).cloned().collect();
    ensure!(
        d.names.keys().all(|n| got.sym_map.contains_key(n)) && lexnames.len() == d.literals.len(),
        "the name map has {:?}, expected {:?} and {} names of literals", got.sym_map.keys(), d.names.keys(), d.literals.len()
    );
    let sym: BTreeMap<&String, usize> = got.sym_map.iter().map(|(n, s)| (n, s.usize())).collect();
    let distinct: BTreeSet<usize> = sym.values().copied().collect();
    ensure!(distinct.len() == sym.len(), "two names share a symbol: {sym:?}");
    for (n, s) in &got.sym_map {
        ensure!(s.usize() < g.n, "{n:?} is mapped to a symbol outside the grammar");
        let shown = got.cfg.sym_source().name_of(*s).to_string();
        ensure!(shown == *n, "the symbol of {n:?} is named {shown:?}");
    }
    // Root.
    let root = d.names.iter().find(|x| *x.1 == d.g.roots[0]).unwrap().0;
    ensure!(g.roots == vec![sym[root]], "the roots are {:?}, expected {root} ({})", g.roots, sym[root]);
    // Lexemes.
    let lexemes: BTreeSet<usize> = got.sbs.iter().map(|s| s.usize()).collect();
    let want: BTreeSet<usize> = in_lexer.iter().map(|n| sym[*n]).chain(lexnames.iter().map(|n| sym[n])).collect();
    ensure!(lexemes == want, "the lexemes are {lexemes:?}, expected {want:?}; names {sym:?}");
    // Actions and numbers.
    let want: BTreeMap<usize, Option<String>> = d.alts.iter().enumerate().map(|(i, a)| (i + 1, a.1.clone())).collect();
    ensure!(got.actions == want, "the actions are {:?}, expected {want:?}", got.actions);
    let by_name: BTreeMap<usize, &String> = d.names.iter().map(|(n, &i)| (i, n)).collect();
    for (i, (l, _)) in d.alts.iter().enumerate() {
        let with: Vec<_> = got.cfg.rules().filter(|r| r.history.origin().id as usize == i + 1).collect();
        ensure!(
            with.len() == 1 && with[0].lhs.usize() == sym[by_name[l]],
            "alternative {} is of {:?}, but the rules with its number are {with:?}", i + 1, by_name[l]
        );
    }
    sut("LexerMap::compute", || got.lexer_map.compute());
    // The symbols of literals.
    let earley = Earley::new(&g);
    for t in d.literals.keys() {
        let chars: Vec<char> = t.chars().collect();
        let reads = |x: usize, p: usize| got.lexer_map.get(chars[p]).iter().any(|y| y.usize() == x);
        let fits = |s: usize| earley.run(s, chars.len(), &reads, &|_, _| None).accepted;
        ensure!(lexnames.iter().any(|n| fits(sym[n])), "no symbol stands for {t:?}: {}", g.show());
    }
    // Languages.
    let mut own: Vec<[bool; 3]> = d.g.terminal().iter().map(|&t| [t, t, false]).collect();
    for (t, &s) in &d.literals {
        own[s] = [true, !t.is_empty(), false];
    }
    let extents: Option<Vec<_>> = d.regexps.iter().map(|(p, &s)| Some((s, rx::extent(p)?))).collect();
    if let Some(extents) = extents {
        for (s, x) in extents {
            own[s] = x;
        }
        let (want, have) = (d.g.infinite(&own), g.infinite_over_terminals());
        for (n, &i) in &d.names {
            ensure!(
                want[i] == have[sym[n]],
                "loaded from {text:?}, {n:?} derives {} strings, but should derive {}; loaded: {}",
                if want[i] { "finitely many" } else { "infinitely many" },
                if want[i] { "infinitely many" } else { "finitely many" },
                g.show()
            );
            c.count("names of infinite languages", want[i] as u64);
        }
    }
    let mut matchers = BTreeMap::new();
    let mut pool: Vec<char> = vec!['a', 'b'];
    for p in d.regexps.keys() {
        let Some(Some(re)) = rx::compile(p) else { inconclusive() };
        matchers.insert(p, re);
        pool.extend(rx::interesting(p, &mut c.rng));
    }
    for t in d.literals.keys() {
        pool.extend(t.chars());
    }
    pool.extend(['a', 'b']);
    let undefined: Vec<&String> =
        d.names.iter().filter(|&(n, _)| !in_parser.contains(n) && !in_lexer.contains(n)).map(|x| x.0).collect();
    for _ in 0..2 {
        let (h, mut letters) = rx::letters(&pool, &mut c.rng);
        // One letter may stand for an undefined name instead of a character.
        let mark = if !undefined.is_empty() && h.base > 1 && c.rng.bool() {
            letters.pop();
            Some((*c.rng.pick(&undefined)).clone())
        } else {
            None
        };
        let mut init = vec![h.nothing(); d.g.n];
        for (p, &s) in &d.regexps {
            for w in h.words() {
                if w.iter().all(|&i| i < letters.len()) && matchers[p].full(&w.iter().map(|&i| letters[i]).collect::<String>()) {
                    h.add(&mut init[s], &w);
                }
            }
        }
        for (t, &s) in &d.literals {
            let w: Option<Vec<usize>> = t.chars().map(|ch| letters.iter().position(|&l| l == ch)).collect();
            if let Some(w) = w {
                h.add(&mut init[s], &w);
            }
        }
        let mut have = sut("LexerMap::get", || rx::terminal_languages(&h, &letters, &g, &got.lexer_map));
        if let Some(u) = &mark {
            h.add(&mut init[d.names[u]], &[h.base - 1]);
            h.add(&mut have[sym[u]], &[h.base - 1]);
        }
        let want = h.languages_from(&d.g, init);
        let have = h.languages_from(&g, have);
        let mut shown = letters.clone();
        if mark.is_some() {
            shown.push('�');
        }
        for (n, &i) in &d.names {
            if let Some(diff) = rx::show_diff(&h, &shown, &want[i], &have[sym[n]]) {
                viol(format!("loaded from {text:?}, {n:?} {diff} (� stands for the undefined name {mark:?}): {}", g.show()));
            }
            if want[i].iter().any(|&w| w != 0) {
                c.nontrivial(&decls);
                c.count("strings derived", want[i].iter().map(|w| w.count_ones() as u64).sum());
            }
            c.count("languages compared", 1);
        }
    }
    c.sample(|| text.clone());
}
