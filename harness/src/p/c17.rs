use crate::bnf;
use crate::ensure;
use crate::gcfg;
use crate::refg::{G, Hom};
use crate::run::{C, Prop, sut, viol};
use cfg_grammar::Cfg;
use cfg_load::CfgLoadExt;
use cfg_symbol::Symbol;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C17",
    quick: 240_000,
    thorough: 2_000_000,
    rule: "non-trivial: a name with a non-empty language; distinct: by syntax tree",
    assumptions: &[
        "languages are compared up to a bounded length under homomorphisms of the terminals to a few letters",
        "names do not collide with the names gensyms are shown with",
    ],
    run,
};

fn run(c: &mut C) {
    if c.idx % 16_384 == 900 {
        let g = large(c);
        return round_trip(c, g);
    }
    if c.idx % 16_384 != 300 && c.rng.chance(1, 3) {
        let mut g = gcfg::any(c);
        g.rules.truncate(20);
        return round_trip(c, g);
    }
    let decls = if c.idx % 16_384 == 300 {
        let n = *c.rng.pick(&[260, 300, 520, 700, 1100, 1400]);
        bnf::big(&mut c.rng, false, n)
    } else {
        bnf::basic(&mut c.rng)
    };
    let toks = bnf::tokens(&decls, false, &mut c.rng);
    let text = bnf::render(&toks, &mut c.rng);
    c.size = text.len();
    c.note(|| format!("text: {text:?}"));
    let cfg = match sut("Cfg::load", || Cfg::load(&text)) {
        Ok(cfg) => cfg,
        Err(e) => viol(format!("the well-formed text {text:?} was refused: {e}")),
    };
    let d = bnf::describe(&decls);
    let got = sut("read", || gcfg::read(&cfg));
    let names = cfg.sym_source().names();
    let mut at: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (i, n) in names.iter().enumerate() {
        if let Some(n) = n {
            at.entry(n.to_string()).or_default().push(i);
        }
    }
    ensure!(
        at.keys().eq(d.names.keys()) && at.values().all(|v| v.len() == 1),
        "the names in {text:?} are {:?}, but the grammar's named symbols are {at:?}", d.names.keys()
    );
    let sym: BTreeMap<&String, usize> = at.iter().map(|(n, v)| (n, v[0])).collect();
    let root = d.names.iter().find(|x| *x.1 == d.g.roots[0]).unwrap().0;
    ensure!(got.roots == vec![sym[root]], "the roots are {:?}, expected {root} ({})", got.roots, sym[root]);
    for (n, s) in cfg.sym_source().name_map() {
        ensure!(sym.get(&n.to_string()) == Some(&s.usize()), "the name map gives {} for {n:?}", s.usize());
    }
    // Languages.
    let (want, have) = (d.g.infinite_over_terminals(), got.infinite_over_terminals());
    for (n, &i) in &d.names {
        ensure!(
            want[i] == have[sym[n]],
            "loaded from {text:?}, {n:?} derives {} strings, but should derive {}; loaded: {}",
            if want[i] { "finitely many" } else { "infinitely many" },
            if want[i] { "infinitely many" } else { "finitely many" },
            got.show()
        );
        c.count("names of infinite languages", want[i] as u64);
    }
    for _ in 0..2 {
        let mut h = Hom::random(&d.g, &mut c.rng);
        let want = h.languages(&d.g);
        let mut there = h.clone();
        there.img = vec![None; got.n];
        for (n, &i) in &d.names {
            there.img[sym[n]] = h.img[i];
        }
        let have = there.languages(&got);
        for (n, &i) in &d.names {
            if let Some(diff) = h.diff(&want[i], &have[sym[n]]) {
                viol(format!("loaded from {text:?}, the language of {n:?} {diff}; names {:?}; loaded: {}", d.names, got.show()));
            }
            if want[i].iter().any(|&w| w != 0) {
                c.nontrivial(&decls);
            }
            c.count("languages compared", 1);
        }
        h.img.clear();
    }
    c.sample(|| text.clone());
}

/// Hundreds of rules, or rules of hundreds of symbols.
fn large(c: &mut C) -> G {
    let n = *c.rng.pick(&[3, 70, 300, 700]);
    let (rules, len) = *c.rng.pick(&[(3, 1200), (20, 300), (300, 4), (1100, 2)]);
    let rules = (0..rules)
        .map(|_| {
            let len = c.rng.range(0, len);
            (c.rng.below(n), (0..len).map(|_| c.rng.below(n)).collect())
        })
        .collect();
    G { n, rules, roots: vec![0] }
}

fn round_trip(c: &mut C, g: G) {
    if g.rules.is_empty() {
        return;
    }
    let mut pool: Vec<String> = bnf::NAMES.iter().map(|s| s.to_string()).filter(|n| !n.starts_with('g')).collect();
    c.rng.shuffle(&mut pool);
    let cfg = sut("Cfg: build", || {
        let mut cfg = Cfg::new();
        let s: Vec<Symbol> = (0..g.n)
            .map(|i| cfg.next_sym(Some(pool.get(i).cloned().unwrap_or_else(|| format!("n_{i}")).into())))
            .collect();
        for (l, r) in &g.rules {
            let rhs: Vec<Symbol> = r.iter().map(|&x| s[x]).collect();
            cfg.rule(s[*l]).rhs(rhs);
        }
        cfg
    });
    let text = sut("to_bnf", || cfg.to_bnf());
    c.note(|| format!("written: {text}"));
    let back = match sut("Cfg::load", || Cfg::load(&text)) {
        Ok(cfg) => cfg,
        Err(e) => viol(format!("the text written was refused: {e}: {text:?}")),
    };
    let rules = |cfg: &Cfg| -> Vec<(String, Vec<String>)> {
        let name = |s: Symbol| cfg.sym_source().name_of(s).to_string();
        let mut v: Vec<_> = cfg.rules().map(|r| (name(r.lhs), r.rhs.iter().map(|&s| name(s)).collect())).collect();
        v.sort();
        v
    };
    let (a, b) = (rules(&cfg), rules(&back));
    ensure!(a == b, "written as {text:?} and loaded again, the rules {a:?} became {b:?}");
    c.count("grammars written and loaded again", 1);
    c.nontrivial(&g.rules);
}
