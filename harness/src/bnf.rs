//! Workloads and references for the loaders: texts made from syntax trees.

use crate::refg::G;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Frag {
    Name(String),
    Plus(String),
    Star(String),
    /// Basic texts only.
    Unit,
    /// Rich texts only.
    Str(String),
    Regexp(String),
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Alt {
    pub frags: Vec<Frag>,
    pub action: Option<String>,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Rule {
    pub lhs: String,
    /// One alternative without fragments: an empty rule.
    pub alts: Vec<Alt>,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum Decl {
    Rule(Rule),
    Lexer(Vec<Rule>),
}


pub const NAMES: &[&str] = &[
    "A", "B", "a", "b", "x1", "_", "_y", "Ab_2c", "AB", "A1", "start", "Regexp", "g1", "g10", "rule", "lexers", "Lexer", "lexer_", "_lexer", "lexer1", "LEXER", "lexe", "zz9",
    "verylongnamethatgoesonandonforquiteawhile",
];

pub fn names(rng: &mut Rng, k: usize) -> Vec<String> {
    let mut v: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    rng.shuffle(&mut v);
    v.truncate(k);
    if rng.chance(1, 6) && k > 1 {
        // Two names that are nearly the same.
        let a = rng.below(k);
        let b = (a + 1 + rng.below(k - 1)) % k;
        let base = v[a].clone();
        let near = match rng.below(7) {
            0 => format!("{base}_"),
            1 => format!("_{base}"),
            2 => format!("{base}0"),
            3 => base.to_ascii_uppercase(),
            4 => base.to_ascii_lowercase(),
            5 => format!("{base}{base}"),
            _ => base[..base.len() - 1].to_string(),
        };
        let ident = near.starts_with(|ch: char| ch.is_ascii_alphabetic() || ch == '_');
        if ident && near != "lexer" && !v.contains(&near) {
            v[b] = near;
        }
    }
    v
}

pub fn gap(rng: &mut Rng, need: bool, s: &mut String) {
    if need || rng.chance(1, 2) {
        for _ in 0..if rng.chance(1, 5) { rng.range(1, 4) } else { 1 } {
            s.push(*rng.pick(&[' ', ' ', ' ', '\n', '\t']));
        }
    }
}

pub fn quote(rng: &mut Rng, t: &str, s: &mut String) {
    s.push('"');
    for ch in t.chars() {
        if ch == '"' || ch == '\\' || rng.chance(1, 12) {
            s.push('\\');
        }
        s.push(ch);
    }
    s.push('"');
}

/// The tokens of a text; whitespace is put between them by `render`.
pub fn tokens(decls: &[Decl], rich: bool, rng: &mut Rng) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let rule = |r: &Rule, rng: &mut Rng, out: &mut Vec<String>| {
        out.push(r.lhs.clone());
        out.push("::=".into());
        for (i, alt) in r.alts.iter().enumerate() {
            if i > 0 {
                out.push("|".into());
            }
            for (k, f) in alt.frags.iter().enumerate() {
                if k > 0 && rich {
                    out.push("~".into());
                }
                match f {
                    Frag::Name(n) => out.push(n.clone()),
                    Frag::Plus(n) => out.extend([n.clone(), "+".into()]),
                    Frag::Star(n) => out.extend([n.clone(), "*".into()]),
                    Frag::Unit => out.extend(["(".into(), ")".into()]),
                    Frag::Str(t) => {
                        let mut s = String::new();
                        quote(rng, t, &mut s);
                        out.push(s);
                    }
                    Frag::Regexp(t) => {
                        let mut s = String::new();
                        quote(rng, t, &mut s);
                        out.extend(["Regexp".into(), "(".into(), s, ")".into()]);
                    }
                }
            }
            if let Some(a) = &alt.action {
                out.extend([">".into(), a.clone()]);
            }
        }
        out.push(";".into());
    };
    for d in decls {
        match d {
            Decl::Rule(r) => rule(r, rng, &mut out),
            Decl::Lexer(rs) => {
                out.extend(["lexer".into(), "{".into()]);
                for r in rs {
                    rule(r, rng, &mut out);
                }
                out.push("}".into());
            }
        }
    }
    out
}

pub fn render(tokens: &[String], rng: &mut Rng) -> String {
    let mut s = String::new();
    gap(rng, false, &mut s);
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    for (i, t) in tokens.iter().enumerate() {
        if i > 0 {
            let need = s.chars().next_back().is_some_and(word) && t.chars().next().is_some_and(word);
            gap(rng, need, &mut s);
        }
        s.push_str(t);
    }
    gap(rng, false, &mut s);
    s
}

/// Now and then, many more names; the largest number of rules to have then, or zero.
pub fn many(rng: &mut Rng, pool: &mut Vec<String>) -> usize {
    if !rng.chance(1, 100) {
        return 0;
    }
    if rng.chance(1, 2) {
        // Long names that differ late, early, or are the beginnings of each other.
        let len = *rng.pick(&[15, 31, 32, 63, 64, 127, 128, 255, 256, 300]);
        let body: String = (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        pool.push(body.clone());
        for _ in 0..rng.range(1, 4) {
            let n = match rng.below(4) {
                0 => format!("{body}{}", rng.below(3)),
                1 => format!("{}{body}", rng.pick(&["X", "Y", "_q"])),
                2 => body[..body.len() - rng.range(1, 3)].to_string(),
                _ => format!("{body}{body}"),
            };
            if !pool.contains(&n) {
                pool.push(n);
            }
        }
        rng.shuffle(pool);
        return 0;
    }
    let n = *rng.pick(&[20, 70, 140]);
    let stem = *rng.pick(&["n", "Name_", "_", "x1y"]);
    pool.extend((0..rng.range(n / 2, n)).map(|i| format!("{stem}{i}")).filter(|x| !x.starts_with("__")));
    rng.shuffle(pool);
    n
}

/// The largest numbers of alternatives of a rule and fragments of an alternative.
pub fn extents(rng: &mut Rng) -> (usize, usize) {
    match rng.below(200) {
        0 => (20, 3),
        1 => (3, 20),
        2 => (6, 8),
        _ => (3, 3),
    }
}

/// A random basic text's syntax tree.
pub fn basic(rng: &mut Rng) -> Vec<Decl> {
    let mut pool = names(rng, 2);
    let extra = rng.below(4);
    for n in names(rng, extra + 2) {
        if !pool.contains(&n) {
            pool.push(n);
        }
    }
    if rng.chance(1, 8) {
        pool.push("lexer".into());
    }
    let big = many(rng, &mut pool);
    let lhs = rng.range(1, pool.len());
    let rep = rng.below(3);
    let n_rules = if big > 0 {
        rng.range(1, big)
    } else if rng.chance(1, 60) {
        rng.range(10, 40)
    } else {
        rng.range(1, 5)
    };
    let (wide, long) = extents(rng);
    (0..n_rules)
        .map(|_| {
            let l = pool[rng.below(lhs)].clone();
            let alts = if rng.chance(1, 8) {
                vec![Alt { frags: vec![], action: None }]
            } else {
                (0..rng.range(1, wide))
                    .map(|_| Alt {
                        frags: (0..rng.range(1, long))
                            .map(|_| {
                                let n = rng.pick(&pool).clone();
                                match rng.below(8) {
                                    0 => Frag::Unit,
                                    1 if rep > 0 => Frag::Plus(n),
                                    2 if rep > 0 => Frag::Star(n),
                                    3 if rep > 1 => Frag::Star(n),
                                    _ => Frag::Name(n),
                                }
                            })
                            .collect(),
                        action: None,
                    })
                    .collect()
            };
            Decl::Rule(Rule { lhs: l, alts })
        })
        .collect()
}

/// A text of many alternatives.
pub fn big(rng: &mut Rng, rich: bool, n: usize) -> Vec<Decl> {
    let k = *rng.pick(&[2, 10, n / 3, n]);
    let split = if rich { k * 2 / 3 } else { k };
    let name = |i: usize| format!("x{i}");
    let mut left = n;
    let mut out = vec![];
    let wide = *rng.pick(&[1, 3, n / 2]);
    let literals: Vec<String> = if rng.bool() {
        ["a", "b", "ab"].map(str::to_string).to_vec()
    } else {
        // Hundreds of distinct literals.
        (0..n).map(|i| (0..12).filter(|b| i >> b > 0).map(|b| if i >> b & 1 == 1 { 'a' } else { 'b' }).collect()).collect()
    };
    let rule = |rng: &mut Rng, alts: usize, from: usize, to: usize| Rule {
        lhs: name(rng.range(from, to - 1)),
        alts: (0..alts)
            .map(|_| Alt {
                frags: (0..rng.range(1, 2))
                    .map(|_| match rng.below(60) {
                        0 => Frag::Plus(name(rng.below(k))),
                        1 => Frag::Star(name(rng.below(k))),
                        2 if rich => Frag::Str(rng.pick(&literals).clone()),
                        3..18 if rich && literals.len() > 3 => Frag::Str(rng.pick(&literals).clone()),
                        _ => Frag::Name(if rng.bool() { name(rng.below(k)) } else { "undefined".into() }),
                    })
                    .collect(),
                action: (rich && rng.chance(1, 6)).then(|| "act".to_string()),
            })
            .collect(),
    };
    let clash = rich && split < k && rng.chance(1, 3);
    while left > 0 {
        let alts = rng.range(1, wide).min(left);
        left -= alts;
        if rich && split < k && rng.chance(1, 4) {
            out.push(Decl::Lexer(vec![rule(rng, alts, split, k)]));
        } else {
            out.push(Decl::Rule(rule(rng, alts, 0, split.max(1))));
        }
    }
    if clash {
        // One name is defined in both parser and lexer, perhaps far apart.
        let at = rng.below(k);
        let (p, l) = (rule(rng, 1, at, at + 1), rule(rng, 1, at, at + 1));
        out.insert(rng.below(out.len() + 1), Decl::Rule(p));
        out.insert(rng.below(out.len() + 1), Decl::Lexer(vec![l]));
    }
    out
}

/// The rules in the order their alternatives are numbered: parser first, then lexer.
pub fn ordered(decls: &[Decl]) -> (Vec<&Rule>, Vec<&Rule>) {
    let mut parser = vec![];
    let mut lexer = vec![];
    for d in decls {
        match d {
            Decl::Rule(r) => parser.push(r),
            Decl::Lexer(rs) => lexer.extend(rs),
        }
    }
    (parser, lexer)
}

/// The grammar a text describes: symbols are the names, then literals, regular expressions
/// and repetitions.
pub struct Described {
    pub g: G,
    pub names: BTreeMap<String, usize>,
    pub literals: BTreeMap<String, usize>,
    pub regexps: BTreeMap<String, usize>,
    /// Numbered alternatives: LHS and action.
    pub alts: Vec<(usize, Option<String>)>,
}

pub fn describe(decls: &[Decl]) -> Described {
    let (parser, lexer) = ordered(decls);
    let rules: Vec<&Rule> = parser.iter().chain(&lexer).copied().collect();
    let mut d = Described {
        g: G::default(),
        names: BTreeMap::new(),
        literals: BTreeMap::new(),
        regexps: BTreeMap::new(),
        alts: vec![],
    };
    let mut all: BTreeSet<&str> = BTreeSet::new();
    for r in &rules {
        all.insert(&r.lhs);
        for f in r.alts.iter().flat_map(|a| &a.frags) {
            if let Frag::Name(n) | Frag::Plus(n) | Frag::Star(n) = f {
                all.insert(n);
            }
        }
    }
    for (i, n) in all.iter().enumerate() {
        d.names.insert(n.to_string(), i);
    }
    let mut n = d.names.len();
    let mut more = vec![];
    for r in &rules {
        let l = d.names[&r.lhs];
        for alt in &r.alts {
            let mut rhs = vec![];
            for f in &alt.frags {
                match f {
                    Frag::Name(x) => rhs.push(d.names[x]),
                    Frag::Plus(x) | Frag::Star(x) => {
                        let x = d.names[x];
                        more.push((n, vec![n, x]));
                        more.push((n, if matches!(f, Frag::Plus(_)) { vec![x] } else { vec![] }));
                        rhs.push(n);
                        n += 1;
                    }
                    Frag::Unit => {}
                    Frag::Str(t) => {
                        rhs.push(*d.literals.entry(t.clone()).or_insert_with(|| {
                            n += 1;
                            n - 1
                        }));
                    }
                    Frag::Regexp(t) => {
                        rhs.push(*d.regexps.entry(t.clone()).or_insert_with(|| {
                            n += 1;
                            n - 1
                        }));
                    }
                }
            }
            d.alts.push((l, alt.action.clone()));
            d.g.rules.push((l, rhs));
        }
    }
    d.g.rules.extend(more);
    d.g.n = n;
    let first = parser.first().or(lexer.first()).unwrap();
    d.g.roots = vec![d.names[&first.lhs]];
    d
}
