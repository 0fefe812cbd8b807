use crate::bnf;
use crate::ensure;
use crate::p::c18;
use crate::refg::{Earley, G};
use crate::rng::Rng;
use crate::run::{C, Prop, sut, viol};
use crate::rx;
use cfg_grammar::Cfg;
use cfg_load::{CfgLoadAdvancedExt, CfgLoadExt};
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C19",
    quick: 150_000,
    thorough: 5_000_000,
    rule: "non-trivial: an error at a definite place, after at least one good token; distinct: by text and loader",
    assumptions: &[
        "whitespace is space, line feed and tab; a column counts characters",
        "of an operator begun with `:` that is not `::=`, the error may point at its first character or at the first wrong one",
        "a text that ends inside a string, or in a part of `::=`, ends too early",
    ],
    run,
};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Ident(String),
    Op,
    Punct(char),
    Str(String),
    Lexer,
}

struct Tok {
    kind: Kind,
    line: u32,
    col: u32,
}

enum End {
    Clean,
    /// A character no token begins with; the places an error may point at.
    Bad(Vec<(u32, u32)>),
    /// The text ends inside a token.
    Early(Option<Kind>),
}

fn tokenize(text: &str, rich: bool) -> (Vec<Tok>, End) {
    let chars: Vec<char> = text.chars().collect();
    // The place of every character.
    let mut place = vec![];
    let (mut line, mut col) = (1, 1);
    for &ch in &chars {
        place.push((line, col));
        if ch == '\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    let mut out = vec![];
    let mut i = 0;
    while i < chars.len() {
        let at = i;
        let ch = chars[i];
        let kind = if ch.is_ascii_alphabetic() || ch == '_' {
            while i < chars.len() && (chars[i].is_ascii_alphanumeric() || chars[i] == '_') {
                i += 1;
            }
            let s: String = chars[at..i].iter().collect();
            if rich && s == "lexer" { Kind::Lexer } else { Kind::Ident(s) }
        } else if ch == ':' {
            let want = [':', ':', '='];
            let mut k = 0;
            while k < 3 && i + k < chars.len() && chars[i + k] == want[k] {
                k += 1;
            }
            if k == 3 {
                i += 3;
                Kind::Op
            } else if i + k == chars.len() {
                return (out, End::Early(Some(Kind::Op)));
            } else {
                return (out, End::Bad(vec![place[at], place[i + k]]));
            }
        } else if ";|+*()".contains(ch) || (rich && "~{}>".contains(ch)) {
            i += 1;
            Kind::Punct(ch)
        } else if " \n\t".contains(ch) {
            i += 1;
            continue;
        } else if rich && ch == '"' {
            let mut s = String::new();
            i += 1;
            loop {
                match chars.get(i) {
                    None => return (out, End::Early(Some(Kind::Str(String::new())))),
                    Some('"') => break,
                    Some('\\') => {
                        let Some(&e) = chars.get(i + 1) else {
                            return (out, End::Early(Some(Kind::Str(String::new()))));
                        };
                        s.push(e);
                        i += 2;
                    }
                    Some(&o) => {
                        s.push(o);
                        i += 1;
                    }
                }
            }
            i += 1;
            Kind::Str(s)
        } else {
            return (out, End::Bad(vec![place[at]]));
        };
        let (line, col) = place[at];
        out.push(Tok { kind, line, col });
    }
    (out, End::Clean)
}

// Terminals of the meta-grammars.
const IDENT: usize = 0;
const OP: usize = 1;
const SEMI: usize = 2;
const PIPE: usize = 3;
const PLUS: usize = 4;
const STAR: usize = 5;
const LP: usize = 6;
const RP: usize = 7;
const STR: usize = 8;
const LB: usize = 9;
const RB: usize = 10;
const GT: usize = 11;
const TILDE: usize = 12;
const LEXER: usize = 13;

fn terminal(k: &Kind) -> usize {
    match k {
        Kind::Ident(_) => IDENT,
        Kind::Op => OP,
        Kind::Str(_) => STR,
        Kind::Lexer => LEXER,
        Kind::Punct(c) => match c {
            ';' => SEMI,
            '|' => PIPE,
            '+' => PLUS,
            '*' => STAR,
            '(' => LP,
            ')' => RP,
            '{' => LB,
            '}' => RB,
            '>' => GT,
            _ => TILDE,
        },
    }
}

fn meta(rich: bool) -> G {
    const S: usize = 14;
    const RULE: usize = 15;
    const RHS: usize = 16;
    const ALT: usize = 17;
    const FRAG: usize = 18;
    const RULES: usize = 19;
    const DECL: usize = 20;
    const ALT2: usize = 21;
    const ACT: usize = 22;
    let mut rules = vec![
        (RULE, vec![IDENT, OP, SEMI]),
        (RULE, vec![IDENT, OP, RHS, SEMI]),
        (FRAG, vec![IDENT]),
        (FRAG, vec![IDENT, PLUS]),
        (FRAG, vec![IDENT, STAR]),
        (ALT, vec![FRAG]),
        (RHS, vec![ALT2]),
        (RHS, vec![RHS, PIPE, ALT2]),
        (ALT2, vec![ALT]),
        (S, vec![DECL]),
        (S, vec![S, DECL]),
        (DECL, vec![RULE]),
    ];
    if rich {
        rules.extend([
            (RULE, vec![IDENT, OP, ACT, SEMI]),
            (ALT2, vec![ALT, ACT]),
            (ACT, vec![GT, IDENT]),
            (ALT, vec![ALT, TILDE, FRAG]),
            (FRAG, vec![STR]),
            (FRAG, vec![IDENT, LP, STR, RP]),
            (DECL, vec![LEXER, LB, RULES, RB]),
            (RULES, vec![RULE]),
            (RULES, vec![RULES, RULE]),
        ]);
    } else {
        rules.extend([(ALT, vec![ALT, FRAG]), (FRAG, vec![LP, RP])]);
    }
    G { n: 23, rules, roots: vec![S] }
}

thread_local! {
    static META: [G; 2] = [meta(false), meta(true)];
}

#[derive(Debug)]
enum Expect {
    Ok,
    /// An error, at one of these places if there are any.
    Err(Vec<(u32, u32)>),
}

fn expect(text: &str, rich: bool) -> (Expect, usize) {
    let (toks, end) = tokenize(text, rich);
    let mut terms: Vec<usize> = toks.iter().map(|t| terminal(&t.kind)).collect();
    if let End::Early(Some(k)) = &end {
        // The token that is not finished.
        terms.push(terminal(k));
    }
    let (accepted, viable) = META.with(|m| {
        let g = &m[rich as usize];
        let p = Earley::new(g).run(g.roots[0], terms.len(), &|s, p| terms[p] == s, &|_, _| None);
        (p.accepted, p.viable)
    });
    if viable < toks.len() {
        let t = &toks[viable];
        return (Expect::Err(vec![(t.line, t.col)]), viable);
    }
    match end {
        End::Bad(places) => return (Expect::Err(places), viable),
        End::Early(_) => return (Expect::Err(vec![]), viable),
        End::Clean => {}
    }
    if !accepted {
        return (Expect::Err(vec![]), viable);
    }
    if rich && wrong_meaning(&toks) {
        return (Expect::Err(vec![]), viable);
    }
    (Expect::Ok, viable)
}

fn wrong_meaning(toks: &[Tok]) -> bool {
    let mut defined: [BTreeSet<&str>; 2] = Default::default();
    let mut in_lexer = false;
    for (i, t) in toks.iter().enumerate() {
        match &t.kind {
            Kind::Lexer => in_lexer = true,
            Kind::Punct('}') => in_lexer = false,
            Kind::Ident(n) => match toks.get(i + 1).map(|t| &t.kind) {
                Some(Kind::Op) => {
                    defined[in_lexer as usize].insert(n);
                }
                Some(Kind::Punct('(')) => {
                    let Some(Kind::Str(p)) = toks.get(i + 2).map(|t| &t.kind) else { return true };
                    if n != "Regexp" {
                        return true;
                    }
                    let Ok(hir) = regex_syntax::Parser::new().parse(p) else { return true };
                    if !hir.properties().look_set().is_empty() {
                        return true;
                    }
                }
                _ => {}
            },
            _ => {}
        }
    }
    defined[0].intersection(&defined[1]).next().is_some()
}

const SOUP: &[&str] = &[
    "A", "B", "lexer", "Regexp", "x1", "__lex0", "::=", "::=", ";", ";", "|", "+", "*", "(", ")", "~", "{", "}", ">", "\"a\"", "\"\"", "\"\\\"\"",
    ":", "::", "=", "\"", "\\", "1", "é", "\r", "\u{0}", "\u{feff}", "漢", "-", "<", "#", "'", "\u{a0}", "//", "\"é\n漢\"", "\u{2028}",
];

fn soup_token(rng: &mut Rng) -> String {
    if rng.chance(1, 12) {
        let mut p = rx::pattern(rng);
        if rng.chance(1, 4) {
            let look = *rng.pick(&["^", "$", "\\b", "\\B", "\\A", "\\z", "(?m)^", "(?-u:\\b)", "\\b{start}", "(?R)$"]);
            let at = if rng.bool() { 0 } else { p.len() };
            p.insert_str(at, look);
        }
        // Backslashes and quotes are escaped in strings.
        let p = if rng.bool() { p.replace(['\\', '"'], "") } else { p.replace('\\', "\\\\").replace('"', "\\\"") };
        let f = if rng.chance(1, 8) { *rng.pick(&["regexp", "REGEXP", "Regex", "RegExp", "Regexp_", "A"]) } else { "Regexp" };
        format!("{f}(\"{p}\")")
    } else {
        rng.pick(SOUP).to_string()
    }
}

fn text(rng: &mut Rng, rich: bool) -> String {
    let tree_rich = if rng.chance(1, 20) { !rich } else { rich };
    let decls = if tree_rich { c18::tree(rng) } else { bnf::basic(rng) };
    let mut toks = bnf::tokens(&decls, tree_rich, rng);
    match rng.below(16) {
        0 | 1 => {}
        2 => {
            toks = (0..rng.below(12)).map(|_| soup_token(rng)).collect();
        }
        3 => {
            // Any characters.
            let n = rng.below(14);
            return (0..n)
                .map(|_| match rng.below(4) {
                    0 => *rng.pick(&['A', ':', '=', ';', '"', '\\', '\n', ' ']),
                    1 => (rng.below(128) as u8) as char,
                    2 => char::from_u32(rng.below(0xd800) as u32).unwrap(),
                    _ => *rng.pick(&['\u{10ffff}', '\u{0}', 'é', '\r', '\u{85}', '\u{3000}', '٣', 'Ａ']),
                })
                .collect();
        }
        4..=9 => {
            for _ in 0..rng.range(1, 2) {
                let at = rng.below(toks.len() + 1);
                let t = soup_token(rng);
                match rng.below(5) {
                    0 if at < toks.len() => {
                        toks.remove(at);
                    }
                    1 if at < toks.len() => toks[at] = t,
                    2 if at + 1 < toks.len() => toks.swap(at, at + 1),
                    3 if at < toks.len() => toks.insert(at, toks[at].clone()),
                    _ => toks.insert(at, t),
                }
            }
        }
        10 => {
            let at = rng.below(toks.len() + 1);
            toks.truncate(at);
        }
        11..=14 => {
            let mut chars: Vec<char> = bnf::render(&toks, rng).chars().collect();
            for _ in 0..rng.range(1, 2) {
                let at = rng.below(chars.len() + 1);
                let ch = if rng.bool() {
                    rng.pick(SOUP).chars().next().unwrap()
                } else {
                    char::from_u32(rng.below(0x250) as u32).unwrap()
                };
                match rng.below(4) {
                    0 if at < chars.len() => {
                        chars.remove(at);
                    }
                    1 if at < chars.len() => chars[at] = ch,
                    2 => chars.truncate(at),
                    _ => chars.insert(at, ch),
                }
            }
            return chars.into_iter().collect();
        }
        _ => {
            if rng.chance(1, 60) {
                // A mistake far to the right, or far down.
                let n = *rng.pick(&[254, 255, 256, 257, 65534, 65535, 65536, 65537, 70000]);
                let n = n + rng.below(3);
                let gap = *rng.pick(&[" ", "\n", "\t"]);
                let bad = *rng.pick(&[";", "?", ":=", "::= ::=", "é"]);
                let good = if tree_rich { "A ::= A ~ b;" } else { "A ::= A b;" };
                return format!("{good}{}{bad}", gap.repeat(n));
            }
            if rich && rng.chance(1, 40) {
                // A long literal, and a mistake after it, or none.
                let n = *rng.pick(&[60, 250, 300, 1000, 4090, 4100, 6000]);
                let body: String = (0..n).map(|_| *rng.pick(&['a', 'b', ' ', '\n', 'é', '漢', ';'])).collect();
                return format!("A ::= b ~ \"{body}\"{}", rng.pick(&[";", "; ;", " b;", "?", "", ";\nB ::= ~;"]));
            }
            if rng.chance(1, 40) {
                // A long text, with or without a mistake near the end.
                let n = rng.range(100, 400);
                let sep = if rich { " ~ " } else { " " };
                let body = vec!["b"; n].join(sep);
                return format!("A ::= {body};\nB ::= A{} ;{}", if rich { "" } else { " b" }, if rng.bool() { "\n\n  ; ;" } else { "" });
            }
        }
    }
    bnf::render(&toks, rng)
}

fn run(c: &mut C) {
    let rich = c.rng.chance(3, 5);
    let text = text(&mut c.rng, rich);
    c.size = text.len();
    let loader = if rich { "rich" } else { "basic" };
    c.note(|| format!("{loader} loader, text {text:?}"));
    let got = if rich {
        sut("Cfg::load_advanced", || Cfg::load_advanced(&text).map(drop))
    } else {
        sut("Cfg::load", || Cfg::load(&text).map(drop))
    };
    let (want, good) = expect(&text, rich);
    match (want, got) {
        (Expect::Ok, Ok(())) => c.count("well-formed texts accepted", 1),
        (Expect::Ok, Err(e)) => viol(format!("the {loader} loader refuses the well-formed text {text:?}: {e}")),
        (Expect::Err(places), Ok(())) => viol(format!("the {loader} loader accepts the ill-formed text {text:?} (wrong at {places:?})")),
        (Expect::Err(places), Err(e)) => {
            // Showing the error must work, too.
            let _ = sut("LoadError::fmt", || e.to_string());
            if places.is_empty() {
                c.count("texts that end too early or mean nothing refused", 1);
            } else {
                ensure!(
                    places.contains(&(e.line, e.col)),
                    "the {loader} loader points at line {} column {} of {text:?}, but the first bad token is at {places:?}", e.line, e.col
                );
                c.count("errors at a definite place", 1);
                if good > 0 {
                    c.nontrivial((rich, &text));
                }
            }
        }
    }
    c.max("characters in a text", text.chars().count() as u64);
    c.sample(|| format!("{loader}: {text:?}"));
}
