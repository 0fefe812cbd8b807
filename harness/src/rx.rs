//! Regular expressions: workload and reference (an independent matcher).

use crate::refg::{G, Hom, Lang};
use crate::rng::Rng;
use cfg_regexp_logic::LexerMap;
use regex_syntax::hir::{Hir, HirKind, Look};
use std::collections::BTreeSet;

const LITS: &[char] = &['a', 'b', 'c', 'A', 'k', 's', 'z', '0', '9', '_', '-', ' ', '\n', '\t', '"', 'é', 'ß', 'ÿ', 'Ā', 'ſ', 'λ', '漢', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '🯰', '\u{10ffff}', '\u{0}', '.', '*', '\\', '[', ']', '(', '|', '^', '$'];

fn lit(rng: &mut Rng, out: &mut String) {
    let ch = if rng.chance(2, 3) { *rng.pick(&['a', 'b', 'c']) } else { *rng.pick(LITS) };
    lit_char(ch, rng, out);
}

fn lit_char(ch: char, rng: &mut Rng, out: &mut String) {
    if "\\.+*?()|[]{}^$#&-~ ".contains(ch) {
        out.push('\\');
        out.push(ch);
    } else if rng.chance(1, 12) {
        out.push_str(&format!("\\x{{{:x}}}", ch as u32));
    } else {
        out.push(ch);
    }
}

fn class(rng: &mut Rng, out: &mut String, depth: usize) {
    match rng.below(9) {
        0 => out.push_str(*rng.pick(&["\\d", "\\w", "\\s", "\\D", "\\W", "\\S"])),
        1 => out.push('.'),
        2 => out.push_str(*rng.pick(&["\\pL", "\\p{Greek}", "\\P{Lu}", "\\p{Nd}"])),
        3 => out.push_str(*rng.pick(&["[[:alpha:]]", "[[:^digit:]]", "[[:xdigit:]_]"])),
        _ => {
            out.push('[');
            if rng.chance(1, 4) {
                out.push('^');
            }
            for _ in 0..rng.range(1, 3) {
                if rng.chance(1, 2) {
                    let (a, b) = if rng.chance(1, 2) {
                        (*rng.pick(&['a', 'b', 'c', 'd']), *rng.pick(&['a', 'b', 'c', 'd']))
                    } else {
                        (*rng.pick(LITS), *rng.pick(LITS))
                    };
                    let (a, b) = (a.min(b), a.max(b));
                    out.push_str(&format!("\\x{{{:x}}}-\\x{{{:x}}}", a as u32, b as u32));
                } else if rng.chance(1, 6) && depth > 0 {
                    class(rng, out, 0);
                } else {
                    lit(rng, out);
                }
            }
            if rng.chance(1, 10) {
                out.push_str("&&[a-c]");
            }
            out.push(']');
        }
    }
}

fn alternation(rng: &mut Rng, depth: usize, out: &mut String) {
    let n = if rng.chance(1, 2) { 1 } else { rng.range(2, 3) };
    for i in 0..n {
        if i > 0 {
            out.push('|');
        }
        let k = if rng.chance(1, 10) { 0 } else { rng.range(1, 3) };
        for _ in 0..k {
            item(rng, depth, out);
        }
    }
}

fn item(rng: &mut Rng, depth: usize, out: &mut String) {
    match rng.below(10) {
        0..=4 => lit(rng, out),
        5 | 6 => class(rng, out, 1),
        _ if depth == 0 => lit(rng, out),
        7 => {
            out.push_str(*rng.pick(&["(", "(?:", "(?P<n>", "(?i:", "(?s:", "(?i-s:"]));
            // A name may be used only once.
            if out.ends_with("(?P<n>") && out.matches("(?P<n>").count() > 1 {
                out.truncate(out.len() - 6);
                out.push('(');
            }
            alternation(rng, depth - 1, out);
            out.push(')');
        }
        _ => {
            out.push_str("(?:");
            alternation(rng, depth - 1, out);
            out.push(')');
        }
    }
    if rng.chance(1, 3) {
        match rng.below(8) {
            0 => out.push('*'),
            1 => out.push('+'),
            2 | 3 => out.push('?'),
            4 => out.push_str(&format!("{{{}}}", rng.below(4))),
            5 => out.push_str(&format!("{{{},}}", rng.below(4))),
            _ => {
                let a = rng.below(4);
                out.push_str(&format!("{{{a},{}}}", a + rng.below(5)));
            }
        }
        if rng.chance(1, 6) {
            out.push('?');
        }
    }
}

/// A pattern; nearly always well-formed.
pub fn pattern(rng: &mut Rng) -> String {
    let mut s = String::new();
    if rng.chance(1, 8) {
        s.push_str(*rng.pick(&["(?i)", "(?s)", "(?U)", "(?x)"]));
    }
    let depth = rng.below(3);
    if rng.chance(1, 20) {
        // A large count over one letter.
        let a = rng.below(50);
        return if rng.chance(1, 3) {
            format!("(?:a{{{a}}}b?){{{},}}", rng.below(3))
        } else {
            format!("(?:a|aa){{{a},{}}}", a + rng.below(40))
        };
    }
    if rng.chance(1, 25) {
        wide(rng, &mut s);
        return s;
    }
    if rng.chance(1, 60) {
        deep(rng, &mut s);
        return s;
    }
    alternation(rng, depth, &mut s);
    s
}

/// Many alternatives, in a group or not, or many items in a row.
fn wide(rng: &mut Rng, s: &mut String) {
    let (open, close) = *rng.pick(&[("(", ")"), ("(?:", ")"), ("", ""), ("(?i:", ")"), ("a(", ")b?"), ("(", ")+"), ("(", "){0,2}"), ("((", ")|b)")]);
    s.push_str(open);
    let mut n = rng.range(4, 40);
    if rng.bool() {
        if rng.chance(1, 8) {
            n = *rng.pick(&[65, 100, 129, 200, 257, 300]);
        }
        for i in 0..n {
            if i > 0 {
                s.push('|');
            }
            for _ in 0..rng.range(1, 5) {
                if rng.chance(1, 8) { class(rng, s, 0) } else { lit_char(*rng.pick(&['a', 'b']), rng, s) }
            }
        }
    } else {
        for _ in 0..n {
            item(rng, 1, s);
            if rng.bool() {
                s.push('?');
            }
        }
    }
    s.push_str(close);
}

/// Thousands of items in a row.
pub fn long(rng: &mut Rng) -> String {
    let mut s = String::new();
    let often = rng.chance(1, 3);
    for _ in 0..*rng.pick(&[300, 1100, 2100, 4200, 5000]) {
        if often && rng.chance(1, 3) || rng.chance(1, 300) {
            s.push_str(*rng.pick(&["[ab]", "(?:ab|c)", ".", "(a)", "c?", "[^a]", "(?:a|bc|)"]));
        } else {
            s.push(*rng.pick(&['a', 'b', 'c', 'é']));
        }
    }
    s
}

/// Groups within groups.
fn deep(rng: &mut Rng, s: &mut String) {
    let n = rng.range(3, 60);
    let mut close: Vec<String> = vec![];
    for _ in 0..n {
        if rng.chance(1, 6) {
            item(rng, 0, s);
        }
        if rng.chance(1, 8) {
            s.push_str("b|");
        }
        s.push_str(*rng.pick(&["(", "(", "(", "(?:"]));
        let mut end = String::from(")");
        if rng.chance(1, 8) {
            end.push_str(*rng.pick(&["?", "+", "*", "??", "{1,2}"]));
        }
        if rng.chance(1, 8) {
            end.push_str(*rng.pick(&["a", "|c", "b?"]));
        }
        close.push(end);
    }
    item(rng, 0, s);
    while let Some(end) = close.pop() {
        s.push_str(&end);
    }
}

pub struct Matcher {
    re: regex_automata::meta::Regex,
}

/// `None`: ill-formed. `Some(None)`: outside the domain (look-around, or too large to match).
pub fn compile(pattern: &str) -> Option<Option<Matcher>> {
    let hir = regex_syntax::Parser::new().parse(pattern).ok()?;
    Some(if hir.properties().look_set().is_empty() { matcher(hir) } else { None })
}

fn matcher(hir: Hir) -> Option<Matcher> {
    // Greediness does not matter to what is matched in full.
    let all = Hir::concat(vec![Hir::look(Look::Start), hir, Hir::look(Look::End)]);
    let re = regex_automata::meta::Builder::new()
        .configure(regex_automata::meta::Config::new().nfa_size_limit(Some(5 << 20)))
        .build_from_hir(&all)
        .ok()?;
    Some(Matcher { re })
}

impl Matcher {
    pub fn full(&self, s: &str) -> bool {
        self.re.is_match(s)
    }
    /// What it matches, over the letters.
    pub fn language(&self, h: &Hom, letters: &[char]) -> Lang {
        let mut l = h.nothing();
        let mut s = String::new();
        for w in h.words() {
            s.clear();
            s.extend(w.iter().map(|&i| letters[i]));
            if self.full(&s) {
                h.add(&mut l, &w);
            }
        }
        l
    }
}

/// Whether the pattern matches something, something not empty, infinitely many strings; `None` if
/// it has a class without characters.
pub fn extent(pattern: &str) -> Option<[bool; 3]> {
    fn go(h: &Hir) -> Option<[bool; 3]> {
        Some(match h.kind() {
            HirKind::Empty => [true, false, false],
            HirKind::Literal(l) => [true, !l.0.is_empty(), false],
            HirKind::Class(regex_syntax::hir::Class::Unicode(k)) if k.ranges().is_empty() => return None,
            HirKind::Class(regex_syntax::hir::Class::Bytes(k)) if k.ranges().is_empty() => return None,
            HirKind::Class(_) => [true, true, false],
            HirKind::Look(_) => return None,
            HirKind::Capture(k) => go(&k.sub)?,
            HirKind::Repetition(r) => {
                let sub = go(&r.sub)?;
                match r.max {
                    Some(0) => [true, false, false],
                    Some(_) => sub,
                    None => [true, sub[1], sub[1]],
                }
            }
            HirKind::Concat(v) | HirKind::Alternation(v) => {
                let mut all = [true, false, false];
                for x in v {
                    let x = go(x)?;
                    all[1] |= x[1];
                    all[2] |= x[2];
                }
                all
            }
        })
    }
    go(&regex_syntax::Parser::new().parse(pattern).ok()?)
}

/// A string that the pattern matches, of about `budget` characters if it can be that long.
pub fn sample(pattern: &str, rng: &mut Rng, budget: usize) -> Option<String> {
    fn class_char(k: &regex_syntax::hir::Class, rng: &mut Rng) -> Option<char> {
        let regex_syntax::hir::Class::Unicode(k) = k else { return None };
        let r = if k.ranges().is_empty() { return None } else { &k.ranges()[rng.below(k.ranges().len())] };
        Some(match rng.below(3) {
            0 => r.start(),
            1 => r.end(),
            _ => char::from_u32(r.start() as u32 + rng.below((r.end() as usize - r.start() as usize).min(1000) + 1) as u32).unwrap_or(r.start()),
        })
    }
    fn go(h: &Hir, rng: &mut Rng, left: &mut usize, out: &mut String) -> Option<()> {
        match h.kind() {
            HirKind::Empty => {}
            HirKind::Literal(l) => {
                let s = std::str::from_utf8(&l.0).ok()?;
                *left = left.saturating_sub(s.chars().count());
                out.push_str(s);
            }
            HirKind::Class(k) => {
                *left = left.saturating_sub(1);
                out.push(class_char(k, rng)?);
            }
            HirKind::Look(_) => return None,
            HirKind::Capture(k) => go(&k.sub, rng, left, out)?,
            HirKind::Repetition(r) => {
                let min = r.min as usize;
                let max = r.max.map_or(usize::MAX, |m| m as usize);
                let n = match rng.below(4) {
                    0 => min,
                    1 => max.min(min + *left / 2),
                    _ => max.min(min + rng.below(4)),
                };
                for i in 0..n {
                    if i >= min && *left == 0 {
                        break;
                    }
                    go(&r.sub, rng, left, out)?;
                }
            }
            HirKind::Concat(v) => {
                for x in v {
                    go(x, rng, left, out)?;
                }
            }
            HirKind::Alternation(v) => go(&v[rng.below(v.len())], rng, left, out)?,
        }
        Some(())
    }
    let hir = regex_syntax::Parser::new().parse(pattern).ok()?;
    let (mut left, mut out) = (budget, String::new());
    go(&hir, rng, &mut left, &mut out)?;
    Some(out)
}

/// Characters at and around the limits of what the pattern's classes contain.
pub fn interesting(pattern: &str, rng: &mut Rng) -> Vec<char> {
    let mut set: BTreeSet<char> = BTreeSet::new();
    if let Ok(hir) = regex_syntax::Parser::new().parse(pattern) {
        collect(&hir, rng, &mut set);
    }
    let near: Vec<char> = set.iter().copied().collect();
    for ch in near {
        if rng.chance(1, 3) {
            set.extend(before(ch));
            set.extend(after(ch));
        }
    }
    set.insert('a');
    set.insert(*rng.pick(LITS));
    set.into_iter().collect()
}

pub fn before(ch: char) -> Option<char> {
    (ch > '\0').then(|| if ch == '\u{e000}' { '\u{d7ff}' } else { char::from_u32(ch as u32 - 1).unwrap() })
}

pub fn after(ch: char) -> Option<char> {
    (ch < char::MAX).then(|| if ch == '\u{d7ff}' { '\u{e000}' } else { char::from_u32(ch as u32 + 1).unwrap() })
}

fn collect(hir: &Hir, rng: &mut Rng, set: &mut BTreeSet<char>) {
    match hir.kind() {
        HirKind::Literal(l) => set.extend(String::from_utf8_lossy(&l.0).chars()),
        HirKind::Class(regex_syntax::hir::Class::Unicode(c)) => {
            let rs = c.ranges();
            for _ in 0..3.min(rs.len()) {
                let r = rs[rng.below(rs.len())];
                set.extend([r.start(), r.end()]);
            }
        }
        HirKind::Class(regex_syntax::hir::Class::Bytes(c)) => {
            for r in c.ranges() {
                set.extend([r.start() as char, r.end() as char]);
            }
        }
        HirKind::Repetition(r) => collect(&r.sub, rng, set),
        HirKind::Capture(r) => collect(&r.sub, rng, set),
        HirKind::Concat(v) | HirKind::Alternation(v) => {
            for h in v {
                collect(h, rng, set);
            }
        }
        HirKind::Empty | HirKind::Look(_) => {}
    }
}

pub fn letters(pool: &[char], rng: &mut Rng) -> (Hom, Vec<char>) {
    let (base, len) = *rng.pick(&[(2, 6), (2, 5), (3, 4), (4, 3), (1, 60)]);
    let mut l: Vec<char> = vec![];
    for _ in 0..40 {
        let ch = *rng.pick(pool);
        if !l.contains(&ch) {
            l.push(ch);
        }
        if l.len() == base {
            break;
        }
    }
    for ch in ['a', 'b', '~', 'Ж'] {
        if l.len() < base && !l.contains(&ch) {
            l.push(ch);
        }
    }
    (Hom { base, len, img: vec![] }, l)
}

/// What the terminals of a real grammar read, through the (computed) lexer map.
pub fn terminal_languages(h: &Hom, letters: &[char], g: &G, map: &LexerMap) -> Vec<Lang> {
    let term = g.terminal();
    let mut v = vec![h.nothing(); g.n];
    for (i, &ch) in letters.iter().enumerate() {
        for s in map.get(ch) {
            let s = s.usize();
            if s < g.n && term[s] {
                h.add(&mut v[s], &[i]);
            }
        }
    }
    v
}

/// Names a difference in characters.
pub fn show_diff(h: &Hom, letters: &[char], want: &Lang, got: &Lang) -> Option<String> {
    for w in h.words() {
        let x = w.iter().fold(0, |x, &c| x * h.base + c);
        let (a, b) = (want[w.len()] >> x & 1, got[w.len()] >> x & 1);
        if a != b {
            let s: String = w.iter().map(|&i| letters[i]).collect();
            return Some(format!("{} the string {s:?}", if a == 1 { "does not derive" } else { "derives" }));
        }
    }
    None
}
