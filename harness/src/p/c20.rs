use crate::ensure;
use crate::gcfg;
use crate::refg::{self, Earley, G};
use crate::run::{C, Prop, sut, viol};
use crate::rx;
use cfg_grammar::Cfg;
use cfg_regexp_logic::CfgRegexpExt;

pub const PROP: Prop = Prop {
    id: "C20",
    quick: 40_000,
    thorough: 1_200_000,
    rule: "non-trivial: the expression matches some string tried and not some other; distinct: by expression",
    assumptions: &[
        "regex-automata decides what an expression matches, and regex-syntax which expressions are well-formed",
        "expressions with look-around are outside the domain",
        "all strings over up to four chosen characters up to a length, and random long strings",
    ],
    run,
};

/// The lengths, up to `max`, of the strings every symbol derives; `one` are the terminals that
/// derive length one.
fn lengths(g: &G, one: &[bool], max: usize) -> Vec<Vec<bool>> {
    let mut v = vec![vec![false; max + 1]; g.n];
    for s in 0..g.n {
        v[s][1] = one[s];
    }
    loop {
        let mut changed = false;
        for (l, r) in &g.rules {
            // In place where the rule is left-recursive, so that it is closed in one pass.
            let (first, rest) = match r.split_first() {
                None => {
                    changed |= !std::mem::replace(&mut v[*l][0], true);
                    continue;
                }
                Some((&f, rest)) => (f, rest),
            };
            let mut tail = vec![0usize];
            for &x in rest {
                let mut next: std::collections::BTreeSet<usize> = Default::default();
                for &t in &tail {
                    next.extend((0..=max - t).filter(|&k| v[x][k]).map(|k| t + k));
                }
                tail = next.into_iter().collect();
            }
            for i in 0..=max {
                if v[first][i] {
                    for &t in tail.iter().take_while(|&&t| t + i <= max) {
                        changed |= !std::mem::replace(&mut v[*l][i + t], true);
                    }
                }
            }
        }
        if !changed {
            return v;
        }
    }
}

/// Counts of repetition in the hundreds and thousands.
fn large(c: &mut C) {
    let edge = |c: &mut C| {
        let x: usize = *c.rng.pick(&[60, 100, 127, 128, 200, 255, 256, 300, 500, 511, 512, 700, 900, 1000, 1023, 1024]);
        (x + c.rng.below(3)).saturating_sub(c.rng.below(2))
    };
    let body = *c.rng.pick(&["a", "[a-c]", "(?:a|b)", "(?:aa)", "(?:a?)", "(?i:A)", ".", "(?:aaa|b)"]);
    let hi = edge(c);
    let lo = match c.rng.below(4) {
        0 => 0,
        1 => hi,
        2 => c.rng.below(hi + 1),
        _ => hi - c.rng.below(3),
    };
    let count = if c.rng.chance(1, 5) { format!("{{{lo},}}") } else { format!("{{{lo},{hi}}}") };
    let pat = format!("{}{body}{count}{}", *c.rng.pick(&["", "", "a", "a{3}"]), *c.rng.pick(&["", "", "a", "a?"]));
    c.size = hi;
    c.note(|| format!("expression: {pat:?}"));
    let Some(Some(re)) = rx::compile(&pat) else { return };
    let (cfg, mut map) = match sut("from_regexp", || Cfg::from_regexp(&pat)) {
        Ok(x) => x,
        Err(e) => viol(format!("the well-formed expression {pat:?} is refused: {e}")),
    };
    sut("LexerMap::compute", || map.compute());
    let g = gcfg::read(&cfg);
    ensure!(g.roots.len() == 1, "{} roots", g.roots.len());
    ensure!(g.rules.len() < 400, "the grammar of {pat:?} has {} rules", g.rules.len());
    let mut one = vec![false; g.n];
    let term = g.terminal();
    for s in sut("LexerMap::get", || map.get('a').to_vec()) {
        one[s.usize()] = term[s.usize()];
    }
    let max = 2 * hi + 8;
    let got = lengths(&g, &one, max).swap_remove(g.roots[0]);
    let mut tried: Vec<usize> = (0..=6).chain(max - 4..=max).collect();
    for x in [lo, hi, 2 * lo, 2 * hi] {
        tried.extend(x.saturating_sub(3)..=(x + 5).min(max));
    }
    for _ in 0..20 {
        tried.push(c.rng.below(max + 1));
    }
    for n in tried.into_iter().filter(|&n| n <= max) {
        let want = re.full(&"a".repeat(n));
        ensure!(got[n] == want, "the grammar of {pat:?} {} {n} times \"a\"", if got[n] { "derives" } else { "does not derive" });
        c.count("long strings decided", 1);
    }
    c.count("large counts of repetition", 1);
    c.nontrivial(&pat);
}

/// Thousands of items in a row.
fn long(c: &mut C) {
    let pat = rx::long(&mut c.rng);
    c.size = pat.len();
    c.note(|| format!("expression: {pat:?}"));
    let Some(Some(re)) = rx::compile(&pat) else { return };
    let (cfg, mut map) = match sut("from_regexp", || Cfg::from_regexp(&pat)) {
        Ok(x) => x,
        Err(e) => viol(format!("the well-formed expression {pat:?} is refused: {e}")),
    };
    sut("LexerMap::compute", || map.compute());
    let g = gcfg::read(&cfg);
    ensure!(g.roots.len() == 1, "{} roots", g.roots.len());
    let e = Earley::new(&g);
    for i in 0..3 {
        let budget = c.rng.range(5, 60);
        let Some(w) = rx::sample(&pat, &mut c.rng, budget) else { continue };
        let mut s: Vec<char> = w.chars().collect();
        if i > 0 {
            let at = if c.rng.bool() { c.rng.below(s.len()) } else { s.len() - 1 - c.rng.below(s.len().min(20)) };
            match c.rng.below(3) {
                0 => {
                    s.remove(at);
                }
                1 => s[at] = *c.rng.pick(&['a', 'b', 'x']),
                _ => s.insert(at, *c.rng.pick(&['a', 'b', 'c'])),
            }
        }
        let reads = |t: usize, p: usize| map.get(s[p]).iter().any(|x| x.usize() == t);
        let got = e.run(g.roots[0], s.len(), &reads, &|_, _| None).accepted;
        let text: String = s.iter().collect();
        let want = re.full(&text);
        ensure!(got == want, "the grammar of {pat:?} {} {text:?}", if got { "derives" } else { "does not derive" });
        c.count("very long strings decided", 1);
    }
    c.nontrivial(&pat);
}

fn run(c: &mut C) {
    if c.idx % 2000 == 55 {
        return long(c);
    }
    if c.idx % 100 == 7 {
        return large(c);
    }
    let mut pat = rx::pattern(&mut c.rng);
    if c.rng.chance(1, 12) {
        // Spoil it.
        let mut chars: Vec<char> = pat.chars().collect();
        for _ in 0..c.rng.range(1, 2) {
            let at = c.rng.below(chars.len() + 1);
            if c.rng.bool() && at < chars.len() {
                chars.remove(at);
            } else {
                chars.insert(at, *c.rng.pick(&['(', ')', '[', ']', '*', '{', '\\', '?', '+', '}', '|']));
            }
        }
        pat = chars.into_iter().collect();
    }
    c.size = pat.len();
    c.note(|| format!("expression: {pat:?}"));
    let want = rx::compile(&pat);
    let Some(want) = want else {
        let got = sut("from_regexp", || Cfg::from_regexp(&pat).is_ok());
        ensure!(!got, "the ill-formed expression {pat:?} is accepted");
        c.count("ill-formed expressions refused", 1);
        return;
    };
    let Some(re) = want else { return };
    let (cfg, mut map) = match sut("from_regexp", || Cfg::from_regexp(&pat)) {
        Ok(x) => x,
        Err(e) => viol(format!("the well-formed expression {pat:?} is refused: {e}")),
    };
    sut("LexerMap::compute", || map.compute());
    let g = gcfg::read(&cfg);
    ensure!(g.roots.len() == 1, "{} roots", g.roots.len());
    let root = g.roots[0];
    if let Some(x) = rx::extent(&pat) {
        let have = g.infinite_over_terminals()[root];
        ensure!(x[2] == have, "{pat:?} matches {} strings, its grammar derives {}: {}", if x[2] { "infinitely many" } else { "finitely many" }, if have { "infinitely many" } else { "finitely many" }, g.show());
        c.count("infinite languages", have as u64);
    }
    let pool = rx::interesting(&pat, &mut c.rng);
    let mut both = (false, false);
    for _ in 0..3 {
        let (h, letters) = rx::letters(&pool, &mut c.rng);
        let want = re.language(&h, &letters);
        let got = sut("LexerMap::get", || rx::terminal_languages(&h, &letters, &g, &map));
        let got = h.languages_from(&g, got).swap_remove(root);
        if let Some(d) = rx::show_diff(&h, &letters, &want, &got) {
            viol(format!("the grammar of {pat:?} {d}: {}", g.show()));
        }
        c.count("strings decided", h.words().len() as u64);
        c.count("strings that match", want.iter().map(|w| w.count_ones() as u64).sum());
        both.0 |= want.iter().any(|&w| w != 0);
        both.1 |= want[0] & 1 == 0;
    }
    // Long strings.
    let term = g.terminal();
    let class: Vec<Vec<char>> = {
        let mut v = vec![vec![]; g.n];
        for &ch in &pool {
            for s in map.get(ch) {
                if s.usize() < g.n && term[s.usize()] {
                    v[s.usize()].push(ch);
                }
            }
        }
        v
    };
    let e = Earley::new(&g);
    for i in 0..4 {
        let budget = c.rng.range(5, 60);
        let mut s: Vec<char> = vec![];
        if i < 2 {
            let Some(w) = refg::sentence(&g, root, &mut c.rng, budget) else { continue };
            if w.len() > 200 || w.iter().any(|&t| class[t].is_empty()) {
                continue;
            }
            for &t in &w {
                s.push(*c.rng.pick(&class[t]));
            }
        } else {
            let Some(w) = rx::sample(&pat, &mut c.rng, budget) else { continue };
            s.extend(w.chars());
            if s.len() > 200 {
                continue;
            }
            c.count("strings made to match", 1);
        }
        if c.rng.chance(1, if i < 2 { 2 } else { 4 }) {
            let at = c.rng.below(s.len() + 1);
            match c.rng.below(3) {
                0 if at < s.len() => {
                    s.remove(at);
                }
                1 if at < s.len() => s[at] = *c.rng.pick(&pool),
                _ => s.insert(at, *c.rng.pick(&pool)),
            }
        }
        let reads = |t: usize, p: usize| map.get(s[p]).iter().any(|x| x.usize() == t);
        let got = e.run(root, s.len(), &reads, &|_, _| None).accepted;
        let text: String = s.iter().collect();
        let want = re.full(&text);
        ensure!(got == want, "the grammar of {pat:?} {} {text:?}", if got { "derives" } else { "does not derive" });
        c.count("long strings decided", 1);
        both.0 |= want;
        both.1 |= !want;
    }
    if both.0 && both.1 {
        c.nontrivial(&pat);
    }
    c.sample(|| format!("{pat:?}"));
}
