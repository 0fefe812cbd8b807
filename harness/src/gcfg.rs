//! Workloads: grammars, exhaustive, random and hostile; conversion to and from the real type.

use crate::refg::G;
use crate::rng::Rng;
use crate::run::{C, sut, viol};
use cfg_grammar::{Cfg, CfgRule};
use cfg_history::RootHistoryNode;
use cfg_history::earley::History;
use cfg_symbol::{Symbol, SymbolSource};

pub const EXHAUSTIVE: u64 = 1 + 26 + 26 * 26 + 26 * 26 * 26;

/// All ordered lists of up to three rules over nonterminals 0, 1 and terminal 2, RHS up to 2.
pub fn exhaustive(mut i: u64) -> G {
    let mut rules = vec![];
    let mut k = 0;
    let mut block = 1u64;
    while i >= block {
        i -= block;
        block *= 26;
        k += 1;
    }
    for _ in 0..k {
        let r = (i % 26) as usize;
        i /= 26;
        let (l, r) = (r / 13, r % 13);
        let rhs = match r {
            0 => vec![],
            1..=3 => vec![r - 1],
            _ => vec![(r - 4) / 3, (r - 4) % 3],
        };
        rules.push((l, rhs));
    }
    G { n: 3, rules, roots: vec![] }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Prof {
    Small,
    Medium,
    UnitDense,
    NullDense,
    Chain,
    NullChain,
    ManySymbols,
    LongRhs,
    ManyRoots,
    Layered,
    Recursive,
    LlLike,
    /// Many alternatives of few symbols.
    Wide,
    /// Hundreds of symbols and rules.
    Huge,
    /// RHSs of up to hundreds of symbols.
    VeryLong,
}

pub const PROFS: &[Prof] = &[
    Prof::Small,
    Prof::Small,
    Prof::Small,
    Prof::Medium,
    Prof::Medium,
    Prof::UnitDense,
    Prof::NullDense,
    Prof::Chain,
    Prof::NullChain,
    Prof::ManySymbols,
    Prof::LongRhs,
    Prof::ManyRoots,
    Prof::Layered,
    Prof::Recursive,
    Prof::LlLike,
];

fn rhs(rng: &mut Rng, nts: usize, ts: usize, max: usize, eps: usize) -> Vec<usize> {
    if rng.below(100) < eps {
        return vec![];
    }
    let len = rng.range(1, max.max(1));
    (0..len)
        .map(|_| {
            if ts > 0 && (nts == 0 || rng.chance(1, 2)) {
                nts + rng.below(ts)
            } else {
                rng.below(nts)
            }
        })
        .collect()
}

pub fn profile(rng: &mut Rng, p: Prof) -> G {
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    let (nts, ts);
    match p {
        Prof::Small | Prof::ManyRoots => {
            nts = rng.range(1, 4);
            ts = rng.range(1, 3);
            let eps = *rng.pick(&[0, 10, 30]);
            for _ in 0..rng.range(1, 8) {
                rules.push((rng.below(nts), rhs(rng, nts, ts, 3, eps)));
            }
        }
        Prof::Medium => {
            nts = rng.range(3, 9);
            ts = rng.range(1, 6);
            let eps = *rng.pick(&[0, 5, 20]);
            let max = rng.range(2, 5);
            for _ in 0..rng.range(4, 24) {
                rules.push((rng.below(nts), rhs(rng, nts, ts, max, eps)));
            }
        }
        Prof::UnitDense => {
            nts = rng.range(2, 8);
            ts = rng.range(1, 3);
            for _ in 0..rng.range(2, 16) {
                let r = if rng.chance(3, 4) { vec![rng.below(nts)] } else { rhs(rng, nts, ts, 2, 5) };
                rules.push((rng.below(nts), r));
            }
            rules.push((rng.below(nts), vec![nts + rng.below(ts)]));
        }
        Prof::NullDense => {
            nts = rng.range(2, 7);
            ts = rng.range(1, 3);
            for _ in 0..rng.range(3, 14) {
                let r = if rng.chance(1, 3) {
                    vec![]
                } else {
                    (0..rng.range(1, 4))
                        .map(|_| if rng.chance(1, 4) { nts + rng.below(ts) } else { rng.below(nts) })
                        .collect()
                };
                rules.push((rng.below(nts), r));
            }
        }
        Prof::Chain => {
            let k = rng.range(3, 40);
            nts = k;
            ts = rng.range(1, 2);
            for i in 0..k {
                let next = if i + 1 < k { i + 1 } else { nts + rng.below(ts) };
                let mut r = vec![next];
                if rng.chance(1, 6) {
                    r.insert(rng.below(2), if rng.chance(1, 2) { nts } else { rng.below(nts) });
                }
                rules.push((i, r));
            }
            match rng.below(3) {
                0 => rules.reverse(),
                1 => rng.shuffle(&mut rules),
                _ => {}
            }
            if rng.chance(1, 3) {
                rules.push((k - 1, vec![rng.below(k)]));
            }
            if rng.chance(1, 3) {
                rules.push((k - 1, vec![]));
            }
        }
        Prof::NullChain => {
            let k = rng.range(2, 12);
            nts = k;
            ts = rng.range(1, 2);
            for i in 0..k {
                let next = if i + 1 < k { i + 1 } else { i };
                let r: Vec<usize> = if i + 1 < k { vec![next; rng.range(1, 2)] } else { vec![] };
                rules.push((i, r));
                if rng.chance(1, 3) {
                    rules.push((i, vec![nts + rng.below(ts)]));
                }
            }
            if rng.chance(1, 2) {
                rules.reverse();
            }
            if rng.chance(1, 2) {
                rng.shuffle(&mut rules);
            }
        }
        Prof::ManySymbols => {
            let n = *rng.pick(&[31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200]);
            nts = rng.range(2, n - 2);
            ts = n - nts;
            for _ in 0..rng.range(4, 30) {
                let mut r = rhs(rng, nts, ts, 3, 10);
                let mut l = rng.below(nts);
                if rng.chance(1, 3) {
                    // Near the word boundaries of a bit vector.
                    l = (*rng.pick(&[31usize, 32, 63, 64, 127])).min(nts - 1);
                    if let Some(x) = r.first_mut() {
                        *x = (*rng.pick(&[0usize, 31, 32, 63, 64, 65, 127, 128])).min(n - 1);
                    }
                }
                rules.push((l, r));
            }
        }
        Prof::LongRhs => {
            nts = rng.range(1, 4);
            ts = rng.range(1, 4);
            for _ in 0..rng.range(1, 5) {
                let len = rng.range(3, 14);
                let r = (0..len)
                    .map(|_| if rng.chance(2, 3) { nts + rng.below(ts) } else { rng.below(nts) })
                    .collect();
                rules.push((rng.below(nts), r));
            }
            for _ in 0..rng.range(0, 3) {
                rules.push((rng.below(nts), rhs(rng, nts, ts, 2, 30)));
            }
        }
        Prof::Layered => {
            nts = rng.range(2, 10);
            ts = rng.range(1, 4);
            for l in 0..nts {
                for _ in 0..rng.range(1, 3) {
                    let len = rng.below(4);
                    let r = (0..len)
                        .map(|_| if l + 1 < nts && rng.chance(1, 2) { rng.range(l + 1, nts - 1) } else { nts + rng.below(ts) })
                        .collect();
                    rules.push((l, r));
                }
            }
        }
        Prof::Recursive => {
            nts = rng.range(1, 5);
            ts = rng.range(1, 4);
            for l in 0..nts {
                rules.push((l, rhs(rng, 0, ts, 1, 15)));
                for _ in 0..rng.range(0, 2) {
                    let mut r = rhs(rng, nts, ts, 3, 0);
                    let at = rng.below(r.len() + 1);
                    r.insert(at, rng.below(nts));
                    rules.push((l, r));
                }
            }
            if rng.chance(1, 2) {
                rng.shuffle(&mut rules);
            }
        }
        Prof::Wide => {
            nts = rng.range(1, 3);
            ts = *rng.pick(&[1, 3, 9, 40, 70]);
            let len = rng.range(1, 3);
            let eps = *rng.pick(&[0, 0, 2, 20]);
            for _ in 0..*rng.pick(&[17, 33, 40, 65, 130, 257, 300]) {
                let r = if rng.chance(1, 2) { rhs(rng, 0, ts, len, eps).iter().map(|x| x + nts).collect() } else { rhs(rng, nts, ts, len, eps) };
                rules.push((rng.below(nts), r));
            }
        }
        Prof::Huge => {
            nts = rng.range(120, 400);
            ts = rng.range(2, 140);
            let up = rng.bool();
            for l in 0..nts {
                for _ in 0..rng.range(1, 2) {
                    let len = rng.below(4);
                    let r = (0..len)
                        .map(|_| if l + 1 < nts && rng.chance(1, 2) { rng.range(l + 1, (l + 6).min(nts - 1)) } else { nts + rng.below(ts) })
                        .collect();
                    rules.push((l, r));
                }
            }
            for _ in 0..rng.below(4) {
                rules.push((rng.below(nts), vec![rng.below(nts)]));
            }
            if up {
                rules.reverse();
            } else if rng.bool() {
                rng.shuffle(&mut rules);
            }
        }
        Prof::VeryLong => {
            nts = rng.range(1, 4);
            ts = rng.range(1, 4);
            for _ in 0..rng.range(1, 3) {
                let len = *rng.pick(&[15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
                let often = rng.chance(1, 4);
                let r = (0..len)
                    .map(|_| if often && rng.chance(1, 3) || rng.chance(1, 60) { rng.below(nts) } else { nts + rng.below(ts) })
                    .collect();
                rules.push((rng.below(nts), r));
            }
            for _ in 0..rng.range(0, 4) {
                rules.push((rng.below(nts), rhs(rng, nts, ts, 2, 40)));
            }
        }
        Prof::LlLike => {
            // Alternatives of one symbol mostly begin with different terminals.
            nts = rng.range(1, 5);
            ts = rng.range(2, 5);
            for l in 0..nts {
                let mut first = rng.perm(ts);
                for _ in 0..rng.range(1, ts.min(3)) {
                    let mut r = vec![nts + first.pop().unwrap()];
                    r.extend(rhs(rng, nts, ts, 2, 40));
                    rules.push((l, r));
                }
                if rng.chance(1, 3) {
                    rules.push((l, vec![]));
                }
                if rng.chance(1, 8) {
                    rules.push((l, vec![rng.below(nts)]));
                }
            }
        }
    }
    let mut n = nts + ts;
    if rng.chance(1, 5) {
        // Duplicate rules.
        for _ in 0..rng.range(1, 3) {
            let r = rng.pick(&rules).clone();
            let at = rng.below(rules.len() + 1);
            rules.insert(at, r);
        }
    }
    if rng.chance(1, 8) {
        let l = rules[rng.below(rules.len())].0;
        rules.push((l, vec![l]));
    }
    if rng.chance(1, 6) {
        // Unused symbols.
        n += rng.range(1, 4);
    }
    let roots = roots(rng, n, nts, p == Prof::ManyRoots);
    let mut g = G { n, rules, roots };
    if rng.chance(2, 3) {
        renumber(&mut g, rng);
    }
    g
}

pub const GIANTS: u64 = 12;

/// Grammars in which one dimension is in the hundreds. Some cases of each run are of each kind.
fn giant(rng: &mut Rng, kind: u64, nth: u64) -> G {
    let mut rules: Vec<(usize, Vec<usize>)> = vec![];
    let (nts, ts);
    let mut many_roots = 0;
    match kind {
        0 | 1 => {
            // A long chain, used before it is defined or the other way around.
            nts = rng.range(260, 520);
            ts = 3;
            let side = rng.below(3);
            for i in 0..nts {
                let next = if i + 1 < nts { i + 1 } else { nts };
                let mut r = vec![next];
                if rng.chance(1, 40) {
                    match side {
                        0 => r.push(nts + 1),
                        1 => r.insert(0, nts + 1),
                        _ => r.push(rng.below(nts)),
                    }
                }
                rules.push((i, r));
            }
            if rng.chance(1, 3) {
                rules.push((nts - 1, vec![]));
            }
            if kind == 1 {
                rules.reverse();
            }
        }
        2 => {
            // Each symbol can do what the next one can, and one thing more.
            nts = rng.range(130, 200);
            ts = nts;
            for i in 0..nts {
                if i + 1 < nts {
                    rules.push((i, vec![i + 1]));
                }
                rules.push((i, vec![nts + i]));
            }
            match rng.below(3) {
                0 => rules.reverse(),
                1 => rng.shuffle(&mut rules),
                _ => {}
            }
        }
        3 => {
            // A long rule, mostly of symbols that may be empty.
            nts = rng.range(3, 8);
            ts = 3;
            let len = rng.range(200, 700);
            let mut r: Vec<usize> = (0..len).map(|_| rng.range(1, nts - 1)).collect();
            // Everything but one terminal, far to the right, is empty.
            let empty = nth % 2 == 1;
            if empty {
                r[len - 1 - rng.below(len / 4)] = nts;
                rules.push((0, vec![nts]));
            }
            for _ in 0..if empty { 0 } else { rng.below(3) } {
                let at = rng.below(len);
                r[at] = nts + rng.below(ts);
            }
            for _ in 0..if empty { 0 } else { rng.below(3) } {
                let at = rng.below(len);
                r[at] = 0;
            }
            rules.push((0, r));
            for i in 1..nts {
                rules.push((i, vec![]));
                if !empty && rng.bool() {
                    rules.push((i, vec![nts + rng.below(ts)]));
                }
            }
        }
        4 => {
            // Rings of unit rules.
            nts = rng.range(300, 700);
            ts = 4;
            let mut at = 0;
            while at + 3 < nts {
                let len = (*rng.pick(&[2, 3, 30, 200])).min(nts - at);
                for i in 0..len {
                    rules.push((at + i, vec![at + (i + 1) % len]));
                }
                rules.push((at + rng.below(len), vec![nts + rng.below(ts)]));
                if rng.bool() {
                    rules.push((at + rng.below(len), vec![rng.below(nts), nts + rng.below(ts)]));
                }
                at += len;
            }
            if rng.bool() {
                rng.shuffle(&mut rules);
            }
        }
        5 => {
            // Many roots.
            nts = rng.range(40, 90);
            ts = 4;
            for i in 0..nts {
                for _ in 0..rng.below(3) {
                    rules.push((i, rhs(rng, nts, ts, 2, 10)));
                }
            }
            rules.push((0, vec![nts]));
            many_roots = rng.range(30, 120);
        }
        6 => {
            // Many alternatives.
            nts = 3;
            ts = rng.range(3, 40);
            for _ in 0..rng.range(260, 600) {
                rules.push((0, rhs(rng, nts, ts, 4, 1)));
            }
            rules.push((1, vec![nts]));
            rules.push((2, vec![nts + 1, 1]));
        }
        9 => {
            // A few symbols that begin, and end, with hundreds of terminals.
            nts = if nth % 3 == 2 { 9 } else { 5 };
            ts = match nth {
                5 => 1300,
                2 => 400,
                _ => rng.range(300, 420),
            };
            let cut = if nth % 3 == 2 {
                ts / 2 + 56
            } else if rng.chance(1, 3) {
                rng.range(1, ts - 2)
            } else {
                ts / 2
            };
            // The last one is kept for what comes after these.
            for t in 0..ts - 1 {
                let mut r = vec![nts + t];
                if rng.chance(1, 30) {
                    r.push(nts + rng.below(ts));
                }
                let l = if rng.chance(1, 20) && nth != 2 { rng.range(1, 2) } else { 1 + (t < cut) as usize };
                rules.push((l, r));
            }
            for l in 1..5 {
                if rng.chance(2, 3) && nth % 3 < 2 || l < 3 {
                    rules.push((l, vec![]));
                }
            }
            rules.push((3, vec![*rng.pick(&[1, 2, 4]), *rng.pick(&[1, 2, 3])]));
            rules.push((4, vec![*rng.pick(&[1, 2]), *rng.pick(&[1, 2]), *rng.pick(&[1, 3, 4])]));
            for _ in 0..rng.range(1, 3) {
                let mut r = rhs(rng, nts, 0, 4, 0);
                if rng.bool() {
                    r.push(nts + rng.below(ts));
                }
                rules.push((0, r));
            }
            match nth % 3 {
                0 => rules.push((0, vec![1, 2, nts + ts - 1])),
                1 => {
                    // They differ at the end of input only.
                    rules.retain(|r| r.0 == 1 && r.1 != [2] || r.0 == 2);
                    rules.push((0, vec![1]));
                    rules.push((0, vec![2]));
                }
                _ => {
                    // What follows is handed on, through empty symbols and against the order
                    // of the rules; 256 terminals in one go.
                    rules.retain(|r| r.0 == 1 && r.1 != [2] || r.0 == 2);
                    if nth == 2 {
                        rules.retain(|r| r.0 == 1 || !r.1.is_empty());
                        rules.push((0, vec![3, 2]));
                    } else {
                        rules.push((0, vec![8, 3, 1, 2]));
                    }
                    let t = nts + ts - 1;
                    rules.push((8, vec![t]));
                    rules.extend([(4, vec![t]), (5, vec![4]), (6, vec![t, 5]), (7, vec![6]), (3, vec![t, 7])]);
                    let l = rules.len();
                    rules[l - 5..].sort_by_key(|r| if r.0 == 3 { 9 } else { r.0 });
                }
            }
            if nth % 3 < 2 && rng.bool() {
                rng.shuffle(&mut rules);
            }
        }
        11 => {
            // Hundreds of rules that are all told apart by their first terminals, but two.
            nts = rng.range(30, 70);
            let each = rng.range(10, 20);
            ts = each + 2;
            for i in 0..nts {
                for t in 0..each {
                    let mut r = vec![nts + t];
                    if rng.chance(1, 3) {
                        r.push(nts + rng.below(ts));
                    }
                    if i + 1 < nts && rng.chance(1, each) {
                        r.push(i + 1);
                    }
                    rules.push((i, r));
                }
            }
            let (i, t) = (rng.below(nts), rng.below(each));
            let off = [256, 512, 64, 128, 255, 1][nth as usize % 6];
            let (i, t) = if i * each + t + off >= rules.len() { (0, t) } else { (i, t) };
            let far = i * each + t + off;
            let second = (i, vec![nts + t, nts + each]);
            if far >= rules.len() {
                rules.push(second);
            } else {
                rules.insert(far, second);
            }
        }
        10 => {
            // Many alternatives that begin with the same terminal and go on in different ways.
            let k = rng.range(65, 300);
            nts = k + 1;
            ts = rng.range(2, 20);
            let (at, again) = (rng.below(2), rng.chance(1, 3));
            for i in 1..nts {
                let mut r = vec![nts; 1 + at];
                r.push(i);
                if rng.chance(1, 10) {
                    r.push(rng.below(nts + ts));
                }
                rules.push((0, r));
                if rng.chance(9, 10) {
                    rules.push((i, vec![nts + rng.below(ts)]));
                }
                if again && rng.chance(1, 40) {
                    rules.push((i, vec![nts + 1, rng.below(nts)]));
                }
            }
            if rng.bool() {
                rng.shuffle(&mut rules);
            }
        }
        _ => {
            // Many symbols, few of them in use.
            let n = *rng.pick(&[255, 256, 257, 511, 513, 600, 900]);
            nts = rng.range(20, n - 20);
            ts = n - nts;
            for _ in 0..rng.range(5, 40) {
                let l = if rng.bool() { nts - 1 - rng.below(10) } else { rng.below(nts) };
                rules.push((l, rhs(rng, nts, ts, 3, 8)));
            }
        }
    }
    let n = nts + ts;
    if !rules.is_empty() && rng.chance(1, 5) {
        // Some rules are there twice, side by side or apart.
        for _ in 0..rng.range(1, 4) {
            let at = if rng.chance(1, 3) { 0 } else { rng.below(rules.len()) };
            let to = if rng.bool() { at + 1 } else { rng.below(rules.len() + 1) };
            let again = rules[at].clone();
            rules.insert(to, again);
        }
    }
    let roots = if many_roots > 0 {
        (0..many_roots)
            .map(|_| {
                let k = if rng.chance(1, 10) { n } else { nts };
                rng.below(k)
            })
            .collect()
    } else {
        roots(rng, n, nts, false)
    };
    let roots = if kind == 9 && nth % 3 != 0 || kind == 3 && nth % 2 == 1 { vec![0] } else { roots };
    let mut g = G { n, rules, roots };
    if rng.bool() {
        renumber(&mut g, rng);
    }
    g
}

fn roots(rng: &mut Rng, n: usize, nts: usize, many: bool) -> Vec<usize> {
    if many {
        return (0..rng.range(7, 12)).map(|_| rng.below(n)).collect();
    }
    match rng.below(8) {
        0 => vec![],
        1 | 2 => vec![0],
        3 | 4 => vec![rng.below(nts)],
        5 => (0..rng.range(2, 3)).map(|_| rng.below(nts)).collect(),
        6 => (0..rng.range(1, 4)).map(|_| rng.below(n)).collect(),
        _ => vec![nts - 1, 0],
    }
}

/// Renames the symbols at random.
pub fn renumber(g: &mut G, rng: &mut Rng) {
    let p = rng.perm(g.n);
    for (l, r) in &mut g.rules {
        *l = p[*l];
        for x in r {
            *x = p[*x];
        }
    }
    for r in &mut g.roots {
        *r = p[*r];
    }
}

/// The workload most properties share. Every fourth case walks the exhaustive space (from a
/// place and with a stride that depend on the seed), the others are random.
pub fn any_of(rng: &mut Rng, idx: u64, seed: u64, small: bool) -> G {
    if idx % 4 == 0 {
        let i = (idx / 4).wrapping_mul(4099).wrapping_add(seed.wrapping_mul(977)) % EXHAUSTIVE;
        let mut g = exhaustive(i);
        g.roots = match idx / 4 / EXHAUSTIVE % 3 {
            0 => vec![0],
            1 => vec![1, 0],
            _ => vec![2],
        };
        if rng.chance(1, 3) {
            renumber(&mut g, rng);
        }
        g
    } else if idx % 512 == 9 && idx < 512 * 6 * GIANTS && !small {
        giant(rng, idx / 512 % GIANTS, idx / 512 / GIANTS)
    } else {
        let p = if small {
            Prof::Small
        } else if rng.chance(1, 150) {
            *rng.pick(&[Prof::Wide, Prof::Wide, Prof::Huge, Prof::VeryLong])
        } else {
            *rng.pick(PROFS)
        };
        profile(rng, p)
    }
}

pub fn any(c: &mut C) -> G {
    let g = any_of(&mut c.rng, c.idx, c.seed, false);
    c.size = g.size();
    c.note(|| format!("grammar: {}", g.show()));
    c.count("rules in generated grammars", g.rules.len() as u64);
    c.max("number of symbols", g.n as u64);
    c.max("number of rules", g.rules.len() as u64);
    g
}

/// Symbol number `i` of any grammar.
pub fn sym(i: usize) -> Symbol {
    thread_local! {
        static TABLE: Vec<Symbol> = syms(4096);
    }
    TABLE.with(|t| t.get(i).copied()).unwrap_or_else(|| SymbolSource::generate_fresh().nth(i).unwrap())
}

pub fn syms(n: usize) -> Vec<Symbol> {
    SymbolSource::generate_fresh().take(n).collect()
}

/// Builds the real grammar; rule `i` has origin `i + 1`.
pub fn build(g: &G) -> Cfg {
    build_weighted(g, &[])
}

/// The same with weights, in thousandths.
///
/// One and the same grammar is reached in different ways (the way depends on the grammar): what
/// is done to the value on the way there must not show afterwards.
pub fn build_weighted(g: &G, weights: &[Option<u32>]) -> Cfg {
    let mut bytes = vec![g.n as u8, g.roots.len() as u8];
    for (l, r) in &g.rules {
        bytes.push(*l as u8);
        bytes.extend(r.iter().map(|&x| x as u8));
        bytes.push(255);
    }
    let mut rng = Rng::new(crate::rng::hash_bytes(&bytes));
    // A limit that splits no rule.
    let room = g.rules.iter().map(|r| r.1.len() + 1).max().unwrap_or(0);
    sut("Cfg: build", || {
        let way = if rng.bool() { 0 } else { rng.below(13) };
        let mut cfg = match way {
            1 => Cfg::with_sym_source(SymbolSource::new()),
            _ => Cfg::new(),
        };
        if way == 2 && g.n > 0 {
            // Some symbols are made, forgotten and made again.
            for i in 0..g.n + rng.below(3) {
                cfg.next_sym(if i % 2 == 0 { Some("forgotten".into()) } else { None });
            }
            cfg.sym_source_mut().truncate(1);
            let s = sym(0);
            cfg.sym_source_mut().remap_symbols(|_| s);
            *cfg.sym_source_mut() = SymbolSource::new();
        }
        let s: Vec<Symbol> = (0..g.n).map(|i| if way == 3 && i % 3 == 0 { cfg.lexeme(None) } else { cfg.next_sym(None) }).collect();
        if way == 4 {
            cfg.limit_rhs_len(Some(room.max(1000)));
        }
        let rule = |i: usize| {
            let (l, r) = &g.rules[i];
            let rhs: Vec<Symbol> = r.iter().map(|&x| s[x]).collect();
            let mut h = origin(i);
            if let Some(&w) = weights.get(i) {
                h.weight = w;
            }
            CfgRule::new(s[*l], rhs, h)
        };
        // Analyses of a value, whose results are dropped.
        let analyse = |cfg: &mut Cfg| {
            let mut set = cfg.nulling_symbols();
            cfg.rhs_closure_for_any(&mut set);
            cfg.rhs_closure_for_all(&mut set);
            let mut v: Vec<Option<u32>> = (0..g.n).map(|i| (i % 2 == 0).then_some(i as u32)).collect();
            cfg.rhs_closure_with_values(&mut v);
            let _ = (cfg.terminal_symbols(), cfg.unused_symbols(), cfg.is_empty(), cfg.column(1).count());
        };
        if way >= 10 {
            // As many rules, but other ones, or in another order, are there and looked at first.
            for i in (0..g.rules.len()).rev() {
                let mut r = rule(i);
                match way {
                    10 => {
                        r.lhs = s[(r.lhs.usize() + 1) % g.n];
                        r.rhs = r.rhs.iter().skip(i % 2).map(|x| s[(x.usize() + i) % g.n]).collect();
                    }
                    12 => r.rhs = r.rhs.iter().rev().copied().collect(),
                    _ => {}
                }
                cfg.add_rule(r);
            }
            analyse(&mut cfg);
            match way {
                10 => cfg.clear_rules(),
                _ => {
                    cfg.sort_by(|a, b| a.history.origin().id.cmp(&b.history.origin().id));
                    if way == 12 {
                        analyse(&mut cfg);
                        cfg.reverse();
                    }
                }
            }
        }
        let half = if way > 10 { 0 } else if way == 5 { g.rules.len() / 2 } else { g.rules.len() };
        for i in 0..half {
            if way == 6 && rng.chance(1, 3) && g.n > 0 {
                // A rule that goes away again.
                cfg.rule(s[rng.below(g.n)]).rhs_with_history([s[0], s[g.n - 1]], History::new(1 << 30));
            }
            if rng.bool() {
                cfg.add_rule(rule(i));
            } else {
                let r = rule(i);
                cfg.rule(r.lhs).rhs_with_history(&r.rhs[..], r.history);
            }
        }
        match way {
            5 => {
                let mut rest = Cfg::with_sym_source(cfg.sym_source().clone());
                if rng.bool() {
                    rest.limit_rhs_len(Some(room.max(500)));
                }
                for i in half..g.rules.len() {
                    rest.add_rule(rule(i));
                }
                cfg.extend(&rest);
            }
            6 => cfg.retain(|r| r.history.origin().id != 1 << 30),
            7 => {
                // Analyses leave nothing behind.
                analyse(&mut cfg);
            }
            8 => {
                cfg.clear_rules();
                for i in 0..g.rules.len() {
                    cfg.add_rule(rule(i));
                }
                cfg.limit_rhs_len(Some(room.max(700)));
                cfg.limit_rhs_len(None);
            }
            9 => {
                let c = cfg.clone();
                cfg.clear_rules();
                cfg = c;
                cfg.reverse();
                cfg.reverse();
            }
            _ => {}
        }
        if way == 1 || way == 9 {
            cfg.set_roots(&s[..s.len().min(2)]);
        }
        let roots: Vec<Symbol> = g.roots.iter().map(|&x| s[x]).collect();
        cfg.set_roots(&roots);
        cfg
    })
}

pub fn origin(i: usize) -> History {
    RootHistoryNode::Origin { origin: i + 1 }.into()
}

/// Reads a real grammar back.
pub fn read(cfg: &Cfg) -> G {
    let n = cfg.num_syms();
    let at = |s: Symbol| {
        let i = s.usize();
        if i >= n {
            viol(format!("the grammar has {n} symbols but uses symbol {i}"))
        }
        i
    };
    G {
        n,
        rules: cfg.rules().map(|r| read_rule(r, &at)).collect(),
        roots: cfg.roots().iter().map(|&r| at(r)).collect(),
    }
}

fn read_rule(r: &CfgRule, at: &dyn Fn(Symbol) -> usize) -> (usize, Vec<usize>) {
    (at(r.lhs), r.rhs.iter().map(|&x| at(x)).collect())
}

/// Everything observable of a grammar, for "nothing else changed".
#[derive(Clone, Debug, PartialEq)]
pub struct Snapshot {
    pub g: G,
    pub wrapped: Vec<[usize; 4]>,
    pub names: Vec<Option<String>>,
    pub histories: Vec<History>,
    pub text: String,
}

pub fn snapshot(cfg: &Cfg) -> Snapshot {
    Snapshot {
        g: read(cfg),
        wrapped: cfg
            .wrapped_roots()
            .iter()
            .map(|w| [w.root.usize(), w.start_of_input.usize(), w.inner_root.usize(), w.end_of_input.usize()])
            .collect(),
        names: cfg.sym_source().names().iter().map(|n| n.as_ref().map(|n| n.to_string())).collect(),
        histories: cfg.rules().map(|r| r.history).collect(),
        text: cfg.stringify_to_bnf(),
    }
}
