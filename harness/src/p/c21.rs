use crate::ensure;
use crate::gcfg;
use crate::rng::Rng;
use crate::run::{C, Prop, sut};
use crate::rx::{after, before};
use cfg_regexp_logic::{LexerClasses, LexerMap};
use regex_syntax::hir::{Class, ClassBytes, ClassBytesRange, ClassUnicode, ClassUnicodeRange};
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C21",
    quick: 600_000,
    thorough: 3_000_000,
    rule: "non-trivial: two or more classes; distinct: by the classes",
    assumptions: &[
        "each class has a symbol of its own; the map is computed before it is read",
        "looked up: every end of every range, its neighbours, all boundaries of encodings, and random characters",
    ],
    run,
};

const EDGES: &[u32] = &[
    0, 1, 9, 10, 0x2f, 0x30, 0x39, 0x3a, 0x40, 0x41, 0x5a, 0x61, 0x62, 0x63, 0x7a, 0x7e, 0x7f, 0x80, 0x81, 0xa0, 0xfe, 0xff, 0x100,
    0x101, 0x17f, 0x7ff, 0x800, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xfffd, 0xffff, 0x10000, 0x10001, 0x1fbf0, 0x10fffe, 0x10ffff,
];

fn any_char(rng: &mut Rng) -> char {
    loop {
        let x = match rng.below(4) {
            0 | 1 => *rng.pick(EDGES),
            2 => rng.below(0x180) as u32,
            _ => rng.below(0x110000) as u32,
        };
        if let Some(ch) = char::from_u32(x) {
            return ch;
        }
    }
}

fn run(c: &mut C) {
    let rng = &mut c.rng;
    let n = if rng.chance(1, 10) { rng.below(2) } else if rng.chance(1, 60) { rng.range(20, 90) } else { rng.range(1, 7) };
    let mut model: Vec<Vec<(char, char)>> = vec![];
    let mut kinds: Vec<u8> = vec![];
    for _ in 0..n {
        let kind = rng.below(6) as u8;
        let mut ranges: Vec<(char, char)> = vec![];
        match kind {
            0 => {
                let b = rng.below(256) as u8 as char;
                ranges.push((b, b));
            }
            1 => {
                let ch = any_char(rng);
                ranges.push((ch, ch));
            }
            2 => {
                let narrow = rng.bool();
                for _ in 0..if narrow { rng.range(1, 12) } else { rng.range(1, 3) } {
                    let a = rng.below(256) as u8;
                    let b = if narrow { a.saturating_add(rng.below(4) as u8) } else { rng.below(256) as u8 };
                    ranges.push((a.min(b) as char, a.max(b) as char));
                }
            }
            _ => {
                let k = if rng.chance(1, 12) { 0 } else if rng.chance(1, 10) { rng.range(5, 60) } else { rng.range(1, 4) };
                for _ in 0..k {
                    let a = any_char(rng);
                    let b = if rng.chance(1, 3) { after(a).unwrap_or(a) } else { any_char(rng) };
                    ranges.push((a.min(b), a.max(b)));
                }
            }
        }
        model.push(ranges);
        kinds.push(kind);
    }
    // Sometimes a class right before or after another.
    if n >= 2 && rng.chance(1, 3) {
        if let Some(&(a, b)) = model[0].first() {
            let x = if rng.bool() { before(a) } else { after(b) };
            if let Some(x) = x {
                model[1] = vec![(x, x)];
                kinds[1] = 1;
            }
        }
    }
    c.size = model.iter().map(|m| 1 + m.len()).sum();
    c.note(|| format!("classes {model:?}, made in ways {kinds:?}"));
    let mut map = sut("LexerMap::new", LexerMap::new);
    let perm = c.rng.perm(n);
    // symbol[i]: that of class i.
    let syms = gcfg::syms(n);
    let mut owner: Vec<Option<usize>> = vec![None; n];
    let early = if c.rng.chance(1, 4) { c.rng.below(n + 1) } else { n + 1 };
    for (i, (ranges, kind)) in model.iter().zip(&kinds).enumerate() {
        if i == early {
            sut("LexerMap::compute", || map.compute());
        }
        let class: LexerClasses = sut("LexerClasses::from", || match kind {
            0 => LexerClasses::from(ranges[0].0 as u32 as u8),
            1 => LexerClasses::from(ranges[0].0),
            2 => LexerClasses::from(Class::Bytes(ClassBytes::new(
                ranges.iter().map(|r| ClassBytesRange::new(r.0 as u32 as u8, r.1 as u32 as u8)),
            ))),
            _ => LexerClasses::from(Class::Unicode(ClassUnicode::new(
                ranges.iter().map(|r| ClassUnicodeRange::new(r.0, r.1)),
            ))),
        });
        // Its ranges, each with the character after it, cover the same characters.
        let listed: Vec<(char, char)> = sut("LexerClasses::iter", || class.iter().collect());
        for &ch in ranges.iter().flat_map(|r| [Some(r.0), Some(r.1), before(r.0), after(r.1)]).flatten().collect::<Vec<_>>().iter() {
            let within = ranges.iter().any(|r| r.0 <= ch && ch <= r.1);
            let got = listed.iter().any(|r| r.0 <= ch && ch < r.1);
            // There is no character after the last one.
            ensure!(got == within || ch == char::MAX, "a class of {ranges:?} lists the ranges {listed:?}, wrong for {ch:?}");
        }
        let s = syms[perm[i]];
        if let std::collections::btree_map::Entry::Vacant(v) = map.classes.entry(class) {
            v.insert(s);
            owner[i] = Some(s.usize());
        }
        // Otherwise an equal class is there already, with its own symbol.
    }
    sut("LexerMap::compute", || map.compute());
    if c.rng.chance(1, 8) {
        sut("LexerMap::compute", || map.compute());
    }
    let mut probes: BTreeSet<char> = BTreeSet::new();
    for &(a, b) in model.iter().flatten() {
        probes.extend([a, b]);
        probes.extend(before(a));
        probes.extend(after(a));
        probes.extend(before(b));
        probes.extend(after(b));
    }
    probes.extend(EDGES.iter().filter_map(|&x| char::from_u32(x)));
    for _ in 0..10 {
        probes.insert(any_char(&mut c.rng));
    }
    let mut hits = 0;
    for &ch in &probes {
        let got = sut("LexerMap::get", || map.get(ch).to_vec());
        let mut got: Vec<usize> = got.iter().map(|s| s.usize()).collect();
        got.sort();
        let mut want: Vec<usize> = (0..n)
            .filter(|&i| model[i].iter().any(|r| r.0 <= ch && ch <= r.1))
            .filter_map(|i| owner[i])
            .collect();
        want.sort();
        ensure!(got == want, "{ch:?} (U+{:04X}) has the symbols {got:?}, expected {want:?}; classes {model:?} with symbols {owner:?}", ch as u32);
        hits += !want.is_empty() as u64;
    }
    c.count("characters looked up", probes.len() as u64);
    c.count("characters in some class", hits);
    if n >= 2 {
        c.nontrivial(&model);
    }
    c.sample(|| format!("{model:?}"));
}
