//! C01: symbols are fresh, dense and keep their names.

use crate::ensure;
use crate::gcfg::sym;
use crate::rng::Rng;
use crate::run::{C, Prop, sut, sut_may_panic};
use cfg_grammar::Cfg;
use cfg_symbol::{Symbol, SymbolPrimitive, SymbolSource};
use std::borrow::Cow;
use std::collections::HashMap;
use std::num::{NonZeroU8, NonZeroU16, NonZeroU32};

pub const PROP: Prop = Prop {
    id: "C01",
    quick: 600_000,
    thorough: 2_000_000,
    rule: "random histories of generating (single, named, batch, iterator, lexeme), truncating, renumbering and cloning on 8-, 16- and 32-bit sources against a list of names; every history is non-trivial if it made at least two symbols, distinct by its operations and widths; a share of the cases runs a source to exhaustion",
    assumptions: &["truncation only to 1..=current length; renumbering by permutations"],
    run,
};

const NAMES: &[&str] = &["", "a", "b", "start", "g0", "g1", "g12", "é", "日本", "a b", "x", "y", "root", "\n", "A(3)"];

fn check<T: SymbolPrimitive + std::fmt::Debug + Eq>(src: &SymbolSource<T>, names: &[Option<String>], what: &str) {
    ensure!(src.num_syms() == names.len(), "after {what}: num_syms is {}, expected {}", src.num_syms(), names.len());
    let got: Vec<Option<String>> = src.names().iter().map(|n| n.as_ref().map(|n| n.to_string())).collect();
    ensure!(got == names, "after {what}: names are {got:?}, expected {names:?}");
    for i in 0..names.len() + 2 {
        let want = names.get(i).cloned().flatten();
        let o = src.original_name_of(sym(i));
        ensure!(o == want.as_deref(), "after {what}: original_name_of({i}) is {o:?}, expected {want:?}");
        let shown = src.name_of(sym(i));
        let want = want.unwrap_or_else(|| format!("g{i}"));
        ensure!(*shown == *want, "after {what}: name_of({i}) is {shown:?}, expected {want:?}");
    }
    let mut map: HashMap<&str, usize> = HashMap::new();
    for (i, n) in names.iter().enumerate() {
        if let Some(n) = n {
            map.insert(n, i);
        }
    }
    let got = src.name_map();
    ensure!(got.len() == map.len(), "after {what}: name_map has {} entries, expected {}", got.len(), map.len());
    for (n, i) in map {
        let g = got.get(n).map(|s| s.usize());
        // With duplicate names any bearer of the name is a right answer.
        let ok = g.is_some_and(|g| names.get(g).is_some_and(|x| x.as_deref() == Some(n)));
        ensure!(ok, "after {what}: name_map[{n:?}] is {g:?}, expected {i}");
    }
}

fn name(rng: &mut Rng) -> Option<&'static str> {
    if rng.chance(1, 3) { None } else { Some(*rng.pick(NAMES)) }
}

fn history<T: SymbolPrimitive + std::fmt::Debug + Eq + Ord>(c: &mut C, width: u32) {
    let mut src = sut("SymbolSource::new", SymbolSource::<T>::new);
    let mut names: Vec<Option<String>> = vec![];
    let steps = c.rng.range(1, 24);
    let mut log = vec![];
    // Now and then a source becomes large (an 8-bit one stays below its end).
    let large = c.rng.chance(1, 150);
    let cap = match (large, width) {
        (false, _) => 60,
        (_, 8) => 180,
        _ => 900,
    };
    let expect = |got: &[Symbol<T>], base: usize, what: &str| {
        for (k, s) in got.iter().enumerate() {
            ensure!(s.usize() == base + k, "{what} handed out symbol {} where {} is next", s.usize(), base + k);
            let as_u32: u32 = (*s).into();
            ensure!(as_u32 as usize == base + k, "symbol {} converts to {as_u32}", base + k);
        }
    };
    if large && c.rng.bool() {
        let k = *c.rng.pick(if width == 8 { &[60, 124][..] } else { &[60, 124, 252, 508][..] }) + c.rng.below(5);
        let s: Vec<_> = sut("generate", || src.generate().take(k).collect());
        names.extend((0..k).map(|_| None));
        expect(&s, 0, "generate on a new source");
    }
    for _ in 0..steps {
        let base = names.len();
        let op = c.rng.below(9);
        log.push(op);
        let what;
        match op {
            0 | 1 => {
                let n = name(&mut c.rng);
                what = format!("next_sym({n:?})");
                let s = sut("next_sym", || src.next_sym(n.map(Cow::Borrowed)));
                names.push(n.map(str::to_string));
                expect(&[s], base, &what);
            }
            2 => {
                what = "sym::<3>()".into();
                let s = sut("sym", || src.sym::<3>());
                names.extend([None, None, None]);
                expect(&s, base, &what);
            }
            3 => {
                what = "sym::<1>() / sym::<0>()".into();
                let z = sut("sym", || src.sym::<0>());
                expect(&z, base, &what);
                let s = sut("sym", || src.sym::<1>());
                names.push(None);
                expect(&s, base, &what);
            }
            4 => {
                let n = [name(&mut c.rng), name(&mut c.rng)];
                what = format!("with_names({n:?})");
                let s = sut("with_names", || src.with_names(n));
                names.extend(n.iter().map(|n| n.map(str::to_string)));
                expect(&s, base, &what);
            }
            5 => {
                let k = if large { c.rng.below(if width == 8 { 70 } else { 300 }) } else { c.rng.below(5) };
                what = format!("generate().take({k})");
                let s: Vec<_> = sut("generate", || src.generate().take(k).collect());
                names.extend((0..k).map(|_| None));
                expect(&s, base, &what);
            }
            6 if base > 0 => {
                let k = c.rng.range(1, base);
                what = format!("truncate({k})");
                sut("truncate", || src.truncate(k));
                names.truncate(k);
                c.count("truncations", 1);
            }
            7 if base > 0 => {
                let p = c.rng.perm(base);
                what = format!("remap_symbols({p:?})");
                let all: Vec<Symbol<T>> = SymbolSource::<T>::generate_fresh().take(base).collect();
                sut("remap_symbols", || src.remap_symbols(|s| all[p[s.usize()]]));
                let mut new = vec![None; base];
                for (i, n) in names.iter().enumerate() {
                    new[p[i]] = n.clone();
                }
                names = new;
                c.count("renumberings", 1);
            }
            _ => {
                what = "clone".into();
                let mut other = src.clone();
                let n = sut("next_sym", || other.next_sym(Some("clone".into())));
                expect(&[n], base, "next_sym on a clone");
            }
        }
        c.note(|| format!("{width} bits: {what}"));
        sut("source queries", || check(&src, &names, &what));
        if names.len() > cap {
            break;
        }
    }
    if large {
        c.max("number of symbols in a history", names.len() as u64);
    }
    let fresh: Vec<_> = sut("generate_fresh", || SymbolSource::<T>::generate_fresh().take(20).collect::<Vec<_>>());
    expect(&fresh, 0, "generate_fresh");
    let first = Symbol::<T>::first();
    ensure!(first.usize() == 0 && Symbol::<T>::default() == first, "Symbol::first is {}", first.usize());
    c.size = steps;
    c.count("operations", steps as u64);
    if names.len() >= 2 {
        c.nontrivial((width, log));
    }
    c.sample(|| format!("{width}-bit source, {steps} operations, final names {names:?}"));
}

fn exhaust<T: SymbolPrimitive + std::fmt::Debug + Eq>(c: &mut C, width: u32, start: u64, how: usize) {
    // A source close to the end; the last symbols must differ and then a panic must come.
    let max = T::MAX as u64;
    let mut src: SymbolSource<T> = SymbolSource::new();
    if start != 0 {
        // The only way to get near the end of a 32-bit source in reasonable time.
        sut("truncate", || src.truncate(start as usize));
        if src.num_syms() as u64 != start {
            return c.count("sources near the end not available", 1);
        }
    }
    let mut next = start;
    loop {
        ensure!(next <= max + 1, "a {width}-bit source handed out more than {max} symbols");
        let r = match how {
            0 => sut_may_panic("next_sym", || src.next_sym(None).usize() as u64),
            1 => sut_may_panic("sym", || src.sym::<1>()[0].usize() as u64),
            2 => sut_may_panic("generate", || src.generate().next().unwrap().usize() as u64),
            _ => sut_may_panic("with_names", || src.with_names([Some("x")])[0].usize() as u64),
        };
        match r {
            Ok(s) => {
                ensure!(s == next, "close to exhaustion, symbol {s} was handed out where {next} is next");
                next += 1;
            }
            Err(_) => break,
        }
    }
    ensure!(next + 4 > max, "a {width}-bit source panicked after only {next} symbols");
    // Once exhausted, it stays exhausted or goes on with fresh numbers; it never repeats.
    for _ in 0..4 {
        if let Ok(s) = sut_may_panic("next_sym", || src.next_sym(None).usize() as u64) {
            ensure!(s >= next && s < max, "an exhausted source handed out symbol {s} again");
            next = s + 1;
        }
    }
    c.count("sources run to exhaustion", 1);
    c.nontrivial((width, start, how));
}

fn exhaust_fresh<T: SymbolPrimitive>(c: &mut C, width: u32) {
    let mut it = SymbolSource::<T>::generate_fresh();
    let mut next = 0u64;
    while let Ok(Some(s)) = sut_may_panic("generate_fresh", || it.next().map(|s| s.usize() as u64)) {
        ensure!(s == next, "generate_fresh gave {s} where {next} is next");
        next += 1;
        ensure!(next <= T::MAX as u64, "a {width}-bit generate_fresh gave more than {} symbols", T::MAX);
    }
    ensure!(next + 4 > T::MAX as u64, "a {width}-bit generate_fresh ended after {next}");
    c.count("sources run to exhaustion", 1);
}

fn in_grammar(c: &mut C) {
    // The same through a grammar, where other operations generate symbols too.
    let mut cfg = Cfg::new();
    let mut names: Vec<Option<String>> = vec![];
    let mut log = vec![];
    let large = c.rng.chance(1, 150);
    if large {
        let k = *c.rng.pick(&[60, 124, 252, 508, 1020]) + c.rng.below(5);
        names.extend((0..k).map(|_| None));
        let got: Vec<Symbol> = sut("generate", || cfg.sym_source_mut().generate().take(k).collect());
        ensure!(got.iter().map(|s| s.usize()).eq(0..k), "a new grammar handed out {got:?} for {k} symbols");
    }
    for _ in 0..c.rng.range(1, 20) {
        let op = c.rng.below(7);
        log.push(op);
        let base = names.len();
        let got: Vec<Symbol> = match op {
            0 => {
                names.extend([None, None]);
                sut("Cfg::sym", || cfg.sym::<2>()).to_vec()
            }
            1 => {
                let n = name(&mut c.rng);
                names.push(n.map(str::to_string));
                vec![sut("Cfg::next_sym", || cfg.next_sym(n.map(Cow::Borrowed)))]
            }
            2 => {
                let n = name(&mut c.rng);
                names.push(n.map(str::to_string));
                vec![sut("Cfg::lexeme", || cfg.lexeme(n.map(Cow::Borrowed)))]
            }
            3 => {
                names.extend([Some("p".to_string()), None]);
                sut("sym_source_mut", || cfg.sym_source_mut().with_names([Some("p"), None])).to_vec()
            }
            4 if base >= 1 => {
                let k = c.rng.range(1, base);
                sut("truncate", || cfg.sym_source_mut().truncate(k));
                names.truncate(k);
                vec![]
            }
            5 if base >= 1 => {
                let roots: Vec<Symbol> = (0..c.rng.range(0, 2)).map(|_| sym(c.rng.below(base))).collect();
                cfg.set_roots(&roots);
                sut("wrap_input", || cfg.wrap_input());
                for _ in &roots {
                    names.extend(["root", "start_of_input", "end_of_input"].map(|n| Some(n.to_string())));
                }
                let got: Vec<Symbol> =
                    cfg.wrapped_roots().iter().flat_map(|w| [w.root, w.start_of_input, w.end_of_input]).collect();
                // Rules and roots would keep symbols that a later truncation takes away.
                cfg.clear_rules();
                got
            }
            _ => {
                let k = c.rng.below(if large { 200 } else { 3 });
                names.extend((0..k).map(|_| None));
                sut("generate", || cfg.sym_source_mut().generate().take(k).collect())
            }
        };
        for (i, s) in got.iter().enumerate() {
            ensure!(s.usize() == base + i, "operation {op} handed out symbol {} where {} is next", s.usize(), base + i);
        }
        ensure!(cfg.num_syms() == names.len(), "Cfg::num_syms is {}, expected {}", cfg.num_syms(), names.len());
        sut("source queries", || check(cfg.sym_source(), &names, "a grammar operation"));
    }
    c.size = log.len();
    c.count("operations", log.len() as u64);
    c.nontrivial(("grammar", log));
}

/// The same case in the optimized build, where arithmetic wraps.
fn optimized(c: &mut C) {
    if crate::run::observing() {
        return;
    }
    let exe = std::env::current_exe().ok().and_then(|e| Some(e.parent()?.parent()?.join("rel/mon")));
    let Some(exe) = exe.filter(|e| cfg!(debug_assertions) && e.exists()) else { return };
    let out = std::process::Command::new(exe)
        .args(["C01", "quick", "--case", &c.idx.to_string()])
        .env("VERIF_SEED", c.seed.to_string())
        .env_remove("MON_TAG")
        .output();
    let Ok(out) = out else { return };
    ensure!(out.status.code() != Some(1), "in the optimized build: {}", String::from_utf8_lossy(&out.stdout));
    if out.status.code() == Some(0) {
        c.count("sources exhausted in the optimized build", 1);
    }
}

fn run(c: &mut C) {
    if c.idx < 4 {
        let how = c.idx as usize;
        exhaust::<NonZeroU8>(c, 8, 0, how);
        exhaust::<NonZeroU16>(c, 16, 0, how);
        exhaust::<NonZeroU32>(c, 32, u32::MAX as u64 - 6 - how as u64, how);
        exhaust_fresh::<NonZeroU8>(c, 8);
        exhaust_fresh::<NonZeroU16>(c, 16);
        optimized(c);
        return;
    }
    match c.idx % 5 {
        0 => history::<NonZeroU8>(c, 8),
        1 => history::<NonZeroU16>(c, 16),
        2 | 3 => history::<NonZeroU32>(c, 32),
        _ => in_grammar(c),
    }
    if c.idx % 1000 == 5 {
        let (s, h) = (c.rng.below(250) as u64, c.rng.below(4));
        exhaust::<NonZeroU8>(c, 8, s, h);
        let (s, h) = (65000 + c.rng.below(530) as u64, c.rng.below(4));
        exhaust::<NonZeroU16>(c, 16, s, h);
        let (s, h) = (u32::MAX as u64 - 2 - c.rng.below(50) as u64, c.rng.below(4));
        exhaust::<NonZeroU32>(c, 32, s, h);
    }
}
