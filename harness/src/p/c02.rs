//! C02: serialized values round-trip; malformed input is rejected, not a panic.

use crate::ensure;
use crate::gcfg::{sym, syms};
use crate::rng::Rng;
use crate::run::{C, Prop, sut, viol};
use bit_vec::BitVec;
use cfg_grammar::{Cfg, SymbolBitSet};
use cfg_history::earley::{EventId, ExternalDottedRule, ExternalOrigin, MinimalDistance, rule_dot::RuleDot};
use cfg_symbol::intern::Mapping;
use cfg_symbol::{Symbol, SymbolName, SymbolPrimitive, SymbolSource};
use std::fmt::Debug;
use std::num::{NonZeroU8, NonZeroU16, NonZeroU32};

pub const PROP: Prop = Prop {
    id: "C02",
    quick: 2_000_000,
    thorough: 6_000_000,
    rule: "random values of every serializable type are written and read back in each format; then damaged copies of the text or bytes are read: cut off, with numbers out of range, negative, fractional or of another type, or with fields missing (these must be errors), and with random bytes changed (these must not panic, and what is accepted must round-trip). Distinct by type, format and encoding",
    assumptions: &[
        "the internal consistency of a bit vector (length against storage) is checked by the bit-vec crate, not here",
    ],
    run,
};

fn mini_round<T: miniserde::Serialize + miniserde::Deserialize>(what: &'static str, v: &T, eq: impl Fn(&T, &T) -> bool) -> String {
    let text = sut(what, || miniserde::json::to_string(v));
    match sut(what, || miniserde::json::from_str::<T>(&text)) {
        Ok(back) => ensure!(eq(v, &back), "{what}: {text} reads back as {}", miniserde::json::to_string(&back)),
        Err(_) => viol(format!("{what}: {text} cannot be read back")),
    }
    text
}

#[cfg(feature = "allfeat")]
fn serde_round<T: serde::Serialize + serde::de::DeserializeOwned>(what: &'static str, v: &T, eq: impl Fn(&T, &T) -> bool) -> String {
    let text = sut(what, || serde_json::to_string(v)).unwrap_or_else(|e| viol(format!("{what}: cannot be written: {e}")));
    match sut(what, || serde_json::from_str::<T>(&text)) {
        Ok(back) => ensure!(eq(v, &back), "{what}: {text} does not read back as the same value"),
        Err(e) => viol(format!("{what}: {text} cannot be read back: {e}")),
    }
    text
}

#[cfg(feature = "allfeat")]
fn nano_round<T: nanoserde::SerBin + nanoserde::DeBin>(what: &'static str, v: &T, eq: impl Fn(&T, &T) -> bool) -> Vec<u8> {
    let bytes = sut(what, || nanoserde::SerBin::serialize_bin(v));
    match sut(what, || <T as nanoserde::DeBin>::deserialize_bin(&bytes)) {
        Ok(back) => ensure!(eq(v, &back), "{what}: {bytes:?} does not read back as the same value"),
        Err(_) => viol(format!("{what}: {bytes:?} cannot be read back")),
    }
    // Cut off anywhere, it must be an error.
    for k in 0..bytes.len() {
        let r = sut(what, || <T as nanoserde::DeBin>::deserialize_bin(&bytes[..k]));
        ensure!(r.is_err(), "{what}: the first {k} of {} bytes are accepted", bytes.len());
    }
    bytes
}

/// Damages a JSON text; `true`: the result is certainly no encoding of a value.
fn damage(text: &str, rng: &mut Rng) -> (String, bool) {
    let container = text.starts_with(['{', '[']);
    match rng.below(5) {
        0 if container => {
            let mut k = rng.below(text.len());
            while !text.is_char_boundary(k) {
                k -= 1;
            }
            (text[..k].to_string(), true)
        }
        1 => {
            // Replace one number by something that is none of its type.
            let digits: Vec<usize> = text
                .char_indices()
                .filter(|&(i, ch)| ch.is_ascii_digit() && (i == 0 || !text.as_bytes()[i - 1].is_ascii_digit()))
                .map(|(i, _)| i)
                .collect();
            if digits.is_empty() || text.contains('"') && !text.contains(':') {
                return (format!("{text}]"), true);
            }
            let at = *rng.pick(&digits);
            let end = text[at..].find(|ch: char| !ch.is_ascii_digit()).map_or(text.len(), |e| at + e);
            let bad = *rng.pick(&["-1", "1.5", "\"x\"", "18446744073709551616", "4294967296", "[]", "{}", "true", "-4294967296"]);
            (format!("{}{bad}{}", &text[..at], &text[end..]), true)
        }
        2 if text.contains("\":") => {
            // Rename a field.
            let at = text.find("\":").unwrap();
            (format!("{}z{}", &text[..at], &text[at..]), true)
        }
        3 => (format!("{text}{}", rng.pick(&["}", "]", "x", ",", "{}"])), true),
        _ => {
            let mut b: Vec<char> = text.chars().collect();
            for _ in 0..rng.range(1, 3) {
                if b.is_empty() {
                    break;
                }
                let at = rng.below(b.len());
                match rng.below(3) {
                    0 => {
                        b.remove(at);
                    }
                    1 => b[at] = *rng.pick(&['0', '9', '-', '"', '{', '}', '[', ']', ',', ':', 'n', '.', 'é', '\\']),
                    _ => b.insert(at, *rng.pick(&['0', '9', '-', '"', '{', '}', '[', ']', ',', ':', 'e', ' '])),
                }
            }
            (b.into_iter().collect(), false)
        }
    }
}

fn mini_bad<T: miniserde::Serialize + miniserde::Deserialize>(c: &mut C, what: &'static str, text: &str, eq: impl Fn(&T, &T) -> bool) {
    let (bad, certain) = damage(text, &mut c.rng);
    c.note(|| format!("{what}: damaged {bad}"));
    c.count("damaged encodings read", 1);
    if let Ok(v) = sut(what, || miniserde::json::from_str::<T>(&bad)) {
        ensure!(!certain, "{what}: the malformed text {bad} is accepted");
        mini_round(what, &v, eq);
    } else {
        c.count("damaged encodings rejected", 1);
    }
}

#[cfg(feature = "allfeat")]
fn serde_bad<T: serde::Serialize + serde::de::DeserializeOwned>(c: &mut C, what: &'static str, text: &str, eq: impl Fn(&T, &T) -> bool) {
    let (bad, certain) = damage(text, &mut c.rng);
    c.note(|| format!("{what}: damaged {bad}"));
    c.count("damaged encodings read", 1);
    if let Ok(v) = sut(what, || serde_json::from_str::<T>(&bad)) {
        ensure!(!certain, "{what}: the malformed text {bad} is accepted");
        serde_round(what, &v, eq);
    } else {
        c.count("damaged encodings rejected", 1);
    }
}

fn symbol<T>(c: &mut C, width: u32, what: &'static str)
where
    T: SymbolPrimitive + Debug + Eq,
{
    let max = T::MAX as u64;
    let at = match c.rng.below(4) {
        0 => c.rng.below(4) as u64,
        1 => max - 1 - c.rng.below(3) as u64,
        _ => c.rng.below(max as usize) as u64,
    };
    // Symbols this large are only had by reading them.
    let v: Symbol<T> = match sut(what, || miniserde::json::from_str(&at.to_string())) {
        Ok(v) => v,
        Err(_) => viol(format!("{what}: symbol {at} of {max} cannot be read")),
    };
    ensure!(v.usize() as u64 == at, "{what}: {at} reads as symbol {}", v.usize());
    let text = mini_round(what, &v, |a, b| a == b);
    ensure!(text == at.to_string(), "{what}: symbol {at} is written as {text}");
    let bad = match c.rng.below(3) {
        0 => max + c.rng.below(3) as u64,
        1 => max + c.rng.below(1 << 20) as u64,
        _ => max.wrapping_add(c.rng.next() >> 1).max(max),
    };
    let bad_text = bad.to_string();
    ensure!(
        sut(what, || miniserde::json::from_str::<Symbol<T>>(&bad_text)).is_err(),
        "{what}: the number {bad} is accepted as a {width}-bit symbol"
    );
    for t in ["-1", "1.5", "\"1\"", "null", "[]", "{}", "", "true", "18446744073709551616", "-9223372036854775808"] {
        ensure!(
            sut(what, || miniserde::json::from_str::<Symbol<T>>(t)).is_err(),
            "{what}: {t:?} is accepted as a symbol"
        );
    }
    mini_bad::<Symbol<T>>(c, what, &text, |a, b| a == b);
    c.nontrivial((what, at));
}

fn name(rng: &mut Rng) -> String {
    let pool = ["", "a", "é", "日本", "\"", "\\", "\n\t", "\u{0}", "\u{1f}x", "𝄞", "/", "g1"];
    (0..rng.below(4)).map(|_| *rng.pick(&pool)).collect()
}

fn bits(rng: &mut Rng) -> SymbolBitSet {
    let n = *rng.pick(&[0, 1, 2, 5, 31, 32, 33, 63, 64, 65, 100, 128, 129, 129, 256, 300]);
    let mut cfg = Cfg::new();
    for _ in 0..n {
        cfg.next_sym(None);
    }
    let mut s = SymbolBitSet::from_elem(&cfg, false);
    for x in syms(n) {
        if rng.chance(1, 2) {
            s.set(x, true);
        }
    }
    s
}

fn same_bits(a: &SymbolBitSet, b: &SymbolBitSet) -> bool {
    let (x, y): (&BitVec, &BitVec) = (a.bit_vec(), b.bit_vec());
    a.space() == b.space() && x.iter().eq(y.iter()) && a.iter().eq(b.iter())
}

fn same_map(a: &Mapping, b: &Mapping) -> bool {
    a.to_internal == b.to_internal && a.to_external == b.to_external
}

fn id32(rng: &mut Rng) -> u32 {
    match rng.below(4) {
        0 => u32::MAX - rng.below(2) as u32,
        1 => rng.below(3) as u32,
        2 => 1 << rng.below(32),
        _ => rng.next() as u32,
    }
}

fn run(c: &mut C) {
    match c.idx % 10 {
        0 => symbol::<NonZeroU8>(c, 8, "Symbol<NonZeroU8> in JSON"),
        1 => symbol::<NonZeroU16>(c, 16, "Symbol<NonZeroU16> in JSON"),
        2 | 3 => symbol::<NonZeroU32>(c, 32, "Symbol in JSON"),
        4 => {
            let s = bits(&mut c.rng);
            let t = mini_round("SymbolBitSet in JSON", &s, same_bits);
            c.nontrivial(("bits", &t));
            c.sample(|| format!("SymbolBitSet {t}"));
            #[cfg(feature = "allfeat")]
            serde_round("SymbolBitSet with serde", &s, same_bits);
            // Only damage that leaves no well-formed number behind: see the assumptions.
            let k = c.rng.below(t.len());
            ensure!(
                sut("SymbolBitSet in JSON", || miniserde::json::from_str::<SymbolBitSet>(&t[..k])).is_err(),
                "SymbolBitSet: the cut-off text {} is accepted",
                &t[..k]
            );
        }
        5 => {
            let most = if c.rng.chance(1, 100) { 300 } else { 6 };
            let n = c.rng.range(0, most);
            let m = c.rng.range(0, most);
            let any = |rng: &mut Rng| -> Symbol {
                if rng.chance(1, 8) {
                    let n = u32::MAX as u64 - 1 - rng.next() % (1 << rng.below(32));
                    miniserde::json::from_str(&n.to_string()).unwrap_or_else(|_| viol(format!("symbol {n} cannot be read")))
                } else {
                    sym(rng.below(300))
                }
            };
            let map = Mapping {
                to_internal: (0..n).map(|_| if c.rng.chance(1, 3) { None } else { Some(any(&mut c.rng)) }).collect(),
                to_external: (0..m).map(|_| any(&mut c.rng)).collect(),
            };
            let t = mini_round("Mapping in JSON", &map, same_map);
            c.nontrivial(("mapping", &t));
            c.sample(|| format!("Mapping {t}"));
            mini_bad::<Mapping>(c, "Mapping in JSON", &t, same_map);
            #[cfg(feature = "allfeat")]
            {
                let t = serde_round("Mapping with serde", &map, same_map);
                serde_bad::<Mapping>(c, "Mapping with serde", &t, same_map);
            }
        }
        6 => {
            let id = id32(&mut c.rng);
            let t = mini_round("ExternalOrigin in JSON", &ExternalOrigin { id }, |a, b| a == b);
            mini_bad::<ExternalOrigin>(c, "ExternalOrigin in JSON", &t, |a, b| a == b);
            let t = mini_round("EventId in JSON", &EventId { id }, |a, b| a == b);
            mini_bad::<EventId>(c, "EventId in JSON", &t, |a, b| a == b);
            let t = mini_round("MinimalDistance in JSON", &MinimalDistance { distance: id }, |a, b| a == b);
            mini_bad::<MinimalDistance>(c, "MinimalDistance in JSON", &t, |a, b| a == b);
            let d: ExternalDottedRule = RuleDot::new(id, id32(&mut c.rng)).trace();
            let t = mini_round("ExternalDottedRule in JSON", &d, |a, b| a == b);
            mini_bad::<ExternalDottedRule>(c, "ExternalDottedRule in JSON", &t, |a, b| a == b);
            c.nontrivial(("history ids", t));
            #[cfg(feature = "allfeat")]
            {
                let t = serde_round("ExternalDottedRule with serde", &d, |a, b| a == b);
                serde_bad::<ExternalDottedRule>(c, "ExternalDottedRule with serde", &t, |a, b| a == b);
                serde_round("ExternalOrigin with serde", &ExternalOrigin { id }, |a, b| a == b);
                serde_round("EventId with serde", &EventId { id }, |a, b| a == b);
                serde_round("MinimalDistance with serde", &MinimalDistance { distance: id }, |a, b| a == b);
                nano_round("ExternalDottedRule with nanoserde", &d, |a, b| a == b);
                nano_round("ExternalOrigin with nanoserde", &ExternalOrigin { id }, |a, b| a == b);
                nano_round("EventId with nanoserde", &EventId { id }, |a, b| a == b);
                nano_round("MinimalDistance with nanoserde", &MinimalDistance { distance: id }, |a, b| a == b);
            }
        }
        7 => {
            let name = name(&mut c.rng);
            let n = SymbolName::from(&name[..]);
            ensure!(*n == *name, "SymbolName holds {:?} for {name:?}", &*n);
            let t = mini_round("SymbolName in JSON", &n, |a, b| a == b);
            c.nontrivial(("name", &name));
            for bad in ["1", "null", "[]", "{}", "\"", "true"] {
                ensure!(
                    sut("SymbolName in JSON", || miniserde::json::from_str::<SymbolName>(bad)).is_err(),
                    "SymbolName: {bad} is accepted"
                );
            }
            let _ = t;
        }
        _ => {
            #[cfg(feature = "allfeat")]
            {
                let n = match c.rng.below(3) {
                    0 => c.rng.below(4) as u32 + 1,
                    1 => u32::MAX - c.rng.below(3) as u32,
                    _ => (c.rng.next() as u32).max(1),
                };
                let bytes = n.to_le_bytes();
                let s = match sut("Symbol with nanoserde", || <Symbol as nanoserde::DeBin>::deserialize_bin(&bytes)) {
                    Ok(s) => s,
                    Err(_) => viol(format!("Symbol with nanoserde: {bytes:?} cannot be read")),
                };
                ensure!(s.usize() as u64 == n as u64 - 1, "nanoserde reads {n} as symbol {}", s.usize());
                let out = nano_round("Symbol with nanoserde", &s, |a, b| a == b);
                ensure!(out.len() == 4, "a symbol is written in {} bytes", out.len());
                let list = vec![s, sym(c.rng.below(9)), s];
                nano_round("Vec<Symbol> with nanoserde", &list, |a, b| a == b);
                ensure!(
                    sut("Symbol with nanoserde", || <Symbol as nanoserde::DeBin>::deserialize_bin(&[0, 0, 0, 0])).is_err(),
                    "nanoserde accepts zero as a symbol"
                );
                let t = serde_round("Symbol with serde", &s, |a, b| a == b);
                serde_bad::<Symbol>(c, "Symbol with serde", &t, |a, b| a == b);
                for width_bad in ["{\"n\":0}", "{\"n\":256}", "{\"n\":-1}", "{}", "7x"] {
                    ensure!(
                        sut("Symbol<u8> with serde", || serde_json::from_str::<Symbol<NonZeroU8>>(width_bad)).is_err(),
                        "serde accepts {width_bad} as an 8-bit symbol"
                    );
                }
                let small: Symbol<NonZeroU8> =
                    SymbolSource::<NonZeroU8>::generate_fresh().nth(c.rng.below(250)).unwrap();
                serde_round("Symbol<u8> with serde", &small, |a, b| a == b);
                c.nontrivial(("binary", n));
                c.count("binary encodings", 1);
                c.sample(|| format!("Symbol bytes {bytes:?}, serde {t}"));
            }
        }
    }
    c.count("values round-tripped", 1);
}
