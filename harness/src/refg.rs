//! Reference models: textbook definitions over plain integers, written independently of the
//! code under test.

use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;

/// A grammar: `n` symbols, rules, roots. Symbols without rules are terminals.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct G {
    pub n: usize,
    pub rules: Vec<(usize, Vec<usize>)>,
    pub roots: Vec<usize>,
}

impl G {
    pub fn show(&self) -> String {
        let mut s = format!("{} symbols; roots {:?};", self.n, self.roots);
        for (l, r) in &self.rules {
            let _ = write!(s, " {l} ::=");
            for x in r {
                let _ = write!(s, " {x}");
            }
            s.push(';');
        }
        s
    }
    pub fn size(&self) -> usize {
        self.rules.iter().map(|r| r.1.len() + 2).sum::<usize>() + self.n / 4
    }
    pub fn nonterminal(&self) -> Vec<bool> {
        let mut v = vec![false; self.n];
        for (l, _) in &self.rules {
            v[*l] = true;
        }
        v
    }
    pub fn terminal(&self) -> Vec<bool> {
        self.nonterminal().iter().map(|b| !b).collect()
    }
    pub fn terminals(&self) -> Vec<usize> {
        let t = self.terminal();
        (0..self.n).filter(|&s| t[s]).collect()
    }
    pub fn used(&self) -> Vec<bool> {
        let mut v = vec![false; self.n];
        for (l, r) in &self.rules {
            v[*l] = true;
            for &x in r {
                v[x] = true;
            }
        }
        v
    }
    fn fix(&self, mut set: Vec<bool>, ok: impl Fn(&[bool], &[usize]) -> bool) -> Vec<bool> {
        loop {
            let mut changed = false;
            for (l, r) in &self.rules {
                if !set[*l] && ok(&set, r) {
                    set[*l] = true;
                    changed = true;
                }
            }
            if !changed {
                return set;
            }
        }
    }
    pub fn nullable(&self) -> Vec<bool> {
        self.fix(vec![false; self.n], |s, r| r.iter().all(|&x| s[x]))
    }
    pub fn productive(&self) -> Vec<bool> {
        self.fix(self.terminal(), |s, r| r.iter().all(|&x| s[x]))
    }
    /// Closure over rules with a non-empty RHS.
    pub fn closure(&self, set: Vec<bool>, all: bool) -> Vec<bool> {
        self.fix(set, |s, r| {
            !r.is_empty() && if all { r.iter().all(|&x| s[x]) } else { r.iter().any(|&x| s[x]) }
        })
    }
    pub fn direct(&self) -> Vec<BTreeSet<usize>> {
        let mut d = vec![BTreeSet::new(); self.n];
        for (l, r) in &self.rules {
            d[*l].extend(r.iter().copied());
        }
        d
    }
    pub fn unit(&self) -> Vec<BTreeSet<usize>> {
        let mut d = vec![BTreeSet::new(); self.n];
        for (l, r) in &self.rules {
            if r.len() == 1 && r[0] != *l {
                d[*l].insert(r[0]);
            }
        }
        d
    }
    pub fn reachable_from(&self, start: &[usize]) -> Vec<bool> {
        let d = self.direct();
        let mut seen = vec![false; self.n];
        let mut work = start.to_vec();
        while let Some(s) = work.pop() {
            if !std::mem::replace(&mut seen[s], true) {
                work.extend(d[s].iter().copied());
            }
        }
        seen
    }
    pub fn first(&self) -> (Vec<BTreeSet<usize>>, Vec<bool>) {
        let nullable = self.nullable();
        let term = self.terminal();
        let mut first: Vec<BTreeSet<usize>> =
            (0..self.n).map(|s| if term[s] { BTreeSet::from([s]) } else { BTreeSet::new() }).collect();
        loop {
            let mut changed = false;
            for (l, r) in &self.rules {
                for &x in r {
                    let add: Vec<usize> = first[x].difference(&first[*l]).copied().collect();
                    if !add.is_empty() {
                        first[*l].extend(add);
                        changed = true;
                    }
                    if !nullable[x] {
                        break;
                    }
                }
            }
            if !changed {
                return (first, nullable);
            }
        }
    }
    pub fn reversed(&self) -> G {
        let mut g = self.clone();
        for (_, r) in &mut g.rules {
            r.reverse();
        }
        g
    }
    /// FOLLOW sets; the end of input is `usize::MAX`.
    pub fn follow(&self) -> Vec<BTreeSet<usize>> {
        let (first, nullable) = self.first();
        let mut follow = vec![BTreeSet::new(); self.n];
        for &r in &self.roots {
            follow[r].insert(usize::MAX);
        }
        loop {
            let mut changed = false;
            for (l, r) in &self.rules {
                for i in 0..r.len() {
                    let mut add = BTreeSet::new();
                    let mut rest_nullable = true;
                    for &y in &r[i + 1..] {
                        add.extend(first[y].iter().copied());
                        if !nullable[y] {
                            rest_nullable = false;
                            break;
                        }
                    }
                    if rest_nullable {
                        add.extend(follow[*l].iter().copied());
                    }
                    let before = follow[r[i]].len();
                    follow[r[i]].extend(add);
                    changed |= follow[r[i]].len() != before;
                }
            }
            if !changed {
                return follow;
            }
        }
    }
    /// Length of the shortest sentence; `None` if there is none.
    pub fn minlen(&self) -> Vec<Option<u64>> {
        let mut v: Vec<Option<u64>> = self.terminal().iter().map(|&t| t.then_some(1)).collect();
        loop {
            let mut changed = false;
            for (l, r) in &self.rules {
                let mut sum = Some(0u64);
                for &x in r {
                    sum = sum.and_then(|s| v[x].map(|y| s.saturating_add(y)));
                }
                if let Some(s) = sum {
                    if v[*l].is_none_or(|old| s < old) {
                        v[*l] = Some(s);
                        changed = true;
                    }
                }
            }
            if !changed {
                return v;
            }
        }
    }
    /// No symbol derives itself: every string has finitely many derivations.
    /// Which symbols derive infinitely many strings. What each symbol derives by itself, besides
    /// what its rules give: something, something not empty, infinitely many strings.
    pub fn infinite(&self, own: &[[bool; 3]]) -> Vec<bool> {
        let some = self.fix(own.iter().map(|o| o[0]).collect(), |s, r| r.iter().all(|&x| s[x]));
        let rules: Vec<&(usize, Vec<usize>)> = self.rules.iter().filter(|r| r.1.iter().all(|&x| some[x])).collect();
        let sub = G { n: self.n, rules: rules.iter().map(|&r| r.clone()).collect(), roots: vec![] };
        let full = sub.fix(own.iter().map(|o| o[1]).collect(), |s, r| r.iter().any(|&x| s[x]));
        let mut next = vec![vec![]; self.n];
        let mut grow: BTreeSet<(usize, usize)> = BTreeSet::new();
        for (l, r) in &sub.rules {
            let others = r.iter().filter(|&&x| full[x]).count();
            for &x in r {
                next[*l].push(x);
                if others > full[x] as usize {
                    grow.insert((*l, x));
                }
            }
        }
        let mut inf: Vec<bool> = own.iter().map(|o| o[2]).collect();
        for (l, x) in grow {
            if inf[l] {
                continue;
            }
            let mut seen = vec![false; self.n];
            let mut stack = vec![x];
            while let Some(y) = stack.pop() {
                if !std::mem::replace(&mut seen[y], true) {
                    stack.extend(&next[y]);
                }
            }
            inf[l] = seen[l];
        }
        sub.fix(inf, |s, r| r.iter().any(|&x| s[x]))
    }
    /// The same, where terminals are single letters.
    pub fn infinite_over_terminals(&self) -> Vec<bool> {
        self.infinite(&self.terminal().iter().map(|&t| [t, t, false]).collect::<Vec<_>>())
    }
    pub fn acyclic(&self) -> bool {
        let nullable = self.nullable();
        let mut d = vec![BTreeSet::new(); self.n];
        for (l, r) in &self.rules {
            for i in 0..r.len() {
                if (0..r.len()).all(|j| j == i || nullable[r[j]]) {
                    d[*l].insert(r[i]);
                }
            }
        }
        let c = closure_of(&d);
        (0..self.n).all(|s| !c[s].contains(&s))
    }
}

/// Transitive closure of a relation (one or more steps).
pub fn closure_of(d: &[BTreeSet<usize>]) -> Vec<BTreeSet<usize>> {
    (0..d.len())
        .map(|s| {
            let mut seen = BTreeSet::new();
            let mut work: Vec<usize> = d[s].iter().copied().collect();
            while let Some(x) = work.pop() {
                if seen.insert(x) {
                    work.extend(d[x].iter().copied());
                }
            }
            seen
        })
        .collect()
}

/// A homomorphism of terminals to letters or the empty string, and a bound on the length.
#[derive(Clone, Debug)]
pub struct Hom {
    pub base: usize,
    pub len: usize,
    /// `None`: not a terminal; `Some(None)`: the empty string.
    pub img: Vec<Option<Option<usize>>>,
}

pub type Lang = Vec<u128>;

impl Hom {
    pub fn random(g: &G, rng: &mut Rng) -> Hom {
        let terms = g.terminals();
        let maxrhs = g.rules.iter().map(|r| r.1.len()).max().unwrap_or(0);
        let exact = terms.iter().filter(|&&t| g.used()[t]).count() <= 2 && maxrhs <= 6;
        let kind = if exact { rng.below(2) } else { rng.below(5) };
        let (base, len) = match kind {
            0 | 1 => (2, 7),
            2 => (3, 4),
            3 => (4, 3),
            _ => (1, 16),
        };
        let mut img = vec![None; g.n];
        let drop = if exact && kind == 0 { 0 } else { rng.below(4) };
        let used = g.used();
        let mut k = 0;
        for &t in &terms {
            img[t] = Some(if exact && kind == 0 {
                Some(if used[t] { (k + 1) % 2 } else { 0 })
            } else if rng.below(4) < drop {
                None
            } else {
                Some(rng.below(base))
            });
            if used[t] {
                k += 1;
            }
        }
        Hom { base, len, img }
    }
    /// The same homomorphism for a grammar with more (or fewer) symbols: new symbols are no terminals.
    pub fn resized(&self, n: usize) -> Hom {
        let mut h = self.clone();
        h.img.resize(n, None);
        h
    }
    fn concat(&self, a: &Lang, b: &Lang) -> Lang {
        let mut r = vec![0u128; self.len + 1];
        for i in 0..=self.len {
            if a[i] == 0 {
                continue;
            }
            let mut w = 1usize;
            for j in 0..=self.len - i {
                if b[j] != 0 {
                    let mut bits = a[i];
                    while bits != 0 {
                        let x = bits.trailing_zeros() as usize;
                        bits &= bits - 1;
                        r[i + j] |= b[j] << (x * w);
                    }
                }
                w *= self.base;
            }
        }
        r
    }
    pub fn letter(&self, s: usize) -> Option<Lang> {
        self.img[s].map(|x| {
            let mut l = vec![0u128; self.len + 1];
            match x {
                None => l[0] = 1,
                Some(c) => l[1] = 1 << c,
            }
            l
        })
    }
    /// The image of every symbol's language, up to the bound.
    pub fn languages(&self, g: &G) -> Vec<Lang> {
        self.languages_from(g, (0..g.n).map(|s| self.letter(s).unwrap_or_else(|| self.nothing())).collect())
    }
    pub fn nothing(&self) -> Lang {
        vec![0u128; self.len + 1]
    }
    /// Adds a string of letters to a language.
    pub fn add(&self, l: &mut Lang, word: &[usize]) {
        if word.len() <= self.len {
            l[word.len()] |= 1 << word.iter().fold(0, |x, &c| x * self.base + c);
        }
    }
    /// All strings of letters up to the bound.
    pub fn words(&self) -> Vec<Vec<usize>> {
        let mut out = vec![];
        let mut width = 1usize;
        for k in 0..=self.len {
            for x in 0..width {
                let mut x = x;
                let mut w = vec![0; k];
                for i in (0..k).rev() {
                    w[i] = x % self.base;
                    x /= self.base;
                }
                out.push(w);
            }
            width *= self.base;
        }
        out
    }
    /// The same, with the languages some symbols begin with.
    pub fn languages_from(&self, g: &G, mut v: Vec<Lang>) -> Vec<Lang> {
        let mut occ: Vec<Vec<usize>> = vec![vec![]; g.n];
        for (i, (_, r)) in g.rules.iter().enumerate() {
            for &x in r {
                if occ[x].last() != Some(&i) {
                    occ[x].push(i);
                }
            }
        }
        let mut queued = vec![true; g.rules.len()];
        let mut work: std::collections::VecDeque<usize> = (0..g.rules.len()).collect();
        while let Some(i) = work.pop_front() {
            queued[i] = false;
            let (l, r) = &g.rules[i];
            let mut acc = vec![0u128; self.len + 1];
            acc[0] = 1;
            for &x in r {
                acc = self.concat(&acc, &v[x]);
                if acc.iter().all(|&w| w == 0) {
                    break;
                }
            }
            let mut changed = false;
            for k in 0..=self.len {
                if acc[k] & !v[*l][k] != 0 {
                    v[*l][k] |= acc[k];
                    changed = true;
                }
            }
            if changed {
                for &j in &occ[*l] {
                    if !queued[j] {
                        queued[j] = true;
                        work.push_back(j);
                    }
                }
            }
        }
        v
    }
    /// Names a difference of two languages.
    pub fn diff(&self, a: &Lang, b: &Lang) -> Option<String> {
        for k in 0..=self.len {
            let d = a[k] ^ b[k];
            if d != 0 {
                let mut x = d.trailing_zeros() as usize;
                let side = if a[k] >> x & 1 == 1 { "lost" } else { "gained" };
                let mut w = vec![];
                for _ in 0..k {
                    w.push((b'a' + (x % self.base) as u8) as char);
                    x /= self.base;
                }
                w.reverse();
                let w: String = w.into_iter().collect();
                return Some(format!("{side} the string {w:?} (terminals read as {:?})", self.img));
            }
        }
        None
    }
}

/// Number of derivation trees (modulo 2^64) of every string of at most `len` letters.
pub fn counts(g: &G, letters: &[Option<usize>], base: usize, len: usize) -> Option<Vec<Vec<u64>>> {
    let mut off = vec![0usize];
    let mut w = 1;
    for _ in 0..=len {
        off.push(off.last().unwrap() + w);
        w *= base;
    }
    let total = off[len + 1];
    let pow: Vec<usize> = (0..=len).map(|k| off[k + 1] - off[k]).collect();
    let mut v: Vec<Vec<u64>> = vec![vec![0; total]; g.n];
    for s in 0..g.n {
        if let Some(c) = letters[s] {
            v[s][1 + c] = 1;
        }
    }
    let base_v = v.clone();
    for _ in 0..2000 {
        let mut next = base_v.clone();
        for (l, r) in &g.rules {
            let mut acc = vec![0u64; total];
            acc[0] = 1;
            for &x in r {
                let mut res = vec![0u64; total];
                for i in 0..=len {
                    for a in 0..pow[i] {
                        let ca = acc[off[i] + a];
                        if ca == 0 {
                            continue;
                        }
                        for j in 0..=len - i {
                            for b in 0..pow[j] {
                                let cb = v[x][off[j] + b];
                                if cb != 0 {
                                    let t = off[i + j] + a * pow[j] + b;
                                    res[t] = res[t].wrapping_add(ca.wrapping_mul(cb));
                                }
                            }
                        }
                    }
                }
                acc = res;
            }
            for t in 0..total {
                next[*l][t] = next[*l][t].wrapping_add(acc[t]);
            }
        }
        if next == v {
            return Some(v);
        }
        v = next;
    }
    None
}

/// All strings of at most `len` terminals per symbol, exactly; `None` above `cap` strings.
pub fn sparse(g: &G, term: &[bool], len: usize, cap: usize) -> Option<Vec<BTreeSet<Vec<u16>>>> {
    let mut v: Vec<BTreeSet<Vec<u16>>> = vec![BTreeSet::new(); g.n];
    for s in 0..g.n {
        if term[s] && len >= 1 {
            v[s].insert(vec![s as u16]);
        }
    }
    loop {
        let mut changed = false;
        for (l, r) in &g.rules {
            let mut acc: BTreeSet<Vec<u16>> = BTreeSet::from([vec![]]);
            for &x in r {
                let mut next = BTreeSet::new();
                for a in &acc {
                    for b in &v[x] {
                        if a.len() + b.len() <= len {
                            let mut w = a.clone();
                            w.extend_from_slice(b);
                            next.insert(w);
                        }
                    }
                    if next.len() > cap {
                        return None;
                    }
                }
                acc = next;
                if acc.is_empty() {
                    break;
                }
            }
            for w in acc {
                changed |= v[*l].insert(w);
            }
            if v[*l].len() > cap {
                return None;
            }
        }
        if !changed {
            return Some(v);
        }
    }
}

/// Earley recogniser over `len` positions. `reads(sym, pos)`: the terminal matches there.
/// `zero(sym, pos)`: `Some(ok)` if the symbol is a zero-width test.
pub struct Earley<'a> {
    g: &'a G,
    by_lhs: Vec<Vec<usize>>,
}

pub struct Parse {
    /// Whether the whole input is a sentence.
    pub accepted: bool,
    /// How many positions are a viable prefix (`len` if the whole input is).
    pub viable: usize,
}

impl<'a> Earley<'a> {
    pub fn new(g: &'a G) -> Self {
        let mut by_lhs = vec![vec![]; g.n];
        for (i, (l, _)) in g.rules.iter().enumerate() {
            by_lhs[*l].push(i);
        }
        Earley { g, by_lhs }
    }
    pub fn run(
        &self,
        start: usize,
        len: usize,
        reads: &dyn Fn(usize, usize) -> bool,
        zero: &dyn Fn(usize, usize) -> Option<bool>,
    ) -> Parse {
        type Item = (u32, u32, u32); // rule, dot, origin
        let g = self.g;
        if self.by_lhs[start].is_empty() && zero(start, 0).is_none() {
            // A terminal as the start symbol.
            let ok = len >= 1 && reads(start, 0);
            return Parse { accepted: ok && len == 1, viable: ok as usize };
        }
        let mut waiting: Vec<HashMap<usize, Vec<Item>>> = Vec::with_capacity(len + 1);
        let mut kernel: Vec<Item> = vec![];
        let mut viable = 0;
        let mut accepted = false;
        for k in 0..=len {
            let mut set: HashSet<Item> = HashSet::new();
            let mut work: Vec<Item> = vec![];
            waiting.push(HashMap::new());
            let mut null_done: HashSet<usize> = HashSet::new();
            let mut predicted: HashSet<usize> = HashSet::new();
            let mut scans: Vec<Item> = vec![];
            accepted = false;
            if k == 0 {
                if let Some(ok) = zero(start, 0) {
                    if ok {
                        accepted = true;
                    }
                } else {
                    predicted.insert(start);
                    for &r in &self.by_lhs[start] {
                        if set.insert((r as u32, 0, 0)) {
                            work.push((r as u32, 0, 0));
                        }
                    }
                }
            } else {
                for it in kernel.drain(..) {
                    if set.insert(it) {
                        work.push(it);
                    }
                }
            }
            while let Some(it @ (r, d, o)) = work.pop() {
                let (lhs, rhs) = &g.rules[r as usize];
                if let Some(&x) = rhs.get(d as usize) {
                    if let Some(ok) = zero(x, k) {
                        if ok {
                            let n = (r, d + 1, o);
                            if set.insert(n) {
                                work.push(n);
                            }
                        }
                    } else if self.by_lhs[x].is_empty() {
                        scans.push(it);
                    } else {
                        waiting[k].entry(x).or_default().push(it);
                        if predicted.insert(x) {
                            for &q in &self.by_lhs[x] {
                                let n = (q as u32, 0, k as u32);
                                if set.insert(n) {
                                    work.push(n);
                                }
                            }
                        }
                        if null_done.contains(&x) {
                            let n = (r, d + 1, o);
                            if set.insert(n) {
                                work.push(n);
                            }
                        }
                    }
                } else {
                    if *lhs == start && o == 0 {
                        accepted = true;
                    }
                    if o as usize == k && !null_done.insert(*lhs) {
                        continue;
                    }
                    if let Some(list) = waiting[o as usize].get(lhs) {
                        for &(r2, d2, o2) in list {
                            let n = (r2, d2 + 1, o2);
                            if set.insert(n) {
                                work.push(n);
                            }
                        }
                    }
                }
            }
            viable = k;
            if k == len {
                break;
            }
            kernel = scans
                .iter()
                .filter(|&&(r, d, _)| reads(g.rules[r as usize].1[d as usize], k))
                .map(|&(r, d, o)| (r, d + 1, o))
                .collect();
            if kernel.is_empty() {
                return Parse { accepted: false, viable };
            }
        }
        Parse { accepted, viable }
    }
    pub fn accepts(&self, start: usize, word: &[usize]) -> bool {
        self.run(start, word.len(), &|s, p| word[p] == s, &|_, _| None).accepted
    }
}

/// A random sentence of `start` with at most about `budget` terminals.
pub fn sentence(g: &G, start: usize, rng: &mut Rng, budget: usize) -> Option<Vec<usize>> {
    let min = g.minlen();
    min[start]?;
    let mut by: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    // Depth of the shallowest tree, so that generation always ends.
    let mut depth = vec![usize::MAX; g.n];
    for s in 0..g.n {
        if !g.nonterminal()[s] {
            depth[s] = 0;
        }
    }
    let mut best = vec![usize::MAX; g.n];
    loop {
        let mut changed = false;
        for (i, (l, r)) in g.rules.iter().enumerate() {
            let d = r.iter().map(|&x| depth[x]).max().unwrap_or(0);
            if d != usize::MAX && d + 1 < depth[*l] {
                depth[*l] = d + 1;
                best[*l] = i;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    for (i, (l, r)) in g.rules.iter().enumerate() {
        if r.iter().all(|&x| min[x].is_some()) {
            by.entry(*l).or_default().push(i);
        }
    }
    let mut out = vec![];
    let mut work = vec![start];
    let mut steps = 0;
    while let Some(s) = work.pop() {
        steps += 1;
        if steps > 100_000 {
            return None;
        }
        match by.get(&s) {
            None => out.push(s),
            Some(list) => {
                let i = if out.len() + work.len() > budget || steps > budget * 4 { best[s] } else { *rng.pick(list) };
                work.extend(g.rules[i].1.iter().rev());
            }
        }
    }
    Some(out)
}
