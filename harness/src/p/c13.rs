//! C13: minimal distances are shortest paths through the grammar.

use crate::ensure;
use crate::gcfg::{any, build, snapshot};
use crate::refg::{G, closure_of};
use crate::run::{C, Prop, sut, viol};
use cfg_classify::CfgClassifyExt;
use cfg_predict_distance::{DistanceDirection, MinimalDistance};
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C13",
    quick: 300_000,
    thorough: 3_000_000,
    rule: "forward, backward and symmetric minimal distances to random marked positions (and several queries on one object), and the recursion report, compared with single-source shortest paths over an explicit graph of positions (Dijkstra from every position, entering and leaving rules as the property says). Some grammars have shortest sentences of up to 2^26 terminals. Non-trivial if a finite distance crosses into another rule; distinct by grammar and marks",
    assumptions: &["shortest sentences fit in 32 bits"],
    run,
};

/// Distances by relaxation over positions. `inside[s]`: cost from before `s` to a mark inside it.
fn reference(g: &G, marks: &BTreeSet<(usize, usize)>, backward: bool) -> Vec<Vec<Option<u64>>> {
    if backward {
        // Mirror image: reverse the rules and the dots.
        let r = g.reversed();
        let m: BTreeSet<(usize, usize)> = marks.iter().map(|&(i, d)| (i, g.rules[i].1.len() - d)).collect();
        let mut v = reference(&r, &m, false);
        for x in &mut v {
            x.reverse();
        }
        return v;
    }
    let min = g.minlen();
    // A graph of two layers. Layer 0: positions in the rule one starts in, or came out to.
    // Layer 1: positions in rules entered from it, which cannot be left.
    let mut base = vec![0usize];
    for (_, r) in &g.rules {
        base.push(base.last().unwrap() + r.len() + 1);
    }
    let total = *base.last().unwrap();
    let node = |layer: usize, i: usize, d: usize| layer * total + base[i] + d;
    let mut edges: Vec<Vec<(usize, u64)>> = vec![vec![]; 2 * total];
    let mut goal = vec![false; 2 * total];
    for (i, (l, r)) in g.rules.iter().enumerate() {
        for d in 0..=r.len() {
            for layer in 0..2 {
                let v = node(layer, i, d);
                goal[v] = marks.contains(&(i, d));
                if d < r.len() {
                    if let Some(m) = min[r[d]] {
                        edges[v].push((node(layer, i, d + 1), m));
                    }
                    for (q, (ql, _)) in g.rules.iter().enumerate() {
                        if *ql == r[d] {
                            edges[v].push((node(1, q, 0), 0));
                        }
                    }
                } else if layer == 0 {
                    for (q, (_, qr)) in g.rules.iter().enumerate() {
                        for (e, &x) in qr.iter().enumerate() {
                            if x == *l {
                                edges[v].push((node(0, q, e + 1), 0));
                            }
                        }
                    }
                }
            }
        }
    }
    // Dijkstra backwards from all goals at once.
    let mut back: Vec<Vec<(usize, u64)>> = vec![vec![]; 2 * total];
    for (v, es) in edges.iter().enumerate() {
        for &(w, cost) in es {
            back[w].push((v, cost));
        }
    }
    let mut dist: Vec<Option<u64>> = vec![None; 2 * total];
    let mut heap: BTreeSet<(u64, usize)> = BTreeSet::new();
    for v in 0..2 * total {
        if goal[v] {
            dist[v] = Some(0);
            heap.insert((0, v));
        }
    }
    while let Some((d, v)) = heap.pop_first() {
        for &(w, cost) in &back[v] {
            let n = d + cost;
            if dist[w].is_none_or(|o| n < o) {
                if let Some(o) = dist[w] {
                    heap.remove(&(o, w));
                }
                dist[w] = Some(n);
                heap.insert((n, w));
            }
        }
    }
    g.rules.iter().enumerate().map(|(i, (_, r))| (0..=r.len()).map(|d| dist[node(0, i, d)]).collect()).collect()
}

fn least(a: Vec<Vec<Option<u64>>>, b: Vec<Vec<Option<u64>>>) -> Vec<Vec<Option<u64>>> {
    a.into_iter().zip(b).map(|(x, y)| x.into_iter().zip(y).map(|(p, q)| p.into_iter().chain(q).min()).collect()).collect()
}

fn expected(g: &G, marks: &BTreeSet<(usize, usize)>, kind: usize) -> Vec<Vec<Option<u64>>> {
    match kind {
        0 => reference(g, marks, false),
        1 => reference(g, marks, true),
        _ => least(reference(g, marks, false), reference(g, marks, true)),
    }
}

/// Puts a symbol with long sentences only (2^k and the like) in some places.
fn stretch(g: &mut G, c: &mut C) {
    let rng = &mut c.rng;
    let k = rng.range(1, 16);
    let first = g.n;
    let t = rng.below(g.n);
    g.n += k;
    for i in 0..k {
        let next = if i + 1 < k { first + i + 1 } else { t };
        let mut rhs = vec![next; rng.range(1, 3)];
        if rng.chance(1, 4) {
            rhs.push(rng.below(first));
        }
        g.rules.push((first + i, rhs));
    }
    for (_, r) in &mut g.rules {
        if rng.chance(1, 3) {
            if let Some(i) = (!r.is_empty()).then(|| rng.below(r.len())) {
                if r[i] < first {
                    r[i] = first + rng.below(k);
                }
            }
        }
    }
    rng.shuffle(&mut g.rules);
    let text = g.show();
    c.note(|| format!("stretched: {text}"));
}

/// One rule each, and sentences as long as 32 bits hold.
fn chain(c: &mut C) -> G {
    let mut g = G { n: 2, rules: vec![], roots: vec![] };
    let mut longest = 1u64;
    loop {
        let s = g.n;
        let mut rhs = vec![s - 1; c.rng.range(1, 4)];
        for _ in 0..c.rng.below(3) {
            let x = c.rng.below(s);
            rhs.insert(c.rng.below(rhs.len() + 1), x);
        }
        let mut g2 = g.clone();
        g2.n += 1;
        g2.rules.push((s, rhs));
        let len = g2.minlen()[s].unwrap();
        // No path passes more than every rule once: it only leaves for later symbols.
        if g2.minlen().iter().flatten().sum::<u64>() + len >= (1 << 32) || g2.n > 60 {
            break;
        }
        longest = len;
        g = g2;
    }
    c.max("length of a shortest sentence", longest);
    c.rng.shuffle(&mut g.rules);
    let text = g.show();
    c.note(|| format!("chain: {text}"));
    g
}

fn run(c: &mut C) {
    let mut g = any(c);
    let tall = c.rng.chance(1, 120);
    if tall {
        g = chain(c);
    }
    if !tall && c.rng.chance(1, 60) && g.n > 0 && g.rules.len() < 20 {
        stretch(&mut g, c);
    }
    let total: u64 = g.minlen().iter().flatten().copied().max().unwrap_or(0);
    if total > 1 << 26 && !tall || g.rules.iter().map(|r| r.1.len()).sum::<usize>() > 600 {
        return;
    }
    let cfg = build(&g);
    let before = snapshot(&cfg);
    let mut md = sut("MinimalDistance::new", || MinimalDistance::new(&cfg));
    let mut crosses = false;
    for _ in 0..c.rng.range(1, 3) {
        let mut marks = BTreeSet::new();
        if !g.rules.is_empty() {
            for _ in 0..*c.rng.pick(&[0, 1, 1, 1, 1, 1, 1, 2, 2, 3, 3, 20]) {
                let i = c.rng.below(g.rules.len());
                marks.insert((i, c.rng.below(g.rules[i].1.len() + 1)));
            }
        }
        let kind = c.rng.below(3);
        let mut list: Vec<(usize, usize)> = marks.iter().copied().collect();
        c.rng.shuffle(&mut list);
        if !list.is_empty() && c.rng.chance(1, 4) {
            list.push(list[0]);
        }
        c.note(|| format!("marks {list:?}, direction {kind}"));
        let dir = [DistanceDirection::Forward, DistanceDirection::Backward, DistanceDirection::Symmetric][kind];
        let got = sut("minimal_distances", || md.minimal_distances(&list, dir).to_vec());
        let want = expected(&g, &marks, kind);
        compare(&g, &got, &want);
        ensure!(md.distances() == &got[..], "distances() differs from what minimal_distances returned");
        crosses |= want.iter().enumerate().any(|(i, w)| w.iter().any(|d| d.is_some_and(|d| d > 0)) && marks.iter().all(|m| m.0 != i));
        c.count("queries", 1);
        c.count("finite distances", want.iter().flatten().filter(|d| d.is_some()).count() as u64);
    }
    // The recursion report.
    let reach = closure_of(&g.direct());
    let rec = |x: usize, l: usize| reach[x].contains(&l);
    let mut marks = BTreeSet::new();
    for (i, (l, r)) in g.rules.iter().enumerate() {
        for (d, &x) in r.iter().enumerate() {
            if rec(x, *l) {
                marks.insert((i, d));
            }
        }
    }
    let want = expected(&g, &marks, 2);
    let recursion = sut("recursion", || cfg.recursion());
    let got: Vec<_> = sut("Recursion::minimal_distances", || {
        recursion.minimal_distances().map(|r| (r.rule.history.origin().id as usize - 1, r.distances)).collect()
    });
    let rules: BTreeSet<usize> = marks.iter().map(|m| m.0).collect();
    ensure!(got.iter().map(|x| x.0).eq(rules.iter().copied()), "the recursion report lists the rules {got:?}, expected {rules:?}");
    for (i, d) in got {
        let to = |x: Option<u64>| x.map_or(u32::MAX as usize, |x| x as usize);
        let w = &want[i];
        let exp = Some((to(w[0]), to(w[w.len() - 1])));
        if d != exp {
            viol(format!("the recursion report gives {d:?} for rule {i}, expected {exp:?}"));
        }
        c.count("rules in the recursion report", 1);
    }
    ensure!(snapshot(&cfg) == before, "computing distances changed the grammar");
    if crosses {
        c.nontrivial((&g.rules, c.idx % 64));
        c.sample(|| g.show());
    }
}

fn compare(g: &G, got: &[Vec<Option<u32>>], want: &[Vec<Option<u64>>]) {
    ensure!(got.len() == want.len(), "distances for {} rules", got.len());
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        let a: Vec<Option<u64>> = a.iter().map(|x| x.map(u64::from)).collect();
        ensure!(a == *b, "distances in rule {i} ({:?}) are {a:?}, expected {b:?}", g.rules[i]);
    }
}
