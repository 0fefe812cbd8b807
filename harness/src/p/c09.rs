//! C09: the LR(0) machine is the item-set automaton.

use crate::ensure;
use crate::gcfg::{any, build, read, sym};
use crate::refg::G;
use crate::run::{C, Prop, sut, viol};
use cfg_classify::CfgClassifyExt;
use cfg_classify::lr::{Lr0Item, Lr0Items, Lr0Node};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C09",
    quick: 1_000_000,
    thorough: 5_000_000,
    rule: "the LR(0) machine of a generated grammar and start symbol, and closures and advances of random item sets, compared with item sets computed from the definition by breadth-first search; the machine is built twice. Non-trivial if the machine has at least three states; distinct by grammar and start",
    assumptions: &["grammars whose item sets never hold two items of one rule (see the known finding)"],
    run,
};

type Items = BTreeSet<(usize, usize)>;

fn closure(g: &G, term: &[bool], mut items: Items) -> Items {
    let mut work: Vec<(usize, usize)> = items.iter().copied().collect();
    while let Some((r, d)) = work.pop() {
        if let Some(&x) = g.rules[r].1.get(d) {
            if !term[x] {
                for (i, (l, _)) in g.rules.iter().enumerate() {
                    if *l == x && items.insert((i, 0)) {
                        work.push((i, 0));
                    }
                }
            }
        }
    }
    items
}

fn advance(g: &G, term: &[bool], items: &Items, x: usize) -> Items {
    let moved: Items = items.iter().filter(|(r, d)| g.rules[*r].1.get(*d) == Some(&x)).map(|&(r, d)| (r, d + 1)).collect();
    closure(g, term, moved)
}

fn one_per_rule(i: &Items) -> bool {
    i.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() == i.len()
}

fn items_of(got: &Lr0Items, g: &G, what: &str) -> Items {
    got.map
        .iter()
        .map(|(&r, it)| {
            let rhs: Vec<usize> = it.rhs.iter().map(|s| s.usize()).collect();
            let Some(rule) = g.rules.get(r as usize) else { viol(format!("{what}: an item of rule {r}, which does not exist")) };
            ensure!(rule.1 == rhs, "{what}: the item of rule {r} shows {rhs:?}, the rule has {:?}", rule.1);
            ensure!(it.dot as usize <= rhs.len(), "{what}: dot {} in {rhs:?}", it.dot);
            (r as usize, it.dot as usize)
        })
        .collect()
}

fn to_real(items: &Items, g: &G, base: &mut Lr0Items) {
    base.map.clear();
    for &(r, d) in items {
        base.map.insert(r as u32, Lr0Item { rhs: g.rules[r].1.iter().map(|&x| sym(x)).collect(), dot: d as u32 });
    }
}

/// The machine with the given rule as its start, and its transitions on terminals.
/// None if a state has two items of one rule, or there are too many states.
fn machine(g: &G, term: &[bool], start: usize) -> Option<(Vec<Items>, Vec<BTreeMap<usize, usize>>)> {
    let mut states: Vec<Items> = vec![closure(g, term, Items::from([(start, 0)]))];
    let mut ids: BTreeMap<Items, usize> = BTreeMap::from([(states[0].clone(), 0)]);
    let mut links: Vec<BTreeMap<usize, usize>> = vec![];
    let mut i = 0;
    while i < states.len() {
        if !one_per_rule(&states[i]) || states.len() > 400 {
            return None;
        }
        let mut link = BTreeMap::new();
        for t in (0..term.len()).filter(|&t| term[t]) {
            let a = advance(g, term, &states[i], t);
            if !a.is_empty() {
                let next = states.len();
                let id = *ids.entry(a.clone()).or_insert(next);
                if id == next {
                    states.push(a);
                }
                link.insert(t, id);
            }
        }
        links.push(link);
        i += 1;
    }
    Some((states, links))
}

fn run(c: &mut C) {
    if c.idx == 0 {
        known(c);
    }
    let g0 = any(c);
    let start = if c.rng.chance(2, 3) && !g0.rules.is_empty() { g0.rules[c.rng.below(g0.rules.len())].0 } else { c.rng.below(g0.n) };
    c.note(|| format!("start {start}"));
    let term = g0.terminal();
    let mut g = g0.clone();
    g.n += 1;
    g.rules.push((g0.n, vec![start]));
    let Some((states, links)) = machine(&g, &term, g0.rules.len()) else {
        c.count("outside the domain (two items of one rule)", 1);
        closures(c, &g0);
        return;
    };
    let mut cfg = build(&g0);
    let before = read(&cfg);
    let nodes: Vec<Lr0Node> = sut("make_lr0_fsm", || cfg.lr0_fsm_builder().make_lr0_fsm(sym(start)));
    // The augmented grammar.
    let after = read(&cfg);
    ensure!(after.n == g0.n + 1 && after.roots == before.roots, "building the machine changed the symbols or roots");
    ensure!(after.rules == g.rules, "the augmented grammar is {}", after.show());
    judge(&nodes, &states, &links, &g);
    // Again, on a fresh grammar: the same machine.
    if c.rng.chance(1, 4) {
        let mut cfg = build(&g0);
        let mut b = cfg.lr0_fsm_builder();
        let again = sut("make_lr0_fsm", || b.make_lr0_fsm(sym(start)));
        ensure!(again == nodes, "a second build gave another machine");
        c.count("machines built twice", 1);
        // And again with the same builder, which adds one more start rule each time.
        for _ in 0..c.rng.range(1, 3) {
            let start = if c.rng.bool() { start } else { c.rng.below(g0.n) };
            let rule = g.rules.len();
            g.rules.push((g.n, vec![start]));
            g.n += 1;
            let Some((states, links)) = machine(&g, &term, rule) else { break };
            let nodes = sut("make_lr0_fsm", || b.make_lr0_fsm(sym(start)));
            judge(&nodes, &states, &links, &g);
            c.count("machines from a used builder", 1);
        }
    }
    c.count("states", states.len() as u64);
    c.count("transitions", links.iter().map(|l| l.len() as u64).sum());
    c.max("states of one machine", states.len() as u64);
    if states.len() >= 3 {
        c.nontrivial((&g0.rules, start));
        c.sample(|| format!("start {start}: {} ({} states)", g0.show(), states.len()));
    }
    closures(c, &g0);
}

fn judge(nodes: &[Lr0Node], states: &[Items], links: &[BTreeMap<usize, usize>], g: &G) {
    ensure!(!nodes.is_empty(), "no states");
    let mut of: Vec<usize> = vec![];
    for (k, n) in nodes.iter().enumerate() {
        let items = items_of(&n.items, g, &format!("state {k}"));
        let Some(r) = states.iter().position(|s| *s == items) else {
            viol(format!("state {k} holds {items:?}, which is no state of the automaton; rules {:?}", g.rules))
        };
        ensure!(!of.contains(&r), "state {k} repeats the items {items:?}");
        of.push(r);
    }
    ensure!(of[0] == 0, "state 0 is not the closure of the start item");
    ensure!(nodes.len() == states.len(), "{} states instead of {}", nodes.len(), states.len());
    for (k, n) in nodes.iter().enumerate() {
        let got: BTreeMap<usize, usize> = n
            .link
            .iter()
            .map(|(s, &id)| {
                ensure!((id as usize) < nodes.len(), "state {k} has a transition to state {id}, which does not exist");
                (s.usize(), of[id as usize])
            })
            .collect();
        ensure!(got == links[of[k]], "state {k} has the transitions {:?}", n.link);
    }
}

/// Closures and advances of random item sets (any dots, one item per rule).
fn closures(c: &mut C, g: &G) {
    if g.rules.is_empty() {
        return;
    }
    let term = g.terminal();
    let mut cfg = build(g);
    let before = read(&cfg);
    // A set to reuse: the type has no public constructor.
    let mut seed = Lr0Items { map: BTreeMap::new() };
    for _ in 0..2 {
        let mut kernel = Items::new();
        let mut used = BTreeSet::new();
        for _ in 0..c.rng.range(1, 3) {
            let r = c.rng.below(g.rules.len());
            if used.insert(r) {
                kernel.insert((r, c.rng.below(g.rules[r].1.len() + 1)));
            }
        }
        let want = closure(g, &term, kernel.clone());
        if !one_per_rule(&want) {
            continue;
        }
        to_real(&kernel, g, &mut seed);
        let mut b = cfg.lr0_closure_builder();
        sut("closure", || b.closure(&mut seed));
        let got = items_of(&seed, g, "closure");
        ensure!(got == want, "the closure of {kernel:?} is {got:?}, expected {want:?}");
        for x in 0..g.n.min(12) {
            let want = advance(g, &term, &want, x);
            if !one_per_rule(&want) {
                continue;
            }
            let got = sut("advance", || b.advance(&seed, sym(x)));
            match got {
                None => ensure!(want.is_empty(), "advancing {kernel:?} by {x} gave nothing, expected {want:?}"),
                Some(s) => {
                    let s = items_of(&s, g, "advance");
                    ensure!(!want.is_empty() && s == want, "advancing {kernel:?} by {x} gave {s:?}, expected {want:?}");
                }
            }
        }
        c.count("closures of random item sets", 1);
    }
    ensure!(read(&cfg) == before, "closures changed the grammar");
}

/// S ::= a S | b: after reading `a` the state must hold S ::= a • S and S ::= • a S.
fn known(c: &mut C) {
    let g = G { n: 3, rules: vec![(0, vec![1, 0]), (0, vec![2])], roots: vec![0] };
    let mut cfg = build(&g);
    let nodes = cfg.lr0_fsm_builder().make_lr0_fsm(sym(0));
    let after_a = nodes[0].link.get(&sym(1)).and_then(|&i| nodes.get(i as usize));
    let keeps_kernel = after_a.is_some_and(|n| n.items.map.values().any(|i| i.dot == 1));
    if !keeps_kernel {
        c.known(
            "lr0-kernel-overwritten",
            "make_lr0_fsm on S ::= a S | b: the state after `a` lacks the kernel item S ::= a . S, because item sets hold one item per rule and closure overwrites it".into(),
        );
    }
}
