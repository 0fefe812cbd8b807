//! C12: derivation relations and recursion kinds are exact.

use crate::ensure;
use crate::gcfg::{Prof, any, build, profile, snapshot, sym};
use crate::refg::closure_of;
use crate::run::{C, Prop, sut, viol};
use bit_matrix::BitMatrix;
use cfg_classify::CfgClassifyExt;
use cfg_symbol_bit_matrix::{CfgSymbolBitMatrixExt, SymbolBitMatrix};
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C12",
    quick: 400_000,
    thorough: 2_500_000,
    rule: "direct derivation, reachability (plain and reflexive) and unit derivation matrices read element by element and row by row, and the recursive rules with their kinds, compared with relations computed by graph search; symbol counts around multiples of the word size included. Non-trivial if a rule is recursive; distinct by grammar",
    assumptions: &[],
    run,
};

fn same(m: &SymbolBitMatrix, want: &[BTreeSet<usize>], what: &str) {
    let n = want.len();
    ensure!(m.size() == (n, n), "{what}: the matrix has size {:?}, expected {n}", m.size());
    for a in 0..n {
        let row: BTreeSet<usize> = m.iter_row_syms(sym(a)).map(|s| s.usize()).collect();
        ensure!(row == want[a], "{what}: row {a} is {row:?}, expected {:?}", want[a]);
    }
    let all: Vec<_> = crate::gcfg::syms(n);
    for a in 0..n {
        for b in 0..n {
            ensure!(m[(all[a], all[b])] == want[a].contains(&b), "{what}: ({a}, {b}) is {}, expected {}", m[(all[a], all[b])], want[a].contains(&b));
        }
    }
}

fn run(c: &mut C) {
    let g = if c.idx % 16 == 1 {
        let g = profile(&mut c.rng, Prof::ManySymbols);
        c.size = g.size();
        c.note(|| format!("grammar: {}", g.show()));
        c.max("number of symbols", g.n as u64);
        g
    } else {
        any(c)
    };
    let cfg = build(&g);
    let before = snapshot(&cfg);
    let direct = g.direct();
    let reach = closure_of(&direct);
    let unit = closure_of(&g.unit());
    same(&sut("direct_derivation_matrix", || cfg.direct_derivation_matrix()), &direct, "direct derivation");
    same(&sut("reachability_matrix", || cfg.reachability_matrix()), &reach, "reachability");
    same(&sut("reachability", || cfg.direct_derivation_matrix().reachability()), &reach, "reachability of the direct derivation matrix");
    same(&sut("unit_derivation_matrix", || cfg.unit_derivation_matrix()), &unit, "unit derivation");
    let mut refl = reach.clone();
    for (s, r) in refl.iter_mut().enumerate() {
        r.insert(s);
    }
    same(&sut("reflexive", || cfg.reachability_matrix().reflexive()), &refl, "reflexive reachability");
    same(&sut("empty_matrix", || cfg.empty_matrix()), &vec![BTreeSet::new(); g.n], "empty matrix");
    // Conversions lose nothing.
    let plain: SymbolBitMatrix = sut("into", || cfg.direct_derivation_matrix().into());
    same(&plain, &direct, "direct derivation, converted");
    let plain: SymbolBitMatrix = sut("into", || cfg.reachability_matrix().into());
    same(&plain, &reach, "reachability, converted");
    let plain: SymbolBitMatrix = sut("into", || cfg.unit_derivation_matrix().into());
    let bits: BitMatrix = sut("into", || plain.into());
    let back = sut("try_from", || SymbolBitMatrix::try_from(bits));
    let Ok(back) = back else { viol("a square bit matrix is refused") };
    same(&back, &unit, "unit derivation, converted to a bit matrix and back");
    if g.n > 0 {
        ensure!(sut("try_from", || SymbolBitMatrix::try_from(BitMatrix::new(g.n, g.n + 1))).is_err(), "a bit matrix with one column more than rows is accepted");
    }
    if c.rng.chance(1, 8) {
        // Closing once more changes nothing.
        let mut again = cfg.reachability_matrix();
        sut("transitive_closure", || again.transitive_closure());
        same(&again, &reach, "reachability, closed again");
        let mut again = cfg.unit_derivation_matrix();
        sut("transitive_closure", || again.transitive_closure());
        same(&again, &unit, "unit derivation, closed again");
    }
    // Recursion.
    let rec = |x: usize, l: usize| reach[x].contains(&l) || false;
    let derives = |x: usize, l: usize| x == l && reach[l].contains(&l) || rec(x, l);
    let analysis = sut("recursion", || cfg.recursion());
    let got: Vec<_> = sut("recursive_rules", || analysis.recursive_rules().collect());
    let mut k = 0;
    for (i, r) in cfg.rules().enumerate() {
        let (l, rhs) = &g.rules[i];
        let hit: Vec<bool> = rhs.iter().map(|&x| derives(x, *l)).collect();
        if !hit.iter().any(|&b| b) {
            continue;
        }
        let Some(x) = got.get(k) else { viol(format!("the recursive rule {l} ::= {rhs:?} is not reported")) };
        ensure!(x.rule == r, "the recursive rule {l} ::= {rhs:?} is not reported in its place; {:?} is", x.rule);
        let n = hit.len();
        let want = (hit[0], n > 2 && hit[1..n - 1].iter().any(|&b| b), hit[n - 1]);
        ensure!(
            (x.recursion.left, x.recursion.middle, x.recursion.right) == want,
            "rule {l} ::= {rhs:?} is reported as {:?}, expected left, middle, right = {want:?}",
            x.recursion
        );
        ensure!(x.distances.is_none(), "recursive_rules gives distances");
        k += 1;
    }
    ensure!(got.len() == k, "{:?} is reported as recursive", got.get(k).map(|x| x.rule));
    ensure!(snapshot(&cfg) == before, "analysing relations changed the grammar");
    c.count("recursive rules", k as u64);
    c.count("pairs related", reach.iter().map(|r| r.len() as u64).sum());
    if k > 0 {
        c.nontrivial(&g.rules);
        c.sample(|| g.show());
    }
}
