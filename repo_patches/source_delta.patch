From 5f3a8aa95e21a090948971d43f77bcf9849f7888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:35 +0000
Subject: [PATCH 01/23] fix: FIRST of a string follows nullable symbols

first_set_for_string stopped at the first nonterminal with a nonempty FIRST set
even if that nonterminal was nullable, and took an empty set for nullability.
---
 cfg-predict-sets/src/first.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/cfg-predict-sets/src/first.rs b/cfg-predict-sets/src/first.rs
index d952190..02d3814 100644
--- a/cfg-predict-sets/src/first.rs
+++ b/cfg-predict-sets/src/first.rs
@@ -49,26 +49,28 @@ impl FirstSets {
 
     /// Calculates a FIRST set for a string of symbols.
     pub fn first_set_for_string(&self, string: &[Symbol]) -> PerSymbolSetVal {
-        let mut result = vec![];
+        let mut result = PerSymbolSetVal::new();
+        // The empty string is in FIRST only if every symbol is nullable.
+        result.has_none = true;
         for &sym in string {
             if self.terminal_set[sym] {
-                result.push(sym);
-                break;
+                result.list.push(sym);
+                result.has_none = false;
             } else {
                 let first_set = self
                     .map
                     .get(&sym)
                     .expect("FIRST set not found in PerSymbolSets");
-                result.clone_from(&first_set.list);
-                if !result.is_empty() {
-                    break;
-                }
+                result.list.extend(first_set.list.iter().copied());
+                result.has_none = first_set.has_none;
+            }
+            if !result.has_none {
+                break;
             }
         }
-        PerSymbolSetVal {
-            has_none: result.is_empty(),
-            list: result,
-        }
+        result.list.sort_unstable();
+        result.list.dedup();
+        result
     }
 
     fn collect_from(&mut self, grammar: &Cfg) {
-- 
2.43.0


From 38558375c2fe5396a2f4e043a27d38dbfbd992f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:35 +0000
Subject: [PATCH 02/23] fix: FOLLOW sets propagate the end of input

Only the roots themselves were marked as possibly being at the end of input,
not the nonterminals at the end of their rules.
---
 cfg-predict-sets/src/follow.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfg-predict-sets/src/follow.rs b/cfg-predict-sets/src/follow.rs
index 76ed1eb..aa45168 100644
--- a/cfg-predict-sets/src/follow.rs
+++ b/cfg-predict-sets/src/follow.rs
@@ -57,6 +57,7 @@ impl FollowSets {
                         followed.extend(follow_set.iter().cloned());
                         followed.sort_unstable();
                         followed.dedup();
+                        followed.has_none |= follow_set.has_none;
                         changed |= prev_cardinality != followed.len();
 
                         let first_set = first_sets.get(&sym).unwrap();
-- 
2.43.0


From 6dfc7c977655c581d418cdf2b92ddd4b1cadbecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 03/23] fix: LL(1) table accounts for end-of-input lookahead

Two nullable rules of a nonterminal that can end the input conflict on the end
of input, but only terminals were entered into the table.
---
 cfg-classify/src/ll.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cfg-classify/src/ll.rs b/cfg-classify/src/ll.rs
index 27dd247..f123b58 100644
--- a/cfg-classify/src/ll.rs
+++ b/cfg-classify/src/ll.rs
@@ -16,7 +16,8 @@ pub struct LlParseTable<'a> {
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq)]
 struct LlParseTableKey {
     nonterminal: Symbol,
-    terminal: Symbol,
+    /// Lookahead, or `None` for the end of input.
+    terminal: Option<Symbol>,
 }
 
 /// Container for classifying nonterminals as LL(1) or context-free.
@@ -51,14 +52,15 @@ impl<'a> LlParseTable<'a> {
             for &terminal in &rhs_first_set[..] {
                 let key = LlParseTableKey {
                     nonterminal: rule.lhs,
-                    terminal,
+                    terminal: Some(terminal),
                 };
                 let entry = this.map.entry(key).or_default();
                 entry.push(rule_idx);
             }
             if rhs_first_set.has_none() {
                 let lhs_follow_set = follow.predict_sets().get(&rule.lhs).unwrap();
-                for &terminal in &lhs_follow_set[..] {
+                let end_of_input = lhs_follow_set.has_none().then_some(None);
+                for terminal in lhs_follow_set.iter().copied().map(Some).chain(end_of_input) {
                     let key = LlParseTableKey {
                         nonterminal: rule.lhs,
                         terminal,
-- 
2.43.0


From 66aadae4ae666ae95cd141d96bdc99aa348a5411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:19 +0000
Subject: [PATCH 04/23] fix: rewriting cycles keeps track of roots

A root inside a unit cycle could be merged into another symbol, leaving the
grammar with a root (or wrapped root) without rules.
---
 cfg-classify/src/cyclical.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/cfg-classify/src/cyclical.rs b/cfg-classify/src/cyclical.rs
index f4d7d16..35dae24 100644
--- a/cfg-classify/src/cyclical.rs
+++ b/cfg-classify/src/cyclical.rs
@@ -4,7 +4,7 @@ use std::borrow::{Borrow, BorrowMut};
 use std::collections::BTreeMap;
 
 use cfg_grammar::{Cfg, CfgRule, SymbolBitSet};
-use cfg_symbol::SymbolSource;
+use cfg_symbol::{Symbol, SymbolSource};
 use cfg_symbol_bit_matrix::{CfgSymbolBitMatrixExt, UnitDerivationMatrix};
 
 /// Provides information about cycles among unit derivations in the grammar. There are two ways of
@@ -126,6 +126,19 @@ impl<G: BorrowMut<Cfg>> Cycles<G> {
             for rule in rewritten_rules {
                 self.grammar.borrow_mut().add_rule(rule);
             }
+            // Roots may have been rewritten, too.
+            let translate = |sym: Symbol| translation.get(&sym).copied().flatten().unwrap_or(sym);
+            let grammar = self.grammar.borrow_mut();
+            let roots: Vec<_> = grammar.roots().iter().copied().map(translate).collect();
+            grammar.set_roots(&roots[..]);
+            let mut wrapped_roots = grammar.wrapped_roots().to_vec();
+            for wrapped_root in &mut wrapped_roots {
+                wrapped_root.inner_root = translate(wrapped_root.inner_root);
+                wrapped_root.root = translate(wrapped_root.root);
+                wrapped_root.start_of_input = translate(wrapped_root.start_of_input);
+                wrapped_root.end_of_input = translate(wrapped_root.end_of_input);
+            }
+            grammar.set_wrapped_roots(&wrapped_roots[..]);
         }
     }
 }
-- 
2.43.0


From d5daba2a2b3c357397cfa591d8f7f82c506d4ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:41 +0000
Subject: [PATCH 05/23] fix: make_proper leaves no useless rule behind

Rules reachable only through the unproductive rules that were removed stayed.
---
 cfg-classify/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cfg-classify/src/lib.rs b/cfg-classify/src/lib.rs
index 63fd48d..9358612 100644
--- a/cfg-classify/src/lib.rs
+++ b/cfg-classify/src/lib.rs
@@ -79,15 +79,17 @@ impl CfgClassifyExt for Cfg {
     }
 
     fn make_proper(&mut self) -> bool {
-        let usefulness = self.usefulness();
+        let mut usefulness = self.usefulness();
         let contains_useless_rules = !usefulness.all_useful();
-        if contains_useless_rules {
+        // Removing unproductive rules may make other rules unreachable.
+        while !usefulness.all_useful() {
             // for useless in usefulness.useless_rules() {
             //     let rhs: Vec<_> = useless.rule.rhs().iter().map(|t| tok.get(t.usize())).collect();
             //     println!("lhs:{:?} rhs:{:?} unreachable:{} unproductive:{}", tok.get(useless.rule.lhs().usize()), rhs, useless.unreachable, useless.unproductive);
             // }
             // println!("warning: grammar has useless rules");
             usefulness.remove_useless_rules(self);
+            usefulness = self.usefulness();
         }
         !contains_useless_rules
     }
-- 
2.43.0


From 356ca76735503a7250d63a5390256a93511216a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:08 +0000
Subject: [PATCH 06/23] fix: binarized rules trace to the right dot positions

For A ::= B C D E, rewritten as g0 ::= B C, g1 ::= g0 D, A ::= g1 E, the dot
before E is position 3 of the source rule and the one after it is position 4;
the dot inside g0's rule is position 1, the one inside g1's is position 2.
---
 cfg-history/src/earley/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg-history/src/earley/mod.rs b/cfg-history/src/earley/mod.rs
index eb6bdf6..001f7d8 100644
--- a/cfg-history/src/earley/mod.rs
+++ b/cfg-history/src/earley/mod.rs
@@ -226,14 +226,14 @@ impl History {
                 } else if full_len >= 3 {
                     [
                         self.at_dot(0),
-                        self.at_dot(full_len - 2),
                         self.at_dot(full_len - 1),
+                        self.at_dot(full_len),
                     ]
                 } else {
                     [self.at_dot(0), none, none]
                 }
             } else {
-                [none, self.at_dot(full_len - 2 - height as usize), none]
+                [none, self.at_dot(height as usize + 1), none]
             }
         };
 
-- 
2.43.0


From 878a0bc386d2a8af3e811bb4371fc701639c3ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:35 +0000
Subject: [PATCH 07/23] fix: removing unused symbols keeps roots and updates
 the mapping

Roots without rules were removed although the grammar still referred to them,
and the mapping kept translating removed symbols to numbers past the end of the
symbol source. A grammar without any used symbol caused a panic.
---
 cfg-symbol-bit-matrix/src/remap_symbols.rs | 27 ++++++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/cfg-symbol-bit-matrix/src/remap_symbols.rs b/cfg-symbol-bit-matrix/src/remap_symbols.rs
index 3980beb..26e26de 100644
--- a/cfg-symbol-bit-matrix/src/remap_symbols.rs
+++ b/cfg-symbol-bit-matrix/src/remap_symbols.rs
@@ -33,12 +33,29 @@ impl<'a> Remap<'a> {
 
     /// Removes unused symbols.
     pub fn remove_unused_symbols(&mut self) {
-        let unused_symbols = self.grammar.unused_symbols();
+        let mut unused_symbols = self.grammar.unused_symbols();
+        // Roots are in use, whether or not they have rules.
+        for &root in self.grammar.roots() {
+            unused_symbols.set(root, false);
+        }
+        for wrapped_root in self.grammar.wrapped_roots() {
+            unused_symbols.set(wrapped_root.start_of_input, false);
+            unused_symbols.set(wrapped_root.inner_root, false);
+            unused_symbols.set(wrapped_root.end_of_input, false);
+            unused_symbols.set(wrapped_root.root, false);
+        }
         self.reorder_symbols(|sym0, sym1| unused_symbols[sym0].cmp(&unused_symbols[sym1]));
-        let num_syms = self.grammar.num_syms();
-        self.grammar
-            .sym_source_mut()
-            .truncate(num_syms - unused_symbols.iter().count());
+        let num_used = self.grammar.num_syms() - unused_symbols.iter().count();
+        if num_used == 0 {
+            *self.grammar.sym_source_mut() = SymbolSource::new();
+        } else {
+            self.grammar.sym_source_mut().truncate(num_used);
+        }
+        // The removed symbols no longer have an internal symbol.
+        self.mapping.to_external.truncate(num_used);
+        for internal in &mut self.mapping.to_internal {
+            *internal = internal.filter(|sym| sym.usize() < num_used);
+        }
     }
 
     /// Remaps symbols to satisfy given ordering constraints. The argument
-- 
2.43.0


From a767107b27bc420de151204b08bd20954869a251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:35 +0000
Subject: [PATCH 08/23] fix: grammars of different lengths are not equivalent

Cfg::equivalent compared only the common prefix of the rule lists and of the
right-hand sides.
---
 cfg-grammar/src/compare.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cfg-grammar/src/compare.rs b/cfg-grammar/src/compare.rs
index aec4ee0..6618d56 100644
--- a/cfg-grammar/src/compare.rs
+++ b/cfg-grammar/src/compare.rs
@@ -3,10 +3,10 @@ use crate::Cfg;
 impl Cfg {
     /// Compares the grammars. The symbol numeric values must match.
     pub fn equivalent(&self, other: &Cfg) -> bool {
-        let mut eq = true;
-        for (i, j) in self.rules().zip(other.rules()) {
-            eq = eq && i.lhs == j.lhs && i.rhs.iter().zip(j.rhs.iter()).all(|(a, b)| *a == *b);
-        }
-        eq
+        self.rules().count() == other.rules().count()
+            && self
+                .rules()
+                .zip(other.rules())
+                .all(|(i, j)| i.lhs == j.lhs && i.rhs == j.rhs)
     }
 }
-- 
2.43.0


From 51d8a3676421f14311699fe9895329c208d0ed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:35 +0000
Subject: [PATCH 09/23] fix: extending a grammar respects its RHS length limit

The added rules bypassed the invariant documented for limit_rhs_len.
---
 cfg-grammar/src/cfg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index 2da8cb6..a8656ce 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -262,7 +262,9 @@ impl Cfg {
     /// Extend the list of rules with the rules in the given grammar.
     /// The given grammar must have a compatible set of symbols.
     pub fn extend(&mut self, other: &Cfg) {
-        self.rules.extend(other.rules.iter().cloned());
+        for rule in other.rules() {
+            self.add_rule(rule.clone());
+        }
     }
 
     /// Ensures the grammar is binarized and eliminates all nulling rules, which have the
-- 
2.43.0


From 4c870f7cfea0fb898d92b2b3a98485a94d1913f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:17 +0000
Subject: [PATCH 10/23] fix: SymbolBitSet::is_empty was inverted

It returned true for sets with at least one symbol. Its only caller, in the
regexp macro, keeps checking what it checked.
---
 cfg-grammar/src/symbol_bit_set.rs | 6 ++++--
 cfg-regexp-macro/src/lib.rs       | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/cfg-grammar/src/symbol_bit_set.rs b/cfg-grammar/src/symbol_bit_set.rs
index 0aaec73..5d0b687 100644
--- a/cfg-grammar/src/symbol_bit_set.rs
+++ b/cfg-grammar/src/symbol_bit_set.rs
@@ -175,9 +175,11 @@ impl SymbolBitSet {
         self.bit_vec.iter().all(|b| b)
     }
 
-    /// Not to be confused with `fn is_empty`.
+    /// Determines whether this set contains no symbols.
+    ///
+    /// Not to be confused with having no `space`.
     pub fn is_empty(&self) -> bool {
-        self.bit_vec.iter().any(|b| b)
+        self.bit_vec.iter().all(|b| !b)
     }
 
     /// Reserves space for additional symbols.
diff --git a/cfg-regexp-macro/src/lib.rs b/cfg-regexp-macro/src/lib.rs
index 6e2731d..48574f8 100644
--- a/cfg-regexp-macro/src/lib.rs
+++ b/cfg-regexp-macro/src/lib.rs
@@ -73,7 +73,7 @@ pub fn cfg_regexp(stream: TokenStream) -> TokenStream {
     }
     match Cfg::load_advanced(&code) {
         Ok(advanced_grammar) => {
-            assert!(advanced_grammar.sbs.is_empty());
+            assert!(!advanced_grammar.sbs.is_empty());
             let grammar = process::process(advanced_grammar);
             let serialized = miniserde::json::to_string(&grammar);
             format!(
-- 
2.43.0


From 642f8dd0f72d6bd610f81ee1bad80236be412f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:17 +0000
Subject: [PATCH 11/23] fix: wrapping the roots of a binarized empty grammar
 leaves it empty

Cfg::is_empty did not recognize the wrapping rule once it was split in two.
---
 cfg-grammar/src/cfg.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index a8656ce..40d67bf 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -665,8 +665,14 @@ impl Cfg {
         } else {
             let mut roots = self.roots.clone();
             roots.sort();
+            // A limit on RHS length may have split the wrapping rule into two.
+            let is_inner_part = |rule: &CfgRule| {
+                self.wrapped_roots
+                    .iter()
+                    .any(|wrapped_root| rule.rhs.first() == Some(&wrapped_root.start_of_input))
+            };
             self.rules()
-                .all(|rule| roots.binary_search(&rule.lhs).is_ok())
+                .all(|rule| roots.binary_search(&rule.lhs).is_ok() || is_inner_part(rule))
         }
     }
 
-- 
2.43.0


From 482b90be66e0106ad301e593121d395062d18e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:33 +0000
Subject: [PATCH 12/23] fix: deserializing an invalid binary symbol is an error

Zero, which no symbol encodes to, caused a panic.
---
 cfg-symbol/src/symbol.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cfg-symbol/src/symbol.rs b/cfg-symbol/src/symbol.rs
index 4436b68..62d2b2c 100644
--- a/cfg-symbol/src/symbol.rs
+++ b/cfg-symbol/src/symbol.rs
@@ -132,9 +132,17 @@ mod miniserde_impls {
 #[cfg(feature = "nanoserde")]
 impl nanoserde::DeBin for Symbol<NonZeroU32> {
     fn de_bin(offset: &mut usize, bytes: &[u8]) -> Result<Self, nanoserde::DeBinErr> {
-        Ok(Symbol {
-            n: u32::de_bin(offset, bytes)?.try_into().unwrap(),
-        })
+        let start = *offset;
+        let n = u32::de_bin(offset, bytes)?;
+        match n.try_into() {
+            Ok(n) => Ok(Symbol { n }),
+            // Zero is not a valid encoding.
+            Err(_) => Err(nanoserde::DeBinErr::new(
+                start,
+                std::mem::size_of::<u32>(),
+                bytes.len(),
+            )),
+        }
     }
 }
 
-- 
2.43.0


From 2ef20e07edcd2b0fa69a946db97bd6f555a2725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:33 +0000
Subject: [PATCH 13/23] fix: an exhausted 32-bit symbol source panics in
 release builds

The addition saturated, so that the last symbol was handed out again and again.
---
 cfg-symbol/src/source.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cfg-symbol/src/source.rs b/cfg-symbol/src/source.rs
index 5d53d91..9ff39c3 100644
--- a/cfg-symbol/src/source.rs
+++ b/cfg-symbol/src/source.rs
@@ -81,10 +81,9 @@ macro_rules! syms {
 fn advance<T: SymbolPrimitive>(sym: &mut Symbol<T>) {
     let n: NonZeroU32 = sym.n.into();
     let x: T = n
-        .saturating_add(1)
-        .try_into()
-        .ok()
-        .expect("unreachable: could not convert +1");
+        .checked_add(1)
+        .and_then(|n| n.try_into().ok())
+        .expect("ran out of Symbol space");
     *sym = Symbol { n: x };
     debug_assert_ne!(x.into().get(), T::MAX, "ran out of Symbol space?");
 }
-- 
2.43.0


From 935e44c3c9a14677400078bf3d03b3e3284fc539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:45 +0000
Subject: [PATCH 14/23] fix: lexer classes use inclusive ranges throughout

Literals were stored as half-open ranges but read as inclusive ones, so that
a literal also matched the character after it, and shared its entry with a class
of these two characters. Computing the map panicked for ranges ending right
before the surrogates, at the last character, or at U+0100 and above when they
started in ASCII.
---
 cfg-regexp-logic/src/lib.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index a98b61f..2a3781b 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -15,13 +15,14 @@ use regex_syntax::hir::{Class, Hir, HirKind};
 
 #[derive(PartialEq, PartialOrd, Eq, Ord, Debug, Clone)]
 pub struct LexerClasses {
+    // Inclusive ranges.
     set: BTreeSet<(char, char)>,
 }
 
 impl From<u8> for LexerClasses {
     fn from(value: u8) -> Self {
         LexerClasses {
-            set: iter::once((value as char, (value + 1) as char)).collect(),
+            set: iter::once((value as char, value as char)).collect(),
         }
     }
 }
@@ -29,7 +30,7 @@ impl From<u8> for LexerClasses {
 impl From<char> for LexerClasses {
     fn from(value: char) -> Self {
         LexerClasses {
-            set: iter::once((value, char::from_u32(value as u32 + 1).unwrap())).collect(),
+            set: iter::once((value, value)).collect(),
         }
     }
 }
@@ -53,11 +54,19 @@ impl From<Class> for LexerClasses {
 }
 
 impl LexerClasses {
+    /// Iterates over the ranges, each with its start and the character after its end
+    /// (or `char::MAX`, if there is none).
     pub fn iter(&self) -> impl Iterator<Item = (char, char)> + use<'_> {
-        self.set.iter().copied()
+        self.set
+            .iter()
+            .map(|&(start, end)| (start, next_char(end).unwrap_or(char::MAX)))
     }
 }
 
+fn next_char(ch: char) -> Option<char> {
+    (ch..=char::MAX).nth(1)
+}
+
 struct Translator {
     cfg: Cfg,
     class_map: LexerMap,
@@ -84,7 +93,7 @@ impl LexerMap {
         for (lexer_classes, &symbol) in &self.classes {
             for &class in &lexer_classes.set {
                 if class.0.is_ascii() {
-                    for ascii in class.0 as u32..=(class.1 as u32).min(256) {
+                    for ascii in class.0 as u32..=(class.1 as u32).min(255) {
                         result[ascii as usize].push(symbol);
                     }
                 }
@@ -95,10 +104,9 @@ impl LexerMap {
         for (lexer_classes, &symbol) in &self.classes {
             for &class in &lexer_classes.set {
                 ranges.entry(class.0).or_insert(vec![]).push((true, symbol));
-                ranges
-                    .entry(char::from_u32(class.1 as u32 + 1).unwrap())
-                    .or_insert(vec![])
-                    .push((false, symbol));
+                if let Some(after) = next_char(class.1) {
+                    ranges.entry(after).or_insert(vec![]).push((false, symbol));
+                }
             }
         }
         let mut result = BTreeMap::new();
-- 
2.43.0


From dc4ae8f4ab0c49935686a43dc73e9f27cb671818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:45 +0000
Subject: [PATCH 15/23] fix: non-ASCII literals in regular expressions match
 their characters

Each byte of their UTF-8 encoding was turned into a character of its own.
---
 cfg-regexp-logic/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index 2a3781b..2997bf5 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -176,14 +176,17 @@ impl Translator {
         match hir.kind() {
             HirKind::Literal(lit) => {
                 let mut syms = vec![];
-                for &byte in &lit.0 {
+                // We read characters, so a literal is a string of characters.
+                let lit_str = String::from_utf8_lossy(&lit.0);
+                for ch in lit_str.chars() {
                     syms.push(
                         *self
                             .class_map
                             .classes
-                            .entry(byte.into())
+                            .entry(ch.into())
                             .or_insert_with(|| {
-                                self.cfg.next_sym(Some(format!("__byte{}", byte).into()))
+                                self.cfg
+                                    .next_sym(Some(format!("__byte{}", ch as u32).into()))
                             }),
                     );
                 }
-- 
2.43.0


From 15611c9a62bab5b8f9ee0d3cc937bb36233f91c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 16/23] fix: loading a grammar with look-around in a regexp is
 an error

It used to panic: no grammar can be made from assertions such as \b.
---
 cfg-load/src/advanced.rs    | 22 +++++++++++++++-------
 cfg-regexp-logic/src/ext.rs |  7 +++++++
 cfg-regexp-logic/src/lib.rs |  2 +-
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index 2fa3097..789c3e4 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -27,7 +27,7 @@
 //! }
 //! ```
 use cfg_history::RootHistoryNode;
-use cfg_regexp_logic::CfgRegexpExt;
+use cfg_regexp_logic::{CfgRegexpExt, contains_look_around};
 use cfg_symbol_bit_matrix::Remap;
 use tiny_earley::{Recognizer, Symbol, forest, grammar};
 
@@ -697,13 +697,21 @@ impl CfgLoadAdvancedExt for Cfg {
                                     });
                                 }
                                 &Fragment::Lex { ref string, span } => {
+                                    let to_load_error = |reason: String| LoadError {
+                                        reason,
+                                        line: span as u32,
+                                        col: 1,
+                                        token: None,
+                                    };
+                                    let has_look_around = contains_look_around(string)
+                                        .map_err(|err| to_load_error(err.to_string()))?;
+                                    if has_look_around {
+                                        return Err(to_load_error(
+                                            "look-around is not supported".to_string(),
+                                        ));
+                                    }
                                     let (mut regexp_cfg, classes) = Cfg::from_regexp(string)
-                                        .map_err(|err| LoadError {
-                                            reason: err.to_string(),
-                                            line: span as u32,
-                                            col: 1,
-                                            token: None,
-                                        })?;
+                                        .map_err(|err| to_load_error(err.to_string()))?;
                                     let mut remap = Remap::new(&mut regexp_cfg);
                                     let mut sym_map = HashMap::new();
                                     for (class, sym) in classes.classes {
diff --git a/cfg-regexp-logic/src/ext.rs b/cfg-regexp-logic/src/ext.rs
index 9301264..bf6c0cc 100644
--- a/cfg-regexp-logic/src/ext.rs
+++ b/cfg-regexp-logic/src/ext.rs
@@ -3,6 +3,13 @@ use regex_syntax::Parser;
 
 use crate::{LexerMap, Translator};
 
+/// Determines whether the regular expression contains look-around assertions, such as
+/// anchors and word boundaries. A grammar cannot be made from these.
+pub fn contains_look_around(regexp: &str) -> Result<bool, regex_syntax::Error> {
+    let hir = Parser::new().parse(regexp)?;
+    Ok(!hir.properties().look_set().is_empty())
+}
+
 pub trait CfgRegexpExt: Sized {
     fn from_regexp(regexp: &str) -> Result<(Self, LexerMap), regex_syntax::Error>;
 }
diff --git a/cfg-regexp-logic/src/lib.rs b/cfg-regexp-logic/src/lib.rs
index 2997bf5..95b7a88 100644
--- a/cfg-regexp-logic/src/lib.rs
+++ b/cfg-regexp-logic/src/lib.rs
@@ -9,7 +9,7 @@ use cfg_grammar::Cfg;
 use cfg_sequence::CfgSequenceExt;
 use cfg_symbol::Symbol;
 
-pub use ext::CfgRegexpExt;
+pub use ext::{CfgRegexpExt, contains_look_around};
 
 use regex_syntax::hir::{Class, Hir, HirKind};
 
-- 
2.43.0


From 9ef68445884aa6465aaaf45f8bfdc93213495d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:15 +0000
Subject: [PATCH 17/23] fix: lexer blocks may come first and more than once

The grammar of the rich BNF format allows both, but evaluating them panicked.
---
 cfg-load/src/advanced.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index 789c3e4..be118ee 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -179,9 +179,15 @@ impl forest::Eval for Evaluator {
                 Value::Start(rules, lex)
             }
             // start ::= start decl;
-            (2, Value::Start(rules, None), Value::Lex(lex), ..) => Value::Start(rules, Some(lex)),
+            (2, Value::Start(rules, prev_lex), Value::Lex(lex), ..) => {
+                let mut all_lex = prev_lex.unwrap_or(LexerVal(vec![]));
+                all_lex.0.extend(lex.0);
+                Value::Start(rules, Some(all_lex))
+            }
             // start ::= decl;
             (3, Value::Rules(rule), ..) => Value::Start(rule, None),
+            // start ::= decl;
+            (3, Value::Lex(lex), ..) => Value::Start(vec![], Some(lex)),
             // decl ::= rule;
             (4, Value::Rules(rules), ..) => Value::Rules(rules),
             // decl ::= lexer;
-- 
2.43.0


From 6c9e144ba5f87275b0ba8b560a5f839df7f91151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:04 +0000
Subject: [PATCH 18/23] fix: the basic BNF loader reports where a text is
 ill-formed

Characters outside the format caused a panic, and the position of unexpected
tokens was always given as line 1, column 1.
---
 cfg-load/src/basic.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/cfg-load/src/basic.rs b/cfg-load/src/basic.rs
index 4854964..0d2a861 100644
--- a/cfg-load/src/basic.rs
+++ b/cfg-load/src/basic.rs
@@ -51,7 +51,7 @@ enum Value {
 
 struct Evaluator {
     symbols: [Symbol; 13],
-    tokens: Vec<Token>,
+    tokens: Vec<(Token, usize, usize)>,
 }
 
 impl forest::Eval for Evaluator {
@@ -75,7 +75,7 @@ impl forest::Eval for Evaluator {
             rparen,
         ] = self.symbols;
         if terminal == ident {
-            self.tokens[values as usize].ident()
+            self.tokens[values as usize].0.ident()
         } else {
             Value::None
         }
@@ -198,22 +198,25 @@ impl Token {
 }
 
 impl<'a> Lexer<'a> {
-    fn tokenize(bnf: &str) -> Result<Vec<Token>, (usize, usize)> {
+    fn tokenize(bnf: &str) -> Vec<(Token, usize, usize)> {
         let mut lexer = Lexer {
             chars: bnf.chars(),
             line_no: 1,
             col_no: 1,
         };
         let mut result = vec![];
+        let (mut line_no, mut col_no) = (lexer.line_no, lexer.col_no);
         while let Some(token) = lexer.eat_token() {
-            if let Token::Error(line, col) = token {
-                return Err((line, col));
-            }
+            let is_error = matches!(token, Token::Error(..));
             if token != Token::Whitespace {
-                result.push(token);
+                result.push((token, line_no, col_no));
+            }
+            if is_error {
+                break;
             }
+            (line_no, col_no) = (lexer.line_no, lexer.col_no);
         }
-        Ok(result)
+        result
     }
 
     fn eat_token(&mut self) -> Option<Token> {
@@ -342,8 +345,8 @@ impl CfgLoadExt for Cfg {
             rparen,
         ] = bnf_grammar.symbols();
         let mut recognizer = Recognizer::new(&bnf_grammar);
-        let tokens = Lexer::tokenize(bnf).unwrap();
-        for (i, ch) in tokens.iter().enumerate() {
+        let tokens = Lexer::tokenize(bnf);
+        for (i, &(ref ch, line, col)) in tokens.iter().enumerate() {
             let terminal = match ch {
                 Token::BnfOp => bnf_op,
                 Token::Semicolon => semicolon,
@@ -368,8 +371,8 @@ impl CfgLoadExt for Cfg {
             if !success {
                 return Err(LoadError {
                     reason: "parse failed".to_string(),
-                    line: 1,
-                    col: 1,
+                    line: line as u32,
+                    col: col as u32,
                     token: None,
                 });
             }
-- 
2.43.0


From 66e8c53c58567646a343646e5dffa13d4fc165bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:50 +0000
Subject: [PATCH 19/23] fix: minimal distances are shortest paths

Distances depended on the order of rules: those to dots inside predicted rules
were not propagated further than one rule, propagation stopped when only dots in
the middle of a rule had changed, and results of a previous call were mixed in.
Symbols without a sentence caused a panic.
---
 cfg-predict-distance/src/lib.rs | 167 +++++++++++++-------------------
 1 file changed, 67 insertions(+), 100 deletions(-)

diff --git a/cfg-predict-distance/src/lib.rs b/cfg-predict-distance/src/lib.rs
index 7b9c76f..5e0fe9b 100644
--- a/cfg-predict-distance/src/lib.rs
+++ b/cfg-predict-distance/src/lib.rs
@@ -11,8 +11,6 @@ use cfg_symbol::Symbol;
 pub struct MinimalDistance<'a> {
     grammar: &'a Cfg,
     distances: Vec<Vec<Option<u32>>>,
-    forward_distances: Distances,
-    backward_distances: Distances,
     min_length: Vec<Option<u32>>,
 }
 
@@ -96,8 +94,6 @@ impl<'a> MinimalDistance<'a> {
         MinimalDistance {
             grammar,
             distances,
-            forward_distances: Distances::new(grammar.num_syms()),
-            backward_distances: Distances::new(grammar.num_syms()),
             min_length: vec![None; grammar.num_syms()],
         }
     }
@@ -117,8 +113,15 @@ impl<'a> MinimalDistance<'a> {
         let mut dots = dots.to_vec();
         dots.sort_unstable();
         self.minimal_sentence_lengths();
-        self.immediate_minimal_distances(&dots[..], direction);
-        self.transitive_minimal_distances();
+        for distances in &mut self.distances {
+            distances.fill(None);
+        }
+        if direction.includes_forward() {
+            self.directed_minimal_distances(&dots[..], false);
+        }
+        if direction.includes_backward() {
+            self.directed_minimal_distances(&dots[..], true);
+        }
         self.distances()
     }
 
@@ -140,104 +143,81 @@ impl<'a> MinimalDistance<'a> {
             .rhs_closure_with_values(&mut self.min_length);
     }
 
-    fn immediate_minimal_distances(
-        &mut self,
-        dots: &[(usize, usize)],
-        direction: DistanceDirection,
-    ) {
-        // Calculates distances within rules.
-        for (idx, rule) in self.grammar.rules().enumerate() {
-            for (_rule_idx, dot_pos) in binary_search_span(dots, idx) {
-                debug_assert_eq!(idx, _rule_idx);
-                self.immediate_process_dot(idx, rule, dot_pos, direction);
+    /// Calculates lengths of shortest paths in the given direction, both within rules and
+    /// those that cross transitions (predictions and completions).
+    fn directed_minimal_distances(&mut self, dots: &[(usize, usize)], reverse: bool) {
+        let num_syms = self.grammar.num_syms();
+        let mut distances = Distances::new(num_syms);
+        let mut changed = true;
+        while changed {
+            // Keep going for as long as any prediction distances were lowered in the last pass.
+            changed = false;
+            for (idx, rule) in self.grammar.rules().enumerate() {
+                let path = self.rule_path(dots, idx, rule, None, &distances.before, reverse);
+                if let Some(&Some(predicted)) = path.last() {
+                    changed |= set_min(&mut distances.before[rule.lhs.usize()], predicted);
+                }
             }
         }
-    }
-
-    fn immediate_process_dot(
-        &mut self,
-        rule_idx: usize,
-        rule: &CfgRule,
-        dot_pos: usize,
-        direction: DistanceDirection,
-    ) {
-        if direction.includes_forward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[..dot_pos], rule_idx, false);
-            set_min(&mut self.forward_distances.before[rule.lhs.usize()], min);
-        }
-        if direction.includes_backward() {
-            let (min, _) = self.update_rule_distances(0, &rule.rhs[dot_pos..], rule_idx, true);
-            set_min(&mut self.backward_distances.before[rule.lhs.usize()], min);
-        }
-    }
-
-    /// Calculates lengths of shortest paths that cross transitions (predictions and completions).
-    fn transitive_minimal_distances(&mut self) {
-        let mut changed = true;
+        changed = true;
         while changed {
             // Keep going for as long as any completion distances were lowered in the last pass.
             changed = false;
             for (idx, rule) in self.grammar.rules().enumerate() {
-                if let Some(distance) = self.forward_distances.after[rule.lhs.usize()] {
-                    let (_, changed_now) =
-                        self.update_rule_distances(distance, &rule.rhs[..], idx, false);
-                    changed |= changed_now;
-                }
-                if let Some(distance) = self.backward_distances.after[rule.lhs.usize()] {
-                    let (_, changed_now) =
-                        self.update_rule_distances(distance, &rule.rhs[..], idx, true);
-                    changed |= changed_now;
+                let completed = distances.after[rule.lhs.usize()];
+                let path = self.rule_path(dots, idx, rule, completed, &distances.before, reverse);
+                for (step, &distance) in path.iter().enumerate() {
+                    let Some(distance) = distance else { continue };
+                    let dot = path_dot(rule, step, reverse);
+                    set_min(&mut self.distances[idx][dot], distance);
+                    if step < rule.rhs.len() {
+                        let sym = path_sym(rule, step, reverse);
+                        changed |= set_min(&mut distances.after[sym.usize()], distance);
+                    }
                 }
             }
         }
     }
 
-    // Update distances in a rule.
-    fn update_rule_distances(
-        &mut self,
-        mut cur: u32,
-        rhs: &[Symbol],
+    /// Follows a rule from its far end, where the distance is `cur`.
+    fn rule_path(
+        &self,
+        dots: &[(usize, usize)],
         idx: usize,
+        rule: &CfgRule,
+        mut cur: Option<u32>,
+        before: &[Option<u32>],
         reverse: bool,
-    ) -> (u32, bool) {
-        let last = if reverse {
-            for (dot, &sym) in rhs.iter().enumerate() {
-                set_min(&mut self.distances[idx][dot], cur);
-                cur = self.update_sym_distance(cur, sym, true);
+    ) -> Vec<Option<u32>> {
+        let mut path = Vec::with_capacity(rule.rhs.len() + 1);
+        for step in 0..=rule.rhs.len() {
+            if step > 0 {
+                let sym = path_sym(rule, step - 1, reverse).usize();
+                // Either pass the symbol, or go inside to a dot predicted by it.
+                let passed = cur.and_then(|cur| self.min_length[sym].map(|len| cur + len));
+                cur = passed.into_iter().chain(before[sym]).min();
             }
-            rhs.len()
-        } else {
-            for (dot, &sym) in rhs.iter().enumerate().rev() {
-                set_min(&mut self.distances[idx][dot + 1], cur);
-                cur = self.update_sym_distance(cur, sym, false);
+            let dot = path_dot(rule, step, reverse);
+            if dots.binary_search(&(idx, dot)).is_ok() {
+                cur = Some(0);
             }
-            0
-        };
-        let changed = set_min(&mut self.distances[idx][last], cur);
-        (cur, changed)
+            path.push(cur);
+        }
+        path
     }
+}
 
-    fn update_sym_distance(&mut self, mut cur: u32, sym: Symbol, reverse: bool) -> u32 {
-        set_min(
-            if reverse {
-                &mut self.backward_distances.after[sym.usize()]
-            } else {
-                &mut self.forward_distances.after[sym.usize()]
-            },
-            cur,
-        );
-        cur += self.min_length[sym.usize()].unwrap();
-        if let Some(sym_predicted) = if reverse {
-            &self.backward_distances
-        } else {
-            &self.forward_distances
-        }
-        .before[sym.usize()]
-        {
-            cur.min(sym_predicted)
-        } else {
-            cur
-        }
+/// The dot after the given number of steps from the far end of the rule.
+fn path_dot(rule: &CfgRule, step: usize, reverse: bool) -> usize {
+    if reverse { step } else { rule.rhs.len() - step }
+}
+
+/// The symbol passed between the given step from the far end of the rule and the next one.
+fn path_sym(rule: &CfgRule, step: usize, reverse: bool) -> Symbol {
+    if reverse {
+        rule.rhs[step]
+    } else {
+        rule.rhs[rule.rhs.len() - 1 - step]
     }
 }
 
@@ -255,16 +235,3 @@ fn set_min(current: &mut Option<u32>, new: u32) -> bool {
         true
     }
 }
-
-fn binary_search_span(
-    dots: &[(usize, usize)],
-    idx: usize,
-) -> impl Iterator<Item = (usize, usize)> + '_ {
-    let dot_idx = match dots.binary_search(&(idx, 0)) {
-        Ok(pos) | Err(pos) => pos,
-    };
-    dots[dot_idx..]
-        .iter()
-        .copied()
-        .take_while(move |&(rule_id, _)| rule_id == idx)
-}
-- 
2.43.0


From 521147c6095e39937aab159ba4a047ca07252756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:43 +0000
Subject: [PATCH 20/23] fix: negative rules are respected after backtracking

A backtrack now undoes the states created after the violated one, several
negative rules may share a symbol, and the given attempt limit is used.
---
 cfg-generate/src/weighted/random.rs | 81 ++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 30 deletions(-)

diff --git a/cfg-generate/src/weighted/random.rs b/cfg-generate/src/weighted/random.rs
index 8cf3c4c..88c1b5f 100644
--- a/cfg-generate/src/weighted/random.rs
+++ b/cfg-generate/src/weighted/random.rs
@@ -144,9 +144,12 @@ pub struct NegativeRule {
     pub chars: &'static str,
 }
 
+#[derive(Clone)]
 struct BacktrackState<'a, R> {
+    order: usize,
     forbidden: &'a [char],
     rng: R,
+    string_len: usize,
     result_len: usize,
     prev_work: List<Symbol>,
 }
@@ -167,10 +170,15 @@ impl Random for Cfg {
         let mut string = vec![];
         let mut terminal_set = SymbolBitSet::new();
         terminal_set.terminal(self);
-        let negative: BTreeMap<Symbol, Vec<char>> = negative_rules
-            .iter()
-            .map(|neg| (neg.sym, neg.chars.chars().collect()))
-            .collect();
+        let mut negative: BTreeMap<Symbol, Vec<Vec<char>>> = BTreeMap::new();
+        for neg in negative_rules {
+            negative
+                .entry(neg.sym)
+                .or_default()
+                .push(neg.chars.chars().collect());
+        }
+        let max_attempts = limit.map_or(256 * 64, |limits| limits.negative_rule_attempts);
+        let mut next_order = 0;
         let mut backtracking: BTreeMap<usize, Vec<BacktrackState<R>>> = BTreeMap::new();
         let mut backtracking_attempts: BTreeMap<usize, u64> = BTreeMap::new();
         while let Some(&sym) = work.first() {
@@ -185,35 +193,48 @@ impl Random for Cfg {
                         return Err(RandomGenError::LimitExceeded);
                     }
                 }
-                if let Some(back) = backtracking.get_mut(&string.len()) {
-                    for state in back.iter_mut() {
-                        if string.ends_with(state.forbidden) {
-                            *rng = state.rng.clone();
-                            string.truncate(string.len() - state.forbidden.len());
-                            result.truncate(state.result_len);
-                            work = state.prev_work.clone();
-                            let attempts = backtracking_attempts
-                                .get_mut(&string.len())
-                                .expect("bt.attempt not found");
-                            rng.mutate_start(*attempts);
-                            *attempts += 1;
-                            if *attempts > 256 * 64 {
-                                return Err(RandomGenError::NegativeRuleAttemptsExceeded);
-                            }
-                        }
+                let violated = backtracking.get(&string.len()).and_then(|states| {
+                    states
+                        .iter()
+                        .filter(|state| string.ends_with(state.forbidden))
+                        .min_by_key(|state| state.order)
+                        .cloned()
+                });
+                if let Some(state) = violated {
+                    // Everything past the violated state is undone, including later states.
+                    for states in backtracking.values_mut() {
+                        states.retain(|other| other.order <= state.order);
+                    }
+                    *rng = state.rng;
+                    string.truncate(state.string_len);
+                    result.truncate(state.result_len);
+                    work = state.prev_work;
+                    let attempts = backtracking_attempts
+                        .get_mut(&string.len())
+                        .expect("bt.attempt not found");
+                    rng.mutate_start(*attempts);
+                    *attempts += 1;
+                    if *attempts > max_attempts {
+                        return Err(RandomGenError::NegativeRuleAttemptsExceeded);
                     }
                 }
-            } else if let Some(forbidden) = negative.get(&sym) {
+            } else if let Some(forbidden_list) = negative.get(&sym) {
                 // debug!("NEGATIVE: forbidden {:?} at {:?}", forbidden, string.len());
-                backtracking
-                    .entry(string.len() + forbidden.len())
-                    .or_default()
-                    .push(BacktrackState {
-                        forbidden: &forbidden[..],
-                        rng: rng.clone(),
-                        result_len: result.len(),
-                        prev_work: work.clone(),
-                    });
+                for forbidden in forbidden_list {
+                    backtracking
+                        .entry(string.len() + forbidden.len())
+                        .or_default()
+                        .push(BacktrackState {
+                            order: next_order,
+                            forbidden: &forbidden[..],
+                            rng: rng.clone(),
+                            string_len: string.len(),
+                            result_len: result.len(),
+                            prev_work: work.clone(),
+                        });
+                }
+                // States made at one place are kept or dropped together.
+                next_order += 1;
                 backtracking_attempts.entry(string.len()).or_insert(0);
             } else {
                 let rhs = weighted.pick_rhs(sym, rng);
-- 
2.43.0


From c108ab0a2356b6a6fd9d61d16423e63b633a000b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:23 +0000
Subject: [PATCH 21/23] fix: sequences of more than 2^31 elements

---
 cfg-sequence/src/rewrite.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cfg-sequence/src/rewrite.rs b/cfg-sequence/src/rewrite.rs
index c3cea3e..9f254a2 100644
--- a/cfg-sequence/src/rewrite.rs
+++ b/cfg-sequence/src/rewrite.rs
@@ -181,7 +181,7 @@ impl<'a> SequencesToProductions<'a> {
             }
             (_, 1, Some(end)) => {
                 // end >= 3
-                let pow2 = end.next_power_of_two() / 2;
+                let pow2 = block_len(end);
                 let (seq1, block, seq2) = (
                     sequence.range(1..=pow2),
                     sequence.range(pow2..=pow2),
@@ -204,7 +204,7 @@ impl<'a> SequencesToProductions<'a> {
                 // to do infinity
                 let (seq1, seq2) = if Some(start) == end {
                     // A "block"
-                    let pow2 = start.next_power_of_two() / 2;
+                    let pow2 = block_len(start);
                     (
                         sequence.range(pow2..=pow2),
                         sequence.range(start - pow2..=start - pow2),
@@ -226,3 +226,8 @@ impl<'a> SequencesToProductions<'a> {
         }
     }
 }
+
+/// Returns the greatest power of two less than `len`, which must be at least 2.
+fn block_len(len: u32) -> u32 {
+    1 << (len - 1).ilog2()
+}
-- 
2.43.0


From 0795cbb0fb2f6f360b7f71a238b11e9dd43487bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:38 +0000
Subject: [PATCH 22/23] fix: productions of weight zero are never picked

---
 .../src/weighted/weighted_rhs_by_lhs.rs       | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/cfg-generate/src/weighted/weighted_rhs_by_lhs.rs b/cfg-generate/src/weighted/weighted_rhs_by_lhs.rs
index f9bb179..eba81e0 100644
--- a/cfg-generate/src/weighted/weighted_rhs_by_lhs.rs
+++ b/cfg-generate/src/weighted/weighted_rhs_by_lhs.rs
@@ -21,7 +21,8 @@ pub struct WeightedRhsList<W> {
 
 #[derive(Clone, Default, Debug)]
 pub struct WeightedRhs<W> {
-    weight: W,
+    /// The sum of weights of this production and those before it.
+    cumulative_weight: W,
     rhs: Vec<Symbol>,
 }
 
@@ -34,11 +35,11 @@ impl<W: Weight> WeightedRhsByLhs<W> {
     /// Adds a weighted production to the map.
     pub fn add_weight(&mut self, weight: W, lhs: Symbol, rhs: &[Symbol]) {
         let weighted_rhs_list = self.weights.entry(lhs).or_default();
+        weighted_rhs_list.total_weight += weight;
         weighted_rhs_list.rhs_list.push(WeightedRhs {
-            weight: weighted_rhs_list.total_weight,
+            cumulative_weight: weighted_rhs_list.total_weight,
             rhs: rhs.to_vec(),
         });
-        weighted_rhs_list.total_weight += weight;
     }
 }
 
@@ -74,16 +75,15 @@ impl<W: Weight> WeightedRhsByLhs<W> {
             if weighted_rhs_list.rhs_list.len() == 1 {
                 return &weighted_rhs_list.rhs_list[0].rhs[..];
             }
-            let value = rng.generate(weighted_rhs_list.total_weight.into());
-            match weighted_rhs_list.rhs_list.binary_search_by(|weighted_rhs| {
-                weighted_rhs
-                    .weight
-                    .into()
-                    .partial_cmp(&value)
-                    .expect("invalid float")
-            }) {
-                Ok(idx) | Err(idx) => &weighted_rhs_list.rhs_list[idx.saturating_sub(1)].rhs[..],
-            }
+            let rhs_list = &weighted_rhs_list.rhs_list;
+            let total_weight: f64 = weighted_rhs_list.total_weight.into();
+            let value = rng.generate(total_weight);
+            // The first production whose span of weights goes past the value. A production
+            // of weight zero has an empty span.
+            let idx = rhs_list.partition_point(|rhs| rhs.cumulative_weight.into() <= value);
+            // The value may be as high as the total weight.
+            let last = rhs_list.partition_point(|rhs| rhs.cumulative_weight.into() < total_weight);
+            &rhs_list[idx.min(last)].rhs[..]
         } else {
             &[]
         }
-- 
2.43.0


From 58bf091ce97825404b3614093cba23103611a0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:42 +0000
Subject: [PATCH 23/23] fix: names of string literals do not clash with names
 in the grammar

---
 cfg-load/src/advanced.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index be118ee..7c06d82 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -623,6 +623,13 @@ impl CfgLoadAdvancedExt for Cfg {
                 token: None,
             });
         };
+        // Symbols of string literals must not share a name with anything in the grammar.
+        let mut lex_prefix = "__lex".to_string();
+        while tokens.iter().any(
+            |(token, ..)| matches!(token, Token::Ident(name) if name.starts_with(&lex_prefix)),
+        ) {
+            lex_prefix.push('_');
+        }
         let result = recognizer
             .forest
             .evaluator(Evaluator { symbols, tokens })
@@ -749,7 +756,7 @@ impl CfgLoadAdvancedExt for Cfg {
                         }
                         Fragment::Lex { string, span: _ } => {
                             let id = lex_string_intern.get_or_intern(&string[..]);
-                            let name = format!("__lex{}", id);
+                            let name = format!("{}{}", lex_prefix, id);
                             let id = intern.get_or_intern(&name[..]);
                             let rhs_sym = *sym_map.entry(id).or_insert_with(|| {
                                 cfg.sym_source_mut().next_sym(Some(name.clone().into()))
-- 
2.43.0

