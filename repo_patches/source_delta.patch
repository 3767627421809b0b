From 277dc0cafbde3d3e415374c142f81aa2a43d67db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:33 +0000
Subject: [PATCH 01/11] fix: Cfg::extend respects the right-hand-side length
 limit

---
 cfg-grammar/src/cfg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cfg-grammar/src/cfg.rs b/cfg-grammar/src/cfg.rs
index 2da8cb6..a8656ce 100644
--- a/cfg-grammar/src/cfg.rs
+++ b/cfg-grammar/src/cfg.rs
@@ -262,7 +262,9 @@ impl Cfg {
     /// Extend the list of rules with the rules in the given grammar.
     /// The given grammar must have a compatible set of symbols.
     pub fn extend(&mut self, other: &Cfg) {
-        self.rules.extend(other.rules.iter().cloned());
+        for rule in other.rules() {
+            self.add_rule(rule.clone());
+        }
     }
 
     /// Ensures the grammar is binarized and eliminates all nulling rules, which have the
-- 
2.43.0


From bba89aba196732321b1b8bb1dc507db93e279225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:17 +0000
Subject: [PATCH 02/11] fix: SymbolBitSet::is_empty reports the absence of
 members, not their presence

---
 cfg-grammar/src/symbol_bit_set.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cfg-grammar/src/symbol_bit_set.rs b/cfg-grammar/src/symbol_bit_set.rs
index 0aaec73..385326e 100644
--- a/cfg-grammar/src/symbol_bit_set.rs
+++ b/cfg-grammar/src/symbol_bit_set.rs
@@ -175,9 +175,11 @@ impl SymbolBitSet {
         self.bit_vec.iter().all(|b| b)
     }
 
-    /// Not to be confused with `fn is_empty`.
+    /// Determines whether this set contains no symbols.
+    ///
+    /// Not to be confused with having no space for symbols.
     pub fn is_empty(&self) -> bool {
-        self.bit_vec.iter().any(|b| b)
+        self.bit_vec.iter().all(|b| !b)
     }
 
     /// Reserves space for additional symbols.
-- 
2.43.0


From 301699bfb8a9033a6edede3d79238abfbc4c270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:58 +0000
Subject: [PATCH 03/11] fix: rewrite_cycles renames the roots along with the
 rules

---
 cfg-classify/src/cyclical.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/cfg-classify/src/cyclical.rs b/cfg-classify/src/cyclical.rs
index f4d7d16..70fbf6f 100644
--- a/cfg-classify/src/cyclical.rs
+++ b/cfg-classify/src/cyclical.rs
@@ -3,8 +3,8 @@
 use std::borrow::{Borrow, BorrowMut};
 use std::collections::BTreeMap;
 
-use cfg_grammar::{Cfg, CfgRule, SymbolBitSet};
-use cfg_symbol::SymbolSource;
+use cfg_grammar::{Cfg, CfgRule, SymbolBitSet, WrappedRoot};
+use cfg_symbol::{Symbol, SymbolSource};
 use cfg_symbol_bit_matrix::{CfgSymbolBitMatrixExt, UnitDerivationMatrix};
 
 /// Provides information about cycles among unit derivations in the grammar. There are two ways of
@@ -126,6 +126,22 @@ impl<G: BorrowMut<Cfg>> Cycles<G> {
             for rule in rewritten_rules {
                 self.grammar.borrow_mut().add_rule(rule);
             }
+            // The roots must keep naming symbols that have rules.
+            let translate = |sym: Symbol| translation.get(&sym).copied().flatten().unwrap_or(sym);
+            let grammar = self.grammar.borrow_mut();
+            let roots: Vec<_> = grammar.roots().iter().map(|&sym| translate(sym)).collect();
+            grammar.set_roots(roots);
+            let wrapped_roots: Vec<_> = grammar
+                .wrapped_roots()
+                .iter()
+                .map(|wrapped_root| WrappedRoot {
+                    root: translate(wrapped_root.root),
+                    start_of_input: translate(wrapped_root.start_of_input),
+                    inner_root: translate(wrapped_root.inner_root),
+                    end_of_input: translate(wrapped_root.end_of_input),
+                })
+                .collect();
+            grammar.set_wrapped_roots(&wrapped_roots[..]);
         }
     }
 }
-- 
2.43.0


From ac0de0fec6f374170dce70dfc753bc14b30898f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:13 +0000
Subject: [PATCH 04/11] fix: Cfg::equivalent compares rule counts and
 right-hand-side lengths

---
 cfg-grammar/src/compare.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cfg-grammar/src/compare.rs b/cfg-grammar/src/compare.rs
index aec4ee0..9a871e5 100644
--- a/cfg-grammar/src/compare.rs
+++ b/cfg-grammar/src/compare.rs
@@ -3,9 +3,9 @@ use crate::Cfg;
 impl Cfg {
     /// Compares the grammars. The symbol numeric values must match.
     pub fn equivalent(&self, other: &Cfg) -> bool {
-        let mut eq = true;
+        let mut eq = self.rules().count() == other.rules().count();
         for (i, j) in self.rules().zip(other.rules()) {
-            eq = eq && i.lhs == j.lhs && i.rhs.iter().zip(j.rhs.iter()).all(|(a, b)| *a == *b);
+            eq = eq && i.lhs == j.lhs && i.rhs == j.rhs;
         }
         eq
     }
-- 
2.43.0


From 04e4f5712192b29b00862f153ca95ef43845dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:29 +0000
Subject: [PATCH 05/11] fix: FIRST of a string continues past nullable symbols

---
 cfg-predict-sets/src/first.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/cfg-predict-sets/src/first.rs b/cfg-predict-sets/src/first.rs
index d952190..aa63ed2 100644
--- a/cfg-predict-sets/src/first.rs
+++ b/cfg-predict-sets/src/first.rs
@@ -49,26 +49,29 @@ impl FirstSets {
 
     /// Calculates a FIRST set for a string of symbols.
     pub fn first_set_for_string(&self, string: &[Symbol]) -> PerSymbolSetVal {
-        let mut result = vec![];
+        let mut result = PerSymbolSetVal::new();
         for &sym in string {
+            let mut nullable = false;
             if self.terminal_set[sym] {
                 result.push(sym);
-                break;
             } else {
                 let first_set = self
                     .map
                     .get(&sym)
                     .expect("FIRST set not found in PerSymbolSets");
-                result.clone_from(&first_set.list);
-                if !result.is_empty() {
-                    break;
-                }
+                result.extend(first_set.iter().copied());
+                nullable = first_set.has_none;
+            }
+            if !nullable {
+                result.sort_unstable();
+                result.dedup();
+                return result;
             }
         }
-        PerSymbolSetVal {
-            has_none: result.is_empty(),
-            list: result,
-        }
+        result.sort_unstable();
+        result.dedup();
+        result.has_none = true;
+        result
     }
 
     fn collect_from(&mut self, grammar: &Cfg) {
-- 
2.43.0


From 321d91f39464be68ca1776035e174e55bb4c5e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:29 +0000
Subject: [PATCH 06/11] fix: FOLLOW sets record that the end of input may
 follow

---
 cfg-predict-sets/src/follow.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cfg-predict-sets/src/follow.rs b/cfg-predict-sets/src/follow.rs
index 76ed1eb..a6ef9a7 100644
--- a/cfg-predict-sets/src/follow.rs
+++ b/cfg-predict-sets/src/follow.rs
@@ -55,6 +55,7 @@ impl FollowSets {
                         let followed = this.map.get_mut(&sym).unwrap();
                         let prev_cardinality = followed.len();
                         followed.extend(follow_set.iter().cloned());
+                        followed.has_none |= follow_set.has_none;
                         followed.sort_unstable();
                         followed.dedup();
                         changed |= prev_cardinality != followed.len();
-- 
2.43.0


From 9800c4ccdab8b003207d4758afb7300bd7687083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:00 +0000
Subject: [PATCH 07/11] fix: random generation respects the limit on negative
 rule attempts

---
 cfg-generate/src/weighted/random.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cfg-generate/src/weighted/random.rs b/cfg-generate/src/weighted/random.rs
index 8cf3c4c..87ffd3c 100644
--- a/cfg-generate/src/weighted/random.rs
+++ b/cfg-generate/src/weighted/random.rs
@@ -29,7 +29,8 @@ pub enum RandomGenError {
 pub struct Limits {
     /// How many terminals we are allowed to produce.
     pub terminals: u64,
-    ///
+    /// How many times we may backtrack to the same place because
+    /// of negative rules.
     pub negative_rule_attempts: u64,
 }
 
@@ -173,6 +174,7 @@ impl Random for Cfg {
             .collect();
         let mut backtracking: BTreeMap<usize, Vec<BacktrackState<R>>> = BTreeMap::new();
         let mut backtracking_attempts: BTreeMap<usize, u64> = BTreeMap::new();
+        let max_attempts = limit.map_or(256 * 64, |limits| limits.negative_rule_attempts);
         while let Some(&sym) = work.first() {
             work.drop_first_mut();
             if terminal_set[sym] {
@@ -197,7 +199,7 @@ impl Random for Cfg {
                                 .expect("bt.attempt not found");
                             rng.mutate_start(*attempts);
                             *attempts += 1;
-                            if *attempts > 256 * 64 {
+                            if *attempts > max_attempts {
                                 return Err(RandomGenError::NegativeRuleAttemptsExceeded);
                             }
                         }
-- 
2.43.0


From a1ba0a1b63eeccf43045c06e08fa19047ee849e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 08/11] fix: random generation forgets backtracking points of
 abandoned derivations

---
 cfg-generate/src/weighted/random.rs | 41 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/cfg-generate/src/weighted/random.rs b/cfg-generate/src/weighted/random.rs
index 87ffd3c..8ddf823 100644
--- a/cfg-generate/src/weighted/random.rs
+++ b/cfg-generate/src/weighted/random.rs
@@ -145,11 +145,13 @@ pub struct NegativeRule {
     pub chars: &'static str,
 }
 
+#[derive(Clone)]
 struct BacktrackState<'a, R> {
     forbidden: &'a [char],
     rng: R,
     result_len: usize,
     prev_work: List<Symbol>,
+    order: u64,
 }
 
 impl Random for Cfg {
@@ -174,6 +176,7 @@ impl Random for Cfg {
             .collect();
         let mut backtracking: BTreeMap<usize, Vec<BacktrackState<R>>> = BTreeMap::new();
         let mut backtracking_attempts: BTreeMap<usize, u64> = BTreeMap::new();
+        let mut num_states = 0;
         let max_attempts = limit.map_or(256 * 64, |limits| limits.negative_rule_attempts);
         while let Some(&sym) = work.first() {
             work.drop_first_mut();
@@ -187,22 +190,26 @@ impl Random for Cfg {
                         return Err(RandomGenError::LimitExceeded);
                     }
                 }
-                if let Some(back) = backtracking.get_mut(&string.len()) {
-                    for state in back.iter_mut() {
-                        if string.ends_with(state.forbidden) {
-                            *rng = state.rng.clone();
-                            string.truncate(string.len() - state.forbidden.len());
-                            result.truncate(state.result_len);
-                            work = state.prev_work.clone();
-                            let attempts = backtracking_attempts
-                                .get_mut(&string.len())
-                                .expect("bt.attempt not found");
-                            rng.mutate_start(*attempts);
-                            *attempts += 1;
-                            if *attempts > max_attempts {
-                                return Err(RandomGenError::NegativeRuleAttemptsExceeded);
-                            }
-                        }
+                let failed_state = backtracking
+                    .get(&string.len())
+                    .and_then(|back| back.iter().find(|state| string.ends_with(state.forbidden)))
+                    .cloned();
+                if let Some(state) = failed_state {
+                    *rng = state.rng;
+                    string.truncate(string.len() - state.forbidden.len());
+                    result.truncate(state.result_len);
+                    work = state.prev_work;
+                    // Later states belong to the derivation we are abandoning.
+                    for states in backtracking.values_mut() {
+                        states.retain(|other| other.order <= state.order);
+                    }
+                    let attempts = backtracking_attempts
+                        .get_mut(&string.len())
+                        .expect("bt.attempt not found");
+                    rng.mutate_start(*attempts);
+                    *attempts += 1;
+                    if *attempts > max_attempts {
+                        return Err(RandomGenError::NegativeRuleAttemptsExceeded);
                     }
                 }
             } else if let Some(forbidden) = negative.get(&sym) {
@@ -215,7 +222,9 @@ impl Random for Cfg {
                         rng: rng.clone(),
                         result_len: result.len(),
                         prev_work: work.clone(),
+                        order: num_states,
                     });
+                num_states += 1;
                 backtracking_attempts.entry(string.len()).or_insert(0);
             } else {
                 let rhs = weighted.pick_rhs(sym, rng);
-- 
2.43.0


From 8fc1a2d8f7a4d5c60f403cb6752bc883d1bec58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:56 +0000
Subject: [PATCH 09/11] fix: report untokenizable BNF text as a LoadError
 instead of panicking

---
 cfg-load/src/basic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cfg-load/src/basic.rs b/cfg-load/src/basic.rs
index 4854964..10bfeb9 100644
--- a/cfg-load/src/basic.rs
+++ b/cfg-load/src/basic.rs
@@ -342,7 +342,12 @@ impl CfgLoadExt for Cfg {
             rparen,
         ] = bnf_grammar.symbols();
         let mut recognizer = Recognizer::new(&bnf_grammar);
-        let tokens = Lexer::tokenize(bnf).unwrap();
+        let tokens = Lexer::tokenize(bnf).map_err(|(line, col)| LoadError {
+            reason: "failed to tokenize".to_string(),
+            line: line as u32,
+            col: col as u32,
+            token: None,
+        })?;
         for (i, ch) in tokens.iter().enumerate() {
             let terminal = match ch {
                 Token::BnfOp => bnf_op,
-- 
2.43.0


From 1c5415d0d6649d9aa75f8bb040cbe7c9fd537706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:56 +0000
Subject: [PATCH 10/11] fix: accept lexer blocks first and repeatedly in the
 rich BNF notation

---
 cfg-load/src/advanced.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index 2fa3097..81c5a39 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -180,8 +180,15 @@ impl forest::Eval for Evaluator {
             }
             // start ::= start decl;
             (2, Value::Start(rules, None), Value::Lex(lex), ..) => Value::Start(rules, Some(lex)),
+            // start ::= start decl;
+            (2, Value::Start(rules, Some(mut lex)), Value::Lex(more), ..) => {
+                lex.0.extend(more.0);
+                Value::Start(rules, Some(lex))
+            }
             // start ::= decl;
             (3, Value::Rules(rule), ..) => Value::Start(rule, None),
+            // start ::= decl;
+            (3, Value::Lex(lex), ..) => Value::Start(vec![], Some(lex)),
             // decl ::= rule;
             (4, Value::Rules(rules), ..) => Value::Rules(rules),
             // decl ::= lexer;
-- 
2.43.0


From 3c00f64ce12ddad320a5cfda857df979da7c6d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:56 +0000
Subject: [PATCH 11/11] fix: add the rule of a repeated string literal only
 once

---
 cfg-load/src/advanced.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cfg-load/src/advanced.rs b/cfg-load/src/advanced.rs
index 81c5a39..2f51a4f 100644
--- a/cfg-load/src/advanced.rs
+++ b/cfg-load/src/advanced.rs
@@ -756,8 +756,9 @@ impl CfgLoadAdvancedExt for Cfg {
                                         .or_insert_with(|| cfg.next_sym(None))
                                 })
                                 .collect();
-                            cfg.rule(rhs_sym).rhs(&child[..]);
-                            set_of_lexical.insert(rhs_sym);
+                            if set_of_lexical.insert(rhs_sym) {
+                                cfg.rule(rhs_sym).rhs(&child[..]);
+                            }
                             Ok(rhs_sym)
                         }
                         Fragment::Rhs { ident, rep } => {
-- 
2.43.0

