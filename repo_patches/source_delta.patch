From f43ff1795245a9cc2109b737772384f6ffeba96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:58 +0000
Subject: [PATCH 1/8] fix: grammar! and production! keep productions and
 alternatives in written order

The token munchers accumulated finished alternatives and productions at the
front, so grammar! started from the wrong production and both macros permuted
alternatives.
---
 src/grammar.rs    | 6 +++---
 src/production.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index dc06482..5c3218b 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -838,7 +838,7 @@ macro_rules! grammar {
     (@collect_prods [[$($curr_terms:expr),*] [$($curr_exprs:tt)*] [$curr_lhs:ident] $($prev_prods:tt)*] ; <$next_lhs:ident> ::= $($rest:tt)*) => {
         {
             // Save current production and start next one
-            $crate::grammar!(@collect_prods [[] [] [$next_lhs] [[$($curr_terms),*] $($curr_exprs)*] [$curr_lhs] $($prev_prods)*] $($rest)*)
+            $crate::grammar!(@collect_prods [[] [] [$next_lhs] $($prev_prods)* [$($curr_exprs)* [$($curr_terms),*]] [$curr_lhs]] $($rest)*)
         }
     };
 
@@ -849,7 +849,7 @@ macro_rules! grammar {
 
     // Hit | within a production - finish current expression, start new one
     (@collect_prods [[$($curr_terms:expr),*] [$($curr_exprs:tt)*] [$lhs:ident] $($prev_prods:tt)*] | $($rest:tt)*) => {
-        $crate::grammar!(@collect_prods [[] [[$($curr_terms),*] $($curr_exprs)*] [$lhs] $($prev_prods)*] $($rest)*)
+        $crate::grammar!(@collect_prods [[] [$($curr_exprs)* [$($curr_terms),*]] [$lhs] $($prev_prods)*] $($rest)*)
     };
 
     // Collect a literal term
@@ -869,7 +869,7 @@ macro_rules! grammar {
             {
                 let mut prods = vec![];
 
-                // Build previous productions (in reverse order since we accumulated backwards)
+                // Build previous productions (accumulated in source order)
                 $(
                     let mut exprs = vec![];
                     $crate::grammar!(@build_exprs exprs $($prod_exprs)*);
diff --git a/src/production.rs b/src/production.rs
index 3f8b832..ba421cc 100644
--- a/src/production.rs
+++ b/src/production.rs
@@ -144,7 +144,7 @@ macro_rules! production {
 
     // Hit | separator - finish current expression group, start new one
     (@collect_exprs [[$($current:expr),*] $($prev_exprs:tt)*] | $($rest:tt)*) => {
-        $crate::production!(@collect_exprs [[] [$($current),*] $($prev_exprs)*] $($rest)*)
+        $crate::production!(@collect_exprs [[] $($prev_exprs)* [$($current),*]] $($rest)*)
     };
 
     // Collect a literal term into current expression
@@ -163,7 +163,7 @@ macro_rules! production {
             #[allow(clippy::vec_init_then_push)]
             {
                 let mut exprs = vec![];
-                // Add previous expressions in reverse order (they were accumulated backwards)
+                // Add previous expressions (accumulated in source order)
                 $(exprs.push($crate::Expression::from_parts(vec![$($prev),*]));)*
                 // Add the last expression
                 exprs.push($crate::Expression::from_parts(vec![$($last),*]));
-- 
2.43.0


From 64963efada2edbd990d76076d130b047f832bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:02 +0000
Subject: [PATCH 2/8] fix: allow whitespace and comments after an opening ( or
 [

Whitespace was skipped after every other token, but '( <a> | <b> )' and
'[ <a> ]' were rejected.
---
 src/parsers/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 367c507..0d1c18e 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -303,7 +303,7 @@ fn parsed_expression_next<F: Format>(input: &str) -> IResult<&str, &str> {
 
 fn parsed_anonymous_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
     let (input, rhs) = delimited(
-        complete::char('('),
+        terminated(complete::char('('), whitespace_plus_comments),
         xt_list_with_separator(parsed_expression::<F>, parsed_expression_next::<F>),
         complete::char(')'),
     )
@@ -316,7 +316,7 @@ fn parsed_anonymous_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
 
 fn parsed_optional_group<F: Format>(input: &str) -> IResult<&str, ParsedTerm> {
     let (input, rhs) = delimited(
-        complete::char('['),
+        terminated(complete::char('['), whitespace_plus_comments),
         xt_list_with_separator(parsed_expression::<F>, parsed_expression_next::<F>),
         complete::char(']'),
     )
-- 
2.43.0


From 47b19d88a08621c00d653b21f0ac1ba1077876ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:06 +0000
Subject: [PATCH 3/8] fix: remove_production keeps the order of the remaining
 productions

swap_remove moved the last production into the removed slot, so removing the
first production made the last one the start symbol.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 5c3218b..d1b45b2 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -348,7 +348,7 @@ impl Grammar {
         self.productions
             .iter()
             .position(|x| *x == *prod)
-            .map(|pos| self.productions.swap_remove(pos))
+            .map(|pos| self.productions.remove(pos))
     }
 
     /// Get iterator of the `Grammar`'s `Production`s
-- 
2.43.0


From 72a961ba47658e00d3d3f28e26bdc322a946e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:11 +0000
Subject: [PATCH 4/8] fix: build_parser accepts the grammars validate accepts

A production without alternatives counted as a definition for validate() but
not for build_parser(), which reported its left-hand side as undefined.
---
 src/parser/grammar.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/grammar.rs b/src/parser/grammar.rs
index 087d4dd..b2b1d62 100644
--- a/src/parser/grammar.rs
+++ b/src/parser/grammar.rs
@@ -40,14 +40,17 @@ impl<'gram, 'a> ParseGrammar<'gram> {
         let n = grammar.production_count();
         sets.reserve(n, n.saturating_mul(2));
 
+        for prod in grammar.productions_iter() {
+            if let crate::Term::Nonterminal(nt) = &prod.lhs {
+                sets.record_lhs(nt.as_str());
+            }
+        }
+
         let flat_prod_iter = grammar
             .productions_iter()
             .flat_map(|prod| prod.rhs_iter().map(|rhs| (&prod.lhs, rhs)));
 
         for (lhs, rhs) in flat_prod_iter {
-            if let crate::Term::Nonterminal(nt) = lhs {
-                sets.record_lhs(nt.as_str());
-            }
             for term in rhs.terms_iter() {
                 if let crate::Term::Nonterminal(nt) = term {
                     sets.record_rhs(nt.as_str());
-- 
2.43.0


From d8e23930e7fb7f4c4e0b54dfa800b5d740454658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:25 +0000
Subject: [PATCH 5/8] fix: generated __anon names never capture names
 referenced in the text

Fresh names only avoided left-hand sides, so an undefined <__anon0> referenced
by the user was silently defined by the first group's nonterminal.
---
 src/parsers/mod.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 0d1c18e..2815abc 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -396,13 +396,31 @@ fn parsed_grammar_complete<F: Format>(input: &str) -> IResult<&str, ParsedGramma
 
 /// Normalize a parsed grammar (with `Group` and `Optional`) into a `Grammar` that uses only
 /// `Term::Terminal` and `Term::Nonterminal`. Anonymous names (`__anon0`, `__anon1`, …) are chosen
-/// so they do not clash with any existing LHS nonterminal (e.g. user-defined `<__anon0>`).
+/// so they do not clash with any nonterminal in the text (e.g. user-defined `<__anon0>`).
 /// Optionals `[A / B]` are lowered to a fresh nonterminal with alternatives `A | B | ''`.
 fn normalize_parsed_grammar(parsed: ParsedGrammar) -> Grammar {
     let mut used_names = crate::HashSet::new();
     for prod in &parsed.productions {
-        let ParsedProduction::Complex { lhs, .. } = prod;
+        let ParsedProduction::Complex { lhs, rhs } = prod;
         used_names.insert(lhs.clone());
+        collect_names(rhs, &mut used_names);
+    }
+
+    /// Collect every nonterminal referenced in `exprs`, including inside groups and optionals.
+    fn collect_names(exprs: &[ParsedExpression], used: &mut crate::HashSet<String>) {
+        for ParsedExpression::Terms(terms) in exprs {
+            for term in terms {
+                match term {
+                    ParsedTerm::Simple(Term::Nonterminal(nt)) => {
+                        used.insert(nt.clone());
+                    }
+                    ParsedTerm::Simple(Term::Terminal(_)) => {}
+                    ParsedTerm::Group(exprs) | ParsedTerm::Optional(exprs) => {
+                        collect_names(exprs, used);
+                    }
+                }
+            }
+        }
     }
 
     let mut out_prods = Vec::new();
-- 
2.43.0


From cbeaf9b1799f50e8b8906ee65ce573f31e5238c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:29 +0000
Subject: [PATCH 6/8] fix: generate renders an undefined nonterminal as
 <identifier>

The README promises the identifier as a nonterminal; the bare name was
indistinguishable from a terminal.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index d1b45b2..42df1ca 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -515,7 +515,7 @@ impl Grammar {
                 .find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))
             {
                 Some(p) => p,
-                None => return Ok(ident.to_string()),
+                None => return Ok(Term::Nonterminal(ident.to_string()).to_string()),
             };
 
             /// True if the production has no choosable alternative (no RHS or only an empty/epsilon alternative).
-- 
2.43.0


From 0de5878982973955697ec683d9ddd7e215f02171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:33 +0000
Subject: [PATCH 7/8] fix: Weighted sums weights without overflowing

The u32 sum panicked in debug builds and wrapped in release builds when the
weights of a production added up to more than u32::MAX.
---
 src/generation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/generation.rs b/src/generation.rs
index eeaec6c..ae0766a 100644
--- a/src/generation.rs
+++ b/src/generation.rs
@@ -275,12 +275,13 @@ impl Weighted {
 
     /// Weighted random index; if total weight is 0, returns uniform random in `0..fallback_len`.
     fn weighted_random_index(rng: &mut StdRng, weights: &[u32], fallback_len: usize) -> usize {
-        let total: u32 = weights.iter().sum();
+        let total: u64 = weights.iter().copied().map(u64::from).sum();
         if total == 0 {
             return random_index(rng, fallback_len);
         }
         let mut r = rng.random_range(0..total);
         for (i, &w) in weights.iter().enumerate() {
+            let w = u64::from(w);
             if r < w {
                 return i;
             }
-- 
2.43.0


From a526eb2b76a44f70fddb9eda6a947797887e4b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:34 +0000
Subject: [PATCH 8/8] fix: generate offers the alternatives of every production
 of a nonterminal

Only the first production of a nonterminal was ever expanded, although the
termination check and the parser use all of them: alternatives added by a later
production (e.g. ABNF's =/) could not be generated, and a grammar whose first
production only recurses overflowed the stack. CoverageGuided now identifies a
production by its nonterminal, as documented, instead of by its address.
---
 src/generation.rs | 15 +++++++++------
 src/grammar.rs    | 16 ++++++++++++----
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/generation.rs b/src/generation.rs
index ae0766a..185e7c2 100644
--- a/src/generation.rs
+++ b/src/generation.rs
@@ -143,7 +143,7 @@ impl GenerationStrategy for DepthBounded {
 #[derive(Debug)]
 pub struct CoverageGuided {
     /// (nonterminal, `expression_index`) pairs that have been chosen.
-    seen: crate::HashSet<(*const Term, usize)>,
+    seen: crate::HashMap<Term, crate::HashSet<usize>>,
     rng: StdRng,
     /// Reused buffer for uncovered indices; avoids per-call allocation.
     candidates_buf: Vec<usize>,
@@ -153,7 +153,7 @@ impl Default for CoverageGuided {
     fn default() -> Self {
         let seed = [0u8; 32];
         Self {
-            seen: crate::HashSet::new(),
+            seen: crate::HashMap::new(),
             rng: StdRng::from_seed(seed),
             candidates_buf: Vec::new(),
         }
@@ -171,7 +171,7 @@ impl CoverageGuided {
     #[must_use]
     pub fn from_seed(seed: [u8; 32]) -> Self {
         Self {
-            seen: crate::HashSet::new(),
+            seen: crate::HashMap::new(),
             rng: StdRng::from_seed(seed),
             candidates_buf: Vec::new(),
         }
@@ -180,10 +180,10 @@ impl CoverageGuided {
     /// Fill `candidates_buf` with indices not yet in `seen` for this production's LHS, then pick one
     /// uniformly, or fallback to any index if all are seen. Reuses `candidates_buf` to avoid alloc.
     fn fill_uncovered_and_choose_index(&mut self, production: &Production) -> usize {
-        let lhs = &production.lhs as *const Term;
+        let seen = self.seen.get(&production.lhs);
         self.candidates_buf.clear();
         for i in 0..production.len() {
-            if !self.seen.contains(&(lhs, i)) {
+            if !seen.is_some_and(|seen| seen.contains(&i)) {
                 self.candidates_buf.push(i);
             }
         }
@@ -202,7 +202,10 @@ impl GenerationStrategy for CoverageGuided {
     fn choose<'p>(&mut self, production: &'p Production, _depth: usize) -> Option<&'p Expression> {
         debug_assert!(!production.is_empty(), "production must not be empty");
         let idx = self.fill_uncovered_and_choose_index(production);
-        self.seen.insert((&production.lhs as *const Term, idx));
+        self.seen
+            .entry(production.lhs.clone())
+            .or_default()
+            .insert(idx);
         production.get_expression(idx)
     }
 }
diff --git a/src/grammar.rs b/src/grammar.rs
index 42df1ca..2c0e4b8 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -44,6 +44,7 @@ use rand::{Rng, SeedableRng, rng, rngs::StdRng};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
+use std::borrow::Cow;
 use std::fmt::{self, Write};
 use std::rc::Rc;
 use std::str;
@@ -510,13 +511,20 @@ impl Grammar {
         depth: usize,
     ) -> Result<String, Error> {
         loop {
-            let production = match self
+            let mut matching = self
                 .productions_iter()
-                .find(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident))
-            {
-                Some(p) => p,
+                .filter(|p| matches!(&p.lhs, Term::Nonterminal(s) if s.as_str() == ident));
+            let mut production = match matching.next() {
+                Some(p) => Cow::Borrowed(p),
                 None => return Ok(Term::Nonterminal(ident.to_string()).to_string()),
             };
+            // a nonterminal may be defined by several productions; offer all of their alternatives
+            for other in matching {
+                for expression in other.rhs_iter() {
+                    production.to_mut().add_to_rhs(expression.clone());
+                }
+            }
+            let production = production.as_ref();
 
             /// True if the production has no choosable alternative (no RHS or only an empty/epsilon alternative).
             fn production_has_no_choice(production: &Production) -> bool {
-- 
2.43.0

