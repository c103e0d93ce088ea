From a680932a16cb4b816a56a54c1e47a9845487d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 01/11] fix: forward on_conflict_resolved unchanged in
 Combined_order

---
 src/variable_order/Combined_order.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variable_order/Combined_order.h b/src/variable_order/Combined_order.h
index c493c08..63d1905 100644
--- a/src/variable_order/Combined_order.h
+++ b/src/variable_order/Combined_order.h
@@ -100,7 +100,7 @@ public:
     {
         for (auto& heuristic : heuristics)
         {
-            heuristic->on_learned_clause(db, trail, other);
+            heuristic->on_conflict_resolved(db, trail, other);
         }
     }
 
-- 
2.43.0


From 3f6f41de9007abd964df652c96e0a0e92b62086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 02/11] fix: reset clause statistics at the beginning of
 check()

---
 src/Solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index bb7efde..7af426b 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -170,6 +170,8 @@ void Solver::init()
 
     // reset solver state
     total_conflicts = 0;
+    total_conflict_clauses = 0;
+    total_learned_clauses = 0;
     total_decisions = 0;
     total_restarts = 0;
     dispatcher.on_init(db(), trail());
-- 
2.43.0


From 9636253632c99368eab74a45c2b2ed14046e01fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 03/11] fix: compute Long_fraction::inv() exactly for
 denominators and numerators outside the machine word

---
 src/lra/Long_fraction.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 6025818..08775e4 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -419,11 +419,7 @@ public:
     }
 
     inline Long_fraction inv() const {
-        if (sign() >= 0) {
-            return {static_cast<word>(den), static_cast<uword>(num)};
-        } else {
-            return {static_cast<word>(-den), static_cast<uword>(-num)};
-        }
+        return inverse();
     }
 };
 
-- 
2.43.0


From f9bb556a3f3375681f7d7da0eab2bc346899509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 04/11] fix: reduce negative numerators with signed division in
 Long_fraction(word, uword)

---
 src/lra/Long_fraction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lra/Long_fraction.h b/src/lra/Long_fraction.h
index 08775e4..c44c084 100644
--- a/src/lra/Long_fraction.h
+++ b/src/lra/Long_fraction.h
@@ -646,7 +646,7 @@ inline Long_fraction::Long_fraction(word n, uword d) : state{State::WORD_VALID}
     } else {
         uword common = gcd<uword>(absVal(n), d);
         if (common > 1) {
-            num = n / common;
+            num = static_cast<word>(n / static_cast<lword>(common));
             den = d / common;
         } else {
             num = n;
-- 
2.43.0


From d00c80b15f686eed4d70d347021a1754bfdae20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 05/11] fix: rewrite the subterms, the negations and the
 applications of a term

Rewriter::rewrite visited no child (inverted test), dropped the negation of a rewritten
root or child and the function symbol of an application, so a define-fun used its formal
parameters instead of the arguments.
---
 src/terms/Term_rewriter.h | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/terms/Term_rewriter.h b/src/terms/Term_rewriter.h
index 930d1d3..058a3d5 100644
--- a/src/terms/Term_rewriter.h
+++ b/src/terms/Term_rewriter.h
@@ -3,6 +3,7 @@
 
 #include <unordered_set>
 #include <unordered_map>
+#include <string>
 
 #include "Term_manager.h"
 
@@ -30,7 +31,8 @@ public:
         std::vector<term_t> aux_args;
         auto is_processed = [&processed](term_t term) { return processed.find(term) != processed.end(); };
 
-        toProcess.emplace_back(root);
+        // Only positive terms are rewritten; the negation of a term rewrites to the negation of the result
+        toProcess.emplace_back(tm.positive_term(root));
         while (not toProcess.empty())
         {
             auto & current_entry = toProcess.back();
@@ -39,9 +41,9 @@ public:
             auto children = tm.get_args(current_term);
             if (current_entry.next_child < children.size())
             {
-                term_t next_child = children[current_entry.next_child];
+                term_t next_child = tm.positive_term(children[current_entry.next_child]);
                 ++current_entry.next_child;
-                if (is_processed(next_child)) { toProcess.emplace_back(next_child); }
+                if (not is_processed(next_child)) { toProcess.emplace_back(next_child); }
                 continue;
             }
             // If we are here, we have already processed all children
@@ -49,14 +51,14 @@ public:
             bool needs_change = false;
             for (term_t child : children)
             {
-                auto it = substitutions.find(child);
+                auto it = substitutions.find(tm.positive_term(child));
                 bool child_changed = it != substitutions.end();
                 needs_change |= child_changed;
-                term_t newChild = child_changed ? it->second : child;
+                term_t newChild = child_changed ? with_polarity_of(child, it->second) : child;
                 assert(tm.get_type(child) == tm.get_type(newChild));
                 aux_args.push_back(newChild);
             }
-            term_t newTerm = needs_change ? tm.mk_term(tm.get_kind(current_term), aux_args) : current_term;
+            term_t newTerm = needs_change ? rebuild(current_term, aux_args) : current_term;
             aux_args.clear();
             term_t rewritten = cfg.rewrite(newTerm);
             if (rewritten != newTerm or needs_change) {
@@ -67,8 +69,27 @@ public:
             toProcess.pop_back();
         }
 
-        auto it = substitutions.find(root);
-        return it == substitutions.end() ? root : it->second;
+        auto it = substitutions.find(tm.positive_term(root));
+        return it == substitutions.end() ? root : with_polarity_of(root, it->second);
+    }
+
+private:
+    // `rewritten` is the result for positive `original`; return the result for `original`
+    term_t with_polarity_of(term_t original, term_t rewritten) const
+    {
+        return tm.is_negated(original) ? opposite_term(rewritten) : rewritten;
+    }
+
+    // make a term like (positive) `term` with arguments replaced by `args`
+    term_t rebuild(term_t term, std::span<term_t> args)
+    {
+        if (tm.is_app(term))
+        {
+            auto name = tm.get_term_name(tm.get_fnc_symbol(term));
+            assert(name.has_value());
+            return tm.mk_app(std::string{name.value()}, tm.get_type(term), args);
+        }
+        return tm.mk_term(tm.get_kind(term), args);
     }
 };
 
-- 
2.43.0


From c533653cc6fc11c7b05106557d7b8beb056bdbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 06/11] fix: do not build a product with coefficient one

2 * (1/2 * x) was a different term from x, and comparing the two for equality failed an assertion.
---
 src/terms/Term_manager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/terms/Term_manager.cpp b/src/terms/Term_manager.cpp
index 293e60a..4da7125 100644
--- a/src/terms/Term_manager.cpp
+++ b/src/terms/Term_manager.cpp
@@ -647,8 +647,12 @@ term_t Term_manager::mk_arithmetic_times(std::span<term_t> args)
         return term_table->arithmetic_product(val, *pit);
     case Kind::ARITH_PRODUCT: {
         term_t var = term_table->var_of_product(poly_term);
-        auto const& coeff = term_table->coeff_of_product(poly_term);
-        return term_table->arithmetic_product(coeff * val, var);
+        val *= term_table->coeff_of_product(poly_term);
+        if (val == 1) // 2 * (1/2 * x) -> x
+        {
+            return var;
+        }
+        return term_table->arithmetic_product(val, var);
     }
     case Kind::ARITH_POLY:
     {
-- 
2.43.0


From 2b2cbc5381e7860cdcb4a223ea4a6bd68898dbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 07/11] fix: answer repeated check-sat from all assertions

A second check started from the trail of the first one, and clauses which define internalized
terms were dropped although terms are internalized only once.
---
 src/Solver.cpp                | 7 +++++++
 src/parser/Solver_wrapper.cpp | 5 ++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 7af426b..8ae78fc 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -158,6 +158,13 @@ void Solver::decide(Variable var)
 
 void Solver::init()
 {
+    // drop assignments left over from a previous check
+    if (!trail().empty())
+    {
+        dispatcher.on_before_backtrack(db(), trail(), /*decision_level=*/0);
+        trail().clear();
+    }
+
     // allocate memory
     for (auto [type, model] : trail().models())
     {
diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 08a1f76..3e97fd3 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -27,9 +27,8 @@ Solver_answer Solver_wrapper::check(std::vector<term_t> const& assertions)
         return Solver_answer::UNSAT;
     }
 
-    // Cnfize and assert clauses to the solver
-    solver.init();
-
+    // Cnfize and assert clauses to the solver. Each term is internalized only once: clauses which
+    // define terms internalized by previous checks remain in the solver.
     internalizer.visit(assertions);
 
     // add top level assertions to the solver
-- 
2.43.0


From d030af92fbb9ab53617c143f9a1306277d27f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 08/11] fix: internalize a negated application as the positive
 term

The literal map holds positive terms only; (not (p x)) was inserted under its negation.
---
 src/parser/Solver_wrapper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 3e97fd3..89c1d5b 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -222,6 +222,7 @@ void Internalizer_config::visit(term_t t)
         return;
     }
     case terms::Kind::APP_TERM: {
+        t = term_manager.positive_term(t);
         terms::type_t term_type = term_manager.get_type(t);
         Variable::Type var_type;
         switch (term_type) {
-- 
2.43.0


From a638bedcbfd23a74580c77818813065b935bd72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 09/11] fix: propagate an equality of applications at the level
 of its own variables

Variables shared by both terms cancel out; the literal was put on the trail at a level above
the one at which its constraint is assigned.
---
 src/uf/Uninterpreted_functions.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index 83008c5..85b3880 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -305,7 +305,11 @@ void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u,
             Term_evaluation u_eval = evaluate(u, trail);
             assert(are_equal == (t_eval.value == u_eval.value));
 
-            int propagation_level = std::max<int>(t_eval.decision_level, u_eval.decision_level);
+            // variables shared by t and u cancel out, so the constraint may be assigned at a lower level than t and u
+            int propagation_level = 0;
+            for (int var_ord : p.vars) {
+                propagation_level = std::max<int>(propagation_level, trail.decision_level(Variable{var_ord, Variable::rational}).value());
+            }
             trail.propagate(lit.var(), nullptr, propagation_level);
             trail_model.set_value(lit.var().ord(), are_equal);
         }
-- 
2.43.0


From 00904a1bff562713399010c0f59ff7fda45b9ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 10/11] fix: handle bool arguments and values of uninterpreted
 functions

Conflict clauses left out bool applications, so congruence conflicts were reported with too
strong clauses; negated bool arguments and the constant false could not be evaluated.
---
 src/parser/Solver_wrapper.cpp      |  2 +-
 src/uf/Uninterpreted_functions.cpp | 37 +++++++++++++++++++++++++-----
 src/uf/Uninterpreted_functions.h   |  7 ++++++
 3 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/parser/Solver_wrapper.cpp b/src/parser/Solver_wrapper.cpp
index 89c1d5b..fe825b0 100644
--- a/src/parser/Solver_wrapper.cpp
+++ b/src/parser/Solver_wrapper.cpp
@@ -325,7 +325,7 @@ void Internalizer_config::visit(term_t t)
 
     case terms::Kind::CONSTANT_TERM:
     {
-        if (t != terms::true_term)
+        if (term_manager.positive_term(t) != terms::true_term)
         {
             throw std::logic_error("Unhandled internalize case!");
         }
diff --git a/src/uf/Uninterpreted_functions.cpp b/src/uf/Uninterpreted_functions.cpp
index 85b3880..3b0f9cd 100644
--- a/src/uf/Uninterpreted_functions.cpp
+++ b/src/uf/Uninterpreted_functions.cpp
@@ -74,11 +74,9 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
         break;
     }
     case terms::types::bool_type: {
-        auto key_equal = [=](std::pair<terms::term_t, Literal> p) { return p.first == t; };
-        auto found = std::ranges::find_if(bool_vars, key_equal);
-        if (found != bool_vars.end())
+        if (auto lit = term_to_literal(t))
         {
-            return found->second.var();
+            return lit->var();
         }
         break;
     }
@@ -87,6 +85,17 @@ std::optional<Variable> Uninterpreted_functions::term_to_var(terms::term_t t) {
     return std::nullopt;
 }
 
+std::optional<Literal> Uninterpreted_functions::term_to_literal(terms::term_t t) {
+    // only positive terms are mapped to literals
+    auto key_equal = [t = term_manager.positive_term(t)](std::pair<terms::term_t, Literal> p) { return p.first == t; };
+    auto found = std::ranges::find_if(bool_vars, key_equal);
+    if (found == bool_vars.end())
+    {
+        return std::nullopt;
+    }
+    return term_manager.is_negated(t) ? ~found->second : found->second;
+}
+
 std::vector<Variable> Uninterpreted_functions::vars_to_watch(terms::term_t t) {
     std::vector<Variable> result;
 
@@ -167,8 +176,7 @@ Uninterpreted_functions::Term_evaluation Uninterpreted_functions::evaluate(const
         }
         case terms::types::bool_type: {
             Model<bool> const& b_model = trail.model<bool>(Variable::boolean);
-            bool bool_model_value = b_model.value(maybe_var.value().ord());
-            result.value = bool_model_value;
+            result.value = eval(b_model, term_to_literal(t).value()).value();
             break;
         }
         }
@@ -269,7 +277,24 @@ utils::Linear_polynomial Uninterpreted_functions::term_to_poly(terms::term_t t)
 
 void Uninterpreted_functions::assert_equality(terms::term_t t, terms::term_t u, Trail& trail, Clause& result_clause, bool make_equal) {
     assert(term_manager.get_type(t) == term_manager.get_type(u));
+    if (t == u) {
+        return;
+    }
+
     switch(term_manager.get_type(t)) {
+    case terms::types::bool_type: {
+        // forbid the current values of both terms
+        auto const& model = trail.model<bool>(Variable::boolean);
+        for (terms::term_t term : {t, u}) {
+            if (auto lit = term_to_literal(term)) {
+                Literal falsified = eval(model, *lit).value() ? ~*lit : *lit;
+                if (std::ranges::find(result_clause, falsified) == result_clause.end()) {
+                    result_clause.push_back(falsified);
+                }
+            }
+        }
+        return;
+    }
     case terms::types::real_type:
         // polynomial p == (t - u)
         utils::Linear_polynomial p = term_to_poly(t);
diff --git a/src/uf/Uninterpreted_functions.h b/src/uf/Uninterpreted_functions.h
index 5b604f9..6f6c51c 100644
--- a/src/uf/Uninterpreted_functions.h
+++ b/src/uf/Uninterpreted_functions.h
@@ -152,6 +152,13 @@ private:
      */
     std::optional<Variable> term_to_var(terms::term_t t);
 
+    /** Check if there is a Literal mapped to bool @p t
+     *
+     * @param t bool term to check (possibly negated)
+     * @return Literal which represents @p t or std::nullopt if there is none
+     */
+    std::optional<Literal> term_to_literal(terms::term_t t);
+
     /** Store the value of the application term @p t and check for potential function application
      * conflicts
      *
-- 
2.43.0


From c9782c54b276241095e889fecd46a8cb63cffb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 11/11] fix: do not push a variable twice to the queue of
 effectively decided variables

A variable reported again while queued failed an assertion with --prop-rational.
---
 src/variable_order/Generalized_vsids.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/variable_order/Generalized_vsids.cpp b/src/variable_order/Generalized_vsids.cpp
index df10383..1485d1a 100644
--- a/src/variable_order/Generalized_vsids.cpp
+++ b/src/variable_order/Generalized_vsids.cpp
@@ -82,7 +82,10 @@ std::optional<Variable> Generalized_vsids::pick_effectively_decided(Trail& trail
     for (int var_ord : lra->effectively_decided())
     {
         Variable var{var_ord, Variable::rational};
-        effectively_decided.push(var, score(var));
+        if (!effectively_decided.contains(var))
+        {
+            effectively_decided.push(var, score(var));
+        }
     }
 
     // decide effectively decided variables first
-- 
2.43.0

