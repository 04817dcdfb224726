From a56f9aeb946b90b5fca0cdbf7bddb50f2b35c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 01/35] fix: use negated literal for complement of strict
 nonlinear constraints

A body atom &nsum{a*x*y} <= b was translated into a constraint and its
complement subject to the same literal, which made the literal unsatisfiable.
---
 libclingcon/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 06036f5..27c502e 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -84,7 +84,7 @@ class ConstraintBuilder final : public AbstractConstraintBuilder {
         propagator_.add_constraint(std::make_unique<NonlinearConstraint>(lit, co_ab, var_a, var_b, co_c, var_c, rhs));
         if (strict) {
             propagator_.add_constraint(std::make_unique<NonlinearConstraint>(
-                lit, safe_inv(co_ab), var_a, var_b, safe_inv(co_c), var_c, safe_inv(safe_add(rhs, 1))));
+                -lit, safe_inv(co_ab), var_a, var_b, safe_inv(co_c), var_c, safe_inv(safe_add(rhs, 1))));
         }
         return true;
     }
-- 
2.43.0


From c9a352e6cdb4be684d1b312a3b180b9b671815c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 02/35] fix: respect the literal of nonlinear constraints
 during propagation

Reasons of nonlinear constraints did not include the constraint's literal, and
bounds were propagated even if the literal was not true. As a result, answers
where a conditional nonlinear constraint does not apply were lost.
---
 libclingcon/src/constraints.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 7d41133..4b4d7dd 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1440,6 +1440,8 @@ class NonlinearConstraintState : public AbstractConstraintState {
             lower_u += co_b * lower_z;
             upper_u += co_b * upper_z;
         }
+        auto ass = cc.assignment();
+        auto clit = constraint_.literal();
         nsum_t rhs = constraint_.rhs();
         nsum_t lower_lhs = lower_t + lower_u;
         nsum_t upper_lhs = upper_t + upper_u;
@@ -1459,6 +1461,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
             // (or negative) the term a*b should behave monotonely.
             // std::cerr << "  the constraint is conflicting" << std::endl;
             auto &reason = solver.temp_reason();
+            reason.emplace_back(-clit);
             reason.emplace_back(-solver.get_literal(cc, vs_x, vs_x.upper_bound()));
             reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
             reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
@@ -1473,6 +1476,11 @@ class NonlinearConstraintState : public AbstractConstraintState {
             return cc.add_clause(reason);
         }
 
+        // the bounds can only be propagated if the constraint has to hold
+        if (!ass.is_true(clit)) {
+            return true;
+        }
+
         // TODO: the code has to be refined.
         // Some first throw to propagate the linear term. This should be quite
         // similar to the propagation of linear constraints.
@@ -1490,6 +1498,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
                 if (bound_z < upper_z) {
                     // std::cerr << "we got a new lower bound for y: " << bound_y << " < " << upper_y << std::endl;
                     auto &reason = solver.temp_reason();
+                    reason.emplace_back(-clit);
                     reason.emplace_back(-solver.get_literal(cc, vs_x, vs_x.upper_bound()));
                     reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
                     reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
@@ -1506,6 +1515,7 @@ class NonlinearConstraintState : public AbstractConstraintState {
                 if (bound_z > upper_z) {
                     // std::cerr << "we got a new lower bound for y: " << bound_z << " > " << upper_z << std::endl;
                     auto &reason = solver.temp_reason();
+                    reason.emplace_back(-clit);
                     reason.emplace_back(-solver.get_literal(cc, vs_x, vs_x.upper_bound()));
                     reason.emplace_back(solver.get_literal(cc, vs_x, vs_x.lower_bound() - 1));
                     reason.emplace_back(-solver.get_literal(cc, vs_y, vs_y.upper_bound()));
-- 
2.43.0


From 23bf509e1b430bf28d763bc93e4e2ce0fd5deb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 03/35] fix: detect multiple nonlinear terms in nonlinear sums

The check tested the coefficient of the linear term. Sums with two products
were accepted and all but the last product silently dropped; sums with the
linear term before the product were rejected.
---
 libclingcon/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 13b3c2a..4e60221 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -478,7 +478,7 @@ auto simplify(NonlinearTermVec &vec, bool drop_zero) -> val_t {
             var_c = vars.front();
         }
         if (vars.size() == 2) {
-            check_syntax(co_c == 0, "nonlinear sums can have at most one nonlinear term");
+            check_syntax(co_ab == 0, "nonlinear sums can have at most one nonlinear term");
             co_ab = co;
             var_a = vars.front();
             var_b = vars.back();
-- 
2.43.0


From 90f85564af8dc14a372bdbc25d1ab70dcf04645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 04/35] fix: keep the sign of constant terms of objectives in
 multi-shot solving

Re-adding the constant of the previous objective negated it, so the reported
cost was off by twice the constant in every second step.
---
 libclingcon/src/propagator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 27c502e..bee4ed8 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -252,7 +252,8 @@ class ConstraintBuilder final : public AbstractConstraintBuilder {
             for (auto elem : *minimize_) {
                 minimize_elems_.emplace_back(elem);
             }
-            minimize_elems_.emplace_back(minimize_->adjust(), INVALID_VAR);
+            // Note: simplify negates terms without variables
+            minimize_elems_.emplace_back(safe_inv(minimize_->adjust()), INVALID_VAR);
         }
         // simplify minimize
         if (!minimize_elems_.empty()) {
-- 
2.43.0


From 54dd9ebfadb076a1fc11f93f12d6122ffdb76b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 05/35] fix: skip auxiliary variables when iterating over
 assignments

Indices of auxiliary variables, which have no symbol, were returned if further
variables were introduced after them (for example, in multi-shot solving).
---
 libclingcon/src/clingcon.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index f7e15b3..bf267fb 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -610,7 +610,8 @@ extern "C" auto clingcon_assignment_next(clingcon_theory_t *theory, uint32_t thr
     auto const &map = theory->propagator.var_map();
     auto it = map.lower_bound(*index);
     if (it != map.end()) {
-        *index = *index + 1;
+        // Note: the map does not contain auxiliary variables
+        *index = it->first + 1;
         return true;
     }
     return false;
-- 
2.43.0


From 1bae1d6681029e47d4a5f55b8b49d7e5a57c192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 06/35] fix: enable the order heuristic for each theory
 independently

Whether the decide callback is registered was decided once per process based on
the options of the first registered theory.
---
 libclingcon/src/clingcon.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index bf267fb..f26d1cc 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -347,9 +347,11 @@ extern "C" auto clingcon_register(clingcon_theory_t *theory, clingo_control_t *c
         has_heuristic = sconfig.heuristic != Heuristic::None;
     }
 
-    static clingo_propagator_t propagator = {init, propagate, undo, check, has_heuristic ? decide : nullptr};
+    static clingo_propagator_t propagator = {init, propagate, undo, check, nullptr};
+    static clingo_propagator_t propagator_heuristic = {init, propagate, undo, check, decide};
     return clingo_control_add(control, "base", nullptr, 0, Clingcon::THEORY) &&
-           clingo_control_register_propagator(control, &propagator, &theory->propagator, false);
+           clingo_control_register_propagator(control, has_heuristic ? &propagator_heuristic : &propagator,
+                                              &theory->propagator, false);
 }
 
 extern "C" auto clingcon_rewrite_ast(clingcon_theory_t *theory, clingo_ast_t *ast, clingcon_ast_callback_t add,
-- 
2.43.0


From 51c71894f4d81775da30415b4a29c6218db7d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 07/35] fix: do not shift difference constraints whose
 complement is not expressible

---
 libclingcon/src/parsing.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 4e60221..7de8ef0 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -119,13 +119,18 @@ auto shift_rule(Clingo::AST::Node ast) -> Clingo::AST::Node {
         if (atom.type() != Type::TheoryAtom || !match(atom.get<Node>(Attribute::Term), "sum", "diff")) {
             continue;
         }
+        bool negated = static_cast<Sign>(lit.get<int>(Attribute::Sign)) == Sign::Negation;
+        // Note: difference constraints only support relation <=
+        if (!negated && match(atom.get<Node>(Attribute::Term), "diff")) {
+            continue;
+        }
         auto ret = ast.copy();
         auto ret_bd = ret.get<NodeVector>(Attribute::Body);
         auto jt = ret_bd.begin() + (it - body.begin());
         auto ret_hd = atom.copy();
         auto guard = ret_hd.get<Clingo::Optional<Node>>(Attribute::Guard);
         check_syntax(guard.get() != nullptr);
-        if (static_cast<Sign>(lit.get<int>(Attribute::Sign)) != Sign::Negation) {
+        if (!negated) {
             auto const *rel = guard->get<char const *>(Attribute::OperatorName);
             auto ret_guard = guard->copy();
             ret_guard.set(Attribute::OperatorName, negate_relation(rel));
-- 
2.43.0


From fcb9a0fb3ee1861f42bca897dc38289c17c71d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 08/35] fix: an empty domain is unsatisfiable

---
 libclingcon/src/solver.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index e55c7ba..1de04e1 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -1033,6 +1033,10 @@ auto Solver::add_dom(AbstractClauseCreator &cc, lit_t lit, var_t var, IntervalSe
     if (ass.is_true(lit)) {
         lit = TRUE_LIT;
     }
+    // an empty domain has no values
+    if (domain.empty()) {
+        return cc.add_clause({-lit});
+    }
     auto &vs = var_state(var);
 
     std::optional<val_t> py;
-- 
2.43.0


From 6be97dc3e5f9a029b56afb6a57c56d33887d1bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 09/35] fix: avoid overflows in disjoint constraints with large
 weights

---
 libclingcon/src/constraints.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 4b4d7dd..6283fb4 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1608,7 +1608,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
         val_t last_left;
         val_t last_right;
         val_t weight;
-        val_t u;
+        sum_t u;
     };
 
     enum class PropagateType { Lower, Upper };
@@ -1637,7 +1637,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
 
         [[nodiscard]] static auto weight(It i) -> val_t { return i->weight; }
 
-        [[nodiscard]] static auto u(It i) -> val_t & { return i->u; }
+        [[nodiscard]] static auto u(It i) -> sum_t & { return i->u; }
 
         [[nodiscard]] static auto changed(Interval const &x) -> bool {
             return x.left != x.last_left || x.right != x.last_right;
@@ -1725,7 +1725,7 @@ class DisjointConstraintState final : public AbstractConstraintState {
             i->last_left = i->left;
             i->last_right = i->right;
 
-            u(i) = lower(i) + weight(i) - 1;
+            u(i) = static_cast<sum_t>(lower(i)) + weight(i) - 1;
 
             for (auto j = begin; j != i; ++j) {
                 if (lower(j) < lower(i)) {
-- 
2.43.0


From 80be0dc19dbe588df93785fa91b8701750b6446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 10/35] fix: allow zero as base of powers with non-negative
 exponents

---
 libclingcon/src/parsing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 7de8ef0..5c785d4 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -258,7 +258,7 @@ template <class F>
 }
 
 auto safe_pow(val_t a, val_t b) -> val_t {
-    if (a == 0) {
+    if (a == 0 && b < 0) {
         throw std::overflow_error("integer overflow");
     }
     auto ret = std::pow(static_cast<double>(a), b);
-- 
2.43.0


From 70dfab7c16e1c74fd32cd78bbda7a3b5cc95f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 11/35] fix: match keywords in option values exactly

---
 libclingcon/src/clingcon.cc | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index f26d1cc..87a86e7 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -120,6 +120,11 @@ template <typename... Args> [[nodiscard]] auto format(Args &&...args) -> std::st
     return oss.str();
 }
 
+[[nodiscard]] auto match_str(char const *begin, char const *end, char const *str) -> bool {
+    size_t len = end != nullptr ? end - begin : std::strlen(begin);
+    return std::strlen(str) == len && std::strncmp(begin, str, len) == 0;
+}
+
 template <class T> [[nodiscard]] auto strtonum(char const *ib, char const *ie) -> T {
     if (!ie) {
         ie = ib + std::strlen(ib); // NOLINT
@@ -141,10 +146,10 @@ template <class T>
                                    T min = std::numeric_limits<T>::lowest(), T max = std::numeric_limits<T>::max())
     -> T {
     assert(min <= max);
-    if (strncmp(begin, "min", end - begin) == 0) {
+    if (match_str(begin, end, "min")) {
         return min;
     }
-    if (strncmp(begin, "max", end - begin) == 0) {
+    if (match_str(begin, end, "max")) {
         return max;
     }
     auto res = strtonum<T>(begin, end);
@@ -211,13 +216,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
 }
 
 [[nodiscard]] auto parse_bool(char const *begin, char const *end = nullptr) -> bool {
-    size_t len = end != nullptr ? end - begin : std::strlen(begin);
-    if (std::strncmp(begin, "true", len) == 0 || std::strncmp(begin, "yes", len) == 0 ||
-        std::strncmp(begin, "1", len) == 0) {
+    if (match_str(begin, end, "true") || match_str(begin, end, "yes") || match_str(begin, end, "1")) {
         return true;
     }
-    if (std::strncmp(begin, "false", len) == 0 || std::strncmp(begin, "no", len) == 0 ||
-        std::strncmp(begin, "0", len) == 0) {
+    if (match_str(begin, end, "false") || match_str(begin, end, "no") || match_str(begin, end, "0")) {
         return false;
     }
     throw std::invalid_argument("invalid argument");
@@ -247,10 +249,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
         thread = parse_num<uint32_t>(comma + 1, 0, MAX_THREADS - 1); // NOLINT
     }
 
-    if (std::strncmp(value, "+", comma - value) == 0) {
+    if (match_str(value, comma, "+")) {
         return {std::numeric_limits<val_t>::max(), thread};
     }
-    if (std::strncmp(value, "-", comma - value) == 0) {
+    if (match_str(value, comma, "-")) {
         return {std::numeric_limits<val_t>::min(), thread};
     }
     return {parse_range_num<val_t>(value, comma), thread};
@@ -272,10 +274,10 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
         thread = parse_num<uint32_t>(comma + 1, 0, MAX_THREADS - 1); // NOLINT
     }
 
-    if (std::strncmp(value, "none", comma - value) == 0) {
+    if (match_str(value, comma, "none")) {
         return {static_cast<val_t>(Heuristic::None), thread};
     }
-    if (std::strncmp(value, "max-chain", comma - value) == 0) {
+    if (match_str(value, comma, "max-chain")) {
         return {static_cast<val_t>(Heuristic::MaxChain), thread};
     }
     throw std::invalid_argument("invalid argument");
-- 
2.43.0


From 7152514967f72d096d8d1dcfbfb2f05631337d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 12/35] fix: reject negative values for unsigned options

---
 libclingcon/src/clingcon.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index 87a86e7..ad41891 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -129,6 +129,10 @@ template <class T> [[nodiscard]] auto strtonum(char const *ib, char const *ie) -
     if (!ie) {
         ie = ib + std::strlen(ib); // NOLINT
     }
+    // Note: streams would wrap negative numbers around
+    if (std::is_unsigned_v<T> && *ib == '-') {
+        throw std::runtime_error("non-negative number expected");
+    }
     std::istringstream iss{std::string{ib, ie}};
     iss.imbue(std::locale::classic());
     iss.exceptions(std::iostream::failbit);
@@ -262,7 +266,7 @@ void set_value(Target target, Config &config, std::pair<val_t, std::optional<uin
     std::optional<val_t> total = std::nullopt;
     char const *comma = find_str(value, ',');
     if (*comma != '\0') {
-        total = parse_num<val_t>(comma + 1); // NOLINT
+        total = parse_num<val_t>(comma + 1, 0); // NOLINT
     }
     return {parse_range_num<uint32_t>(value, comma), total};
 }
-- 
2.43.0


From 9262b6e4747f66e74db5ebbaa84d426a092b6d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:09 +0000
Subject: [PATCH 13/35] fix: reject empty integer ranges when registering the
 theory

---
 libclingcon/src/clingcon.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libclingcon/src/clingcon.cc b/libclingcon/src/clingcon.cc
index ad41891..5e05fd2 100644
--- a/libclingcon/src/clingcon.cc
+++ b/libclingcon/src/clingcon.cc
@@ -345,6 +345,11 @@ extern "C" void clingcon_version(int *major, int *minor, int *patch) {
 extern "C" auto clingcon_register(clingcon_theory_t *theory, clingo_control_t *control) -> bool {
     // Note: The decide function is passed here for performance reasons.
     auto &config = theory->propagator.config();
+    // Note: options set via clingcon_configure are not validated yet
+    if (config.min_int > config.max_int) {
+        clingo_set_error(clingo_error_runtime, "min-int must be smaller than or equal to max-int");
+        return false;
+    }
     bool has_heuristic = config.default_solver_config.heuristic != Heuristic::None;
     for (auto &sconfig : config.solver_configs) {
         if (has_heuristic) {
-- 
2.43.0


From 31ab0489939d1767a0d50ebdb7e70381e23577a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 14/35] hook: give access to solver states under CLINGCON_VERIF

---
 libclingcon/clingcon/propagator.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libclingcon/clingcon/propagator.hh b/libclingcon/clingcon/propagator.hh
index 6c719a9..13335dc 100644
--- a/libclingcon/clingcon/propagator.hh
+++ b/libclingcon/clingcon/propagator.hh
@@ -149,6 +149,13 @@ class Propagator final : public Clingo::Heuristic {
     //! Removes the minimize constraint from the lookup lists.
     auto remove_minimize() -> UniqueMinimizeConstraint;
 
+#ifdef CLINGCON_VERIF
+    //! Get the number of solver states (verification only).
+    [[nodiscard]] auto verif_solvers() const -> size_t { return solvers_.size(); }
+    //! Get the solver state of the given thread (verification only).
+    [[nodiscard]] auto verif_solver(uint32_t thread_id) const -> Solver const & { return solvers_[thread_id]; }
+#endif
+
   private:
     //! Get the solver associated with the given `thread_id`.
     [[nodiscard]] auto solver_(uint32_t thread_id) -> Solver & {
-- 
2.43.0


From 3e190d113f8af8c9999ff7b3718b8921beb1e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 15/35] fix: round up in ceildiv

---
 libclingcon/clingcon/util.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/util.hh b/libclingcon/clingcon/util.hh
index 74ab195..6413519 100644
--- a/libclingcon/clingcon/util.hh
+++ b/libclingcon/clingcon/util.hh
@@ -88,7 +88,7 @@ template <typename I> auto floordiv(I n, I m) -> I {
 template <typename I> auto ceildiv(I n, I m) -> I {
     using std::div;
     auto a = div(n, m);
-    if (((n < 0) ^ (m < 0)) && a.rem != 0) {
+    if (((n < 0) == (m < 0)) && a.rem != 0) {
         a.quot++;
     }
     return a.quot;
-- 
2.43.0


From a9c581f0e5b4a687860868eafb5dea11237cc3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 16/35] fix: only decide on free order literals

---
 libclingcon/src/solver.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index 1de04e1..51a4caa 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -901,7 +901,12 @@ void Solver::undo() {
 }
 
 auto Solver::decide(Clingo::Assignment const &assign, lit_t fallback) -> lit_t {
-    static_cast<void>(assign);
+    // Note: there is no guarantee that the literal next to a bound exists or is
+    // still free. For example, it might be a simplified fact or a literal
+    // shared among multiple variables.
+    auto is_free = [&assign](lit_t lit) {
+        return lit != 0 && assign.truth_value(lit) == Clingo::TruthValue::Free;
+    };
     switch (config_.heuristic) {
         case Heuristic::None: {
             break;
@@ -911,15 +916,13 @@ auto Solver::decide(Clingo::Assignment const &assign, lit_t fallback) -> lit_t {
                 auto &vs = var_state(olit.var());
                 // make the literal as small as possible
                 auto lit = vs.lit_ge(vs.lower_bound());
-                assert(assign.truth_value(lit) == Clingo::TruthValue::Free);
-                return lit;
+                return is_free(lit) ? lit : fallback;
             }
             if (auto const &olit = litmap_at_(-fallback); olit.valid(-fallback)) {
                 auto &vs = var_state(olit.var());
                 // make the literal as large as possible
                 auto lit = -vs.lit_lt(vs.upper_bound());
-                assert(assign.truth_value(lit) == Clingo::TruthValue::Free);
-                return lit;
+                return is_free(lit) ? lit : fallback;
             }
             break;
         }
-- 
2.43.0


From e31cbdf76a9d0ecb975009ba35763640beefeecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 17/35] fix: do not let clasp fix literals of trivial one-sided
 weight constraints

---
 libclingcon/clingcon/base.hh | 42 ++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/libclingcon/clingcon/base.hh b/libclingcon/clingcon/base.hh
index cc4fc8a..f047091 100644
--- a/libclingcon/clingcon/base.hh
+++ b/libclingcon/clingcon/base.hh
@@ -25,8 +25,11 @@
 #ifndef CLINGCON_BASE_H
 #define CLINGCON_BASE_H
 
+#include <algorithm>
 #include <clingo.hh>
+#include <cstdlib>
 #include <forward_list>
+#include <map>
 #include <math/wide_integer/uintwide_t.h>
 #include <optional>
 
@@ -373,6 +376,19 @@ class InitClauseCreator final : public AbstractClauseCreator {
         clauses_ = Clause();
 
         for (auto const &[lit, wlits, bound, type] : weight_constraints_) {
+            // Note: For implications, clasp also fixes the literal in the
+            // irrelevant direction if it can determine the truth value of the
+            // weight constraint right away.
+            if (type != Clingo::WeightConstraintType::Equivalence) {
+                auto [min, max] = range_(wlits);
+                if (max <= bound || min > bound) {
+                    bool holds = max <= bound;
+                    if (holds != (type > 0) && !init_.add_clause({holds ? lit : -lit})) {
+                        return false;
+                    }
+                    continue;
+                }
+            }
             auto inv = static_cast<Clingo::WeightConstraintType>(-type);
             if (!init_.add_weight_constraint(-lit, wlits, bound + 1, inv)) {
                 return false;
@@ -389,6 +405,32 @@ class InitClauseCreator final : public AbstractClauseCreator {
     }
 
   private:
+    //! Compute the minimum and maximum value of the given sum w.r.t. the
+    //! current assignment.
+    [[nodiscard]] auto range_(std::vector<Clingo::WeightedLiteral> const &wlits) -> std::pair<sum_t, sum_t> {
+        auto ass = assignment();
+        sum_t min{0};
+        sum_t max{0};
+        // weights if the variable is true or false, respectively
+        std::map<lit_t, std::pair<sum_t, sum_t>> weights;
+        for (auto const &wlit : wlits) {
+            auto lit = wlit.literal();
+            if (ass.is_true(lit)) {
+                min += wlit.weight();
+                max += wlit.weight();
+            } else if (!ass.is_false(lit)) {
+                auto &weight = weights[std::abs(lit)];
+                (lit > 0 ? weight.first : weight.second) += wlit.weight();
+            }
+        }
+        for (auto const &[var, weight] : weights) {
+            static_cast<void>(var);
+            min += std::min(weight.first, weight.second);
+            max += std::max(weight.first, weight.second);
+        }
+        return {min, max};
+    }
+
     InitState state_{InitState::Init};
     Clingo::PropagateInit &init_;
     Statistics &stats_;
-- 
2.43.0


From 2e73aeeff27ed4cb61fd8c4d275eb53e6cb0e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 18/35] fix: skip trivially satisfied one-sided weight
 constraints

---
 libclingcon/clingcon/base.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libclingcon/clingcon/base.hh b/libclingcon/clingcon/base.hh
index f047091..1ce478f 100644
--- a/libclingcon/clingcon/base.hh
+++ b/libclingcon/clingcon/base.hh
@@ -376,10 +376,13 @@ class InitClauseCreator final : public AbstractClauseCreator {
         clauses_ = Clause();
 
         for (auto const &[lit, wlits, bound, type] : weight_constraints_) {
-            // Note: For implications, clasp also fixes the literal in the
-            // irrelevant direction if it can determine the truth value of the
-            // weight constraint right away.
+            // Note: For implications, clasp also propagates in the irrelevant
+            // direction if the literal is assigned or if it can determine the
+            // truth value of the weight constraint right away.
             if (type != Clingo::WeightConstraintType::Equivalence) {
+                if (type > 0 ? assignment().is_false(lit) : assignment().is_true(lit)) {
+                    continue;
+                }
                 auto [min, max] = range_(wlits);
                 if (max <= bound || min > bound) {
                     bool holds = max <= bound;
-- 
2.43.0


From 88a50e5b1bc8b192172fdf3f55a00ca394100d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 19/35] fix: propagate initially assigned elements of distinct
 constraints

---
 libclingcon/src/constraints.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 6283fb4..450eddc 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -820,6 +820,10 @@ class DistinctConstraintState final : public AbstractConstraintState {
             auto [lower, upper] = init_(solver, idx);
             lower_.emplace(lower, idx);
             upper_.emplace(upper, idx);
+            // there will be no further updates for assigned elements
+            if (lower == upper) {
+                mark_todo_(idx + 1, idx);
+            }
             for (auto [co, var] : element) {
                 solver.add_var_watch(var, co > 0 ? idx + 1 : -idx - 1, *this);
             }
-- 
2.43.0


From 4534f44b9ff081fac85bca1137d25cd4d53976d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 20/35] fix: stop propagating distinct constraints whose
 literal became false

---
 libclingcon/src/constraints.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 450eddc..ce22cb5 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1158,7 +1158,11 @@ class DistinctConstraintState final : public AbstractConstraintState {
         auto const &elem_j = constraint_[j];
         bool is_fact = elem_j.size() == 1;
 
+        // Note: previously added clauses might have made the literal false
         auto lit = -constraint_.literal();
+        if (ass.is_true(lit)) {
+            return true;
+        }
         if (!ass.is_fixed(lit)) {
             reason.emplace_back(lit);
         }
-- 
2.43.0


From 3a1566f4d1cf1d8c92c99f32014fc8e699010321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 21/35] fix: do not check minimize constraints on level 0

---
 libclingcon/src/solver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index 51a4caa..a7ab514 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -977,7 +977,9 @@ void Solver::check_full(AbstractClauseCreator &cc, bool check_solution) {
     if (check_solution) {
         auto ass = cc.assignment();
         for (auto [lit, cs] : lit2cs_) {
-            if (ass.is_true(lit)) {
+            // Note: The clauses of minimize constraints depend on the step
+            // literal, which might become false on level 0.
+            if (ass.is_true(lit) && (cs->removable() || ass.decision_level() > 0)) {
                 cs->check_full(*this);
             }
         }
-- 
2.43.0


From 4785cc90cfea1550261b4ce5769a954ea580dc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 22/35] fix: watch order literals in threads added between
 solve calls

---
 libclingcon/clingcon/solver.hh |  3 +++
 libclingcon/src/propagator.cc  |  8 +++++++-
 libclingcon/src/solver.cc      | 11 +++++++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/solver.hh b/libclingcon/clingcon/solver.hh
index 1696306..651f987 100644
--- a/libclingcon/clingcon/solver.hh
+++ b/libclingcon/clingcon/solver.hh
@@ -739,6 +739,9 @@ class Solver {
     //! This function must be called on the top level.
     void copy_state(Solver const &master);
 
+    //! Watch the order literals of the solver in the given thread.
+    void add_watches(Clingo::PropagateInit &init, uint32_t thread_id) const;
+
     //! Mark the number of static variables.
     //!
     //! This function has to be called at the end of propagator initialization
diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index bee4ed8..752f19a 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -439,7 +439,8 @@ void Propagator::init(Clingo::PropagateInit &init) {
 
     // copy order literals from master to other states
     auto n = static_cast<size_t>(init.number_of_threads());
-    for (size_t i = solvers_.size(); i < n; ++i) {
+    auto m = solvers_.size();
+    for (size_t i = m; i < n; ++i) {
         solvers_.emplace_back(config_.solver_config(i), stats_step_.solver_stats(i));
     }
     while (solvers_.size() > n) {
@@ -450,6 +451,11 @@ void Propagator::init(Clingo::PropagateInit &init) {
         it->copy_state(master);
     }
 
+    // threads added in later steps do not watch literals from previous steps
+    for (size_t i = m; i < n; ++i) {
+        solvers_[i].add_watches(init, i);
+    }
+
     // If there is a minimize constraint we have to enable total checks subject
     // to the model lock too.
     if (has_minimize()) {
diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index a7ab514..d5ff5ab 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -404,6 +404,17 @@ void Solver::copy_state(Solver const &master) {
     Level::copy_state(*this, master);
 }
 
+void Solver::add_watches(Clingo::PropagateInit &init, uint32_t thread_id) const {
+    size_t offset = 0;
+    for (auto const &olit : litmap_) {
+        if (auto lit = olit.map_lit(offset); lit != 0) {
+            init.add_watch(lit, thread_id);
+            init.add_watch(-lit, thread_id);
+        }
+        ++offset;
+    }
+}
+
 auto Solver::add_variable(val_t min_int, val_t max_int) -> var_t {
     var_t idx = var2vs_.size();
     var2vs_.emplace_back(idx, min_int, max_int);
-- 
2.43.0


From b6b34bc923d78e24ea2230198dfe9d2ca4d0d6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 23/35] fix: update bounds of distinct constraints before
 translating them

---
 libclingcon/src/constraints.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index ce22cb5..aec1a22 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -844,6 +844,9 @@ class DistinctConstraintState final : public AbstractConstraintState {
     //! Translate small enough distinct constraints to weight constraints.
     [[nodiscard]] auto translate(Config const &config, Solver &solver, InitClauseCreator &cc, ConstraintVec &added)
         -> std::pair<bool, bool> override {
+        // Note: bounds of terms are only updated lazily
+        update_(solver);
+
         if (!estimate_(config.distinct_limit)) {
             return {true, false};
         }
-- 
2.43.0


From 1fde80471d732247db7254e1b4e91c94cd94c4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:39 +0000
Subject: [PATCH 24/35] fix: stop propagating disjoint constraints whose
 literal became false

---
 libclingcon/src/constraints.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index aec1a22..8d86743 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -1764,6 +1764,10 @@ class DisjointConstraintState final : public AbstractConstraintState {
 
         [[nodiscard]] auto propagate() -> bool {
             for (auto i = begin; i != end; ++i) {
+                // Note: previously added clauses might have made the literal false
+                if (cc.assignment().is_false(clit)) {
+                    return true;
+                }
                 if (!insert(i)) {
                     return false;
                 }
-- 
2.43.0


From beb77e22d2561604336becdf91bd4b14607c6539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:59 +0000
Subject: [PATCH 25/35] fix: do not continue initialization after a top-level
 conflict

---
 libclingcon/clingcon/propagator.hh |  2 ++
 libclingcon/src/propagator.cc      | 21 ++++++++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/libclingcon/clingcon/propagator.hh b/libclingcon/clingcon/propagator.hh
index 13335dc..e405bc0 100644
--- a/libclingcon/clingcon/propagator.hh
+++ b/libclingcon/clingcon/propagator.hh
@@ -185,6 +185,7 @@ class Propagator final : public Clingo::Heuristic {
     void add_constraint_(UniqueConstraint constraint);
 
     //! Propagate constraints refining bounds.
+    [[nodiscard]] auto init_(Clingo::PropagateInit &init) -> bool;
     auto simplify_(AbstractClauseCreator &cc) -> bool;
 
     //! Translates constraints and take care of handling the minimize
@@ -215,6 +216,7 @@ class Propagator final : public Clingo::Heuristic {
     MinimizeConstraint *minimize_{nullptr};       //!< minimize constraint
     std::atomic<sum_t> minimize_bound_{no_bound}; //!< bound of the minimize constraint
     bool show_{false};                            //!< whether there is a show statement
+    bool conflict_{false};                        //!< whether there was a conflict during initialization
 };
 
 } // namespace Clingcon
diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 752f19a..259bf33 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -389,6 +389,15 @@ void Propagator::add_constraint(UniqueConstraint constraint) {
 }
 
 void Propagator::init(Clingo::PropagateInit &init) {
+    // Note: Conflicts during initialization persist. Furthermore, the states of
+    // the solvers are only synchronized if there was no conflict.
+    if (conflict_ || !init_(init)) {
+        conflict_ = true;
+        static_cast<void>(init.add_clause({}));
+    }
+}
+
+auto Propagator::init_(Clingo::PropagateInit &init) -> bool {
     init.set_check_mode(Clingo::PropagatorCheckMode::Partial);
 
     Timer timer{stats_step_.time_init};
@@ -405,7 +414,7 @@ void Propagator::init(Clingo::PropagateInit &init) {
     // add constraints
     ConstraintBuilder builder{*this, cc, std::move(minimize)};
     if (!parse(builder, init.theory_atoms())) {
-        return;
+        return false;
     }
 
     // get the master solver and make sure it stays valid
@@ -415,18 +424,18 @@ void Propagator::init(Clingo::PropagateInit &init) {
     // gather bounds of states in master
     for (auto it = solvers_.begin() + 1, ie = solvers_.end(); it != ie; ++it) {
         if (!master.update_bounds(cc, *it, config_.check_state)) {
-            return;
+            return false;
         }
     }
 
     // propagate the newly added constraints
     if (!simplify_(cc)) {
-        return;
+        return false;
     }
 
     // translate (simple enough) constraints
     if (!translate_(cc, builder.prepare_minimize())) {
-        return;
+        return false;
     }
 
     // watch all the remaining constraints
@@ -434,7 +443,7 @@ void Propagator::init(Clingo::PropagateInit &init) {
         cc.add_watch(constraint->literal());
     }
     if (!cc.commit()) {
-        return;
+        return false;
     }
 
     // copy order literals from master to other states
@@ -467,6 +476,8 @@ void Propagator::init(Clingo::PropagateInit &init) {
     for (auto &solver : solvers_) {
         solver.mark_variables(max_var);
     }
+
+    return true;
 }
 
 auto Propagator::simplify_(AbstractClauseCreator &cc) -> bool {
-- 
2.43.0


From 93ff80141921560b68b690cad7d49c18e1856226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:45 +0000
Subject: [PATCH 26/35] fix: keep marks of remaining constraints when removing
 translated ones

---
 libclingcon/src/solver.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index d5ff5ab..deaebea 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -206,15 +206,21 @@ class Solver::Level {
 
         solver.inactive_.erase(std::remove_if(solver.inactive_.begin(), solver.inactive_.end(),
                                               [in_removed](auto *cs) {
-                                                  cs->mark_active();
-                                                  return in_removed(*cs);
+                                                  bool removed = in_removed(*cs);
+                                                  if (removed) {
+                                                      cs->mark_active();
+                                                  }
+                                                  return removed;
                                               }),
                                solver.inactive_.end());
 
         solver.todo_.erase(std::remove_if(solver.todo_.begin(), solver.todo_.end(),
                                           [in_removed](auto *cs) {
-                                              cs->mark_todo(false);
-                                              return in_removed(*cs);
+                                              bool removed = in_removed(*cs);
+                                              if (removed) {
+                                                  cs->mark_todo(false);
+                                              }
+                                              return removed;
                                           }),
                            solver.todo_.end());
     }
-- 
2.43.0


From fc9eb5ba7652e0b94c83eb9b0ca630cf748d6687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:14 +0000
Subject: [PATCH 27/35] fix: integrate new facts before translating in later
 solve steps

---
 libclingcon/src/solver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index deaebea..45c0a40 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -669,7 +669,7 @@ auto Solver::simplify(AbstractClauseCreator &cc, bool check_state) -> bool {
         }
 
         auto trail_offset = trail.size();
-        if (trail_offset_ == trail_offset && todo_.empty()) {
+        if (trail_offset_ == trail_offset && todo_.empty() && factmap_.empty()) {
             return true;
         }
 
-- 
2.43.0


From 9814de5249a02b5678b2ca2c75285e06c0f5861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 28/35] hook: give access to sizes and bounds under
 CLINGCON_VERIF

---
 libclingcon/clingcon/propagator.hh |  7 +++++++
 libclingcon/clingcon/solver.hh     | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/libclingcon/clingcon/propagator.hh b/libclingcon/clingcon/propagator.hh
index e405bc0..78a3ba7 100644
--- a/libclingcon/clingcon/propagator.hh
+++ b/libclingcon/clingcon/propagator.hh
@@ -154,6 +154,13 @@ class Propagator final : public Clingo::Heuristic {
     [[nodiscard]] auto verif_solvers() const -> size_t { return solvers_.size(); }
     //! Get the solver state of the given thread (verification only).
     [[nodiscard]] auto verif_solver(uint32_t thread_id) const -> Solver const & { return solvers_[thread_id]; }
+    //! Get the number of constraints (verification only).
+    [[nodiscard]] auto verif_num_constraints() const -> size_t { return constraints_.size(); }
+    //! Get the current bound of the objective (verification only).
+    [[nodiscard]] auto verif_minimize_bound() const -> std::optional<sum_t> {
+        auto bound = minimize_bound_.load();
+        return bound != no_bound ? std::optional<sum_t>{bound} : std::nullopt;
+    }
 #endif
 
   private:
diff --git a/libclingcon/clingcon/solver.hh b/libclingcon/clingcon/solver.hh
index 651f987..2f2b501 100644
--- a/libclingcon/clingcon/solver.hh
+++ b/libclingcon/clingcon/solver.hh
@@ -608,6 +608,17 @@ class Solver {
         return var2vs_[var];
     }
 
+#ifdef CLINGCON_VERIF
+    //! Get the number of variables (verification only).
+    [[nodiscard]] auto verif_num_variables() const -> size_t { return var2vs_.size(); }
+    //! Get the number of constraint states (verification only).
+    [[nodiscard]] auto verif_num_constraints() const -> size_t { return c2cs_.size(); }
+    //! Check if there are changes that have not been propagated yet (verification only).
+    [[nodiscard]] auto verif_pending() const -> bool {
+        return !todo_.empty() || !in_udiff_.empty() || !in_ldiff_.empty() || !factmap_.empty();
+    }
+#endif
+
     //! Get the Clingcon::ConstraintState object associated with the given constraint.
     [[nodiscard]] auto constraint_state(AbstractConstraint &constraint) -> AbstractConstraintState & {
         return *c2cs_.find(&constraint)->second;
-- 
2.43.0


From bad65f1744a36d35fda50e3d503d3a4da83a88f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 29/35] fix: report negative changes of the number of
 constraints

---
 libclingcon/clingcon/base.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingcon/clingcon/base.hh b/libclingcon/clingcon/base.hh
index 1ce478f..0ba3a93 100644
--- a/libclingcon/clingcon/base.hh
+++ b/libclingcon/clingcon/base.hh
@@ -190,7 +190,7 @@ struct Statistics {
     double time_translate = 0;
     double time_simplify = 0;
     uint64_t num_variables = 0;
-    uint64_t num_constraints = 0;
+    int64_t num_constraints = 0; // Note: negative if more constraints are removed than added in a step.
     uint64_t num_clauses = 0;
     uint64_t num_literals = 0;
     uint64_t translate_removed = 0;
-- 
2.43.0


From 02339431e772db11949e2dc235433e91f42693d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 30/35] fix: do not add clauses of minimize constraints before
 assuming the step literal

With multiple threads, a clause added on level 0 fixes the step literal on the
top level, after which clasp reports later solve calls as unsatisfiable.
---
 libclingcon/clingcon/solver.hh | 3 +++
 libclingcon/src/propagator.cc  | 8 +++++++-
 libclingcon/src/solver.cc      | 8 ++++++--
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/libclingcon/clingcon/solver.hh b/libclingcon/clingcon/solver.hh
index 2f2b501..a902cd3 100644
--- a/libclingcon/clingcon/solver.hh
+++ b/libclingcon/clingcon/solver.hh
@@ -651,6 +651,9 @@ class Solver {
     //! Updates the bound of the minimize constraint in this state.
     void update_minimize(AbstractConstraint &constraint, level_t level, sum_t bound);
 
+    //! Removes the bound of the minimize constraint from this state.
+    void reset_minimize();
+
     //! Watch the given variable notifying given constraint state on changes.
     //!
     //! The integer `i` is additional information passed to the constraint
diff --git a/libclingcon/src/propagator.cc b/libclingcon/src/propagator.cc
index 259bf33..e35d038 100644
--- a/libclingcon/src/propagator.cc
+++ b/libclingcon/src/propagator.cc
@@ -532,7 +532,13 @@ void Propagator::check(Clingo::PropagateControl &control) {
 
     if (minimize_ != nullptr) {
         auto minimize_bound = minimize_bound_.load(std::memory_order_relaxed);
-        if (minimize_bound != no_bound) {
+        // Note: Clauses of minimize constraints added on level 0 can fix the
+        // step literal there. With multiple threads, clasp then mistakes the
+        // next solve step for unsatisfiable. Hence, the bound is only
+        // integrated after the step literal has been assumed.
+        if (dl == 0 && !ass.is_total()) {
+            solver.reset_minimize();
+        } else if (minimize_bound != no_bound) {
             auto bound = minimize_bound + minimize_->adjust();
             solver.update_minimize(*minimize_, dl, bound);
         }
diff --git a/libclingcon/src/solver.cc b/libclingcon/src/solver.cc
index 45c0a40..3e9bb97 100644
--- a/libclingcon/src/solver.cc
+++ b/libclingcon/src/solver.cc
@@ -443,6 +443,11 @@ void Solver::update_minimize(AbstractConstraint &constraint, level_t level, sum_
     }
 }
 
+void Solver::reset_minimize() {
+    minimize_bound_.reset();
+    minimize_level_ = 0;
+}
+
 auto Solver::get_value(var_t var) const -> val_t { return var2vs_[var].lower_bound(); }
 
 auto Solver::level_() -> Solver::Level & {
@@ -1005,8 +1010,7 @@ void Solver::check_full(AbstractClauseCreator &cc, bool check_solution) {
 
 void Solver::update() {
     // reset minimize state
-    minimize_bound_.reset();
-    minimize_level_ = 0;
+    reset_minimize();
 
     // remove solve step local variables from litmap_
     size_t offset = 0;
-- 
2.43.0


From f3c813abc9a8cd39166c7e7376b50f34d4e7f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 31/35] fix: make VarState::reset safe for both representations

Both members of the union were cleared regardless of which one is active,
which corrupts the inactive one's memory.
---
 libclingcon/clingcon/solver.hh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libclingcon/clingcon/solver.hh b/libclingcon/clingcon/solver.hh
index a902cd3..a44cbd7 100644
--- a/libclingcon/clingcon/solver.hh
+++ b/libclingcon/clingcon/solver.hh
@@ -266,9 +266,13 @@ class VarState {
         upper_bound_ = max_int;
         lower_bound_stack_.clear();
         upper_bound_stack_.clear();
-        litmap_.clear();
-        litvec_.clear();
-        offset_ = unused;
+        if (offset_ == unused) {
+            litmap_.clear();
+        } else {
+            litvec_.~OrderVec();
+            new (&litmap_) OrderMap();
+            offset_ = unused;
+        }
     }
 
     //! @name Functions for Lower Bounds
-- 
2.43.0


From aa03ccab004d12c5df07a02d49c57474bef26f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 32/35] fix: reject numbers in place of variables in dom
 statements

A statement like `&dom { 1..2 } = 3.` introduced a variable named 3 although
numbers are constants everywhere else (and rejected by disjoint and show).
---
 libclingcon/src/parsing.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 5c785d4..f945242 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -802,6 +802,7 @@ void parse_show(AbstractConstraintBuilder &builder, Clingo::TheoryAtom const &at
 
     check_syntax(atom.has_guard(), "Invalid Syntax: invalid dom statement");
     auto var = evaluate(atom.guard().second);
+    check_syntax(var.type() != Clingo::SymbolType::Number, "Invalid Syntax: invalid dom statement");
 
     return builder.add_dom(builder.solver_literal(atom.literal()), builder.add_variable(var), elements);
 }
-- 
2.43.0


From a6b3c7e3e1257d23f2a188ff1d358d506e43b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 33/35] fix: reject nested @ operators in disjoint statements

The element `x@2@3` was accepted as task of length 3 starting at a variable
named `@(x,2)`.
---
 libclingcon/src/parsing.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index f945242..5f27f47 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -349,6 +349,7 @@ auto evaluate(Clingo::TheoryTerm const &term) -> Clingo::Symbol {
     }
 
     check_syntax(!match(term, "..", 2));
+    check_syntax(!match(term, "@", 2));
 
     if (term.type() == Clingo::TheoryTermType::Tuple || term.type() == Clingo::TheoryTermType::Function) {
         std::vector<Clingo::Symbol> args;
-- 
2.43.0


From 25e9c1292eba7a36159e2e2965e48cfb363f85e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 34/35] fix: reject negative arities in show statements

The negative number was silently converted to a huge unsigned one.
---
 libclingcon/src/parsing.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libclingcon/src/parsing.cc b/libclingcon/src/parsing.cc
index 5f27f47..e246dee 100644
--- a/libclingcon/src/parsing.cc
+++ b/libclingcon/src/parsing.cc
@@ -750,7 +750,8 @@ void parse_show_elem(AbstractConstraintBuilder &builder, Clingo::TheoryTerm cons
                      "Invalid Syntax: invalid show statement");
 
         auto b = evaluate(args.back());
-        check_syntax(b.type() == Clingo::SymbolType::Number, "Invalid Syntax: invalid show statement");
+        check_syntax(b.type() == Clingo::SymbolType::Number && b.number() >= 0,
+                     "Invalid Syntax: invalid show statement");
 
         builder.show_signature(a.name(), b.number());
     } else {
-- 
2.43.0


From 4e1953b1e0bfb6fd002d0f151dcdcbb55bf9a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:23 +0000
Subject: [PATCH 35/35] fix: do not translate to weight constraints whose
 weights exceed clasp's range

---
 libclingcon/src/constraints.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libclingcon/src/constraints.cc b/libclingcon/src/constraints.cc
index 8d86743..cc939ef 100644
--- a/libclingcon/src/constraints.cc
+++ b/libclingcon/src/constraints.cc
@@ -517,6 +517,16 @@ class SumConstraintState : public AbstractConstraintState {
                 }
             }
         }
+        // Note: The sum of the weights has to be representable in clasp.
+        // Furthermore, clasp subtracts weights from intermediate sums that can
+        // already be negative without checking for overflows.
+        sum_t total = 0;
+        for (auto const &wlit : wlits) {
+            total += wlit.weight();
+        }
+        if (total > std::numeric_limits<val_t>::max() / 2) {
+            return {true, false};
+        }
         if (std::numeric_limits<val_t>::min() < slack && slack < std::numeric_limits<val_t>::max()) {
             // Note: For strict constraints, we can actually use the
             // equivalence here and only add one weight constraint instead of
-- 
2.43.0

