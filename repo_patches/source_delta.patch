From 44a29dd6c298737833500064a79444152042f908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 01/10] fix: integer square root of the greatest representable
 value

The initial Newton guess computed (n + 1) / 2, which overflows for the
greatest representable Integer, so isqrt, ceil_isqrt and square_filter threw
IntegerOverflow on a value whose root is representable.
---
 gcs/constraints/innards/product_bounds.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/constraints/innards/product_bounds.hh b/gcs/constraints/innards/product_bounds.hh
index 04108bd..88c13b3 100644
--- a/gcs/constraints/innards/product_bounds.hh
+++ b/gcs/constraints/innards/product_bounds.hh
@@ -42,7 +42,7 @@ namespace gcs::innards
         if (n < 2_i)
             return n;
         // Newton's method on integers: converges for any positive start >= isqrt(n).
-        auto x = n, y = (x + 1_i) / 2_i;
+        auto x = n, y = x / 2_i + x % 2_i;
         while (y < x) {
             x = y;
             y = (x + n / x) / 2_i;
-- 
2.43.0


From 89f0f6115da1778f665175dcdb3e80c967fd16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 02/10] fix: compound assignment on overflow left the wrapped
 value behind

operator+= and operator-= on Integer wrote the wrapped result into the left
operand before throwing, so the operand was corrupted and the exception
message reported the wrapped value instead of the operand.
---
 gcs/integer.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gcs/integer.hh b/gcs/integer.hh
index bd9d5a3..760fff6 100644
--- a/gcs/integer.hh
+++ b/gcs/integer.hh
@@ -128,8 +128,10 @@ namespace gcs
 
     constexpr inline auto operator+=(Integer & a, Integer b) -> Integer &
     {
-        if (innards::add_overflows(a.raw_value, b.raw_value, &a.raw_value))
+        long long r;
+        if (innards::add_overflows(a.raw_value, b.raw_value, &r))
             innards::throw_integer_overflow("+=", a.raw_value, b.raw_value);
+        a.raw_value = r;
         return a;
     }
 
@@ -143,8 +145,10 @@ namespace gcs
 
     constexpr inline auto operator-=(Integer & a, Integer b) -> Integer &
     {
-        if (innards::sub_overflows(a.raw_value, b.raw_value, &a.raw_value))
+        long long r;
+        if (innards::sub_overflows(a.raw_value, b.raw_value, &r))
             innards::throw_integer_overflow("-=", a.raw_value, b.raw_value);
+        a.raw_value = r;
         return a;
     }
 
-- 
2.43.0


From aae8efe35eca57f42f3019c2c0b90a628169c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 03/10] fix: rounding division threw where an operand is the
 least representable value although the quotient is representable

---
 gcs/constraints/innards/product_bounds.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/innards/product_bounds.hh b/gcs/constraints/innards/product_bounds.hh
index 88c13b3..7d21a5a 100644
--- a/gcs/constraints/innards/product_bounds.hh
+++ b/gcs/constraints/innards/product_bounds.hh
@@ -17,7 +17,8 @@ namespace gcs::innards
      */
     [[nodiscard]] constexpr auto div_floor(Integer a, Integer b) -> Integer
     {
-        return ((a >= 0_i) != (b >= 0_i)) && (a != 0_i) ? (1_i - abs(a)) / abs(b) - 1_i : a / b;
+        auto q = a / b;
+        return a % b != 0_i && (a < 0_i) != (b < 0_i) ? q - 1_i : q;
     }
 
     /**
@@ -27,7 +28,8 @@ namespace gcs::innards
      */
     [[nodiscard]] constexpr auto div_ceil(Integer a, Integer b) -> Integer
     {
-        return ((a >= 0_i) == (b >= 0_i)) && (a != 0_i) ? (abs(a) - 1_i) / abs(b) + 1_i : a / b;
+        auto q = a / b;
+        return a % b != 0_i && (a < 0_i) == (b < 0_i) ? q + 1_i : q;
     }
 
     /**
-- 
2.43.0


From 91daa25f8c55f5e1e6b14fb44025d0da3ebf6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 04/10] fix: an integer too large for 64 bits in a regular
 expression was undefined behaviour

---
 gcs/constraints/regular/regex.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/regular/regex.cc b/gcs/constraints/regular/regex.cc
index 75d057f..ec65419 100644
--- a/gcs/constraints/regular/regex.cc
+++ b/gcs/constraints/regular/regex.cc
@@ -1,5 +1,6 @@
 #include <gcs/constraints/regular/regex.hh>
 #include <gcs/exception.hh>
+#include <gcs/innards/integer_overflow.hh>
 
 #include <cstddef>
 #include <map>
@@ -13,6 +14,8 @@
 
 using gcs::Integer;
 using gcs::InvalidProblemDefinitionException;
+using gcs::innards::add_overflows;
+using gcs::innards::mul_overflows;
 
 using std::make_unique;
 using std::map;
@@ -72,7 +75,8 @@ namespace
             if (c >= '0' && c <= '9') {
                 long long value = 0;
                 while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
-                    value = value * 10 + (s[i] - '0');
+                    if (mul_overflows(value, 10ll, &value) || add_overflows(value, static_cast<long long>(s[i] - '0'), &value))
+                        throw InvalidProblemDefinitionException("Integer out of range in regular expression");
                     ++i;
                 }
                 tokens.push_back({Tok::Integer, Integer{value}});
-- 
2.43.0


From 6805c1b218befb7f98ac29bfa99f3e49371950fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:12 +0000
Subject: [PATCH 05/10] fix: a class range ending at the greatest value in a
 regular expression threw an overflow exception

---
 gcs/constraints/regular/regex.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/regular/regex.cc b/gcs/constraints/regular/regex.cc
index ec65419..81fc7bb 100644
--- a/gcs/constraints/regular/regex.cc
+++ b/gcs/constraints/regular/regex.cc
@@ -348,8 +348,12 @@ namespace
                     auto to = expect(Tok::Integer, "an integer after '-' in a class").value;
                     if (to < from)
                         std::swap(from, to);
-                    for (auto val = from; val <= to; ++val)
+                    // not a comparison with to: stepping past the greatest value overflows
+                    for (auto val = from;; ++val) {
                         items.insert(val);
+                        if (val == to)
+                            break;
+                    }
                 }
                 else
                     items.insert(from);
-- 
2.43.0


From b712b12a06c6c0c8bca2e98d2071691300513a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 06/10] fix: IntervalSet::insert_at_end made overlapping
 intervals for a repeated upper()

---
 gcs/interval_set.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gcs/interval_set.hh b/gcs/interval_set.hh
index 42e32df..ea99c7c 100644
--- a/gcs/interval_set.hh
+++ b/gcs/interval_set.hh
@@ -344,7 +344,7 @@ namespace gcs
          * \p value must be greater than or equal to upper() if the set is non-empty,
          * i.e. values must be inserted in non-decreasing order. If \p value is
          * exactly upper() + 1, it is merged into the last interval rather than
-         * starting a new one.
+         * starting a new one. Inserting upper() again does nothing.
          *
          * \sa insert_at_end(Int_, Int_)
          */
@@ -352,6 +352,8 @@ namespace gcs
         {
             if (intervals.empty())
                 intervals.emplace_back(value, value);
+            else if (intervals.back().second == value)
+                return;
             else if (intervals.back().second == value - Int_(1))
                 intervals.back().second++;
             else
@@ -363,8 +365,8 @@ namespace gcs
          *
          * \p lower must be greater than or equal to upper() if the set is non-empty,
          * i.e. intervals must be inserted in non-decreasing order. If \p lower is
-         * exactly upper() + 1, the new interval is merged into the last interval
-         * rather than starting a new one.
+         * exactly upper() or upper() + 1, the new interval is merged into the last
+         * interval rather than starting a new one.
          *
          * \sa insert_at_end(Int_)
          */
@@ -372,7 +374,7 @@ namespace gcs
         {
             if (intervals.empty())
                 intervals.emplace_back(lower, upper);
-            else if (intervals.back().second == lower - Int_(1))
+            else if (intervals.back().second == lower || intervals.back().second == lower - Int_(1))
                 intervals.back().second = upper;
             else
                 intervals.emplace_back(lower, upper);
-- 
2.43.0


From f4f37afa242c87d052d5ac89a320496b8f1d0412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 07/10] fix: iterating an IntervalSet that holds the greatest
 or least representable value overflowed

---
 gcs/interval_set.hh | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/gcs/interval_set.hh b/gcs/interval_set.hh
index ea99c7c..a2b7acf 100644
--- a/gcs/interval_set.hh
+++ b/gcs/interval_set.hh
@@ -432,8 +432,11 @@ namespace gcs
         {
             return [](const Intervals & intervals) -> std::generator<Int_> {
                 for (const auto & [l, u] : intervals)
-                    for (Int_ i = l; i <= u; ++i)
+                    for (Int_ i = l;; ++i) {
                         co_yield i;
+                        if (i == u) // u may be the greatest value there is
+                            break;
+                    }
             }(intervals);
         }
 
@@ -455,14 +458,20 @@ namespace gcs
         {
             if constexpr (std::is_void_v<std::invoke_result_t<F_ &, Int_>>) {
                 for (const auto & [l, u] : intervals)
-                    for (Int_ i = l; i <= u; ++i)
+                    for (Int_ i = l;; ++i) {
                         f(i);
+                        if (i == u)
+                            break;
+                    }
             }
             else {
                 for (const auto & [l, u] : intervals)
-                    for (Int_ i = l; i <= u; ++i)
+                    for (Int_ i = l;; ++i) {
                         if (! f(i))
                             return;
+                        if (i == u)
+                            break;
+                    }
             }
         }
 
@@ -565,17 +574,20 @@ namespace gcs
                 auto j = other_intervals.begin();
                 for (auto i = self_intervals.begin(); i != self_intervals.end(); ++i) {
                     Int_ cur = i->first;
+                    bool all_covered = false;
                     while (j != other_intervals.end() && j->second < cur)
                         ++j;
                     while (j != other_intervals.end() && j->first <= i->second) {
                         if (j->first > cur)
                             co_yield std::pair{cur, j->first - Int_{1}};
-                        cur = j->second + Int_{1};
-                        if (cur > i->second)
+                        if (j->second >= i->second) { // which may be the greatest value there is
+                            all_covered = true;
                             break;
+                        }
+                        cur = j->second + Int_{1};
                         ++j;
                     }
-                    if (cur <= i->second)
+                    if (! all_covered)
                         co_yield std::pair{cur, i->second};
                 }
             }(intervals, other.intervals);
@@ -593,8 +605,11 @@ namespace gcs
         {
             return [](const Intervals & intervals) -> std::generator<Int_> {
                 for (auto lu = intervals.rbegin(); lu != intervals.rend(); ++lu)
-                    for (Int_ i = lu->second; i >= lu->first; --i)
+                    for (Int_ i = lu->second;; --i) {
                         co_yield i;
+                        if (i == lu->first) // which may be the least value there is
+                            break;
+                    }
             }(intervals);
         }
 
-- 
2.43.0


From e81ed03440142bbd425bae5d2b591d15f54ff3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:41 +0000
Subject: [PATCH 08/10] fix: define variable_order::with_largest_value, which
 is declared and documented

---
 gcs/search_heuristics.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gcs/search_heuristics.cc b/gcs/search_heuristics.cc
index bcf9c0e..211167c 100644
--- a/gcs/search_heuristics.cc
+++ b/gcs/search_heuristics.cc
@@ -284,6 +284,19 @@ auto gcs::variable_order::with_smallest_value(vector<IntegerVariableID> vars) ->
         });
 }
 
+auto gcs::variable_order::with_largest_value(const Problem & problem) -> BranchVariableHeuristic
+{
+    return with_largest_value(problem.all_normal_variables());
+}
+
+auto gcs::variable_order::with_largest_value(vector<IntegerVariableID> vars) -> BranchVariableHeuristic
+{
+    return variable_order::in_order_of(
+        vars, [](const CurrentState & state, const innards::Propagators &, const IntegerVariableID & a, const IntegerVariableID & b) {
+            return state.upper_bound(a) > state.upper_bound(b);
+        });
+}
+
 namespace
 {
     auto random_value_generator(shared_ptr<mt19937> rand) -> BranchValueGenerator
-- 
2.43.0


From 1407504a02cf745bb9f5bcc8cb95baeb5ab95193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:46 +0000
Subject: [PATCH 09/10] fix: CurrentState::each_value visited a negated view's
 values from the greatest down, so splitting its domain never ended

---
 gcs/current_state.cc | 7 ++++++-
 gcs/current_state.hh | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gcs/current_state.cc b/gcs/current_state.cc
index ebc27ec..b7dda80 100644
--- a/gcs/current_state.cc
+++ b/gcs/current_state.cc
@@ -71,7 +71,12 @@ auto CurrentState::in_domain(const IntegerVariableID v, Integer n) const -> bool
 
 auto CurrentState::each_value(const IntegerVariableID v) const -> generator<Integer>
 {
-    return _full_state.each_value_mutable(v);
+    // Not each_value_mutable(), which visits a negated view's values from the
+    // greatest down: callers rely upon the values being in ascending order.
+    return [](IntervalSet<Integer> values) -> generator<Integer> {
+        for (auto i : values.each())
+            co_yield i;
+    }(_full_state.copy_of_values(v));
 }
 
 auto CurrentState::each_value_reversed(const IntegerVariableID v) const -> generator<Integer>
diff --git a/gcs/current_state.hh b/gcs/current_state.hh
index 08222d6..e893eba 100644
--- a/gcs/current_state.hh
+++ b/gcs/current_state.hh
@@ -128,7 +128,8 @@ namespace gcs
         [[nodiscard]] auto in_domain(const IntegerVariableID, Integer) const -> bool;
 
         /**
-         * \brief Returns a generator that gives each value in the variable's domain.
+         * \brief Returns a generator that gives each value in the variable's domain,
+         * in ascending order.
          */
         [[nodiscard]] auto each_value(const IntegerVariableID) const -> std::generator<Integer>;
 
-- 
2.43.0


From 46d81da3e803f1afd59aa49c4ed54b691b200364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:47 +0000
Subject: [PATCH 10/10] fix: RefinedWeighting::note_conflict looked at the
 bounds of the domain a conflict had emptied

---
 gcs/variable_weighting.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gcs/variable_weighting.cc b/gcs/variable_weighting.cc
index d60fee1..067e218 100644
--- a/gcs/variable_weighting.cc
+++ b/gcs/variable_weighting.cc
@@ -213,16 +213,18 @@ RefinedWeighting::RefinedWeighting(const Propagators & propagators, const State
 auto RefinedWeighting::note_conflict(
     int constraint_index, const vector<SimpleIntegerVariableID> & scope, const optional<Reason> &, const State & state) -> void
 {
+    // Not has_single_value(): the domain that was wiped out may be empty, and
+    // then it has no bounds to look at.
     long long futures = 0;
     for (const auto & v : scope)
-        if (! state.has_single_value(v))
+        if (state.domain_size(v) != 1_i)
             ++futures;
     if (futures == 0)
         return;
 
     auto & weights = _local_weights[constraint_index];
     for (const auto & x : scope) {
-        if (state.has_single_value(x))
+        if (state.domain_size(x) == 1_i)
             continue;
         double increment = 0.0;
         switch (_variant) {
-- 
2.43.0

