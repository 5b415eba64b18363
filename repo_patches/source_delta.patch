From aae83a52544d0dc75299b054fae540ed28e760e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 01/34] fix: a non-integer power of a possibly negative base is
 not known to be real

---
 components/core/wf/number_set.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/core/wf/number_set.cc b/components/core/wf/number_set.cc
index 561e885..b7e9e76 100644
--- a/components/core/wf/number_set.cc
+++ b/components/core/wf/number_set.cc
@@ -231,6 +231,11 @@ class determine_set_visitor {
         // base is either real_non_negative or real_positive
         return base;
       }
+      if (!is_non_negative(base) &&
+          (pow.exponent().is_type<rational_constant>() || pow.exponent().is_type<float_constant>())) {
+        // base could be negative, in which case a non-integer power of it is complex.
+        return number_set::unknown;
+      }
       return number_set::real;
     }
     return number_set::unknown;
-- 
2.43.0


From 41120e7538fac01ef42ff0e28863c032e8980dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 02/34] fix: float powers of negative and zero bases agree with
 the exact rules

---
 components/core/wf/expressions/power.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/expressions/power.cc b/components/core/wf/expressions/power.cc
index 0f6bfe5..7595c9b 100644
--- a/components/core/wf/expressions/power.cc
+++ b/components/core/wf/expressions/power.cc
@@ -4,6 +4,8 @@
 #include "wf/expressions/power.h"
 
 #include <algorithm>
+#include <cmath>
+#include <complex>
 
 #include "wf/expression_visitor.h"
 #include "wf/expressions/multiplication.h"
@@ -61,9 +63,17 @@ struct power_numerics_visitor {
     if (base.is_zero() && exp.is_negative()) {
       return constants::complex_infinity;
     }
-    const auto result = std::pow(static_cast<float_constant>(base).value(),
-                                 static_cast<float_constant>(exp).value());
-    return make_expr<float_constant>(result);
+    if (base.is_zero() && exp.is_zero()) {
+      return constants::undefined;
+    }
+    const double b = static_cast<float_constant>(base).value();
+    const double e = static_cast<float_constant>(exp).value();
+    if (b < 0.0 && std::trunc(e) != e) {
+      // A non-integer power of a negative value is complex.
+      const std::complex<double> result = std::pow(std::complex<double>(b, 0.0), e);
+      return scalar_expr::from_complex(result.real(), result.imag());
+    }
+    return scalar_expr(std::pow(b, e));
   }
 
   // If both operands are integers:
-- 
2.43.0


From 48f919c1e3663ca5bcb4dd4ca946d7de9ba9a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 03/34] fix: merge nested exponents over a non-negative base
 only when the inner exponent may be real

---
 components/core/wf/expressions/power.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/expressions/power.cc b/components/core/wf/expressions/power.cc
index 7595c9b..9eeca3a 100644
--- a/components/core/wf/expressions/power.cc
+++ b/components/core/wf/expressions/power.cc
@@ -368,7 +368,7 @@ static bool can_multiply_exponents(const power& base_pow, const scalar_expr& out
   //  (x**(5/3))**y --> x**(5*y/3)
   // Unless:
   //  - `y` is an integer
-  //  - `x` is real and non-negative
+  //  - `x` is real and non-negative, and the inner exponent is not known to be complex
   if (const scalar_expr& inner_exp = base_pow.exponent(); magnitude_less_than_one(inner_exp)) {
     return true;
   }
@@ -376,7 +376,8 @@ static bool can_multiply_exponents(const power& base_pow, const scalar_expr& out
     return true;
   }
   if (const number_set base_set = determine_numeric_set(base_pow.base());
-      base_set == number_set::real_non_negative || base_set == number_set::real_positive) {
+      (base_set == number_set::real_non_negative || base_set == number_set::real_positive) &&
+      determine_numeric_set(base_pow.exponent()) != number_set::complex) {
     return true;
   }
   return false;
-- 
2.43.0


From c5fcf1302ac0ca0e3ec5327eedad24b8e221fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 04/34] fix: raise an arithmetic error, rather than terminate,
 when a rational cannot be normalized

---
 .../core/wf/expressions/numeric_expressions.h   | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index adc2ede..5348ce3 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -113,13 +113,14 @@ class rational_constant {
   }
 
   // True if the absolute value of the fraction is less than one.
-  bool is_proper() const noexcept { return abs(n_) < d_; }
+  bool is_proper() const noexcept { return n_ < d_ && n_ > -d_; }
 
  private:
-  static constexpr std::pair<value_type, value_type> create_pair(value_type n,
-                                                                 value_type d) noexcept {
-    // Find the largest common denominator and reduce:
-    const auto gcd = std::gcd(n.value(), d.value());
+  static constexpr std::pair<value_type, value_type> create_pair(value_type n, value_type d) {
+    // Find the largest common denominator and reduce. Magnitudes are unsigned, so that the most
+    // negative integer can be represented.
+    const value_type gcd =
+        value_type::from_unsigned_long_long(std::gcd(magnitude(n), magnitude(d)));
     n = n / gcd;
     d = d / gcd;
     if (d < 0) {
@@ -131,6 +132,12 @@ class rational_constant {
     }
   }
 
+  // Absolute value as an unsigned integer.
+  static constexpr std::uint64_t magnitude(const value_type v) noexcept {
+    const auto u = static_cast<std::uint64_t>(v.value());
+    return v < 0 ? ~u + 1 : u;
+  }
+
   // Private constructor to allow direct initialization.
   explicit constexpr rational_constant(const std::pair<value_type, value_type>& pair) noexcept
       : n_(pair.first), d_(pair.second) {}
-- 
2.43.0


From 7b3b65d2a285aeccf72790f53ccf1f90bd5b801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:13 +0000
Subject: [PATCH 05/34] fix: order rationals without overflowing 64-bit
 products

---
 .../core/wf/expressions/numeric_expressions.h | 45 ++++++++++++++-----
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index 5348ce3..6111519 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -245,12 +245,42 @@ constexpr auto operator%(const rational_constant& a, const rational_constant& b)
   return rational_constant{quotient.numerator() % quotient.denominator(), quotient.denominator()};
 }
 
-constexpr bool operator<(const rational_constant& a, const rational_constant& b) {
-  return a.numerator() * b.denominator() < b.numerator() * a.denominator();
+// Compare two rationals by their continued fractions. Unlike comparison of the cross-multiplied
+// numerators, this cannot overflow.
+constexpr relative_order compare_rationals(const rational_constant& a,
+                                           const rational_constant& b) noexcept {
+  std::int64_t an = a.numerator().value(), ad = a.denominator().value();
+  std::int64_t bn = b.numerator().value(), bd = b.denominator().value();
+  for (;;) {
+    // Compare integer parts (rounded down), then remainders in [0, 1). Denominators are positive.
+    std::int64_t aq = an / ad, ar = an % ad;
+    std::int64_t bq = bn / bd, br = bn % bd;
+    if (ar < 0) {
+      ar += ad;
+      --aq;
+    }
+    if (br < 0) {
+      br += bd;
+      --bq;
+    }
+    if (aq != bq || ar == 0 || br == 0) {
+      return aq != bq ? order_by_comparison(aq, bq) : order_by_comparison(ar, br);
+    }
+    // ar/ad < br/bd is equivalent to: bd/br < ad/ar
+    const std::int64_t ad_prev = ad;
+    an = bd;
+    ad = br;
+    bn = ad_prev;
+    bd = ar;
+  }
 }
 
-constexpr bool operator>(const rational_constant& a, const rational_constant& b) {
-  return a.numerator() * b.denominator() > b.numerator() * a.denominator();
+constexpr bool operator<(const rational_constant& a, const rational_constant& b) noexcept {
+  return compare_rationals(a, b) == relative_order::less_than;
+}
+
+constexpr bool operator>(const rational_constant& a, const rational_constant& b) noexcept {
+  return compare_rationals(a, b) == relative_order::greater_than;
 }
 
 constexpr bool operator==(const rational_constant& a, const rational_constant& b) noexcept {
@@ -287,12 +317,7 @@ template <>
 struct order_struct<rational_constant> {
   constexpr relative_order operator()(const rational_constant& a,
                                       const rational_constant& b) const noexcept {
-    if (a.denominator() == b.denominator()) {
-      return order_by_comparison(a.numerator(), b.numerator());
-    }
-    const auto left = a.numerator() * b.denominator();
-    const auto right = b.numerator() * a.denominator();
-    return order_by_comparison(left, right);
+    return compare_rationals(a, b);
   }
 };
 
-- 
2.43.0


From 8b98640078839e84d8a343d9cee9a45b4dce87c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 06/34] fix: floor of a float outside the 64-bit range raises
 an overflow error

---
 components/core/wf/functions.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/core/wf/functions.cc b/components/core/wf/functions.cc
index 23466da..2751536 100644
--- a/components/core/wf/functions.cc
+++ b/components/core/wf/functions.cc
@@ -600,6 +600,11 @@ struct floor_visitor {
       return std::nullopt;
     }
     const auto floored = std::floor(f.value());
+    // Min is a power of two, so -min is the first double that exceeds the range.
+    if (constexpr auto min = static_cast<double>(checked_int::min());
+        !(floored >= min && floored < -min)) {
+      throw arithmetic_error("Floor of {} produces integer overflow.", f.value());
+    }
     return scalar_expr{static_cast<std::int64_t>(floored)};
   }
 
-- 
2.43.0


From 6e528e95cdf144a28bbe73f296fd1de0005ac8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 07/34] fix: ordered substitution when a replacement is the
 target of a later pair

---
 components/core/wf/substitute.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/components/core/wf/substitute.cc b/components/core/wf/substitute.cc
index 23f7a47..610653c 100644
--- a/components/core/wf/substitute.cc
+++ b/components/core/wf/substitute.cc
@@ -4,6 +4,7 @@
 #include "wf/substitute.h"
 
 #include <unordered_map>
+#include <unordered_set>
 
 #include "wf/expression_cache.h"
 #include "wf/expression_visitor.h"
@@ -386,6 +387,7 @@ struct is_leaf_visitor {
 // To be eligible for the faster unordered substitution path:
 //  - All targets must be variables (or compound expression elements).
 //  - All replacements must be leaf nodes, and no replacement can be found in the target list.
+//    This is checked in both directions: A replacement may match an earlier or a later target.
 template <typename X>
 static bool is_valid_for_unordered_subs(const X& target, const X& replacement,
                                         const substitute_variables_visitor& visitor,
@@ -426,8 +428,15 @@ static bool is_valid_for_unordered_subs(const X& target, const X& replacement,
 static std::optional<substitute_variables_visitor> create_unordered_subs_visitor(
     const absl::Span<const scalar_or_boolean_pair> pairs, const bool force_unordered_execution) {
   substitute_variables_visitor visitor{};
+  std::unordered_set<scalar_expr, hash_struct<scalar_expr>, is_identical_struct<scalar_expr>>
+      replacements{};
   for (const auto& pair : pairs) {
     if (const scalar_pair* scalars = std::get_if<scalar_pair>(&pair); scalars != nullptr) {
+      if (!force_unordered_execution && replacements.count(std::get<0>(*scalars)) > 0) {
+        // An earlier replacement produces an expression that must be replaced by this pair.
+        return std::nullopt;
+      }
+      replacements.insert(std::get<1>(*scalars));
       if (is_valid_for_unordered_subs(std::get<0>(*scalars), std::get<1>(*scalars), visitor,
                                       force_unordered_execution)) {
         visitor.add_substitution(std::get<0>(*scalars), std::get<1>(*scalars));
-- 
2.43.0


From 66fbba68806a8367a4ac69c60564a2b9d4ca8f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 08/34] fix: parenthesize ternaries and signum where they are
 operands of arithmetic

---
 components/core/wf/code_generation/ast_conversion.cc | 4 ++--
 components/core/wf/code_generation/ir_value.cc       | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/code_generation/ast_conversion.cc b/components/core/wf/code_generation/ast_conversion.cc
index 3a2df5b..329d274 100644
--- a/components/core/wf/code_generation/ast_conversion.cc
+++ b/components/core/wf/code_generation/ast_conversion.cc
@@ -415,8 +415,8 @@ ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::ca
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::compare& compare) {
   return ast::ast_element{std::in_place_type_t<ast::compare>{}, compare.operation(),
-                          visit_operation_argument(val[0], std::nullopt),
-                          visit_operation_argument(val[1], std::nullopt)};
+                          visit_operation_argument(val[0], precedence::relational),
+                          visit_operation_argument(val[1], precedence::relational)};
 }
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val,
diff --git a/components/core/wf/code_generation/ir_value.cc b/components/core/wf/code_generation/ir_value.cc
index 993a3d2..a071463 100644
--- a/components/core/wf/code_generation/ir_value.cc
+++ b/components/core/wf/code_generation/ir_value.cc
@@ -35,7 +35,12 @@ precedence value::operation_precedence() const {
       [](const ir::add&) constexpr { return precedence::addition; },
       [](const ir::mul&) constexpr { return precedence::multiplication; },
       [](const ir::div&) constexpr { return precedence::multiplication; },
-      [](const ir::cond&) constexpr { return precedence::ternary; },
+      // A ternary has lower precedence than any other operator in the languages we emit:
+      [](const ir::cond&) constexpr { return precedence::relational; },
+      // Targets may write signum as the difference of two comparisons:
+      [](const ir::call_std_function& func) constexpr {
+        return func.name() == std_math_function::signum ? precedence::addition : precedence::none;
+      },
       [](const auto&) constexpr { return precedence::none; });
 }
 
-- 
2.43.0


From a31e3e25a32f5784351ad55b3eb18a12416e0728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 09/34] fix: cast integer arguments of floating-point math
 functions in generated code

---
 components/core/wf/code_generation/ir_form_visitor.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/components/core/wf/code_generation/ir_form_visitor.cc b/components/core/wf/code_generation/ir_form_visitor.cc
index 3bd44bc..ced4f26 100644
--- a/components/core/wf/code_generation/ir_form_visitor.cc
+++ b/components/core/wf/code_generation/ir_form_visitor.cc
@@ -202,6 +202,13 @@ ir::value_ptr ir_form_visitor::operator()(const built_in_function_invocation& fu
   // Convert args to values:
   auto args = transform_map<absl::InlinedVector<ir::value_ptr, 4>>(func, *this);
 
+  // Apart from `abs`, which preserves the type of its argument, functions operate on floats:
+  if (enum_value != std_math_function::abs) {
+    for (ir::value_ptr& arg : args) {
+      arg = maybe_cast(arg, numeric_primitive_type::floating_point);
+    }
+  }
+
   const numeric_primitive_type numeric_type = std_function_output_type(enum_value, args);
   return push_operation(ir::call_std_function{enum_value}, numeric_type, args);
 }
-- 
2.43.0


From 829ee30ac878b1fe7eab929916637e51d95699f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:26 +0000
Subject: [PATCH 10/34] fix: a partial substitution does not substitute again
 inside the replacement

---
 components/core/wf/substitute.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/components/core/wf/substitute.cc b/components/core/wf/substitute.cc
index 610653c..f4abb32 100644
--- a/components/core/wf/substitute.cc
+++ b/components/core/wf/substitute.cc
@@ -11,6 +11,7 @@
 #include "wf/expressions/compound_expression_element.h"
 #include "wf/expressions/variable.h"
 #include "wf/matrix_expression.h"
+#include "wf/number_set.h"
 
 #include "utility/scoped_trace.h"
 
@@ -463,6 +464,18 @@ X1 substitute_single_impl(const X1& input, const X2& target, const X2& replaceme
                        T::name_str, target);
     } else {
       using visitor_type = typename sub_visitor_type<T, X2>::type;
+      if constexpr (visitor_type::performs_partial_substitution) {
+        if (!visit(replacement, is_leaf_visitor{})) {
+          // The result of a partial match is visited again, to reach matches below it. The target
+          // may occur within the replacement, and must not be replaced there. So we leave a
+          // variable in its place until all the matches have been made.
+          const scalar_expr placeholder =
+              make_unique_variable_symbol(determine_numeric_set(replacement));
+          substitute_variables_visitor insert_replacement{};
+          insert_replacement.add_substitution(placeholder, replacement);
+          return insert_replacement(visit(input, visitor_type{target_concrete, placeholder}));
+        }
+      }
       return visit(input, visitor_type{target_concrete, replacement});
     }
   });
-- 
2.43.0


From 95b19b62cee9397a1fe819cce22a48a9604d47a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:34 +0000
Subject: [PATCH 11/34] fix: the derivative of a power of zero is zero, not
 undefined

---
 components/core/wf/derivative.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/core/wf/derivative.cc b/components/core/wf/derivative.cc
index 7634587..95711da 100644
--- a/components/core/wf/derivative.cc
+++ b/components/core/wf/derivative.cc
@@ -262,6 +262,10 @@ scalar_expr derivative_visitor::operator()(const power& pow) {
   if (is_zero(base_diff) && is_zero(exp_diff)) {
     return constants::zero;
   }
+  if (is_zero(base)) {
+    // `0 ** exp` is zero wherever it can be differentiated, while log(0) is undefined.
+    return constants::zero;
+  }
   return exp * power::create(base, exp - constants::one) * base_diff +
          power::create(base, exp) * log(base) * exp_diff;
 }
-- 
2.43.0


From 32c808e9dc24253366426c80d905c89c8165ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:41 +0000
Subject: [PATCH 12/34] fix: numeric evaluation continues past exact integers
 produced by floor and iverson brackets

---
 components/core/wf/evaluate.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/components/core/wf/evaluate.cc b/components/core/wf/evaluate.cc
index 029c791..b02c634 100644
--- a/components/core/wf/evaluate.cc
+++ b/components/core/wf/evaluate.cc
@@ -13,6 +13,14 @@ X evaluate_visitor::operator()(const T& input_typed, const X& input) {
     throw type_error("Cannot call eval on expression of type: {}", T::name_str);
   } else if constexpr (T::is_leaf_node) {
     return input;
+  } else if constexpr (std::is_same_v<X, scalar_expr>) {
+    // Some operations produce exact integers from floating point operands (for example: floor). These
+    // must also be numeric, or the parent expression may simplify to a symbolic constant.
+    const scalar_expr result = input_typed.map_children(*this);
+    if (const integer_constant* const i = get_if<const integer_constant>(result); i != nullptr) {
+      return operator()(*i);
+    }
+    return result;
   } else {
     return input_typed.map_children(*this);
   }
-- 
2.43.0


From 93c565d745e6060c2edd5d98f878b49d1cf35a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:30 +0000
Subject: [PATCH 13/34] fix: write existing and repeated custom-type objects to
 output arguments

---
 .../core/wf/code_generation/ast_conversion.cc | 41 +++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/components/core/wf/code_generation/ast_conversion.cc b/components/core/wf/code_generation/ast_conversion.cc
index 329d274..6fe3989 100644
--- a/components/core/wf/code_generation/ast_conversion.cc
+++ b/components/core/wf/code_generation/ast_conversion.cc
@@ -140,9 +140,21 @@ void ast_form_visitor::push_back_output_operations(const ir::const_block_ptr blo
             emplace_operation<ast::assign_output_matrix>(
                 *arg, *get_if<construct_matrix>(converted_value));
           },
-          [&](const custom_type&) {
-            emplace_operation<ast::assign_output_struct>(
-                *arg, *get_if<construct_custom_type>(converted_value));
+          [&](const custom_type& custom) {
+            if (auto construct = get_if<construct_custom_type>(converted_value); construct) {
+              emplace_operation<ast::assign_output_struct>(*arg, *construct);
+            } else {
+              // An existing object (an argument, or the result of an external function call). It is
+              // copied element by element.
+              std::vector<ast::ast_element> elements{};
+              elements.reserve(custom.total_size());
+              for (std::size_t index = 0; index < custom.total_size(); ++index) {
+                elements.push_back(make_field_access_sequence(
+                    visit_operation_argument(value->first_operand(), std::nullopt), custom, index));
+              }
+              emplace_operation<ast::assign_output_struct>(
+                  *arg, type_constructor{std::move(elements)}(custom));
+            }
           });
     }
   }
@@ -210,6 +222,16 @@ inline bool is_output_matrix_construction(const ir::const_value_ptr val) {
   return std::holds_alternative<matrix_type>(construct.type());
 }
 
+// Return true if this value is a custom type that is written to an output argument.
+inline bool is_output_struct(const ir::const_value_ptr val) {
+  return std::holds_alternative<custom_type>(val->type()) &&
+         std::any_of(val->consumers().begin(), val->consumers().end(),
+                     [](const ir::const_value_ptr& v) {
+                       return v->is_op<ir::save>() && v->as_op<ir::save>().key().usage !=
+                                                          expression_usage::return_value;
+                     });
+}
+
 void ast_form_visitor::process_block(const ir::const_block_ptr block) {
   if (non_traversable_blocks_.contains(block)) {
     // Don't recurse too far - we are waiting on one of the ancestors of this block to get
@@ -247,10 +269,15 @@ void ast_form_visitor::process_block(const ir::const_block_ptr block) {
       // - The value is _not_ a numerical constant, and it has either:
       //    - More than one non-phi consumer. (Used in more than one computation).
       //    - Or, multiple phi consumers. (Multiple conditionals accept this value as the output).
-      const bool needs_declaration = (is_argument_read_operation(value) ||
-                                      (!should_inline_constant(value) &&
-                                       (num_non_phi_consumers > 1 || phi_consumers.size() > 1))) &&
-                                     !is_output_matrix_construction(value);
+      //    - Or, it is an existing object that is copied into an output argument.
+      // Objects that are constructed in order to write them to output arguments are not declared.
+      const bool is_construct = value->is_op<ir::construct>();
+      const bool is_struct_output = is_output_struct(value);
+      const bool needs_declaration =
+          (is_argument_read_operation(value) ||
+           (!should_inline_constant(value) &&
+            (num_non_phi_consumers > 1 || phi_consumers.size() > 1 || is_struct_output))) &&
+          !(is_construct && is_struct_output) && !is_output_matrix_construction(value);
       if (needs_declaration) {
         declared_values_.insert(value);
       }
-- 
2.43.0


From c098c11f89f47408da3d05889952f23b4deb67c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 14/34] fix: negative row or column index combined with a slice
 selects from the end

---
 components/wrapper/pywrenfold/matrix_wrapper.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index 5e87a98..c5be6e4 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -150,7 +150,7 @@ matrix_expr matrix_get_row_and_col_slice(const matrix_expr& self,
 matrix_expr matrix_get_row_index_and_col_slice(
     const matrix_expr& self, const std::tuple<index_t, py::slice>& row_and_col_slice) {
   const auto [row, col_slice] = row_and_col_slice;
-  const index_t wrapped_row = row < 0 ? self.rows() - row : row;
+  const index_t wrapped_row = row < 0 ? self.rows() + row : row;
   const slice col_index{self.cols(), col_slice};
 
   std::vector<scalar_expr> elements;
@@ -165,7 +165,7 @@ matrix_expr matrix_get_row_index_and_col_slice(
 matrix_expr matrix_get_row_slice_and_col_index(
     const matrix_expr& self, const std::tuple<py::slice, index_t>& row_slice_and_col) {
   const auto [row_slice, col] = row_slice_and_col;
-  const index_t wrapped_col = col < 0 ? self.cols() - col : col;
+  const index_t wrapped_col = col < 0 ? self.cols() + col : col;
   const slice row_index{self.rows(), row_slice};
 
   std::vector<scalar_expr> elements;
-- 
2.43.0


From 4e891990f3e630e6a9a910ecb6826f5cfb03c4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 15/34] fix: matrix construction from empty rows raises
 DimensionError instead of dividing by zero

---
 components/wrapper/pywrenfold/matrix_wrapper.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index c5be6e4..ed3f690 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -219,6 +219,9 @@ inline matrix_expr stack_iterables(const std::vector<py::object>& rows) {
   // Transform the first row to get the # of columns.
   auto it = rows.begin();
   const std::size_t expected_num_cols = extract_iterable_rows(*it, converted);
+  if (expected_num_cols == 0) {
+    throw dimension_error("Cannot construct matrix from rows with zero columns.");
+  }
   converted.reserve(rows.size() * expected_num_cols);
 
   // All other elements must match.
-- 
2.43.0


From 0fd9157c0f8ace219f7fc68f85a0d54c6035144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 16/34] fix: Quaternion.eval evaluates its elements to floating
 point values

---
 components/wrapper/pywrenfold/geometry_wrapper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/wrapper/pywrenfold/geometry_wrapper.cc b/components/wrapper/pywrenfold/geometry_wrapper.cc
index 20c3814..d068a68 100644
--- a/components/wrapper/pywrenfold/geometry_wrapper.cc
+++ b/components/wrapper/pywrenfold/geometry_wrapper.cc
@@ -41,7 +41,7 @@ static std::vector<scalar_expr> list_from_quaternion(const quaternion& q) {
 }
 
 static auto eval_quaternion(const quaternion& q) {
-  return numpy_from_matrix(q.to_vector_wxyz(), {});
+  return numpy_from_matrix(q.to_vector_wxyz().eval(), {});
 }
 
 void wrap_geometry_operations(py::module_& m) {
-- 
2.43.0


From 3eab0e510a60932599c705f846886db101696a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 17/34] fix: print the exponent of powi as i32 in Rust

---
 components/core/wf/code_generation/rust_code_generator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/code_generation/rust_code_generator.cc b/components/core/wf/code_generation/rust_code_generator.cc
index 88e30c1..debaab3 100644
--- a/components/core/wf/code_generation/rust_code_generator.cc
+++ b/components/core/wf/code_generation/rust_code_generator.cc
@@ -240,8 +240,10 @@ std::string rust_code_generator::operator()(const ast::call_std_function& x) con
                          fmt::arg("arg", make_view(x[0])));
     case std_math_function::floor:
       return fmt::format("({}).floor() as i64", make_view(x[0]));
-    case std_math_function::atan2:
     case std_math_function::powi:
+      // The exponent of `f64::powi` is an `i32`, while our integers are printed as `i64`.
+      return fmt::format("({}).powi(({}) as i32)", make_view(x[0]), make_view(x[1]));
+    case std_math_function::atan2:
     case std_math_function::powf:
       return fmt::format("({}).{}({})", make_view(x[0]),
                          string_from_standard_library_function(x.function), make_view(x[1]));
-- 
2.43.0


From b8394fe45d4710c95ddcdafb03b74964ef259027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 18/34] fix: clone borrowed custom type arguments where Rust
 needs a value

---
 .../core/wf/code_generation/rust_code_generator.cc       | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/code_generation/rust_code_generator.cc b/components/core/wf/code_generation/rust_code_generator.cc
index debaab3..98a9835 100644
--- a/components/core/wf/code_generation/rust_code_generator.cc
+++ b/components/core/wf/code_generation/rust_code_generator.cc
@@ -190,6 +190,11 @@ static bool is_get_argument_with_custom_type(const ast::ast_element& var) {
   return false;
 }
 
+// Input arguments of custom type are borrowed, so they must be cloned where a value is required.
+static std::string_view clone_suffix(const ast::ast_element& value) {
+  return is_get_argument_with_custom_type(value) ? ".clone()" : "";
+}
+
 std::string rust_code_generator::operator()(const ast::call_external_function& x) const {
   WF_ASSERT_EQ(x.args.size(), x.function.num_arguments());
   std::string result = x.function.name();
@@ -287,7 +292,7 @@ std::string rust_code_generator::operator()(const ast::construct_custom_type& x)
   std::string output = operator()(x.type);
   join_and_indent(output, 2, " {\n", "\n}", ",\n", x.field_values, [this](const auto& field_val) {
     const auto& [field_name, val] = field_val;
-    return fmt::format("{}: {}", field_name, make_view(val));
+    return fmt::format("{}: {}{}", field_name, make_view(val), clone_suffix(val));
   });
   return output;
 }
@@ -364,7 +369,7 @@ std::string rust_code_generator::operator()(const ast::optional_output_branch& x
 }
 
 std::string rust_code_generator::operator()(const ast::return_object& x) const {
-  return operator()(x.value);
+  return fmt::format("{}{}", make_view(x.value), clone_suffix(x.value));
 }
 
 std::string rust_code_generator::operator()(const ast::parenthetical& x) const {
-- 
2.43.0


From 9ce0379413228b90109fccf945897af61575a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 19/34] fix: parenthesise the argument of signum in Rust

---
 components/core/wf/code_generation/rust_code_generator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/code_generation/rust_code_generator.cc b/components/core/wf/code_generation/rust_code_generator.cc
index 98a9835..ca42eca 100644
--- a/components/core/wf/code_generation/rust_code_generator.cc
+++ b/components/core/wf/code_generation/rust_code_generator.cc
@@ -241,7 +241,8 @@ std::string rust_code_generator::operator()(const ast::call_std_function& x) con
     case std_math_function::log:
       return fmt::format("({}).ln()", make_view(x[0]));
     case std_math_function::signum:
-      return fmt::format("(0.0f64 < {arg}) as i64 - ({arg} < 0.0f64) as i64",
+      // Parentheses are required when the argument is a cast.
+      return fmt::format("(0.0f64 < ({arg})) as i64 - (({arg}) < 0.0f64) as i64",
                          fmt::arg("arg", make_view(x[0])));
     case std_math_function::floor:
       return fmt::format("({}).floor() as i64", make_view(x[0]));
-- 
2.43.0


From 3fafa1bd5c27d3906e286bf80933a60c22a74d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 20/34] fix: do not print a decrement when negating a negative
 literal in C++

---
 components/core/wf/code_generation/cpp_code_generator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/core/wf/code_generation/cpp_code_generator.cc b/components/core/wf/code_generation/cpp_code_generator.cc
index dadd09d..46154da 100644
--- a/components/core/wf/code_generation/cpp_code_generator.cc
+++ b/components/core/wf/code_generation/cpp_code_generator.cc
@@ -382,6 +382,11 @@ std::string cpp_code_generator::operator()(const ast::multiply& x) const {
 }
 
 std::string cpp_code_generator::operator()(const ast::negate& x) const {
+  if (const auto literal = ast::get_if<ast::integer_literal>(x.arg);
+      literal.has_value() && literal->value < 0) {
+    // Do not print a decrement operator.
+    return fmt::format("-({})", make_view(x.arg));
+  }
   return fmt::format("-{}", make_view(x.arg));
 }
 
-- 
2.43.0


From caad21e56b0728c17ee7eea8f838a88c96a1a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 21/34] fix: print torch constants as tensors, and powers as
 torch.pow

Functions like torch.stack and torch.sin do not accept python floats, and
torch has no function named power. Parameters that follow an optional output
without a default value prevented defining the function.
---
 .../code_generation/python_code_generator.cc  | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index cead274..ef3d297 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -233,6 +233,13 @@ std::string python_code_generator::operator()(const ast::function_signature& sig
   std::vector<std::string> args{};
   args.reserve(signature.num_arguments());
 
+  // A parameter may only have a default value if all of the subsequent parameters have one as well.
+  std::size_t num_trailing_optional = 0;
+  for (const auto& arg : signature.arguments()) {
+    num_trailing_optional = arg.is_optional() ? num_trailing_optional + 1 : 0;
+  }
+  const std::size_t first_default = signature.num_arguments() - num_trailing_optional;
+
   for (const auto& arg : signature.arguments()) {
     const auto formatted_type = std::visit(*this, arg.type());
     if (arg.direction() == argument_direction::input) {
@@ -243,7 +250,8 @@ std::string python_code_generator::operator()(const ast::function_signature& sig
       }
     } else if (arg.direction() == argument_direction::optional_output) {
       if (use_output_arguments_) {
-        args.push_back(fmt::format("{}: {} | None = None", arg.name(), formatted_type));
+        args.push_back(fmt::format("{}: {} | None{}", arg.name(), formatted_type,
+                                   args.size() >= first_default ? " = None" : ""));
       } else {
         args.push_back(fmt::format("compute_{}: bool", arg.name()));
       }
@@ -359,7 +367,7 @@ std::string python_code_generator::operator()(const ast::call_external_function&
 }
 
 constexpr static std::string_view python_string_from_std_math_function(
-    const std_math_function function) {
+    const std_math_function function, const python_generator_target target) {
   switch (function) {
     case std_math_function::cos:
     case std_math_function::sin:
@@ -400,7 +408,8 @@ constexpr static std::string_view python_string_from_std_math_function(
     }
     case std_math_function::powi:
     case std_math_function::powf: {
-      return "power";
+      // torch has no alias named `power`.
+      return target == python_generator_target::pytorch ? "pow" : "power";
     }
   }
   WF_ASSERT_ALWAYS("Unhandled standard math function: {}",
@@ -409,7 +418,7 @@ constexpr static std::string_view python_string_from_std_math_function(
 
 std::string python_code_generator::operator()(const ast::call_std_function& x) const {
   return fmt::format("{}.{}({})", python_module_prefix_from_target(target_),
-                     python_string_from_std_math_function(x.function),
+                     python_string_from_std_math_function(x.function, target_),
                      fmt::join(x.args | std::views::transform(*this), ", "));
 }
 
@@ -456,12 +465,9 @@ std::string python_code_generator::operator()(const ast::divide& x) const {
 }
 
 std::string python_code_generator::operator()(const ast::float_literal& x) const {
-  if (target_ == python_generator_target::numpy || target_ == python_generator_target::jax) {
-    return format_scalar_type_cast(target_, fmt::format("{}", x.value),
-                                   numeric_primitive_type::floating_point, float_width_);
-  } else {
-    return fmt::format("{}", x.value);
-  }
+  // The constant may appear where a python float is not accepted (for example, in `th.stack`).
+  return format_scalar_type_cast(target_, fmt::format("{}", x.value),
+                                 numeric_primitive_type::floating_point, float_width_);
 }
 
 std::string python_code_generator::operator()(const ast::get_argument& x) const {
@@ -522,12 +528,8 @@ std::string python_code_generator::operator()(const ast::return_object&) const {
 std::string python_code_generator::operator()(const ast::special_constant& x) const {
   const auto constant = fmt::format("{}.{}", python_module_prefix_from_target(target_),
                                     x.value == symbolic_constant_enum::euler ? "e" : "pi");
-  if (target_ == python_generator_target::numpy || target_ == python_generator_target::jax) {
-    return format_scalar_type_cast(target_, constant, numeric_primitive_type::floating_point,
-                                   float_width_);
-  } else {
-    return constant;
-  }
+  return format_scalar_type_cast(target_, constant, numeric_primitive_type::floating_point,
+                                 float_width_);
 }
 
 std::string python_code_generator::operator()(const ast::ternary& x) const {
-- 
2.43.0


From b729346ba6c9aba6e349444fe28d0c875fa1016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 22/34] fix: parenthesise ternaries passed to the Eigen comma
 initializer

---
 components/core/wf/code_generation/cpp_code_generator.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/code_generation/cpp_code_generator.cc b/components/core/wf/code_generation/cpp_code_generator.cc
index 46154da..77e0912 100644
--- a/components/core/wf/code_generation/cpp_code_generator.cc
+++ b/components/core/wf/code_generation/cpp_code_generator.cc
@@ -306,8 +306,12 @@ std::string cpp_code_generator::operator()(const ast::construct_matrix& x) const
   if (behavior_ == cpp_matrix_type_behavior::generic_span) {
     throw_matrix_error<ast::construct_matrix>();
   } else {
+    // The comma initializer takes precedence over a ternary.
     return fmt::format("(Eigen::Matrix<Scalar, {}, {}>() << {}).finished()", x.type.rows(),
-                       x.type.cols(), fmt::join(x.args | std::views::transform(*this), ", "));
+                       x.type.cols(), join(", ", x.args, [this](const ast::ast_element& arg) {
+                         return ast::get_if<ast::ternary>(arg) ? fmt::format("({})", operator()(arg))
+                                                               : operator()(arg);
+                       }));
   }
 }
 
-- 
2.43.0


From 329ac702c2b1ae144d351fab7a49b4d86c36d235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 23/34] fix: parenthesise signum arguments that contain casts
 and negated booleans in Rust

---
 .../core/wf/code_generation/rust_code_generator.cc  | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/code_generation/rust_code_generator.cc b/components/core/wf/code_generation/rust_code_generator.cc
index ca42eca..5c261e3 100644
--- a/components/core/wf/code_generation/rust_code_generator.cc
+++ b/components/core/wf/code_generation/rust_code_generator.cc
@@ -241,8 +241,12 @@ std::string rust_code_generator::operator()(const ast::call_std_function& x) con
     case std_math_function::log:
       return fmt::format("({}).ln()", make_view(x[0]));
     case std_math_function::signum:
-      // Parentheses are required when the argument is a cast.
-      return fmt::format("(0.0f64 < ({arg})) as i64 - (({arg}) < 0.0f64) as i64",
+      if (!ast::get_if<ast::variable_ref>(x[0])) {
+        // Expressions may contain casts, which cannot be followed by `<`.
+        return fmt::format("(0.0f64 < ({arg})) as i64 - (({arg}) < 0.0f64) as i64",
+                           fmt::arg("arg", make_view(x[0])));
+      }
+      return fmt::format("(0.0f64 < {arg}) as i64 - ({arg} < 0.0f64) as i64",
                          fmt::arg("arg", make_view(x[0])));
     case std_math_function::floor:
       return fmt::format("({}).floor() as i64", make_view(x[0]));
@@ -359,6 +363,11 @@ std::string rust_code_generator::operator()(const ast::multiply& x) const {
 }
 
 std::string rust_code_generator::operator()(const ast::negate& x) const {
+  if (const auto cast = ast::get_if<ast::cast>(x.arg);
+      cast.has_value() && cast->source_type == numeric_primitive_type::boolean) {
+    // Negation takes precedence over the cast, but a boolean cannot be negated.
+    return fmt::format("-({})", make_view(x.arg));
+  }
   return fmt::format("-{}", make_view(x.arg));
 }
 
-- 
2.43.0


From 0e839a460918db3f211940d8156b0d25a27539c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 24/34] fix: pass integer literals to torch functions as
 tensors

---
 .../core/wf/code_generation/python_code_generator.cc  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index ef3d297..71a6149 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -419,7 +419,16 @@ constexpr static std::string_view python_string_from_std_math_function(
 std::string python_code_generator::operator()(const ast::call_std_function& x) const {
   return fmt::format("{}.{}({})", python_module_prefix_from_target(target_),
                      python_string_from_std_math_function(x.function, target_),
-                     fmt::join(x.args | std::views::transform(*this), ", "));
+                     join(", ", x.args, [this](const ast::ast_element& arg) {
+                       if (target_ == python_generator_target::pytorch &&
+                           ast::get_if<ast::integer_literal>(arg)) {
+                         // Functions in torch do not accept python integers.
+                         return format_scalar_type_cast(target_, operator()(arg),
+                                                        numeric_primitive_type::integral,
+                                                        float_width_);
+                       }
+                       return operator()(arg);
+                     }));
 }
 
 std::string python_code_generator::operator()(const ast::cast& x) const {
-- 
2.43.0


From adbedc7bd0b6e17412a9832930cec73f3faa9a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 25/34] fix: identical floating-point zeros have equal hashes

---
 components/core/wf/expressions/numeric_expressions.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index 6111519..368f2ed 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -363,8 +363,10 @@ struct hash_struct<float_constant> {
   std::size_t operator()(const float_constant& f) const noexcept {
     static_assert(std::is_trivially_copyable_v<float_constant> &&
                   sizeof(float_constant) == sizeof(std::size_t));
+    // Negative and positive zero are identical, so they must have the same hash.
+    const float_constant normalized = f.is_zero() ? float_constant{0.0} : f;
     std::size_t hash;
-    std::memcpy(&hash, static_cast<const void*>(&f), sizeof(f));
+    std::memcpy(&hash, static_cast<const void*>(&normalized), sizeof(normalized));
     return hash;
   }
 };
-- 
2.43.0


From f3e745240201768a62a86e9ce16d12522cfa5ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 26/34] fix: print invocations of external functions that have
 no arguments

The loop over the remaining arguments advanced past the end when there
were none, so printing dereferenced invalid memory.
---
 components/core/wf/plain_formatter.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/components/core/wf/plain_formatter.cc b/components/core/wf/plain_formatter.cc
index e476886..e4c066c 100644
--- a/components/core/wf/plain_formatter.cc
+++ b/components/core/wf/plain_formatter.cc
@@ -148,10 +148,10 @@ std::string plain_formatter::operator()(const external_function_invocation& invo
   auto it = invocation.begin();
   if (it != invocation.end()) {
     output += operator()(*it);
-  }
-  for (++it; it != invocation.end(); ++it) {
-    output += ", ";
-    output += operator()(*it);
+    for (++it; it != invocation.end(); ++it) {
+      output += ", ";
+      output += operator()(*it);
+    }
   }
   output += ")";
   return output;
-- 
2.43.0


From b85ea99323ebee146bfe2ba02afbd4bf6c2873a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:25 +0000
Subject: [PATCH 27/34] fix: print terms whose coefficient is the most negative
 64-bit integer

The sign was moved out of the coefficient by negating it, which raised an
integer overflow error while printing.
---
 .../core/wf/expressions/multiplication.cc     | 25 +++++++++++++------
 components/core/wf/plain_formatter.cc         |  3 ++-
 components/core/wf/utility_visitors.cc        | 10 ++++++++
 components/core/wf/utility_visitors.h         |  3 +++
 4 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/components/core/wf/expressions/multiplication.cc b/components/core/wf/expressions/multiplication.cc
index a633691..b0ecbfa 100644
--- a/components/core/wf/expressions/multiplication.cc
+++ b/components/core/wf/expressions/multiplication.cc
@@ -315,23 +315,31 @@ multiplication_format_parts get_formatting_info(const multiplication& mul) {
     // Extract rationals:
     if (const rational_constant* const rational = get_if<const rational_constant>(expr);
         rational != nullptr) {
-      if (const auto abs_num = abs(rational->numerator()); abs_num != 1) {
+      if (is_negation_overflow(expr)) {
+        // The magnitude cannot be represented, so the sign stays on the numerator.
+        result.numerator.emplace_back(integer_constant{rational->numerator()});
+      } else if (const auto abs_num = abs(rational->numerator()); abs_num != 1) {
         // Don't put redundant ones into the numerator for rationals of the form 1/n.
         result.numerator.emplace_back(integer_constant{abs_num});
       }
       result.denominator.emplace_back(integer_constant{rational->denominator()});
 
-      if (rational->numerator() < 0) {
+      if (rational->numerator() < 0 && !is_negation_overflow(expr)) {
         // If negative, increase the sign count.
         ++sign_count;
       }
     } else if (const integer_constant* const integer = get_if<const integer_constant>(expr);
                integer != nullptr) {
-      if (integer->value() != 1 && integer->value() != -1) {
-        result.numerator.emplace_back(integer->abs());
-      }
-      if (integer->value() < 0) {
-        ++sign_count;
+      if (is_negation_overflow(expr)) {
+        // The magnitude cannot be represented, so the sign stays on the numerator.
+        result.numerator.emplace_back(*integer);
+      } else {
+        if (integer->value() != 1 && integer->value() != -1) {
+          result.numerator.emplace_back(integer->abs());
+        }
+        if (integer->value() < 0) {
+          ++sign_count;
+        }
       }
     } else if (const float_constant* const f = get_if<const float_constant>(expr); f != nullptr) {
       result.numerator.emplace_back(f->abs());
@@ -344,7 +352,8 @@ multiplication_format_parts get_formatting_info(const multiplication& mul) {
       // Sort into numerator and denominator, depending on sign of the exponent:
       const auto [coeff, _] = as_coeff_and_mul(exponent);
       // See if the exponent seems negative:
-      if (const bool is_negative_exp = is_negative_number(coeff); is_negative_exp) {
+      if (const bool is_negative_exp = is_negative_number(coeff) && !is_negation_overflow(coeff);
+          is_negative_exp) {
         if (is_negative_one(exponent)) {
           result.denominator.emplace_back(power{std::move(base), constants::one});
         } else {
diff --git a/components/core/wf/plain_formatter.cc b/components/core/wf/plain_formatter.cc
index e4c066c..8ffdd20 100644
--- a/components/core/wf/plain_formatter.cc
+++ b/components/core/wf/plain_formatter.cc
@@ -65,7 +65,8 @@ std::string plain_formatter::operator()(const addition& add) {
   });
 
   for (std::size_t i = 0; i < terms.size(); ++i) {
-    if (const auto [coeff, multiplicand] = as_coeff_and_mul(terms[i]); is_negative_number(coeff)) {
+    if (const auto [coeff, multiplicand] = as_coeff_and_mul(terms[i]);
+        is_negative_number(coeff) && !is_negation_overflow(coeff)) {
       if (i == 0) {
         // For the first term, just negate it:
         output += "-";
diff --git a/components/core/wf/utility_visitors.cc b/components/core/wf/utility_visitors.cc
index 538beec..45ef033 100644
--- a/components/core/wf/utility_visitors.cc
+++ b/components/core/wf/utility_visitors.cc
@@ -50,6 +50,16 @@ bool is_negative_number(const scalar_expr& expr) {
   return visit(expr, is_negative_number_visitor{});
 }
 
+bool is_negation_overflow(const scalar_expr& expr) {
+  constexpr checked_int min = std::numeric_limits<checked_int::value_type>::min();
+  if (const integer_constant* i = get_if<const integer_constant>(expr); i != nullptr) {
+    return i->value() == min;
+  } else if (const rational_constant* r = get_if<const rational_constant>(expr); r != nullptr) {
+    return r->numerator() == min;
+  }
+  return false;
+}
+
 // Visitor that recursively traverses the expression tree and extracts all expressions that match
 // the provided predicate.
 template <typename Predicate>
diff --git a/components/core/wf/utility_visitors.h b/components/core/wf/utility_visitors.h
index bb63838..1f9b72a 100644
--- a/components/core/wf/utility_visitors.h
+++ b/components/core/wf/utility_visitors.h
@@ -16,6 +16,9 @@ bool is_numeric(const scalar_expr& expr);
 // negative when evaluated.
 bool is_negative_number(const scalar_expr& expr);
 
+// Returns true if `expr` is an integer or rational with a numerator that is too negative to be negated.
+bool is_negation_overflow(const scalar_expr& expr);
+
 // Return all expressions that match the provided predicate.
 // The predicate is invoked on each unique sub-expression exactly once.
 std::vector<scalar_expr> get_expressions_by_predicate(
-- 
2.43.0


From e16a0507842ac8e850234cd5ccba7dc2901e4aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 28/34] fix: parenthesize a ternary operand of signum in C++

The expansion of signum compares its operand with zero, and comparison
takes precedence over the conditional operator.
---
 components/core/wf/code_generation/cpp_code_generator.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/code_generation/cpp_code_generator.cc b/components/core/wf/code_generation/cpp_code_generator.cc
index 77e0912..7879c17 100644
--- a/components/core/wf/code_generation/cpp_code_generator.cc
+++ b/components/core/wf/code_generation/cpp_code_generator.cc
@@ -263,10 +263,14 @@ std::string cpp_code_generator::operator()(const ast::call_std_function& x) cons
     case std_math_function::abs:
       return fmt::format("std::{}({})", string_from_standard_library_function(x.function),
                          make_view(x[0]));
-    case std_math_function::signum:
+    case std_math_function::signum: {
       // TODO: Casts should be different, depending on type of first arg.
+      // The comparisons take precedence over a ternary.
+      const std::string arg = ast::get_if<ast::ternary>(x[0]) ? fmt::format("({})", make_view(x[0]))
+                                                              : operator()(x[0]);
       return fmt::format("(static_cast<Scalar>(0) < {arg}) - ({arg} < static_cast<Scalar>(0))",
-                         fmt::arg("arg", make_view(x[0])));
+                         fmt::arg("arg", arg));
+    }
     case std_math_function::floor:
       return fmt::format("static_cast<{}>(std::floor({}))",
                          cpp_string_from_numeric_type(numeric_primitive_type::integral),
-- 
2.43.0


From 146b09ecabd149693010653d3a5f971f2a00a7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 29/34] fix: tree form of expressions without operands

Iteration over the operands advanced past the end for functions without
arguments and for empty matrices.
---
 components/core/wf/tree_formatter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/core/wf/tree_formatter.cc b/components/core/wf/tree_formatter.cc
index 0b0a9ff..6cc7dc6 100644
--- a/components/core/wf/tree_formatter.cc
+++ b/components/core/wf/tree_formatter.cc
@@ -225,6 +225,9 @@ void tree_formatter_visitor::visit_right(const T& expr) {
 template <typename Container>
 void tree_formatter_visitor::visit_all(const Container& container) {
   auto it = container.begin();
+  if (it == container.end()) {
+    return;
+  }
   for (; std::next(it) != container.end(); ++it) {
     visit_left(*it);
   }
-- 
2.43.0


From c84a577d06420ec6cc9b407f80af88fd4c80b8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 30/34] fix: keep the last condition of sympy Piecewise
 expressions without a default

---
 components/python/wrenfold/sympy_conversion.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/components/python/wrenfold/sympy_conversion.py b/components/python/wrenfold/sympy_conversion.py
index d12c3b7..41d6dbe 100644
--- a/components/python/wrenfold/sympy_conversion.py
+++ b/components/python/wrenfold/sympy_conversion.py
@@ -116,11 +116,15 @@ class Conversions:
         """
         if len(expr.args) == 2:
             # If the output values are one and zero, this is equivalent to the iverson bracket.
-            (true_val, cond), (false_val, _) = expr.args
-            if true_val == 1 and false_val == 0:
+            (true_val, cond), (false_val, false_cond) = expr.args
+            if true_val == 1 and false_val == 0 and false_cond == self.sp.true:
                 return sym.iverson(self(cond))
 
-        output = self(expr.args[-1][0])
+        # SymPy evaluates to nan where none of the conditions hold.
+        last_val, last_cond = expr.args[-1]
+        output = self(last_val)
+        if last_cond != self.sp.true:
+            output = sym.where(self(last_cond), output, sym.nan)
         for val, cond in reversed(expr.args[:-1]):
             output = sym.where(self(cond), self(val), output)
         return output
-- 
2.43.0


From d083a080b014d045bc598df0fa35740860797044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 31/34] fix: conversion to sympy of conditionals with infinite
 branches, empty matrices, and variable names

---
 .../wrapper/pywrenfold/sympy_conversion.cc    | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/components/wrapper/pywrenfold/sympy_conversion.cc b/components/wrapper/pywrenfold/sympy_conversion.cc
index 0d652fd..f60da27 100644
--- a/components/wrapper/pywrenfold/sympy_conversion.cc
+++ b/components/wrapper/pywrenfold/sympy_conversion.cc
@@ -74,12 +74,16 @@ class sympy_conversion_visitor {
   py::object operator()(const conditional& cond) {
     const auto& x = cond.if_branch();
     const auto& y = cond.else_branch();
-    if (cond.condition().is_identical_to(y < x)) {
-      // max(...)
-      return invoke_sympy_object("Max", operator()(x), operator()(y), "evaluate"_a = evaluate_);
-    } else if (cond.condition().is_identical_to(x < y)) {
-      // min(...)
-      return invoke_sympy_object("Min", operator()(x), operator()(y), "evaluate"_a = evaluate_);
+    // Inspect the operands directly: `x < y` cannot be constructed for all types (eg. `zoo`).
+    if (const relational* const rel = get_if<const relational>(cond.condition());
+        rel != nullptr && rel->operation() == relational_operation::less_than) {
+      if (rel->left().is_identical_to(y) && rel->right().is_identical_to(x)) {
+        // max(...)
+        return invoke_sympy_object("Max", operator()(x), operator()(y), "evaluate"_a = evaluate_);
+      } else if (rel->left().is_identical_to(x) && rel->right().is_identical_to(y)) {
+        // min(...)
+        return invoke_sympy_object("Min", operator()(x), operator()(y), "evaluate"_a = evaluate_);
+      }
     }
     return invoke_sympy_object(
         "Piecewise", py::make_tuple(operator()(cond.if_branch()), operator()(cond.condition())),
@@ -109,16 +113,14 @@ class sympy_conversion_visitor {
   }
 
   py::object operator()(const matrix& mat) {
-    // Create a list of lists in row-major order.
-    py::list rows{};
+    // Create a flat list in row-major order.
+    py::list elements{};
     for (int i = 0; i < mat.rows(); ++i) {
-      py::list cols{};
       for (int j = 0; j < mat.cols(); ++j) {
-        cols.append(operator()(mat.get_unchecked(i, j)));
+        elements.append(operator()(mat.get_unchecked(i, j)));
       }
-      rows.append(cols);
     }
-    return invoke_sympy_object("Matrix", rows);
+    return invoke_sympy_object("Matrix", mat.rows(), mat.cols(), elements);
   }
 
   py::object operator()(const multiplication& mul) {
@@ -206,7 +208,8 @@ class sympy_conversion_visitor {
   }
 
   py::object operator()(const variable& var) const {
-    return invoke_sympy_object("symbols", var.name(), **get_variable_kwargs(var.set()));
+    // Use `Symbol`, since `symbols` would parse the name (splitting it on commas and spaces).
+    return invoke_sympy_object("Symbol", var.name(), **get_variable_kwargs(var.set()));
   }
 
   template <typename T>
-- 
2.43.0


From 619de5ca33b77c84674399a71ce507010dba5cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 32/34] fix: check the expected dimensions of quaternions, and
 the rank expected of eigen objects, when converting to spans

---
 components/runtime/wrenfold/span.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/components/runtime/wrenfold/span.h b/components/runtime/wrenfold/span.h
index b612c06..76a9f6e 100644
--- a/components/runtime/wrenfold/span.h
+++ b/components/runtime/wrenfold/span.h
@@ -586,6 +586,8 @@ struct convert_to_span<Dimensions, T, enable_if_inherits_matrix_base_t<T>> {
     static_assert(cols_at_compile_time != Eigen::Dynamic, "Cols must be known at compile time");
 
     // Check that dimensions agree with what the generated method expects.
+    static_assert(value_pack_length_v<Dimensions> == 2,
+                  "Eigen matrices may only be converted to spans with two dimensions");
     static_assert(
         static_cast<std::size_t>(rows_at_compile_time) == constant_value_pack_axis_v<0, Dimensions>,
         "Number of rows does not match expected dimension");
@@ -607,6 +609,12 @@ struct convert_to_span<Dimensions, T, enable_if_inherits_quaternion_base_t<T>> {
   template <typename U>
   constexpr auto convert(U&& q) const noexcept {
     // Quaternion is convertible to 4x1 column vector.
+    static_assert(value_pack_length_v<Dimensions> == 2,
+                  "Quaternions may only be converted to spans with two dimensions");
+    static_assert(constant_value_pack_axis_v<0, Dimensions> == 4,
+                  "Number of rows does not match expected dimension");
+    static_assert(constant_value_pack_axis_v<1, Dimensions> == 1,
+                  "Number of columns does not match expected dimension");
     constexpr auto dims = make_constant_value_pack<4, 1>();
     constexpr auto strides = make_constant_value_pack<1, 4>();
     return make_span(q.coeffs().data(), dims, strides);
-- 
2.43.0


From de603fde210eecec43f6f700b8262392dd913ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 33/34] fix: check the shape of matrix members of custom types

A struct whose matrix member has another shape than its field was accepted,
and the surplus elements spilled into the fields that follow.
---
 components/python/wrenfold/custom_types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/python/wrenfold/custom_types.py b/components/python/wrenfold/custom_types.py
index faac525..3fe46d4 100644
--- a/components/python/wrenfold/custom_types.py
+++ b/components/python/wrenfold/custom_types.py
@@ -206,6 +206,11 @@ def map_expressions_out_of_custom_type(
                     f"Expected field `{field.name}` on type `{custom_type.name}` to be an "
                     f"instance of sym.MatrixExpr, but found `{type(value)}`."
                 )
+            if value.shape != field.type.shape:
+                raise TypeError(
+                    f"Expected field `{field.name}` on type `{custom_type.name}` to have shape "
+                    f"{field.type.shape}, but found {value.shape}."
+                )
             expressions.extend(value.to_flat_list())
         else:
             expressions += map_expressions_out_of_custom_type(value, custom_type=field.type)
-- 
2.43.0


From e547ca885b46942080f1345c130759e989c331ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 34/34] fix: apply overridden formatters inside Python matrices
 and external calls

The generator was copied into std::views::transform, which sliced away the
overrides of derived generators: elements of matrices and arguments of external
functions were always printed by the built-in formatters.
---
 components/core/wf/code_generation/python_code_generator.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index 71a6149..09aaa65 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -352,8 +352,7 @@ std::string python_code_generator::operator()(const ast::branch& x) const {
 }
 
 std::string python_code_generator::operator()(const ast::call_external_function& x) const {
-  const std::string result = fmt::format("{}({})", x.function.name(),
-                                         fmt::join(x.args | std::views::transform(*this), ", "));
+  const std::string result = fmt::format("{}({})", x.function.name(), join(", ", x.args, *this));
   if (const matrix_type* mat = std::get_if<matrix_type>(&x.function.return_type());
       mat != nullptr) {
     return fmt::format("{}.asarray({}, dtype={}.{}).reshape({}, {})",
@@ -447,8 +446,7 @@ std::string python_code_generator::operator()(const ast::compare& x) const {
 
 std::string python_code_generator::operator()(const ast::construct_matrix& x) const {
   return fmt::format("{}([{}]).reshape({}, {})", python_matrix_constructor_from_target(target_),
-                     fmt::join(x.args | std::views::transform(*this), ", "), x.type.rows(),
-                     x.type.cols());
+                     join(", ", x.args, *this), x.type.rows(), x.type.cols());
 }
 
 std::string python_code_generator::operator()(const ast::construct_custom_type& x) const {
-- 
2.43.0

