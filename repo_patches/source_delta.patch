From 7197bb8e6ff6b3640b81e2e285258c688859c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:33 +0000
Subject: [PATCH 01/55] fix: keep the grouping of operands when printing
 expressions

---
 src/expr.cc | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index ced5806..0afc0a1 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1423,6 +1423,11 @@ std::shared_ptr<AssignStmt> Var::assign(Var &var, AssignmentType type) {
     return assign(var_ptr, type);
 }
 
+bool static is_associative_op(ExprOp op) {
+    return op == ExprOp::Add || op == ExprOp::Multiply || op == ExprOp::And || op == ExprOp::Or ||
+           op == ExprOp::Xor || op == ExprOp::LAnd || op == ExprOp::LOr;
+}
+
 std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle,
                                   bool ignore_top = false, Generator *scope = nullptr) {
     // overloaded to_string methods?
@@ -1438,9 +1443,14 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
     auto *left = expr->left;
     auto *right = expr->right;
 
+    // a - b - c is grouped to the left, so the left operand of the same operator doesn't need
+    // parentheses. the right one only goes without if the grouping doesn't matter. the operand of
+    // an unary operator always needs it, since e.g. --a or &&a is a different operator
+    bool const is_unary = right == nullptr;
     auto left_str = left->type() == VarType::Expression
-                        ? expr_to_string(left->as<Expr>().get(), expr->op == left->as<Expr>()->op,
-                                         use_handle, ignore_top, scope)
+                        ? expr_to_string(left->as<Expr>().get(),
+                                         !is_unary && expr->op == left->as<Expr>()->op, use_handle,
+                                         ignore_top, scope)
                         : (use_handle ? left->handle_name(ignore_top)
                            : scope    ? left->handle_name(scope)
                                       : left->to_string());
@@ -1448,8 +1458,10 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
     if (right != nullptr) {
         auto right_str =
             right->type() == VarType::Expression
-                ? expr_to_string(right->as<Expr>().get(), expr->op == right->as<Expr>()->op,
-                                 use_handle, ignore_top, scope)
+                ? expr_to_string(
+                      right->as<Expr>().get(),
+                      expr->op == right->as<Expr>()->op && is_associative_op(expr->op),
+                      use_handle, ignore_top, scope)
                 : (use_handle ? right->handle_name(ignore_top)
                    : scope    ? right->handle_name(scope)
                               : right->to_string());
@@ -1458,6 +1470,8 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
         else
             return ::format("({0} {1} {2})", left_str, ExprOpStr(expr->op), right_str);
     } else {
+        // negative constants
+        if (!left_str.empty() && left_str.front() == '-') left_str = ::format("({0})", left_str);
         if (is_top)
             return ::format("{0}{1}", ExprOpStr(expr->op), left_str);
         else
@@ -1809,12 +1823,16 @@ std::string ConditionalExpr::to_string() const {
 }
 
 std::string ConditionalExpr::handle_name(bool ignore_top) const {
-    return ::format("{0} ? {1}: {2}", condition->handle_name(ignore_top),
-                    left->handle_name(ignore_top), right->handle_name(ignore_top));
+    auto cond_str = condition->handle_name(ignore_top);
+    if (condition->type() == VarType::Expression) cond_str = ::format("({0})", cond_str);
+    return ::format("{0} ? {1}: {2}", cond_str, left->handle_name(ignore_top),
+                    right->handle_name(ignore_top));
 }
 
 std::string ConditionalExpr::handle_name(kratos::Generator *scope) const {
-    return ::format("{0} ? {1}: {2}", condition->handle_name(scope), left->handle_name(scope),
+    auto cond_str = condition->handle_name(scope);
+    if (condition->type() == VarType::Expression) cond_str = ::format("({0})", cond_str);
+    return ::format("{0} ? {1}: {2}", cond_str, left->handle_name(scope),
                     right->handle_name(scope));
 }
 
-- 
2.43.0


From 52a5b002234aa66098cc5bd66685d817f0401824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 02/55] fix: use the unary operator for negation and list
 reduction and as unary

---
 src/expr.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 0afc0a1..5c11fdd 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -44,8 +44,8 @@ bool is_expand_op(ExprOp op) {
 bool is_ternary_op(ExprOp op) { return op == ExprOp::Conditional; }
 
 bool is_unary_op(ExprOp op) {
-    static std::unordered_set<ExprOp> ops = {ExprOp::UXor,  ExprOp::UPlus, ExprOp::UOr,
-                                             ExprOp::UNot,  ExprOp::UXor,  ExprOp::UInvert,
+    static std::unordered_set<ExprOp> ops = {ExprOp::UXor, ExprOp::UPlus, ExprOp::UOr,
+                                             ExprOp::UNot, ExprOp::UAnd,  ExprOp::UInvert,
                                              ExprOp::UMinus};
     return ops.find(op) != ops.end();
 }
@@ -63,7 +63,7 @@ Expr &Var::operator-(const Var &var) const {
 }
 
 Expr &Var::operator-() const {
-    return generator()->expr(ExprOp::Minus, const_cast<Var *>(this), nullptr);
+    return generator()->expr(ExprOp::UMinus, const_cast<Var *>(this), nullptr);
 }
 
 Expr &Var::operator~() const {
-- 
2.43.0


From 4931fc3b3d039b8755f709295f1ede8d2c64e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 03/55] fix: report one-bit, shift and concatenation results
 with the width and sign they have in SystemVerilog

---
 src/analysis.cc |  7 +++----
 src/expr.cc     | 48 ++++++++++++++++++++++++++++++++----------------
 src/expr.hh     |  4 ++++
 src/sim.cc      | 11 ++++++++---
 4 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index ad58b54..11867e9 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -98,15 +98,14 @@ private:
             auto* left = expr->left;
             auto* right = expr->right;
             auto width = var->width();
-            bool is_relational = is_relational_op(expr->op);
-            bool is_reduction = is_reduction_op(expr->op);
+            bool is_bool = is_bool_op(expr->op);
             bool is_expand = is_expand_op(expr->op);
-            if (!is_relational && !is_reduction && left->width() != width && !is_expand) {
+            if (!is_bool && left->width() != width && !is_expand) {
                 throw VarException(::format("{0}'s width should be {1} but used as {2}",
                                             left->to_string(), left->width(), width),
                                    {var, left, stmt, left->width_param()});
             }
-            if (!is_relational && !is_reduction && right && right->width() != width && !is_expand) {
+            if (!is_bool && right && right->width() != width && !is_expand) {
                 throw VarException(::format("{0}'s width should be {1} but used as {2}",
                                             right->to_string(), right->width(), width),
                                    {var, right, stmt, right->width_param()});
diff --git a/src/expr.cc b/src/expr.cc
index 5c11fdd..c98c3cc 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -50,6 +50,17 @@ bool is_unary_op(ExprOp op) {
     return ops.find(op) != ops.end();
 }
 
+bool is_logical_op(ExprOp op) { return op == ExprOp::LAnd || op == ExprOp::LOr; }
+
+bool is_shift_op(ExprOp op) {
+    return op == ExprOp::ShiftLeft || op == ExprOp::SignedShiftRight ||
+           op == ExprOp::LogicalShiftRight;
+}
+
+bool is_bool_op(ExprOp op) {
+    return is_relational_op(op) || is_reduction_op(op) || is_logical_op(op);
+}
+
 uint32_t Var::width() const {
     uint32_t w = (width_param_ && type_ != VarType::Slice)
                      ? Simulator::static_evaluate_expr(width_param_)
@@ -747,10 +758,7 @@ Expr::Expr(ExprOp op, Var *left, Var *right)
       right(right) {
     assert(left->ir_node_kind() == IRNodeKind::VarKind);
     // notice that we allow shifting to have different size
-    if (right &&
-        (op == ExprOp::ShiftLeft || op == ExprOp::SignedShiftRight ||
-         op == ExprOp::LogicalShiftRight) &&
-        (left->width() > right->width())) {
+    if (right && is_shift_op(op) && (left->width() > right->width())) {
         // resize right
         resize_var(this, left->width(), right, false);
     } else if (right != nullptr && left->width() != right->width()) {
@@ -769,16 +777,19 @@ Expr::Expr(ExprOp op, Var *left, Var *right)
                 {left, right});
     }
 
-    // if it's a predicate/relational op, the width is one
-    if (is_relational_op(op) || is_reduction_op(op))
+    if (is_bool_op(op)) {
+        // predicate/relational/logical ops always produce a single unsigned bit
         var_width_ = 1;
-    else
-        var_width_ = left->var_width();
-
-    if (right != nullptr)
-        is_signed_ = left->is_signed() && right->is_signed();
-    else
-        is_signed_ = left->is_signed();
+        size_ = {1};
+        is_signed_ = false;
+    } else {
+        var_width_ = this->left->var_width();
+        if (right == nullptr || is_shift_op(op) || op == ExprOp::Power)
+            // the shift amount and the exponent are self-determined
+            is_signed_ = left->is_signed();
+        else
+            is_signed_ = left->is_signed() && right->is_signed();
+    }
     type_ = VarType::Expression;
     set_parent();
 
@@ -789,7 +800,7 @@ Expr::Expr(ExprOp op, Var *left, Var *right)
         throw VarException(::format("left is packed ({0}) but right is ({1})", left->is_packed(),
                                     right->is_packed()),
                            {left, right});
-    is_packed_ = left->is_packed();
+    is_packed_ = is_bool_op(op) || left->is_packed();
 }
 
 Expr::Expr(Var *left, Var *right)
@@ -804,7 +815,7 @@ Expr::Expr(Var *left, Var *right)
 }
 
 uint32_t Expr::width() const {
-    if (is_relational_op(op) || is_reduction_op(op)) return 1;
+    if (is_bool_op(op)) return 1;
     auto left_width = left->width();
     if (right) {
         auto right_width = right->width();
@@ -1291,13 +1302,15 @@ std::string VarConcat::handle_name(kratos::Generator *scope) const {
 
 VarConcat::VarConcat(const std::shared_ptr<VarConcat> &first, const std::shared_ptr<Var> &second)
     : Expr(first.get(), second.get()) {
-    if (first->is_signed_ != second->is_signed())
+    // notice that the concatenation itself is always unsigned
+    if (first->vars_.back()->is_signed() != second->is_signed())
         throw VarException(
             ::format("{0} is signed but {1} is not", first->to_string(), second->to_string()),
             {first.get(), second.get()});
     vars_ = std::vector<Var *>(first->vars_.begin(), first->vars_.end());
     vars_.emplace_back(second.get());
     var_width_ = first->width() + second->width();
+    is_signed_ = false;
     op = ExprOp::Concat;
 }
 
@@ -1309,6 +1322,7 @@ VarConcat::VarConcat(const std::shared_ptr<Var> &first, const std::shared_ptr<Va
             {first.get(), second.get()});
     vars_ = {first.get(), second.get()};
     var_width_ = first->width() + second->width();
+    is_signed_ = false;
     op = ExprOp::Concat;
 }
 
@@ -1367,6 +1381,7 @@ VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate,
     right = &c;
     // compute width
     var_width_ = count * var->width();
+    is_signed_ = false;
 }
 
 VarDuplicated::VarDuplicated(Var *var, const std::shared_ptr<Const> &count)
@@ -1374,6 +1389,7 @@ VarDuplicated::VarDuplicated(Var *var, const std::shared_ptr<Const> &count)
     right = count.get();
     // compute width
     var_width_ = static_cast<uint32_t>(count->value()) * var->width();
+    is_signed_ = false;
 }
 
 uint32_t VarDuplicated::width() const {
diff --git a/src/expr.hh b/src/expr.hh
index 708f64b..e5cc4f5 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -62,6 +62,10 @@ bool is_relational_op(ExprOp op);
 bool is_reduction_op(ExprOp op);
 bool is_expand_op(ExprOp op);
 bool is_unary_op(ExprOp op);
+bool is_logical_op(ExprOp op);
+bool is_shift_op(ExprOp op);
+// whether the operator always produces an unsigned one-bit result
+bool is_bool_op(ExprOp op);
 bool is_ternary_op(ExprOp op);
 
 enum class VarType { Base, Expression, Slice, ConstValue, PortIO, Parameter, BaseCasted, Iter };
diff --git a/src/sim.cc b/src/sim.cc
index 4232ae9..634acee 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -821,12 +821,17 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
                 if ((*right_val).size() > 1) throw std::runtime_error("Not implemented");
                 auto left_value = (*left_val)[0];
                 auto right_value = (*right_val)[0];
-                auto result = eval_bin_op(left_value, right_value, expr->op, expr->width(),
-                                          expr->is_signed());
+                // relational ops are evaluated with the type of the operands. their results are
+                // always one bit
+                auto width = expr->left->width();
+                bool signed_ = is_shift_op(expr->op)
+                                   ? expr->left->is_signed()
+                                   : expr->left->is_signed() && expr->right->is_signed();
+                auto result = eval_bin_op(left_value, right_value, expr->op, width, signed_);
                 return std::vector<uint64_t>{result};
             } else {
                 auto left_value = (*left_val)[0];
-                auto result = eval_unary_op(left_value, expr->op, expr->width());
+                auto result = eval_unary_op(left_value, expr->op, expr->left->width());
                 return std::vector<uint64_t>{result};
             }
         }
-- 
2.43.0


From 864362024931f1d478096a91f44cdf2460419f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 04/55] fix: evaluate every operator at its width and sign in
 the simulator

---
 src/eval.cc | 99 ++++++++++++++++++++++++++++++-----------------------
 src/sim.cc  |  3 ++
 2 files changed, 60 insertions(+), 42 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index a9360a4..d715bcd 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -1,14 +1,13 @@
 #include "eval.hh"
-#include <cmath>
+
+#include <stdexcept>
 
 namespace kratos {
 
 auto constexpr UINT64_WIDTH_ = 64;
 
 uint64_t invert(uint64_t value, uint32_t width) {
-    auto v = ~value;
-    v ^= UINT64_MASK << width;
-    return v;
+    return ~value & (UINT64_MASK >> (UINT64_WIDTH_ - width));
 }
 
 uint64_t two_complement(uint64_t value, uint32_t width) {
@@ -21,49 +20,70 @@ uint64_t truncate(uint64_t value, uint32_t width) {
 }
 
 uint64_t eval_unary_op(uint64_t value, ExprOp op, uint32_t width) {
-    switch(op) {
+    value = truncate(value, width);
+    switch (op) {
         case ExprOp::UMinus:
             return two_complement(value, width);
         case ExprOp::UAnd:
-            return static_cast<uint32_t>(__builtin_popcount(value)) == width;
+            return value == (UINT64_MASK >> (UINT64_WIDTH_ - width));
         case ExprOp::UInvert:
             return invert(value, width);
         case ExprOp::UNot:
-             return !value;
+            return !value;
         case ExprOp::UOr:
             return (bool)(value);
         case ExprOp::UPlus:
             return value;
         case ExprOp::UXor: {
-            return __builtin_popcount(value) % 2;
+            return __builtin_parityll(value);
         }
-        default: throw std::runtime_error("Not implemented");
+        default:
+            throw std::runtime_error("Not implemented");
     }
 }
 
+static uint64_t power(uint64_t base, uint64_t exponent) {
+    // wraps around at 64 bits, which truncates properly to any smaller width
+    uint64_t result = 1;
+    while (exponent) {
+        if (exponent & 1u) result *= base;
+        base *= base;
+        exponent >>= 1u;
+    }
+    return result;
+}
+
 uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint32_t width,
                      bool signed_) {
+    auto const mask = UINT64_MASK >> (UINT64_WIDTH_ - width);
+    left_value &= mask;
+    right_value &= mask;
     bool left_negative = signed_ && left_value >> (width - 1);
     bool right_negative = signed_ && right_value >> (width - 1);
     uint64_t left_abs_value = left_negative ? two_complement(left_value, width) : left_value;
     uint64_t right_abs_value = right_negative ? two_complement(right_value, width) : right_value;
-    uint64_t signed_bit = static_cast<uint64_t>(left_negative ^ right_negative) << (width - 1);
-    auto const mask = UINT64_MASK >> (64u - width);
+    bool const less = left_negative != right_negative ? left_negative : left_value < right_value;
     uint64_t result;
     switch (op) {
         case ExprOp::Add:
             result = left_value + right_value;
             break;
         case ExprOp::Minus:
-            result = (left_value - right_value) & mask;
+            result = left_value - right_value;
             break;
         case ExprOp::Multiply:
-            result = left_abs_value * right_abs_value;
-            if (signed_bit) result = two_complement(result, width);
+            result = left_value * right_value;
             break;
         case ExprOp::Divide:
+            if (right_value == 0) throw std::runtime_error("Divide by zero");
             result = left_abs_value / right_abs_value;
-            if (signed_bit) result = two_complement(result, width);
+            if (left_negative != right_negative) result = -result;
+            break;
+        case ExprOp::Mod:
+            // takes the sign of the left operand
+            if (right_value == 0) throw std::runtime_error("Divide by zero");
+            result = left_abs_value % right_abs_value;
+            if (left_negative) result = -result;
             break;
         case ExprOp::And:
             result = left_value & right_value;
@@ -74,49 +94,44 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
         case ExprOp::Xor:
             result = left_value ^ right_value;
             break;
+        case ExprOp::LAnd:
+            return left_value && right_value;
+        case ExprOp::LOr:
+            return left_value || right_value;
         case ExprOp::Eq:
-            result = left_value == right_value;
-            break;
+            return left_value == right_value;
+        case ExprOp::Neq:
+            return left_value != right_value;
         case ExprOp::Power:
-            result = static_cast<uint64_t>(std::pow(left_value, right_value));
+            result = power(left_value, right_value);
             break;
         case ExprOp::GreaterEqThan:
-            result = left_abs_value >= right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? false
-                         : !left_negative && right_negative ? true : result ^ left_negative;
-            break;
+            return !less;
         case ExprOp::LessEqThan:
-            result = left_abs_value <= right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? true
-                         : !left_negative && right_negative ? false : result ^ left_negative;
-            break;
+            return less || left_value == right_value;
         case ExprOp::LessThan:
-            result = left_abs_value < right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? true
-                         : !left_negative && right_negative ? false : result ^ left_negative;
-            break;
+            return less;
         case ExprOp ::GreaterThan:
-            result = left_abs_value > right_abs_value;
-            result = (left_negative && !right_negative)
-                         ? false
-                         : !left_negative && right_negative ? true : result ^ left_negative;
+            return !less && left_value != right_value;
+        case ExprOp::ShiftLeft:
+            result = right_value >= width ? 0 : left_value << right_value;
             break;
         case ExprOp::SignedShiftRight:
-            result = left_abs_value >> right_value;
-            if (left_negative) result |= UINT64_MASK << (width - 1 - right_value);
+            if (right_value >= width) {
+                result = left_negative ? mask : 0;
+            } else {
+                result = left_value >> right_value;
+                if (left_negative) result |= mask & ~(mask >> right_value);
+            }
             break;
         case ExprOp::LogicalShiftRight:
-            result = left_value >> right_value;
+            result = right_value >= width ? 0 : left_value >> right_value;
             break;
         default: {
             throw std::runtime_error("Not implemented");
         }
     }
-    result = result & (UINT64_MASK >> (64 - width));
-    return result;
+    return result & mask;
 }
 
 uint64_t eval_ternary_op(bool predicate, uint64_t left_value, uint64_t right_value,
diff --git a/src/sim.cc b/src/sim.cc
index 634acee..376010f 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -821,6 +821,9 @@ std::optional<std::vector<uint64_t>> Simulator::eval_expr(const kratos::Var *var
                 if ((*right_val).size() > 1) throw std::runtime_error("Not implemented");
                 auto left_value = (*left_val)[0];
                 auto right_value = (*right_val)[0];
+                // the result is unknown
+                if ((expr->op == ExprOp::Divide || expr->op == ExprOp::Mod) && right_value == 0)
+                    return std::nullopt;
                 // relational ops are evaluated with the type of the operands. their results are
                 // always one bit
                 auto width = expr->left->width();
-- 
2.43.0


From 76247739d0b147c4ad57cf26a08da09bd9523359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 05/55] fix: only resize operands that fit and never change a
 shared constant in place

---
 src/expr.cc | 43 +++++++++++++++++++++++++++++--------------
 src/stmt.cc |  9 ++++++++-
 2 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index c98c3cc..ab6ac7b 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -5,6 +5,7 @@
 #include <iostream>
 #include <queue>
 #include <stdexcept>
+#include <typeinfo>
 #include <utility>
 
 #include "except.hh"
@@ -61,6 +62,11 @@ bool is_bool_op(ExprOp op) {
     return is_relational_op(op) || is_reduction_op(op) || is_logical_op(op);
 }
 
+// a number that can be represented at a different width, i.e. not an enum value or a string
+static bool is_plain_const(const Var *var) {
+    return typeid(*var) == typeid(Const) && !reinterpret_cast<const Const *>(var)->is_bignum();
+}
+
 uint32_t Var::width() const {
     uint32_t w = (width_param_ && type_ != VarType::Slice)
                      ? Simulator::static_evaluate_expr(width_param_)
@@ -736,17 +742,20 @@ std::string VarVarSlice::to_string() const {
 }
 
 void resize_var(Expr *expr, uint32_t target_width, Var *var, bool left) {
-    if (var->type() == VarType::ConstValue) {
-        var->var_width() = target_width;
+    Var *new_var;
+    if (is_plain_const(var)) {
+        // the constant can be used somewhere else, hence cannot change its width in place
+        auto *c = reinterpret_cast<Const *>(var);
+        new_var = &Const::constant(c->value(), target_width, c->is_signed());
     } else {
-        auto new_var = var->cast(VarCastType::Resize);
-        auto var_casted = new_var->as<VarCasted>();
+        auto var_casted = var->cast(VarCastType::Resize)->as<VarCasted>();
         var_casted->set_target_width(target_width);
-        if (left) {
-            expr->left = var_casted.get();
-        } else {
-            expr->right = var_casted.get();
-        }
+        new_var = var_casted.get();
+    }
+    if (left) {
+        expr->left = new_var;
+    } else {
+        expr->right = new_var;
     }
 }
 
@@ -2183,11 +2192,7 @@ bool safe_to_resize_(Simulator &sim, const Var *var, uint32_t target_size, bool
                      std::queue<const IterVar *> &vars) {
     // notice it's exclusive for max
     if (vars.empty()) {
-        const auto *p = var->get_var_root_parent();
-        if (p->type() == VarType::Base || p->type() == VarType::PortIO)
-            return var->width() <= target_size;
-        else
-            return true;
+        return true;
     } else {
         // pop one
         auto *t = const_cast<IterVar *>(vars.front());
@@ -2221,6 +2226,16 @@ bool safe_to_resize_(Simulator &sim, const Var *var, uint32_t target_size, bool
 bool IterVar::safe_to_resize(const Var *var, uint32_t target_size, bool is_signed) {
     std::vector<const IterVar *> iters;
     extract_iter_var(var, iters);
+    if (iters.empty()) {
+        // the value of a parameter is only known after elaboration
+        if (var->type() == VarType::Parameter) return true;
+        if (is_plain_const(var)) {
+            auto const *c = reinterpret_cast<const Const *>(var);
+            return Const::is_legal(c->value(), target_size, c->is_signed()) ==
+                   Const::ConstantLegal::Legal;
+        }
+        return var->width() <= target_size;
+    }
     // brute-force to compute every possible combinations using simulator
     static Simulator sim(nullptr);
     // We did some hacks that, assuming the min and max value is at the boundary
diff --git a/src/stmt.cc b/src/stmt.cc
index c2cc026..a85e6a8 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <typeinfo>
 
 #include "except.hh"
 #include "fmt/format.h"
@@ -151,7 +152,13 @@ AssignStmt::AssignStmt(const std::shared_ptr<Var> &left, std::shared_ptr<Var> ri
             if (Const::is_legal(const_->value(), left->width(), left->is_signed()) ==
                 Const::ConstantLegal::Legal) {
                 has_error = false;
-                const_->set_width(left->width());
+                if (typeid(*const_) == typeid(Const) && !const_->is_bignum()) {
+                    // the constant can be used somewhere else, hence cannot change it in place
+                    right = constant(const_->value(), left->width(), const_->is_signed())
+                                .shared_from_this();
+                } else {
+                    const_->set_width(left->width());
+                }
             }
         } else if (IterVar::has_iter_var(right.get())) {
             // need to resize it
-- 
2.43.0


From 927e088e418ad486a573ad5cb76d8def5142ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 06/55] fix: report the width and sign of a cast properly

---
 src/expr.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/expr.cc b/src/expr.cc
index ab6ac7b..88708b8 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1035,7 +1035,7 @@ std::unordered_set<std::shared_ptr<Const>> Const::consts_ = {};
 std::shared_ptr<Generator> Const::const_generator_ = nullptr;
 
 VarCasted::VarCasted(Var *parent, VarCastType cast_type)
-    : Var(parent->generator(), "", parent->width(), parent->size(), false, parent->type()),
+    : Var(parent->generator(), "", parent->width(), 1, false, parent->type()),
       parent_var_(parent),
       cast_type_(cast_type) {
     type_ = VarType::BaseCasted;
@@ -1043,6 +1043,9 @@ VarCasted::VarCasted(Var *parent, VarCastType cast_type)
         is_signed_ = true;
     } else if (cast_type_ == VarCastType::Unsigned) {
         is_signed_ = false;
+    } else if (cast_type_ == VarCastType::Resize) {
+        // changing the width keeps the sign
+        is_signed_ = parent->is_signed();
     } else if (cast_type_ == VarCastType::AsyncReset || cast_type_ == VarCastType::Clock) {
         if (parent->size().size() != 1 || parent->size().front() != 1) {
             throw VarException(::format("Can only cast bit width 1 to "
-- 
2.43.0


From 7a101c27f953e8e1f1701914479c8f5025eb2b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 07/55] fix: refuse selects of unnamed values and print signed
 constant operands as signed literals

---
 src/expr.cc | 59 +++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 88708b8..e26eb3b 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -8,6 +8,7 @@
 #include <typeinfo>
 #include <utility>
 
+#include "eval.hh"
 #include "except.hh"
 #include "fmt/format.h"
 #include "generator.hh"
@@ -67,6 +68,8 @@ static bool is_plain_const(const Var *var) {
     return typeid(*var) == typeid(Const) && !reinterpret_cast<const Const *>(var)->is_bignum();
 }
 
+static std::string operand_to_string(const Var *var, const std::string &str);
+
 uint32_t Var::width() const {
     uint32_t w = (width_param_ && type_ != VarType::Slice)
                      ? Simulator::static_evaluate_expr(width_param_)
@@ -199,7 +202,25 @@ Expr &Var::duplicate(const std::shared_ptr<Const> &count) const {
     return *expr;
 }
 
+// a select can only be applied to a name or a concatenation
+static void check_selectable(Var *var) {
+    bool selectable = true;
+    if (var->type() == VarType::Expression) {
+        auto op = reinterpret_cast<Expr *>(var)->op;
+        selectable = op == ExprOp::Concat || op == ExprOp::Duplicate;
+    } else if (var->type() == VarType::ConstValue) {
+        selectable = false;
+    } else if (var->type() == VarType::BaseCasted) {
+        auto cast_type = reinterpret_cast<VarCasted *>(var)->cast_type();
+        selectable = cast_type != VarCastType::Signed && cast_type != VarCastType::Unsigned &&
+                     cast_type != VarCastType::Enum && cast_type != VarCastType::Resize;
+    }
+    if (!selectable)
+        throw VarException(::format("Cannot select bits from {0}", var->to_string()), {var});
+}
+
 VarSlice &Var::operator[](std::pair<uint32_t, uint32_t> slice) {
+    check_selectable(this);
     auto const [high, low] = slice;
     if (low > high) {
         throw VarException(::format("low ({0}) cannot be larger than ({1})", low, high), {this});
@@ -249,6 +270,7 @@ VarSlice &Var::operator[](std::pair<uint32_t, uint32_t> slice) {
 }
 
 VarSlice &Var::operator[](const std::shared_ptr<Var> &var) {
+    check_selectable(this);
     // if there is one already
     for (auto const &s : slices_) {
         if (s->sliced_by_var()) {
@@ -1385,7 +1407,7 @@ void VarExtend::replace_var(const std::shared_ptr<Var> &target, const std::share
 }
 
 std::string VarExtend::to_string() const {
-    return ::format("{0}'({1})", width(), parent_->to_string());
+    return ::format("{0}'({1})", width(), operand_to_string(parent_, parent_->to_string()));
 }
 
 VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate, var, nullptr) {
@@ -1456,6 +1478,14 @@ bool static is_associative_op(ExprOp op) {
            op == ExprOp::Xor || op == ExprOp::LAnd || op == ExprOp::LOr;
 }
 
+// a literal is unsigned unless specified otherwise, which makes the entire expression unsigned.
+// it's always written as a bit pattern since e.g. -4'sh8 is positive once it's extended
+static std::string operand_to_string(const Var *var, const std::string &str) {
+    if (!is_plain_const(var) || !var->is_signed() || var->width() > 64) return str;
+    auto value = static_cast<uint64_t>(reinterpret_cast<const Const *>(var)->value());
+    return ::format("{0}'sh{1:X}", var->width(), truncate(value, var->width()));
+}
+
 std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle,
                                   bool ignore_top = false, Generator *scope = nullptr) {
     // overloaded to_string methods?
@@ -1479,9 +1509,9 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
                         ? expr_to_string(left->as<Expr>().get(),
                                          !is_unary && expr->op == left->as<Expr>()->op, use_handle,
                                          ignore_top, scope)
-                        : (use_handle ? left->handle_name(ignore_top)
-                           : scope    ? left->handle_name(scope)
-                                      : left->to_string());
+                        : operand_to_string(left, use_handle ? left->handle_name(ignore_top)
+                                                  : scope    ? left->handle_name(scope)
+                                                             : left->to_string());
 
     if (right != nullptr) {
         auto right_str =
@@ -1490,15 +1520,15 @@ std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle
                       right->as<Expr>().get(),
                       expr->op == right->as<Expr>()->op && is_associative_op(expr->op),
                       use_handle, ignore_top, scope)
-                : (use_handle ? right->handle_name(ignore_top)
-                   : scope    ? right->handle_name(scope)
-                              : right->to_string());
+                : operand_to_string(right, use_handle ? right->handle_name(ignore_top)
+                                           : scope    ? right->handle_name(scope)
+                                                      : right->to_string());
         if (is_top)
             return ::format("{0} {1} {2}", left_str, ExprOpStr(expr->op), right_str);
         else
             return ::format("({0} {1} {2})", left_str, ExprOpStr(expr->op), right_str);
     } else {
-        // negative constants
+        // negative big numbers
         if (!left_str.empty() && left_str.front() == '-') left_str = ::format("({0})", left_str);
         if (is_top)
             return ::format("{0}{1}", ExprOpStr(expr->op), left_str);
@@ -1847,21 +1877,24 @@ std::string ConditionalExpr::to_string() const {
     std::string cond_str = condition->type() == VarType::Expression
                                ? ::format("({0})", condition->to_string())
                                : condition->to_string();
-    return ::format("{0} ? {1}: {2}", cond_str, left->to_string(), right->to_string());
+    return ::format("{0} ? {1}: {2}", cond_str, operand_to_string(left, left->to_string()),
+                    operand_to_string(right, right->to_string()));
 }
 
 std::string ConditionalExpr::handle_name(bool ignore_top) const {
     auto cond_str = condition->handle_name(ignore_top);
     if (condition->type() == VarType::Expression) cond_str = ::format("({0})", cond_str);
-    return ::format("{0} ? {1}: {2}", cond_str, left->handle_name(ignore_top),
-                    right->handle_name(ignore_top));
+    return ::format("{0} ? {1}: {2}", cond_str,
+                    operand_to_string(left, left->handle_name(ignore_top)),
+                    operand_to_string(right, right->handle_name(ignore_top)));
 }
 
 std::string ConditionalExpr::handle_name(kratos::Generator *scope) const {
     auto cond_str = condition->handle_name(scope);
     if (condition->type() == VarType::Expression) cond_str = ::format("({0})", cond_str);
-    return ::format("{0} ? {1}: {2}", cond_str, left->handle_name(scope),
-                    right->handle_name(scope));
+    return ::format("{0} ? {1}: {2}", cond_str,
+                    operand_to_string(left, left->handle_name(scope)),
+                    operand_to_string(right, right->handle_name(scope)));
 }
 
 std::shared_ptr<ConditionalExpr> ConditionalExpr::create(const std::shared_ptr<Var> &condition,
-- 
2.43.0


From f3a8f622384de1947aa122597d36f53741819f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 08/55] fix: extend the value of an expression, not the
 expression, and print handle names of extensions

---
 src/expr.cc | 39 +++++++++++++++++++++++++++++++++++++--
 src/expr.hh |  4 ++++
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index e26eb3b..a75ac7b 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -69,6 +69,7 @@ static bool is_plain_const(const Var *var) {
 }
 
 static std::string operand_to_string(const Var *var, const std::string &str);
+static std::string self_determined_to_string(const Var *var, const std::string &str);
 
 uint32_t Var::width() const {
     uint32_t w = (width_param_ && type_ != VarType::Slice)
@@ -1098,7 +1099,11 @@ std::string VarCasted::to_string() const {
         auto const &enum_name = enum_type_->name;
         return ::format("{0}'({1})", enum_name, parent_var_->to_string());
     } else if (cast_type_ == VarCastType::Resize) {
-        return ::format("{0}'({1})", target_width_, parent_var_->to_string());
+        // whoever resizes an expression with loop variables has checked that nothing is lost
+        if (IterVar::has_iter_var(parent_var_))
+            return ::format("{0}'({1})", target_width_, parent_var_->to_string());
+        return ::format("{0}'({1})", target_width_,
+                        self_determined_to_string(parent_var_, parent_var_->to_string()));
     } else {
         return parent_var_->to_string();
     }
@@ -1407,7 +1412,18 @@ void VarExtend::replace_var(const std::shared_ptr<Var> &target, const std::share
 }
 
 std::string VarExtend::to_string() const {
-    return ::format("{0}'({1})", width(), operand_to_string(parent_, parent_->to_string()));
+    return ::format("{0}'({1})", width(),
+                    self_determined_to_string(parent_, parent_->to_string()));
+}
+
+std::string VarExtend::handle_name(bool ignore_top) const {
+    return ::format("{0}'({1})", width(),
+                    self_determined_to_string(parent_, parent_->handle_name(ignore_top)));
+}
+
+std::string VarExtend::handle_name(kratos::Generator *scope) const {
+    return ::format("{0}'({1})", width(),
+                    self_determined_to_string(parent_, parent_->handle_name(scope)));
 }
 
 VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate, var, nullptr) {
@@ -1452,6 +1468,14 @@ std::string VarDuplicated::to_string() const {
     return fmt::format("{{{0}{{{1}}}}}", right->to_string(), left->to_string());
 }
 
+std::string VarDuplicated::handle_name(bool ignore_top) const {
+    return fmt::format("{{{0}{{{1}}}}}", right->to_string(), left->handle_name(ignore_top));
+}
+
+std::string VarDuplicated::handle_name(kratos::Generator *scope) const {
+    return fmt::format("{{{0}{{{1}}}}}", right->to_string(), left->handle_name(scope));
+}
+
 std::string Const::to_string() const {
     if (num_bits_ != 0) {
         // very big number
@@ -1486,6 +1510,17 @@ static std::string operand_to_string(const Var *var, const std::string &str) {
     return ::format("{0}'sh{1:X}", var->width(), truncate(value, var->width()));
 }
 
+// a size cast evaluates its operand at the new width. if that changes the result, we need to make
+// sure the operand is evaluated at its own width first
+static std::string self_determined_to_string(const Var *var, const std::string &str) {
+    if (var->type() == VarType::Expression) {
+        auto op = reinterpret_cast<const Expr *>(var)->op;
+        if (!is_bool_op(op) && !is_expand_op(op))
+            return ::format("{0}'({1})", var->is_signed() ? "signed" : "unsigned", str);
+    }
+    return operand_to_string(var, str);
+}
+
 std::string inline expr_to_string(const Expr *expr, bool is_top, bool use_handle,
                                   bool ignore_top = false, Generator *scope = nullptr) {
     // overloaded to_string methods?
diff --git a/src/expr.hh b/src/expr.hh
index e5cc4f5..d5676bc 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -713,6 +713,8 @@ public:
     IRNode *get_child(uint64_t index) override { return index == 0 ? parent_ : nullptr; }
 
     std::string to_string() const override;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
     Var *parent_var() const { return parent_; }
 
 private:
@@ -731,6 +733,8 @@ public:
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override;
 
     std::string to_string() const override;
+    std::string handle_name(bool ignore_top) const override;
+    std::string handle_name(Generator *scope) const override;
 };
 
 struct ConditionalExpr : public Expr {
-- 
2.43.0


From 2fd1902423bbbffe3b58781037cd3f5c86d69de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:33 +0000
Subject: [PATCH 09/55] fix: accept signed conditions and case selectors

---
 src/generator.cc | 11 ++++++-----
 src/generator.hh |  2 +-
 src/stmt.cc      | 16 ++++++++++++----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index 0d8d45b..e16aec3 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -1347,17 +1347,18 @@ std::string Generator::handle_name(bool ignore_top) const {
 }
 
 std::shared_ptr<Var> Generator::get_auxiliary_var(uint32_t width, bool signed_) {
-    if (auxiliary_vars_.find(width) != auxiliary_vars_.end()) {
-        return auxiliary_vars_.at(width);
+    auto const key = std::make_pair(width, signed_);
+    if (auxiliary_vars_.find(key) != auxiliary_vars_.end()) {
+        return auxiliary_vars_.at(key);
     }
     auto v = std::make_shared<Var>(this, "", width, 1, signed_);
-    auxiliary_vars_.emplace(width, v);
+    auxiliary_vars_.emplace(key, v);
     return v;
 }
 
 bool Generator::is_auxiliary_var(const std::shared_ptr<Var> &var) {
-    return auxiliary_vars_.find(var->width()) != auxiliary_vars_.end() &&
-           auxiliary_vars_.at(var->width()) == var;
+    auto const key = std::make_pair(var->width(), var->is_signed());
+    return auxiliary_vars_.find(key) != auxiliary_vars_.end() && auxiliary_vars_.at(key) == var;
 }
 
 }  // namespace kratos
diff --git a/src/generator.hh b/src/generator.hh
index 3e9bdcc..47978f3 100644
--- a/src/generator.hh
+++ b/src/generator.hh
@@ -331,7 +331,7 @@ private:
     // cloned ref
     Generator *def_instance_ = nullptr;
     // auxiliary var
-    std::unordered_map<uint32_t, std::shared_ptr<Var>> auxiliary_vars_;
+    std::map<std::pair<uint32_t, bool>, std::shared_ptr<Var>> auxiliary_vars_;
     // interfaces
     std::map<std::string, std::shared_ptr<InterfaceRef>> interfaces_;
     // properties
diff --git a/src/stmt.cc b/src/stmt.cc
index a85e6a8..cfb4867 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -245,7 +245,9 @@ IfStmt::IfStmt(std::shared_ptr<Var> predicate)
 
     // just to add the sinks
     predicate_stmt_ =
-        predicate_->generator()->get_auxiliary_var(predicate_->width())->assign(predicate_);
+        predicate_->generator()
+            ->get_auxiliary_var(predicate_->width(), predicate_->is_signed())
+            ->assign(predicate_);
     predicate_stmt_->set_parent(this);
 }
 
@@ -254,7 +256,9 @@ void IfStmt::set_predicate(const std::shared_ptr<Var> &var) {
     assert(var->ir_node_kind() == IRNodeKind::VarKind);
     predicate_ = var;
     predicate_stmt_ =
-        predicate_->generator()->get_auxiliary_var(predicate_->width())->assign(predicate_);
+        predicate_->generator()
+            ->get_auxiliary_var(predicate_->width(), predicate_->is_signed())
+            ->assign(predicate_);
     predicate_stmt_->set_parent(this);
 }
 
@@ -534,14 +538,18 @@ SwitchStmt::SwitchStmt(Var &target)
                             {this, &target});
 
     // just to add the sinks
-    target_stmt_ = target.generator()->get_auxiliary_var(target.width())->assign(target);
+    target_stmt_ = target.generator()
+                       ->get_auxiliary_var(target.width(), target.is_signed())
+                       ->assign(target);
     target_stmt_->set_parent(this);
 }
 
 void SwitchStmt::set_target(const std::shared_ptr<Var> &target) {
     target_stmt_->clear();
     target_ = target;
-    target_stmt_ = target->generator()->get_auxiliary_var(target->width())->assign(target);
+    target_stmt_ = target->generator()
+                       ->get_auxiliary_var(target->width(), target->is_signed())
+                       ->assign(target);
     target_stmt_->set_parent(this);
 }
 
-- 
2.43.0


From d75e52ff6b14197adba0ff7c23ba07ed065c330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 10/55] fix: strip newlines only, and all of them, from
 comments

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 46b33e7..6a9d672 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -225,7 +225,7 @@ std::string port_type_to_str(PortType type) {
 
 std::string strip_newline(std::string &str) {
     std::string::size_type pos = 0;
-    while ((pos = str.find('\n', pos) != std::string::npos)) str.erase(pos, 1);
+    while ((pos = str.find('\n', pos)) != std::string::npos) str.erase(pos, 1);
     return str;
 }
 
-- 
2.43.0


From 180de975ea7cc1852075dad532e6695489243e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:46 +0000
Subject: [PATCH 11/55] fix: declare the sign of a function and count the line
 of one without arguments

---
 src/codegen.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index c4fd39d..935ff31 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -652,10 +652,14 @@ void SystemVerilogCodeGen::stmt_code(kratos::FunctionStmtBlock* stmt) {
         if (stmt->has_return_value()) {
             auto handler = stmt->function_handler();
             auto width = 32u;
+            bool is_signed = false;
             if (handler) {
                 width = handler->width();
+                is_signed = handler->is_signed();
             }
-            return_str = "logic" + get_width_str(width) + " ";
+            return_str = "logic";
+            if (is_signed) return_str.append(" signed ");
+            return_str.append(get_width_str(width)).append(" ");
         } else {
             return_str = "void ";
         }
@@ -664,7 +668,7 @@ void SystemVerilogCodeGen::stmt_code(kratos::FunctionStmtBlock* stmt) {
 
     stream_ << stmt->function_name();
     if (stmt->ports().empty()) {
-        stream_ << ";" << std::endl;
+        stream_ << ";" << stream_.endl();
     } else {
         stream_ << "(" << stream_.endl();
     }
-- 
2.43.0


From be1a7eb1976fccd9af4b1bcb1d64451400814d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:51 +0000
Subject: [PATCH 12/55] fix: resize loop indices without changing shared
 operands, keep them unsigned, and count loops down properly

---
 src/codegen.cc |   2 +-
 src/expr.cc    | 137 +++++++++++++++++++++++++------------------------
 src/stmt.cc    |  10 +++-
 3 files changed, 78 insertions(+), 71 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index 935ff31..694bf7a 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -966,7 +966,7 @@ void SystemVerilogCodeGen::stmt_code(kratos::ForStmt* stmt) {
 
     stream_ << indent() << "for (" << var_decl_str << " = ";
     stream_ << ::format("{0}", stmt->start()) << "; " << stream_.var_str(iter)
-            << (stmt->end() > stmt->start() ? " < " : " > ");
+            << (stmt->step() > 0 ? " < " : " > ");
     stream_ << ::format("{0}", stmt->end()) << "; " << stream_.var_str(iter)
             << (stmt->step() > 0 ? " += " : " -= ");
     stream_ << ::format("{0}", std::abs(stmt->step())) << ") ";
diff --git a/src/expr.cc b/src/expr.cc
index a75ac7b..553dbcc 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -726,6 +726,9 @@ VarVarSlice::VarVarSlice(kratos::Var *parent, kratos::Var *slice)
         if (IterVar::has_iter_var(sliced_var_)) {
             if (IterVar::safe_to_resize(sliced_var_, required_width, false)) {
                 IterVar::fix_width(sliced_var_, required_width);
+                // all the values are non-negative, but they may not be once signed again
+                if (sliced_var_->is_signed())
+                    sliced_var_ = sliced_var_->cast(VarCastType::Unsigned).get();
                 has_error = false;
             }
         }
@@ -2260,38 +2263,24 @@ std::optional<int64_t> convert_value(const Var *var,
 }
 
 bool safe_to_resize_(Simulator &sim, const Var *var, uint32_t target_size, bool is_signed,
-                     std::queue<const IterVar *> &vars) {
+                     const std::vector<const IterVar *> &iters, uint64_t index, bool boundary) {
+    if (index == iters.size()) {
+        auto v = sim.eval_expr(var);
+        auto num = convert_value(var, v);
+        if (!num) return false;
+        return Const::is_legal(*num, target_size, is_signed) == Const::ConstantLegal::Legal;
+    }
+    auto const *iter = iters[index];
     // notice it's exclusive for max
-    if (vars.empty()) {
-        return true;
-    } else {
-        // pop one
-        auto *t = const_cast<IterVar *>(vars.front());
-        vars.pop();
-        sim.set_i(t, t->min_value(), false);
-        {
-            auto v = sim.eval_expr(var);
-            auto num = convert_value(var, v);
-            if (!num) return false;
-            auto result =
-                Const::is_legal(*num, target_size, is_signed) == Const::ConstantLegal::Legal;
-            if (!result) return false;
-        }
-        // notice it's exclusive for max
-        sim.set_i(t, t->max_value() - 1, false);
-        {
-            auto v = sim.eval_expr(var);
-            auto num = convert_value(var, v);
-            if (!num) return false;
-            auto result =
-                Const::is_legal(*num, target_size, is_signed) == Const::ConstantLegal::Legal;
-            if (!result) return false;
-        }
-        auto r = safe_to_resize_(sim, var, target_size, is_signed, vars);
-        // put it back for backtracking
-        vars.push(t);
-        return r;
+    auto const min = iter->min_value();
+    auto const max = std::max(iter->max_value() - 1, min);
+    auto const step = boundary ? std::max<int64_t>(max - min, 1) : 1;
+    for (auto i = min; i <= max; i += step) {
+        sim.set_i(iter, i, false);
+        if (!safe_to_resize_(sim, var, target_size, is_signed, iters, index + 1, boundary))
+            return false;
     }
+    return true;
 }
 
 bool IterVar::safe_to_resize(const Var *var, uint32_t target_size, bool is_signed) {
@@ -2307,19 +2296,21 @@ bool IterVar::safe_to_resize(const Var *var, uint32_t target_size, bool is_signe
         }
         return var->width() <= target_size;
     }
+    std::sort(iters.begin(), iters.end());
+    iters.erase(std::unique(iters.begin(), iters.end()), iters.end());
     // brute-force to compute every possible combinations using simulator
     static Simulator sim(nullptr);
-    // We did some hacks that, assuming the min and max value is at the boundary
+    // if there are too many of them, assume that the min and max value is at the boundary
     // maybe use an SMT solver?
-    std::queue<const IterVar *> queue;
-    for (auto const &v : iters) {
-        sim.set_i(v, v->max_value() - 1, false);
-        queue.emplace(v);
+    constexpr uint64_t max_combinations = 1u << 14u;
+    uint64_t combinations = 1;
+    for (auto const *v : iters) {
+        auto const range = static_cast<uint64_t>(std::max<int64_t>(v->max_value() - v->min_value(), 1));
+        combinations = range > max_combinations ? range : combinations * range;
+        if (combinations > max_combinations) break;
     }
-
-    auto result = safe_to_resize_(sim, var, target_size, is_signed, queue);
-
-    return result;
+    return safe_to_resize_(sim, var, target_size, is_signed, iters, 0,
+                           combinations > max_combinations);
 }
 
 bool IterVar::has_iter_var(const Var *var) {
@@ -2336,28 +2327,40 @@ bool IterVar::has_iter_var(const Var *var) {
 }
 
 void IterVar::fix_width(Var *&var, uint32_t target_width) {
-    if (var && var->type() == VarType::Iter) {
-        auto *iter = reinterpret_cast<IterVar *>(var);
-        auto casted = iter->cast(VarCastType::Resize)->as<VarCasted>();
-        casted->set_target_width(target_width);
-        var = casted.get();
-    } else if (var && var->type() == VarType::ConstValue) {
-        auto *c = reinterpret_cast<Const *>(var);
-        c->set_width(target_width);
-    } else if (var && var->type() == VarType::Parameter) {
+    if (!var) return;
+    if (is_plain_const(var)) {
+        // the constant can be used somewhere else, hence cannot change its width in place
+        auto const *c = reinterpret_cast<Const *>(var);
+        if (Const::is_legal(c->value(), target_width, c->is_signed()) ==
+            Const::ConstantLegal::Legal) {
+            var = &Const::constant(c->value(), target_width, c->is_signed());
+            return;
+        }
+    } else if (var->type() == VarType::Parameter) {
         auto *c = reinterpret_cast<Param *>(var);
         c->set_width(target_width);
-    } else if (var && var->type() == VarType::Expression) {
-        auto *expr = reinterpret_cast<Expr *>(var);
-        fix_width(expr->left, target_width);
-        fix_width(expr->right, target_width);
-    } else {
-        // LCOV_EXCL_START
-        if (var) {
-            throw InternalException("Unable to fix width for " + var->handle_name());
+        return;
+    } else if (var->type() == VarType::Expression) {
+        auto *expr = dynamic_cast<Expr *>(var);
+        static const std::unordered_set<ExprOp> modular_ops = {
+            ExprOp::Add, ExprOp::Minus, ExprOp::Multiply, ExprOp::UMinus, ExprOp::UInvert,
+            ExprOp::And, ExprOp::Or,    ExprOp::Xor};
+        // the low bits of these only depend on the low bits of the operands. the expression can be
+        // used somewhere else as well, hence a new one is needed
+        if (expr && modular_ops.find(expr->op) != modular_ops.end()) {
+            auto *left = expr->left;
+            auto *right = expr->right;
+            fix_width(left, target_width);
+            fix_width(right, target_width);
+            auto new_expr = std::make_shared<Expr>(expr->op, left, right);
+            new_expr->generator()->add_expr(new_expr);
+            var = new_expr.get();
+            return;
         }
-        // LCOV_EXCL_STOP
     }
+    auto casted = var->cast(VarCastType::Resize)->as<VarCasted>();
+    casted->set_target_width(target_width);
+    var = casted.get();
 }
 
 std::shared_ptr<AssignStmt> EnumVar::assign_(const std::shared_ptr<Var> &var,
@@ -2463,21 +2466,19 @@ std::string FunctionCallVar::to_string() const {
     auto name =
         func_def_->is_builtin() ? "$" + func_def_->function_name() : func_def_->function_name();
     std::string result = name + " (";
-    std::vector<std::string> names;
-    names.reserve(args_.size());
-    for (auto const &iter : args_) names.emplace_back(iter.second->to_string());
+    std::vector<std::pair<std::string, std::string>> call_args;
+    call_args.reserve(args_.size());
+    for (auto const &iter : args_) call_args.emplace_back(iter.first, iter.second->to_string());
     // calling ordering
     if (!func_def_->port_ordering().empty()) {
-        auto ordering = func_def_->port_ordering();
-        std::unordered_map<std::string, uint32_t> indexing;
-        indexing.reserve(ordering.size());
-        for (auto const &[var_name, var] : args_) {
-            indexing.emplace(var->to_string(), ordering.at(var_name));
-        }
-        std::sort(names.begin(), names.end(), [&](auto const &lhs, auto const &rhs) {
-            return indexing.at(lhs) < indexing.at(rhs);
+        auto const &ordering = func_def_->port_ordering();
+        std::stable_sort(call_args.begin(), call_args.end(), [&](auto const &lhs, auto const &rhs) {
+            return ordering.at(lhs.first) < ordering.at(rhs.first);
         });
     }
+    std::vector<std::string> names;
+    names.reserve(call_args.size());
+    for (auto const &iter : call_args) names.emplace_back(iter.second);
     result.append(string::join(names.begin(), names.end(), ", "));
     result.append(")");
     return result;
diff --git a/src/stmt.cc b/src/stmt.cc
index cfb4867..ea29229 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -365,9 +365,15 @@ ForStmt::ForStmt(const std::string &iter_var_name, int64_t start, int64_t end, i
     : Stmt(StatementType::For), start_(start), end_(end), step_(step) {
     // making a loop variable
     // first determine if it is signed or not
-    bool sign = start < 0 || end < 0;
+    // counting down can leave the loop below 0
+    auto last = start;
+    if (step < 0 && end < start) last += (start - end - 1 - step) / -step * step;
+    bool sign = start < 0 || end < 0 || last < 0;
     // the iter var used for iteration assignment
-    iter_ = std::make_shared<IterVar>(nullptr, iter_var_name, start, end, sign);
+    // the range is exclusive at its upper end, no matter which way the loop counts
+    auto const min_value = end < start ? end + 1 : start;
+    auto const max_value = end < start ? start + 1 : end;
+    iter_ = std::make_shared<IterVar>(nullptr, iter_var_name, min_value, max_value, sign);
     loop_body_ = std::make_shared<ScopedStmtBlock>();
     loop_body_->set_parent(this);
 }
-- 
2.43.0


From a11892c5273bf60322cdbf0d7eba847a1d478f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:08 +0000
Subject: [PATCH 13/55] fix: move connections of a variable used inside slices,
 concatenations, casts, indices and calls

---
 src/expr.cc | 220 ++++++++++++++++++++++++++--------------------------
 src/expr.hh |   3 +
 2 files changed, 112 insertions(+), 111 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 553dbcc..0b628ae 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1382,6 +1382,16 @@ void VarConcat::replace_var(const std::shared_ptr<Var> &target, const std::share
     }
 }
 
+bool change_var(Var *&var, Var *target, Var *new_var, bool move_linked);
+
+bool VarConcat::replace(Var *target, Var *new_var) {
+    bool found = false;
+    for (auto &var : vars_) {
+        if (change_var(var, target, new_var, false)) found = true;
+    }
+    return found;
+}
+
 VarExtend::VarExtend(const std::shared_ptr<Var> &var, uint32_t width)
     : Expr(ExprOp::Extend, var.get(), nullptr), parent_(var.get()) {
     if (width < parent_->width()) {
@@ -1594,132 +1604,110 @@ IRNode *Expr::get_child(uint64_t index) {
         return nullptr;
 }
 
-void set_slice_var_parent(Var *&var, Var *target, Var *new_var, bool check_target) {
-    std::shared_ptr<VarSlice> slice;
-    Var *parent_var = var;
-    std::vector<std::shared_ptr<VarSlice>> slices;
-    while (parent_var->type() == VarType::Slice) {
-        // this is for nested slicing
-        slice = parent_var->as<VarSlice>();
-        slices.emplace_back(slice);
-        parent_var = slice->parent_var;
-    }
-    if (parent_var != target) {
-        if (check_target)
-            throw InternalException("Target not found");
-        else
-            return;
-    }
-    if (!slice) throw InternalException("Slice cannot be null");
-
-    auto new_var_ptr = new_var->as<Var>();
-    std::reverse(slices.begin(), slices.end());
-    for (auto const &s : slices) {
-        new_var_ptr = s->slice_var(new_var_ptr);
+void change_var_expr(const std::shared_ptr<Expr> &expr, Var *target, Var *new_var,
+                     bool move_linked = true);
+
+// replace every use of target in var with new_var. if var itself has to be a different object, var
+// is updated. returns true if target is used
+bool change_var(Var *&var, Var *target, Var *new_var, bool move_linked) {
+    if (var == target) {
+        var = new_var;
+        if (move_linked) var->move_linked_to(new_var);
+        return true;
+    }
+    if (var->is_function()) {
+        return reinterpret_cast<FunctionCallVar *>(var)->replace_var(target, new_var);
+    }
+    switch (var->type()) {
+        case VarType::Slice: {
+            auto slice = var->as<VarSlice>();
+            auto *parent = slice->parent_var;
+            auto found = change_var(parent, target, new_var, false);
+            if (slice->sliced_by_var()) {
+                auto *index = slice->as<VarVarSlice>()->sliced_var();
+                if (change_var(index, target, new_var, false)) found = true;
+                if (parent != slice->parent_var || index != slice->as<VarVarSlice>()->sliced_var())
+                    var = &(*parent)[index->shared_from_this()];
+            } else if (parent != slice->parent_var) {
+                var = slice->slice_var(parent->shared_from_this()).get();
+            }
+            return found;
+        }
+        case VarType::BaseCasted: {
+            auto casted = var->as<VarCasted>();
+            auto type = casted->cast_type();
+            if (type == VarCastType::Resize || type == VarCastType::Enum)
+                return change_var(casted->parent_var(), target, new_var, false);
+            // other casts are shared as well
+            auto *parent = casted->parent_var();
+            auto found = change_var(parent, target, new_var, false);
+            if (parent != casted->parent_var()) var = parent->cast(type).get();
+            return found;
+        }
+        case VarType::Expression: {
+            auto expr = var->as<Expr>();
+            bool found = false;
+            if (expr->op == ExprOp::Extend) {
+                // extensions are shared by everything that extends the same variable
+                auto *parent = expr->as<VarExtend>()->parent_var();
+                found = change_var(parent, target, new_var, false);
+                if (parent != expr->as<VarExtend>()->parent_var())
+                    var = &parent->extend(expr->width());
+                return found;
+            }
+            if (expr->op == ExprOp::Concat) found = expr->as<VarConcat>()->replace(target, new_var);
+            if (expr->op == ExprOp::Conditional) {
+                auto &cond = expr->as<ConditionalExpr>()->condition;
+                if (change_var(cond, target, new_var, move_linked)) found = true;
+            }
+            if (change_var(expr->left, target, new_var, move_linked)) found = true;
+            if (expr->right && change_var(expr->right, target, new_var, move_linked)) found = true;
+            if (found) expr->set_parent();
+            return found;
+        }
+        default:
+            return false;
     }
-    var = new_var_ptr.get();
 }
 
 void change_var_expr(const std::shared_ptr<Expr> &expr, Var *target, Var *new_var,
-                     bool move_linked = true) {
+                     bool move_linked) {
     if (!new_var || !target) throw InternalException("Variable is NULL");
-    if (expr->left->type() == VarType::Expression) {
-        change_var_expr(expr->left->as<Expr>(), target, new_var, move_linked);
-    }
-    if (expr->right && expr->right->type() == VarType::Expression) {
-        change_var_expr(expr->right->as<Expr>(), target, new_var, move_linked);
-    }
-
-    if (expr->left == target) {
-        expr->left = new_var;
-        if (move_linked) expr->left->move_linked_to(new_var);
-    }
-    if (expr->right && expr->right == target) {
-        expr->right = new_var;
-        if (move_linked) expr->right->move_linked_to(new_var);
-    }
-
-    // need to change the parent as well
-    if (expr->left->type() == VarType::Slice) {
-        set_slice_var_parent(expr->left, target, new_var, false);
-    }
-    if (expr->right && expr->right->type() == VarType::Slice) {
-        set_slice_var_parent(expr->right, target, new_var, false);
-    }
-    // we did some tricks on the concatenation, need to update them there
-    if (expr->op == ExprOp::Concat) {
-        auto concat = expr->as<VarConcat>();
-        concat->replace_var(target->shared_from_this(), new_var->shared_from_this());
-    }
-    // need to deal with ternary op as well
-    if (expr->op == ExprOp::Conditional) {
-        auto ternary = expr->as<ConditionalExpr>();
-        auto *cond = ternary->condition;
-        if (cond->type() == VarType::Expression) {
-            change_var_expr(cond->as<Expr>(), target, new_var);
-        } else if (cond == target) {
-            ternary->condition = new_var;
-        } else if (cond->type() == VarType::Slice) {
-            set_slice_var_parent(cond, target, new_var, false);
-        }
-    }
-    expr->set_parent();
+    Var *var = expr.get();
+    change_var(var, target, new_var, move_linked);
 }
 
-void change_cast_parent(const std::shared_ptr<VarCasted> &var, Var *target, Var *new_var);
-
-void change_var_parent(Var *&var, Var *target, Var *new_var) {
+// index variables on the left hand side are read by the statement
+bool change_var_index(Var *&var, Var *target, Var *new_var) {
     if (var->type() == VarType::Slice) {
-        set_slice_var_parent(var, target, new_var, true);
-    } else if (var->type() == VarType::Expression) {
-        auto expr = var->as<Expr>();
-        change_var_expr(expr, target, new_var);
-    } else if (var->type() == VarType::BaseCasted) {
-        change_cast_parent(var->as<VarCasted>(), target, new_var);
-    }
-}
-
-void change_cast_parent(const std::shared_ptr<VarCasted> &var, Var *target, Var *new_var) {
-    auto &p = var->parent_var();
-    if (p == target) {
-        p = new_var;
-    } else {
-        change_var_parent(p, target, new_var);
+        auto slice = var->as<VarSlice>();
+        auto *parent = slice->parent_var;
+        auto found = change_var_index(parent, target, new_var);
+        if (slice->sliced_by_var()) {
+            auto *index = slice->as<VarVarSlice>()->sliced_var();
+            if (change_var(index, target, new_var, false)) found = true;
+            if (parent != slice->parent_var || index != slice->as<VarVarSlice>()->sliced_var())
+                var = &(*parent)[index->shared_from_this()];
+        } else if (parent != slice->parent_var) {
+            var = slice->slice_var(parent->shared_from_this()).get();
+        }
+        return found;
     }
+    return false;
 }
 
 void stmt_set_right(AssignStmt *stmt, Var *target, Var *new_var) {
-    auto &right = stmt->right();
-    if (right->type() == VarType::Base || right->type() == VarType::PortIO ||
-        right->type() == VarType::ConstValue) {
-        if (right == target) {
-            stmt->set_right(new_var->shared_from_this());
-            right->move_linked_to(new_var);
-        } else {
-            throw InternalException("Target not found");
-        }
-    } else if (right->type() == VarType::Slice) {
-        set_slice_var_parent(right, target, new_var, true);
-    } else if (right->type() == VarType::Expression) {
-        change_var_expr(stmt->right()->as<Expr>(), target, new_var);
-    } else {
-        change_var_parent(right, target, new_var);
-    }
+    auto found = change_var(stmt->right(), target, new_var, true);
+    if (change_var_index(stmt->left(), target, new_var)) found = true;
+    // an expression can be shared with a statement that has been changed already
+    auto type = stmt->right()->type();
+    if (!found && (type == VarType::Base || type == VarType::PortIO || type == VarType::ConstValue))
+        throw InternalException("Target not found");
 }
 
 void stmt_set_left(AssignStmt *stmt, Var *target, Var *new_var) {
-    auto &left = stmt->left();
-    if (left->type() == VarType::Base || left->type() == VarType::PortIO ||
-        left->type() == VarType::ConstValue) {
-        if (left == target) {
-            stmt->set_left(new_var->shared_from_this());
-            left->move_linked_to(new_var);
-        } else {
-            throw InternalException("Target not found");
-        }
-    } else {
-        change_var_parent(left, target, new_var);
-    }
+    if (!change_var(stmt->left(), target, new_var, true))
+        throw InternalException("Target not found");
 }
 
 void Var::move_src_to(Var *var, Var *new_var, Generator *parent, bool keep_connection) {
@@ -2462,6 +2450,16 @@ void FunctionCallVar::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
     }
 }
 
+bool FunctionCallVar::replace_var(Var *target, Var *new_var) {
+    bool found = false;
+    for (auto &iter : args_) {
+        auto *arg = iter.second.get();
+        if (change_var(arg, target, new_var, false)) found = true;
+        if (arg != iter.second.get()) iter.second = arg->shared_from_this();
+    }
+    return found;
+}
+
 std::string FunctionCallVar::to_string() const {
     auto name =
         func_def_->is_builtin() ? "$" + func_def_->function_name() : func_def_->function_name();
diff --git a/src/expr.hh b/src/expr.hh
index d5676bc..fa2c985 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -678,6 +678,8 @@ public:
 
     const std::vector<Var *> &vars() const { return vars_; }
     void replace_var(const std::shared_ptr<Var> &target, const std::shared_ptr<Var> &item);
+    // replace target wherever it is used, including slices and expressions
+    bool replace(Var *target, Var *new_var);
 
     VarConcat &concat(Var &var) override;
 
@@ -859,6 +861,7 @@ public:
     void accept(IRVisitor *visitor) override { visitor->visit(this); }
 
     const std::map<std::string, std::shared_ptr<Var>> &args() const { return args_; }
+    bool replace_var(Var *target, Var *new_var);
 
 private:
     FunctionStmtBlock *func_def_;
-- 
2.43.0


From ebbf6c676c904c4a6e947349d599d9c28b28e2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:07 +0000
Subject: [PATCH 14/55] fix: selections of arrays, part selects and packed
 structs denote the right bits

---
 src/analysis.cc |   2 +-
 src/expr.cc     | 216 ++++++++++++++++++++----------------------------
 src/expr.hh     |   7 +-
 3 files changed, 98 insertions(+), 127 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 11867e9..c0f0b75 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -1105,8 +1105,8 @@ std::map<std::string, std::string> extract_struct_info(Generator* top) {
         for (auto const& def : struct_->attributes) {
             if (!def.struct_) {
                 std::vector<std::string> str = {"    logic"};
-                if (def.width > 1) str.emplace_back(::format("[{0}:0]", def.width - 1));
                 if (def.signed_) str.emplace_back("signed");
+                if (def.width > 1) str.emplace_back(::format("[{0}:0]", def.width - 1));
                 str.emplace_back(def.name);
                 auto entry_str = string::join(str.begin(), str.end(), " ");
                 entry.append(entry_str + ";\n");
diff --git a/src/expr.cc b/src/expr.cc
index 0b628ae..e0f9851 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -203,6 +203,10 @@ Expr &Var::duplicate(const std::shared_ptr<Const> &count) const {
     return *expr;
 }
 
+static bool is_array_var(const Var *var) {
+    return var->size().size() > 1 || var->size().front() > 1 || var->explicit_array();
+}
+
 // a select can only be applied to a name or a concatenation
 static void check_selectable(Var *var) {
     bool selectable = true;
@@ -254,11 +258,10 @@ VarSlice &Var::operator[](std::pair<uint32_t, uint32_t> slice) {
     }
     // depends on the root variable, if it is actually a struct, we need to return to the
     // actual trampoline class as proxy
-    if (get_var_root_parent()->is_struct() && var_slice->width() == var_slice->var_width()) {
+    if (auto const *struct_ = var_slice->element_struct()) {
         // we actually reached the real struct
-        auto *s = dynamic_cast<PackedInterface *>(get_var_root_parent());
-        auto packed_slice = std::make_shared<PackedSlice>(var_slice.get(), var_slice->width() - 1,
-                                                          0, s->packed_struct().get());
+        auto packed_slice =
+            std::make_shared<PackedSlice>(var_slice.get(), var_slice->width() - 1, 0, struct_);
         slices_.emplace_back(packed_slice);
         // this is a hack here, but we store the parent into the child
         packed_slice->slices_.emplace_back(var_slice);
@@ -512,22 +515,6 @@ void Var::copy_meta_data(Var *new_var, bool check_param) const {
     }
 }
 
-uint32_t num_size_decrease(Var *var) {
-    if (var->type() == VarType::Slice) {
-        auto *slice = reinterpret_cast<VarSlice *>(var);
-        auto *parent = slice->parent_var;
-        auto diff = parent->size().size() - slice->size().size();
-        if (parent->type() == VarType::Slice) {
-            return diff + num_size_decrease(reinterpret_cast<VarSlice *>(parent));
-        } else {
-            // base case 1
-            return diff;
-        }
-    }
-    // base case 0
-    return 0;
-}
-
 VarSlice::VarSlice(Var *parent, uint32_t high, uint32_t low)
     // variable slice is always unsigned based on the spec
     : Var(parent->generator(), "", parent->var_width(), 1, false, VarType::Slice),
@@ -539,95 +526,78 @@ VarSlice::VarSlice(Var *parent, uint32_t high, uint32_t low)
     // notice that if the user has explicit set it to be an array
     // we need to honer their wish
     // we also need to honer the way the dimension the array is set
-    auto diff = num_size_decrease(parent);
-    auto diff_parent = true;
-    if (low == 0 && high == 0 && parent->type() == VarType::Slice) {
-        auto p_d = num_size_decrease(reinterpret_cast<VarSlice *>(parent)->parent_var);
-        diff_parent = diff != p_d;
-    }
-    bool dropped_dim_size1 = low == 0 && high == 0 &&
-                             parent->get_var_root_parent()->size().size() > 1 &&
-                             parent->get_var_root_parent()->size().back() == 1 && diff_parent &&
-                             diff == parent->get_var_root_parent()->size().size() - 1;
-    if (parent->size().size() == 1 && parent->size().front() == 1 && parent->explicit_array()) {
-        if (high != 0 || low != 0) {
-            throw VarException(::format("Parent {0} is a scalar but used marked as an explicit "
-                                        "array, only [0, 0] allowed",
-                                        parent->to_string()),
+    uint32_t base_width;
+    if (is_array_var(parent)) {
+        if (high >= parent->size().front()) {
+            throw VarException(::format("Parent {0} only has {1} element(s), got [{2}, {3}]",
+                                        parent->to_string(), parent->size().front(), high, low),
                                {parent});
         }
-    } else if (parent->size().size() == 1 && parent->size().front() == 1 && !dropped_dim_size1) {
-        // even it is true, we still need to make sure cases such as
-        // [3:0][0:0] declaration (from size = (4, 1)), can be sliced twice before hitting
-        // the wire, which means we need to count the number of size decreases
-        // this is the actual slice
-        var_width_ = high - low + 1;
-        is_packed_ = parent->is_packed();
-    } else if (parent->size().size() == 1 && parent->size().front() == 1 && dropped_dim_size1) {
-        // need to keep the var width calculation correct
-        var_width_ = parent->var_width();
-        is_packed_ = true;
-    } else {
+        base_width = parent->var_width();
+        for (uint64_t i = 1; i < parent->size().size(); i++) base_width *= parent->size()[i];
         if (high == low) {
-            if (parent->size().size() == 1) {
-                size_ = {1};
-                is_packed_ = true;
-            } else {
-                size_ = std::vector<uint32_t>(parent->size().begin() + 1, parent->size().end());
-                is_packed_ = parent->is_packed();
-            }
-            var_width_ = parent->var_width();
+            set_element_of(parent);
         } else {
             // readjust the top slice
-            size_ = std::vector<uint32_t>(parent->size().begin(), parent->size().end());
-            size_.back() = high - low + 1;
-            var_width_ = parent->var_width();
+            size_ = parent->size();
+            size_.front() = high - low + 1;
             is_packed_ = parent->is_packed();
+            is_signed_ = !is_packed_ && parent->is_signed();
         }
+    } else {
+        // this is the actual slice
+        base_width = 1;
+        var_width_ = high - low + 1;
+        is_packed_ = parent->is_packed();
     }
     // compute the var high and var_low
-    if (parent->type() != VarType::Slice) {
-        // use width to compute
-        // honer user's wish
-        if (parent->size().size() == 1 && parent->size().front() == 1 && parent->explicit_array()) {
-            var_low_ = 0;
-            var_high_ = var_width_ - 1;
-        } else if (parent->size().size() == 1 && parent->size().front() == 1) {
-            var_low_ = low;
-            var_high_ = high;
-        } else {
-            uint32_t base_width = parent->var_width();
-            for (uint64_t i = 1; i < parent->size().size(); i++) base_width *= parent->size()[i];
-            var_low_ = low * base_width;
-            var_high_ = (high + 1) * base_width - 1;
-        }
+    auto const offset = parent->type() == VarType::Slice ? parent->var_low() : 0;
+    var_low_ = offset + low * base_width;
+    var_high_ = offset + (high + 1) * base_width - 1;
+}
+
+// peel one layer of the array
+void VarSlice::set_element_of(const Var *parent) {
+    var_width_ = parent->var_width();
+    // elements of an unpacked array keep their sign
+    is_signed_ = !parent->is_packed() && parent->is_signed();
+    if (parent->size().size() > 1) {
+        size_ = std::vector<uint32_t>(parent->size().begin() + 1, parent->size().end());
+        is_packed_ = parent->is_packed();
+        // [3:0][0:0] has to be sliced twice before hitting the wire
+        explicit_array_ = size_.size() == 1 && size_.front() == 1;
     } else {
-        // it's a slice
-        auto *slice = dynamic_cast<VarSlice *>(parent);
-        if (parent->size().size() == 1 && parent->size().front() == 1 && !dropped_dim_size1) {
-            var_low_ = low + slice->var_low();
-            var_high_ = (high + 1) + slice->var_low() - 1;
-        } else if (parent->size().size() == 1 && parent->size().front() == 1 && dropped_dim_size1) {
-            var_low_ = slice->var_low();
-            var_high_ = slice->var_high();
-        } else {
-            uint32_t base_width = parent->var_width();
-            for (uint64_t i = 1; i < parent->size().size(); i++) base_width *= parent->size()[i];
-            var_low_ = slice->var_low() + low * base_width;
-            var_high_ = slice->var_low() + (high + 1) * base_width - 1;
-        }
+        size_ = {1};
+        is_packed_ = true;
     }
 }
 
+// nothing can be selected from a part select, hence the ones being selected from have to be folded.
+// returns what is actually being selected and the offset into it
+static std::pair<const Var *, uint32_t> fold_part_select(const Var *var) {
+    uint32_t offset = 0;
+    while (var->type() == VarType::Slice) {
+        auto const *slice = dynamic_cast<const VarSlice *>(var);
+        if (!slice || slice->sliced_by_var() || slice->high == slice->low ||
+            dynamic_cast<const PackedSlice *>(slice))
+            break;
+        offset += slice->low;
+        var = slice->parent_var;
+    }
+    return {var, offset};
+}
+
+
 std::string VarSlice::to_string() const {
-    auto const &parent_name = parent_var->to_string();
+    auto const [parent, offset] = fold_part_select(parent_var);
+    auto const &parent_name = parent->to_string();
     if (high == low) {
-        if (high == 0 && parent_var->width() == 1) {
+        if (high == 0 && parent_var->width() == 1 && !is_array_var(parent_var)) {
             return parent_name;
         }
-        return ::format("{0}[{1}]", parent_name, high);
+        return ::format("{0}[{1}]", parent_name, high + offset);
     } else {
-        return ::format("{0}[{1}:{2}]", parent_name, high, low);
+        return ::format("{0}[{1}:{2}]", parent_name, high + offset, low + offset);
     }
 }
 
@@ -662,28 +632,24 @@ void VarSlice::set_width_param(kratos::Var *param) {
 
 PackedSlice &VarSlice::operator[](const std::string &member_name) {
     if (!parent_var) throw InternalException("Invalid var slice");
-    if (!parent_var->is_packed() || width() != var_width())
-        throw UserException(::format("Unable to access {0}.{1}", to_string(), member_name));
-    auto *root = get_var_root_parent();
-    if (!root->is_struct())
+    if (!get_var_root_parent()->is_struct())
         throw UserException(::format("Invalid member access{0}.{1}", to_string(), member_name));
-    const PackedStructFieldDef *def;
-    if (is_struct()) {
-        auto *packed = dynamic_cast<PackedSlice *>(this);
-        return packed->slice_member(member_name);
-    } else {
-        auto *packed = dynamic_cast<PackedInterface *>(root);
-        if (!packed)
-            throw UserException(::format("Unable to access {0}.{1}", to_string(), member_name));
-        def = packed->get_definition(member_name);
-    }
-
-    if (!def) throw UserException(::format("Unable to access {0}.{1}", to_string(), member_name));
-    auto p = std::make_shared<PackedSlice>(this, def, member_name);
+    auto *packed = dynamic_cast<PackedSlice *>(this);
+    if (packed && packed->is_struct()) return packed->slice_member(member_name);
+    auto const *struct_ = element_struct();
+    if (!struct_) throw UserException(::format("Unable to access {0}.{1}", to_string(), member_name));
+    auto p = std::make_shared<PackedSlice>(this, *struct_, member_name);
     slices_.emplace_back(p);
     return *p;
 }
 
+const PackedStruct *VarSlice::element_struct() const {
+    // only an element of a struct array is a struct, its bits are not
+    auto const *root = dynamic_cast<const PackedInterface *>(get_var_root_parent());
+    if (!root || !is_array_var(parent_var) || is_array_var(this)) return nullptr;
+    return root->packed_struct().get();
+}
+
 VarVarSlice::VarVarSlice(kratos::Var *parent, kratos::Var *slice)
     : VarSlice(parent, 0, 0), sliced_var_(slice) {
     // check the size or width
@@ -692,11 +658,13 @@ VarVarSlice::VarVarSlice(kratos::Var *parent, kratos::Var *slice)
     // the connectivity check
     // TODO: fix this
     uint32_t required_width;
-    if (parent->size().size() == 1 && parent->size().front() == 1 && !parent->explicit_array()) {
+    if (!is_array_var(parent)) {
         // slice through the 1D array
         // so the width will be 1
         var_width_ = 1;
         size_ = {1};
+        is_signed_ = false;
+        explicit_array_ = false;
         // potentially cover all the bits
         var_high_ = parent->width() - 1;
         var_low_ = 0;
@@ -705,13 +673,7 @@ VarVarSlice::VarVarSlice(kratos::Var *parent, kratos::Var *slice)
         else
             required_width = clog2(parent->width());
     } else {
-        var_width_ = parent->var_width();
-        is_packed_ = parent->is_packed();
-        // peel one layer
-        if (parent->size().size() > 1)
-            size_ = std::vector<uint32_t>(parent->size().begin() + 1, parent->size().end());
-        else
-            size_ = {1};
+        set_element_of(parent);
         var_high_ = parent->var_high();
         var_low_ = parent->var_low();
         // we need to compute the clog2 here
@@ -764,7 +726,11 @@ void VarVarSlice::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
 }
 
 std::string VarVarSlice::to_string() const {
-    return ::format("{0}[{1}]", parent_var->to_string(), sliced_var_->to_string());
+    auto const [parent, offset] = fold_part_select(parent_var);
+    if (offset == 0) return ::format("{0}[{1}]", parent->to_string(), sliced_var_->to_string());
+    auto index_width = clog2(is_array_var(parent) ? parent->size().front() : parent->width());
+    return ::format("{0}[{1}'({2}) + {1}'h{3:X}]", parent->to_string(), index_width,
+                    self_determined_to_string(sliced_var_, sliced_var_->to_string()), offset);
 }
 
 void resize_var(Expr *expr, uint32_t target_width, Var *var, bool left) {
@@ -2009,13 +1975,9 @@ PackedSlice::PackedSlice(kratos::VarPackedStruct *parent, const std::string &mem
 PackedSlice::PackedSlice(Var *parent, uint32_t high, uint32_t low, const PackedStruct *struct_)
     : VarSlice(parent, high, low), original_struct_(struct_) {}
 
-PackedSlice::PackedSlice(Var *parent, const PackedStructFieldDef *def,
-                         const std::string &member_name)
-    : VarSlice(parent, 0, 0), def_(def) {
-    if (!def->struct_) {
-        throw InternalException("Invalid member access " + def->name);
-    }
-    set_up(*def->struct_, member_name);
+PackedSlice::PackedSlice(Var *parent, const PackedStruct &struct_, const std::string &member_name)
+    : VarSlice(parent, 0, 0) {
+    set_up(struct_, member_name);
 }
 
 void PackedSlice::set_up(const kratos::PackedStruct &struct_, const std::string &member_name) {
@@ -2045,7 +2007,11 @@ void PackedSlice::set_up(const kratos::PackedStruct &struct_, const std::string
 }
 
 shared_ptr<Var> PackedSlice::slice_var(std::shared_ptr<Var> var) {
-    if (var->type() == VarType::PortIO) {
+    // element of a struct array is already sliced by its parent
+    if (original_struct_) return var;
+    if (var->type() == VarType::Slice) {
+        return var->as<VarSlice>()->operator[](def_->name).shared_from_this();
+    } else if (var->type() == VarType::PortIO) {
         auto v = var->as<PortPackedStruct>();
         return v->operator[](def_->name).shared_from_this();
     } else {
diff --git a/src/expr.hh b/src/expr.hh
index fa2c985..3200c4b 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -390,6 +390,9 @@ public:
 
     virtual bool sliced_by_var() const { return false; }
 
+    // struct definition if the slice is an element of a packed struct array
+    const PackedStruct *element_struct() const;
+
     bool is_struct() const override { return struct_ != nullptr; }
 
 protected:
@@ -398,6 +401,8 @@ protected:
 
     std::pair<uint32_t, uint32_t> op_;
 
+    void set_element_of(const Var *parent);
+
     const PackedStruct *struct_ = nullptr;
 };
 
@@ -573,7 +578,7 @@ public:
 
     // this is used for packed struct array
     PackedSlice(Var *parent, uint32_t high, uint32_t low, const PackedStruct *struct_);
-    PackedSlice(Var *parent, const PackedStructFieldDef *def, const std::string &member_name);
+    PackedSlice(Var *parent, const PackedStruct &struct_, const std::string &member_name);
     PackedSlice(Var *parent) : VarSlice(parent, 0, 0) {}
 
     PackedSlice &slice_member(const std::string &member_name);
-- 
2.43.0


From 7963855f7f74bf111206b3a1e28fc690a5d2862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:14 +0000
Subject: [PATCH 15/55] fix: passes on statements keep the behaviour of the
 design

---
 src/optimize.cc  | 447 ++++++++++++++++++++++++++++-------------------
 src/transform.cc |  10 +-
 2 files changed, 276 insertions(+), 181 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 65e4f4b..0e7977d 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -29,15 +29,24 @@ private:
             std::vector<std::shared_ptr<IfStmt>> if_stmts;
             if (has_target_if(stmt, target, if_stmts) && target) {
                 uint64_t cases = if_stmts.size();
-                uint64_t expected_case = 1u << target->width();
+                bool full = target->width() < 64 && cases >= (1ull << target->width());
                 bool has_else = !(if_stmts.back()->else_body()->empty());
-                if (expected_case > 1 && (cases >= expected_case || has_else)) {
+                if ((full || has_else) && can_be_cases(if_stmts)) {
                     auto switch_stmt = change_if_to_switch(stmt->as<IfStmt>(), if_stmts);
                     stmts->set_child(i, switch_stmt);
                 }
             }
         }
     }
+    bool static can_be_cases(const std::vector<std::shared_ptr<IfStmt>>& if_stmts) {
+        // the order is lost once they are switch cases, hence every value can only be used once.
+        // in addition, an empty case is not allowed
+        std::unordered_set<int64_t> values;
+        return std::all_of(if_stmts.begin(), if_stmts.end(), [&values](auto const& if_) {
+            auto condition = if_->predicate()->template as<Expr>()->right->template as<Const>();
+            return !if_->then_body()->empty() && values.emplace(condition->value()).second;
+        });
+    }
     bool static has_target_if(Stmt* stmt, Var*& var,
                               std::vector<std::shared_ptr<IfStmt>>& if_stmts) {
         // keep track of which statement are used later to transform into switch statement
@@ -59,9 +68,9 @@ private:
         } else {
             if (var != expr->left) return false;
         }
-        if ((expr->right->type() != VarType::ConstValue) &&
-            (expr->right->type() != VarType::Parameter))
-            return false;
+        // the value of a parameter is not known yet
+        if (expr->right->type() != VarType::ConstValue) return false;
+        if (expr->right->as<Const>()->is_bignum()) return false;
         if (if_->else_body()->size() > 1) return false;
 
         if_stmts.emplace_back(if_);
@@ -113,6 +122,32 @@ void transform_if_to_case(Generator* top) {
     visitor.visit_root_s(top);
 }
 
+// collect every variable an expression refers to
+static void collect_root_vars(Var* var, std::unordered_set<const Var*>& vars) {
+    switch (var->type()) {
+        case VarType::Slice: {
+            auto slice = var->as<VarSlice>();
+            if (slice->sliced_by_var())
+                collect_root_vars(slice->as<VarVarSlice>()->sliced_var(), vars);
+            collect_root_vars(slice->parent_var, vars);
+            break;
+        }
+        case VarType::BaseCasted: {
+            collect_root_vars(var->as<VarCasted>()->parent_var(), vars);
+            break;
+        }
+        case VarType::Expression: {
+            for (uint64_t i = 0; i < var->child_count(); i++) {
+                auto* child = var->get_child(i);
+                if (child) collect_root_vars(reinterpret_cast<Var*>(child), vars);
+            }
+            break;
+        }
+        default:
+            vars.emplace(var);
+    }
+}
+
 class MergeIfVisitor : public IRVisitor {
 public:
     void visit(CombinationalStmtBlock* stmts) override { transform_block(stmts); }
@@ -125,73 +160,95 @@ private:
     // in the same block
     // if target is the same
     // all equality comparison and against an constant
+    // next to each other, and the target is not changed by any of them
+    // no else statement, otherwise they are not exclusive
     void static transform_block(StmtBlock* block) {
         // only run marked ones
         if (!block->has_attribute("merge_if_block")) return;
-        std::map<Var*, std::vector<IfStmtType>> result;
+        std::vector<std::vector<IfStmtType>> result;
         get_targeted_if(block, result);
-        std::unordered_set<IfStmt*> merged_if;
-        for (auto const& iter : result) {
-            auto stmts = iter.second;
-            if (stmts.size() > 1) {
-                // we have stmts to merge
-                auto top_if = stmts[0].first;
-                // first pass to merge the if statements with the same constant value
-                // build index on the const values
-                std::unordered_map<int64_t, IfStmt*> mapping;
-                for (const auto& [stmt, const_] : stmts) {
-                    auto const_value = const_->value();
-                    if (mapping.find(const_value) == mapping.end()) {
-                        mapping.emplace(const_value, stmt.get());
-                    } else {
-                        // merge the current one into the one we already have
-                        auto* if_ = mapping.at(const_value);
-                        auto const& then = stmt->then_body();
-                        for (auto const& st : *then) {
-                            if_->add_then_stmt(st);
-                        }
-                        auto const& else_ = stmt->else_body();
-                        for (auto const& st : *else_) {
-                            if_->add_else_stmt(st);
-                        }
-                        merged_if.emplace(stmt.get());
-                    }
-                }
-
-                // second pass to nest the if statement
-                for (uint64_t i = 1; i < stmts.size(); i++) {
-                    auto const& stmt = stmts[i].first;
-                    if (merged_if.find(stmt.get()) != merged_if.end()) {
-                        continue;
-                    }
+        for (auto const& stmts : result) {
+            if (stmts.size() <= 1) continue;
+            // we have stmts to merge
+            auto top_if = stmts[0].first;
+            // first pass to merge the if statements with the same constant value
+            // build index on the const values
+            std::unordered_map<int64_t, IfStmt*> mapping = {{stmts[0].second->value(), top_if.get()}};
+            for (uint64_t i = 1; i < stmts.size(); i++) {
+                auto const& [stmt, const_] = stmts[i];
+                auto const_value = const_->value();
+                block->remove_stmt(stmt);
+                if (mapping.find(const_value) == mapping.end()) {
+                    mapping.emplace(const_value, stmt.get());
                     // put the one in the top if
                     top_if->add_else_stmt(stmt);
-                    merged_if.emplace(stmt.get());
+                } else {
+                    // merge the current one into the one we already have
+                    auto* if_ = mapping.at(const_value);
+                    auto const& then = stmt->then_body();
+                    for (auto const& st : *then) {
+                        if_->add_then_stmt(st);
+                    }
                 }
             }
         }
-        // remove merged if
-        for (auto const& stmt : merged_if) {
-            block->remove_stmt(stmt->shared_from_this());
-        }
     }
 
-    void static get_targeted_if(StmtBlock* block, std::map<Var*, std::vector<IfStmtType>>& result) {
+    void static get_targeted_if(StmtBlock* block, std::vector<std::vector<IfStmtType>>& result) {
+        Var* target = nullptr;
         for (auto const& stmt : *block) {
-            if (stmt->type() == StatementType::If) {
-                auto if_ = stmt->as<IfStmt>();
-                auto predicate = if_->predicate();
-                if (predicate->type() == VarType::Expression) {
-                    auto expr = predicate->as<Expr>();
-                    if (expr->op == ExprOp::Eq && expr->right &&
-                        expr->right->type() == VarType::ConstValue) {
-                        // this is what we want
-                        auto* target_var = expr->left;
-                        result[target_var].emplace_back(
-                            std::make_pair(if_, expr->right->as<Const>()));
-                    }
+            auto if_ = get_targeted_if(stmt.get());
+            if (!if_) {
+                target = nullptr;
+                continue;
+            }
+            auto expr = if_->predicate()->as<Expr>();
+            if (expr->left != target) {
+                target = expr->left;
+                result.emplace_back();
+            }
+            result.back().emplace_back(std::make_pair(if_, expr->right->as<Const>()));
+        }
+    }
+
+    std::shared_ptr<IfStmt> static get_targeted_if(Stmt* stmt) {
+        if (stmt->type() != StatementType::If) return nullptr;
+        auto if_ = stmt->as<IfStmt>();
+        auto predicate = if_->predicate();
+        if (predicate->type() != VarType::Expression) return nullptr;
+        auto expr = predicate->as<Expr>();
+        if (expr->op != ExprOp::Eq || !expr->right ||
+            expr->right->type() != VarType::ConstValue || expr->right->as<Const>()->is_bignum())
+            return nullptr;
+        if (!if_->else_body()->empty()) return nullptr;
+        std::unordered_set<const Var*> vars;
+        collect_root_vars(expr->left, vars);
+        if (may_change(if_->then_body().get(), vars)) return nullptr;
+        return if_;
+    }
+
+    bool static may_change(Stmt* stmt, const std::unordered_set<const Var*>& vars) {
+        switch (stmt->type()) {
+            case StatementType::Assign: {
+                std::unordered_set<const Var*> left;
+                collect_root_vars(reinterpret_cast<AssignStmt*>(stmt)->left(), left);
+                return std::any_of(left.begin(), left.end(),
+                                   [&vars](auto const* v) { return vars.find(v) != vars.end(); });
+            }
+            case StatementType::If:
+            case StatementType::Switch:
+            case StatementType::For:
+            case StatementType::Block: {
+                for (uint64_t i = 0; i < stmt->child_count(); i++) {
+                    auto* child = stmt->get_child(i);
+                    if (child && child->ir_node_kind() == IRNodeKind::StmtKind &&
+                        may_change(reinterpret_cast<Stmt*>(child), vars))
+                        return true;
                 }
+                return false;
             }
+            default:
+                return true;
         }
     }
 };
@@ -205,10 +262,11 @@ class VarFanOutVisitor : public IRVisitor {
 public:
     void visit(Generator* generator) override {
         auto var_names = generator->get_all_var_names();
+        auto const sensitive_vars = get_sensitive_vars(generator);
         for (auto const& var_name : var_names) {
             auto var = generator->get_var(var_name);
             std::vector<std::pair<std::shared_ptr<Var>, std::shared_ptr<AssignStmt>>> chain;
-            compute_assign_chain(var, chain);
+            compute_assign_chain(var, sensitive_vars, chain);
             if (chain.size() <= 2) continue;  // nothing to be done
 
             std::vector<std::pair<std::string, uint32_t>> debug_info;
@@ -227,9 +285,10 @@ public:
             }
 
             auto dst = chain.back().first;
-            Var::move_src_to(var.get(), dst.get(), generator, false);
-            // if both of them are ports, we need to add a statement
-            if (var->type() == VarType::PortIO && dst->type() == VarType::PortIO) {
+            if (var->type() != VarType::PortIO) {
+                Var::move_src_to(var.get(), dst.get(), generator, false);
+            } else {
+                // the port stays, we need to add a statement
                 // need to add a top assign statement
                 auto stmt = dst->assign(var, AssignmentType::Blocking);
                 if (generator->debug) {
@@ -242,10 +301,24 @@ public:
         }
     }
 
+    // used in the sensitivity list, which is not an assignment
+    std::unordered_set<const Var*> static get_sensitive_vars(Generator* generator) {
+        std::unordered_set<const Var*> result;
+        for (auto const& stmt : generator->get_all_stmts()) {
+            if (stmt->type() != StatementType::Block) continue;
+            auto block = stmt->as<StmtBlock>();
+            if (block->block_type() != StatementBlockType::Sequential) continue;
+            for (auto const& event : block->as<SequentialStmtBlock>()->get_event_controls()) {
+                if (event.var) collect_root_vars(event.var, result);
+            }
+        }
+        return result;
+    }
+
     void static compute_assign_chain(
-        const std::shared_ptr<Var>& var,
+        const std::shared_ptr<Var>& var, const std::unordered_set<const Var*>& sensitive_vars,
         std::vector<std::pair<std::shared_ptr<Var>, std::shared_ptr<AssignStmt>>>& queue) {
-        if (var->sinks().size() == 1) {
+        if (var->sinks().size() == 1 && sensitive_vars.find(var.get()) == sensitive_vars.end()) {
             auto const& stmt = *(var->sinks().begin());
             if (!stmt->parent()) return;
             if (stmt->parent()->ir_node_kind() == IRNodeKind::GeneratorKind) {
@@ -261,7 +334,7 @@ public:
                     return;
                 }
                 queue.emplace_back(std::make_pair(var, stmt));
-                compute_assign_chain(sink_var->shared_from_this(), queue);
+                compute_assign_chain(sink_var->shared_from_this(), sensitive_vars, queue);
             }
         } else {
             queue.emplace_back(std::make_pair(var, nullptr));
@@ -376,124 +449,124 @@ public:
     void visit(CombinationalStmtBlock* block) override { process_stmt_block(block); }
 
     void visit(Generator* generator) override {
-        std::set<std::shared_ptr<Stmt>> stmts_to_remove;
-
-        // first filter out sliced assignments
-        std::set<std::shared_ptr<AssignStmt>> sliced_stmts;
-        extract_sliced_stmts(generator, sliced_stmts);
-        get_stmts_to_remove(generator, stmts_to_remove, sliced_stmts);
+        // order doesn't matter at the generator level
+        std::vector<std::shared_ptr<AssignStmt>> sliced_stmts;
+        uint64_t stmt_count = generator->stmts_count();
+        for (uint64_t i = 0; i < stmt_count; i++) {
+            auto stmt = generator->get_stmt(i);
+            if (is_sliced_stmt(stmt.get())) sliced_stmts.emplace_back(stmt->as<AssignStmt>());
+        }
 
-        // remove them
-        for (auto const& stmt : stmts_to_remove) {
-            generator->remove_stmt(stmt);
+        for (auto const& stmts : get_mergeable_stmts(sliced_stmts)) {
+            auto [left, right] = get_parents(stmts[0].get());
+            unlink_stmts(stmts);
+            for (auto const& stmt : stmts) generator->remove_stmt(stmt);
+            generator->add_stmt(
+                create_new_assignment(generator, stmts, left, right, AssignmentType::Blocking));
         }
     }
 
 private:
-    void process_stmt_block(StmtBlock* block) {
-        std::set<std::shared_ptr<Stmt>> stmts_to_remove;
+    using AssignPair = std::pair<Var*, Var*>;
 
-        // first filter out sliced assignments
-        std::set<std::shared_ptr<AssignStmt>> sliced_stmts;
-        extract_sliced_stmts(block, sliced_stmts);
-        get_stmts_to_remove(block, stmts_to_remove, sliced_stmts);
-        for (auto const& stmt : stmts_to_remove) block->remove_stmt(stmt);
-    }
-
-    static void extract_sliced_stmts(Generator* generator,
-                                     std::set<std::shared_ptr<AssignStmt>>& sliced_stmts) {
-        uint64_t stmt_count = generator->stmts_count();
-        for (uint64_t i = 0; i < stmt_count; i++) {
-            auto stmt = generator->get_stmt(i);
-            if (stmt->type() == StatementType::Assign) {
+    void process_stmt_block(StmtBlock* block) {
+        // only the ones next to each other can be merged, otherwise the order is changed
+        std::vector<std::vector<std::shared_ptr<AssignStmt>>> groups = {{}};
+        for (auto const& stmt : *block) {
+            if (is_sliced_stmt(stmt.get())) {
                 auto assign_stmt = stmt->as<AssignStmt>();
-                if (assign_stmt->left()->type() == VarType::Slice &&
-                    assign_stmt->right()->type() == VarType::Slice) {
-                    sliced_stmts.emplace(assign_stmt);
+                auto& group = groups.back();
+                // use the first assignment type. assume all the assignment has passed the
+                // mixed assignment check
+                if (group.empty() || (get_parents(group[0].get()) == get_parents(assign_stmt.get()) &&
+                                      group[0]->assign_type() == assign_stmt->assign_type())) {
+                    group.emplace_back(assign_stmt);
+                } else {
+                    groups.emplace_back(std::vector<std::shared_ptr<AssignStmt>>{assign_stmt});
                 }
+            } else {
+                groups.emplace_back();
             }
         }
-    }
-
-    static void extract_sliced_stmts(StmtBlock* block,
-                                     std::set<std::shared_ptr<AssignStmt>>& sliced_stmts) {
-        for (auto const& stmt : *block) {
-            if (stmt->type() == StatementType ::Assign) {
-                auto assign_stmt = stmt->as<AssignStmt>();
-                if (assign_stmt->left()->type() == VarType::Slice &&
-                    assign_stmt->right()->type() == VarType::Slice) {
-                    sliced_stmts.emplace(assign_stmt);
-                }
+        for (auto const& group : groups) {
+            for (auto const& stmts : get_mergeable_stmts(group)) {
+                auto [left, right] = get_parents(stmts[0].get());
+                unlink_stmts(stmts);
+                auto new_stmt = create_new_assignment(get_parent(block), stmts, left, right,
+                                                      stmts[0]->assign_type());
+                auto pos = std::find(block->begin(), block->end(), stmts[0]);
+                block->set_child(std::distance(block->begin(), pos), new_stmt);
+                for (auto const& stmt : stmts) block->remove_stmt(stmt);
             }
         }
     }
 
-    template <typename T>
-    void get_stmts_to_remove(T* generator, std::set<std::shared_ptr<Stmt>>& stmts_to_remove,
-                             const std::set<std::shared_ptr<AssignStmt>>& sliced_stmts) const {
-        // group the assignments together
-        using AssignPair = std::pair<Var*, Var*>;
-        std::map<AssignPair, std::vector<std::shared_ptr<AssignStmt>>> slice_vars;
-        for (auto const& assign_stmt : sliced_stmts) {
-            auto left_slice = assign_stmt->left()->as<VarSlice>();
-            auto right_slice = assign_stmt->right()->as<VarSlice>();
-            Var* left_parent = left_slice->parent_var;
-            Var* right_parent = right_slice->parent_var;
-            // only deal with 1D for now
-            if (left_parent->type() == VarType::Slice) continue;
-            if (right_parent->type() == VarType::Slice) continue;
-            if (left_parent->width() != right_parent->width()) continue;
-            if (left_parent->size().size() != right_parent->size().size() ||
-                left_parent->size().front() != right_parent->size().front())
-                continue;
-
-            slice_vars[{left_parent, right_parent}].emplace_back(assign_stmt);
-        }
+    static bool is_sliced_stmt(Stmt* stmt) {
+        if (stmt->type() != StatementType::Assign) return false;
+        auto assign_stmt = stmt->as<AssignStmt>();
+        if (assign_stmt->left()->type() != VarType::Slice ||
+            assign_stmt->right()->type() != VarType::Slice || assign_stmt->has_delay())
+            return false;
+        auto left = assign_stmt->left()->as<VarSlice>();
+        auto right = assign_stmt->right()->as<VarSlice>();
+        if (left->sliced_by_var() || right->sliced_by_var()) return false;
+        // same bit or element
+        if (left->high != left->low || left->high != right->high || left->low != right->low)
+            return false;
+        auto const& [left_parent, right_parent] = get_parents(assign_stmt.get());
+        // only deal with 1D for now
+        if (left_parent->type() == VarType::Slice) return false;
+        if (right_parent->type() == VarType::Slice) return false;
+        if (left_parent->is_struct() || right_parent->is_struct()) return false;
+        if (left_parent == right_parent) return false;
+        return left_parent->width() == right_parent->width() &&
+               left_parent->size() == right_parent->size() &&
+               left_parent->is_packed() == right_parent->is_packed() &&
+               left_parent->is_signed() == right_parent->is_signed() &&
+               left_parent->is_enum() == right_parent->is_enum();
+    }
 
-        // merge the assignments
-        for (auto const& [vars, stmts] : slice_vars) {
-            const auto& [left, right] = vars;
+    static AssignPair get_parents(AssignStmt* stmt) {
+        return {stmt->left()->as<VarSlice>()->parent_var,
+                stmt->right()->as<VarSlice>()->parent_var};
+    }
 
+    // group the assignments together. each group covers the variable
+    static std::vector<std::vector<std::shared_ptr<AssignStmt>>> get_mergeable_stmts(
+        const std::vector<std::shared_ptr<AssignStmt>>& sliced_stmts) {
+        std::map<AssignPair, uint64_t> index;
+        std::vector<std::vector<std::shared_ptr<AssignStmt>>> groups;
+        for (auto const& stmt : sliced_stmts) {
+            auto parents = get_parents(stmt.get());
+            auto const& it = index.emplace(parents, groups.size());
+            if (it.second) groups.emplace_back();
+            groups[it.first->second].emplace_back(stmt);
+        }
+        std::vector<std::vector<std::shared_ptr<AssignStmt>>> result;
+        for (auto const& stmts : groups) {
+            std::unordered_set<uint32_t> bits;
+            for (auto const& stmt : stmts) bits.emplace(stmt->left()->as<VarSlice>()->low);
             // NOTE:
             // we assume that at this stage we've passed the connectivity check
-            if (stmts.size() != left->width()) continue;
-
-            // remove left's sources and right's sink
-            // also add it to the statements to remove
-            for (auto const& stmt : stmts) {
-                left->remove_source(stmt);
-                right->remove_sink(stmt);
-                stmts_to_remove.emplace(stmt);
-            }
-            // make new assignment
-            create_new_assignment(generator, stmts, left, right);
+            auto* left = get_parents(stmts[0].get()).first;
+            if (stmts.size() == left->width() && bits.size() == stmts.size())
+                result.emplace_back(stmts);
         }
+        return result;
     }
-    void static create_new_assignment(Generator* generator,
-                                      const std::vector<std::shared_ptr<AssignStmt>>& stmts,
-                                      Var* const left, Var* const right) {
-        if (stmts.empty()) return;
-        auto new_stmt = left->assign(right->shared_from_this(), AssignmentType::Blocking);
-        generator->add_stmt(new_stmt);
-        if (generator->debug) {
-            // merge all the statements
-            for (auto const& stmt : stmts) {
-                new_stmt->fn_name_ln.insert(new_stmt->fn_name_ln.end(), stmt->fn_name_ln.begin(),
-                                            stmt->fn_name_ln.end());
-            }
-            new_stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
+
+    // remove left's sources and right's sink
+    static void unlink_stmts(const std::vector<std::shared_ptr<AssignStmt>>& stmts) {
+        for (auto const& stmt : stmts) {
+            stmt->left()->remove_source(stmt);
+            stmt->right()->remove_sink(stmt);
         }
     }
 
-    static void create_new_assignment(StmtBlock* block,
-                                      const std::vector<std::shared_ptr<AssignStmt>>& stmts,
-                                      Var* const left, Var* const right) {
-        if (stmts.empty()) return;
-        // use the first assignment type. assume all the assignment has passed the
-        // mixed assignment check
-        auto new_stmt = left->assign(right->shared_from_this(), stmts[0]->assign_type());
-        block->add_stmt(new_stmt);
-        auto* generator = get_parent(block);
+    static std::shared_ptr<AssignStmt> create_new_assignment(
+        Generator* generator, const std::vector<std::shared_ptr<AssignStmt>>& stmts,
+        Var* const left, Var* const right, AssignmentType type) {
+        auto new_stmt = left->assign(right->shared_from_this(), type);
         if (generator->debug) {
             // merge all the statements
             for (auto const& stmt : stmts) {
@@ -502,6 +575,7 @@ private:
             }
             new_stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
         }
+        return new_stmt;
     }
 
     static Generator* get_parent(StmtBlock* block) {
@@ -939,24 +1013,21 @@ public:
 
 private:
     std::shared_ptr<IfStmt> process(std::shared_ptr<IfStmt> stmt) {
-        auto then_ = stmt->then_body();
-        auto then_body = process(then_);
-        auto else_body = process(stmt->else_body());
-        if (!then_body) {
-            // then is empty
-            if (else_body->empty()) {
-                return nullptr;
-            } else {
-                // invert the condition and make else then
-                auto cond = stmt->predicate();
-                auto& new_cond = ~(*cond);
-                stmt->set_predicate(new_cond.shared_from_this());
-                stmt->set_then(else_body->as<ScopedStmtBlock>());
-                stmt->set_else(std::make_shared<ScopedStmtBlock>());
-                return stmt;
-            }
+        process(stmt->then_body());
+        process(stmt->else_body());
+        if (!stmt->then_body()->empty()) return stmt;
+        // then is empty
+        if (stmt->else_body()->empty()) return nullptr;
+        // invert the condition and make else then
+        auto cond = stmt->predicate();
+        auto& new_cond = cond->width() == 1 ? ~(*cond) : cond->r_not();
+        stmt->set_predicate(new_cond.shared_from_this());
+        std::vector<std::shared_ptr<Stmt>> stmts(stmt->else_body()->begin(),
+                                                 stmt->else_body()->end());
+        for (auto const& st : stmts) {
+            stmt->remove_else_stmt(st);
+            stmt->add_then_stmt(st);
         }
-        stmt->set_then(then_body->as<ScopedStmtBlock>());
         return stmt;
     }
 
@@ -983,15 +1054,37 @@ private:
 
     std::shared_ptr<SwitchStmt> process(std::shared_ptr<SwitchStmt> stmt) {
         std::map<std::shared_ptr<Const>, std::shared_ptr<ScopedStmtBlock>> new_body;
+        std::vector<std::shared_ptr<Const>> empty_cases;
         auto const& body = stmt->body();
         for (const auto& [cond, block] : body) {
             auto r = process(block);
             if (r) {
                 new_body.emplace(cond, r->as<ScopedStmtBlock>());
+            } else if (cond) {
+                empty_cases.emplace_back(cond);
             }
         }
         if (new_body.empty()) return nullptr;
         stmt->set_body(new_body);
+        auto default_ = new_body.find(nullptr);
+        if (!empty_cases.empty() && default_ != new_body.end()) {
+            // default is not meant for the empty cases
+            std::sort(empty_cases.begin(), empty_cases.end(),
+                      [](auto const& a, auto const& b) { return a->value() < b->value(); });
+            Var* cond = nullptr;
+            for (auto const& case_ : empty_cases) {
+                auto& ne = *stmt->target() != *case_;
+                cond = cond ? &(*cond && ne) : &ne;
+            }
+            auto if_ = std::make_shared<IfStmt>(*cond);
+            auto& block = default_->second;
+            std::vector<std::shared_ptr<Stmt>> stmts(block->begin(), block->end());
+            for (auto const& st : stmts) {
+                block->remove_stmt(st);
+                if_->add_then_stmt(st);
+            }
+            block->add_stmt(if_);
+        }
         return stmt;
     }
 
diff --git a/src/transform.cc b/src/transform.cc
index 02326da..a482373 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -928,8 +928,9 @@ public:
         std::vector<std::shared_ptr<Stmt>> combinational_assignments;
         std::vector<std::shared_ptr<Stmt>> sequential_assignments;
         std::vector<std::shared_ptr<Stmt>> latch_assignments;
-        auto lists = {&var_assignments, &module_inst_assignments, &latch_assignments,
-                      &combinational_assignments, &sequential_assignments};
+        std::vector<std::shared_ptr<Stmt>> other_stmts;
+        auto lists = {&var_assignments,           &module_inst_assignments, &latch_assignments,
+                      &combinational_assignments, &sequential_assignments,  &other_stmts};
         for (auto* assign : lists) assign->reserve(stmts.size());
 
         for (auto const& stmt : stmts) {
@@ -944,12 +945,13 @@ public:
                 } else if (block->block_type() == StatementBlockType::Latch) {
                     latch_assignments.emplace_back(stmt);
                 } else {
-                    throw StmtException("Unrecognized statement block in top level", {stmt.get()});
+                    // initial, final, function, etc. keep their order
+                    other_stmts.emplace_back(stmt);
                 }
             } else if (stmt->type() == StatementType::ModuleInstantiation) {
                 module_inst_assignments.emplace_back(stmt);
             } else {
-                throw StmtException("Statement cannot be in the top level", {stmt.get()});
+                other_stmts.emplace_back(stmt);
             }
         }
 
-- 
2.43.0


From a26a02c093bc95d478446c4dd474e6c6ed5cc927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:43 +0000
Subject: [PATCH 16/55] fix: constants are checked against their width and
 emitted with their value and sign

---
 src/codegen.cc |  4 +++
 src/expr.cc    | 94 +++++++++++++++++++++++++++++++++++++++-----------
 src/expr.hh    |  2 ++
 3 files changed, 80 insertions(+), 20 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index 694bf7a..50f2f74 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -376,6 +376,10 @@ void SystemVerilogCodeGen::generate_parameters(Generator* generator) {
             } else if (param->param_type() != ParamType::Parameter) {
                 if (param->has_value()) value_str = param->value_str();
             }
+            if (param->param_type() == ParamType::Integral && param->is_signed()) {
+                // without a type it takes the one of its value, which is unsigned
+                type_str = ::format("signed [{0}:0]", param->width() - 1);
+            }
             std::string param_str =
                 type_str.empty() ? "parameter" : ::format("parameter {0}", type_str);
             stream_ << indent()
diff --git a/src/expr.cc b/src/expr.cc
index e0f9851..a4fafe3 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -946,6 +946,7 @@ void Var::unassign(const std::shared_ptr<AssignStmt> &stmt) {
 
 Const::Const(Generator *generator, int64_t value, uint32_t width, bool is_signed)
     : Var(generator, std::to_string(value), width, 1, is_signed, VarType::ConstValue), value_() {
+    if (width == 0) throw UserException(::format("Unable to represent {0} with width 0", value));
     // need to deal with the signed value
     auto is_legal = Const::is_legal(value, width, is_signed);
     if (is_legal == ConstantLegal::Small) {
@@ -954,10 +955,9 @@ Const::Const(Generator *generator, int64_t value, uint32_t width, bool is_signed
         std::memcpy(&min, &temp, sizeof(min));
         throw UserException(::format("{0} is smaller than the minimum value ({1}) given width {2}",
                                      value, min, width));
-    } else if (is_legal == ConstantLegal::Big && width <= 64) {
-        uint64_t max = (1ull << width) - 1;
-        uint64_t unsigned_value;
-        std::memcpy(&unsigned_value, &value, sizeof(unsigned_value));
+    } else if (is_legal == ConstantLegal::Big) {
+        // every value fits into 64 bits, so the shift is never too large
+        uint64_t max = is_signed ? (1ull << (width - 1)) - 1 : (1ull << width) - 1;
         throw UserException(::format("{0} is larger than the maximum value ({1}) given width {2}",
                                      value, max, width));
     }
@@ -965,6 +965,9 @@ Const::Const(Generator *generator, int64_t value, uint32_t width, bool is_signed
 }
 
 Const::ConstantLegal Const::is_legal(int64_t value, uint32_t width, bool is_signed) {
+    // value is a 64-bit number
+    if (width >= 64) return Const::ConstantLegal::Legal;
+    if (width == 0) return Const::ConstantLegal::Big;
     if (is_signed) {
         // compute the -max value
         uint64_t temp = (~0ull) << (width - 1);
@@ -976,7 +979,7 @@ Const::ConstantLegal Const::is_legal(int64_t value, uint32_t width, bool is_sign
         std::memcpy(&max, &temp, sizeof(max));
         if (value > max) return Const::ConstantLegal::Big;
     } else {
-        uint64_t max = width == 64 ? std::numeric_limits<uint64_t>::max() : (1ull << width) - 1;
+        uint64_t max = (1ull << width) - 1;
         uint64_t unsigned_value;
         std::memcpy(&unsigned_value, &value, sizeof(unsigned_value));
         if (unsigned_value > max) return Const::ConstantLegal::Big;
@@ -1000,19 +1003,57 @@ Const &Const::constant(int64_t value, uint32_t width, bool is_signed) {
     return *p;
 }
 
+static uint32_t hex_digit(char c) {
+    return c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10;  // NOLINT
+}
+
+// amount of bits needed to represent the number
+static uint32_t hex_num_bits(const std::string &hex_value) {
+    auto const pos = hex_value.find_first_not_of('0');
+    if (pos == std::string::npos) return 0;
+    auto bits = static_cast<uint32_t>(hex_value.size() - pos - 1) * 4;
+    for (auto digit = hex_digit(hex_value[pos]); digit; digit >>= 1u) bits++;
+    return bits;
+}
+
+static bool is_power_of_two(const std::string &hex_value) {
+    auto const pos = hex_value.find_first_not_of('0');
+    if (pos == std::string::npos) return false;
+    auto const digit = hex_digit(hex_value[pos]);
+    return (digit & (digit - 1)) == 0 &&
+           hex_value.find_first_not_of('0', pos + 1) == std::string::npos;
+}
+
 Const &Const::constant(const std::string &hex_value, uint32_t num_bits, bool negative,
                        uint32_t width, bool is_signed) {
-    auto p = std::make_shared<Const>(std::numeric_limits<uint64_t>::max(), width, is_signed);
-    if (hex_value.find_first_not_of("abcdefABCDEF0123456789") != std::string::npos) {
+    if (hex_value.empty() ||
+        hex_value.find_first_not_of("abcdefABCDEF0123456789") != std::string::npos) {
         throw std::invalid_argument("Invalid hex value for constant " + hex_value);
     }
+    // num_bits is the size of the magnitude
+    num_bits = hex_num_bits(hex_value);
+    if (num_bits == 0) return constant(0, width, is_signed);
+    auto p = std::make_shared<Const>(-1, std::max(width, 64u), is_signed);
     p->hex_value_ = hex_value;
     p->negative_ = negative;
     p->num_bits_ = num_bits;
+    if (!p->fits(width)) {
+        throw UserException(::format("Unable to represent {0}0x{1} with width {2}",
+                                     negative ? "-" : "", hex_value, width));
+    }
+    p->var_width_ = width;
     consts_.emplace(p);
     return *p;
 }
 
+bool Const::fits(uint32_t target_width) const {
+    if (!is_bignum()) return is_legal(value_, target_width, is_signed_) == ConstantLegal::Legal;
+    if (!is_signed_) return !negative_ && num_bits_ <= target_width;
+    if (num_bits_ < target_width) return true;
+    // the smallest number has the same amount of bits as the width
+    return negative_ && num_bits_ == target_width && is_power_of_two(hex_value_);
+}
+
 Const &Const::constant(std::string value, uint32_t width) {
     auto p = std::make_shared<StringConst>(std::move(value), width);
     consts_.emplace(p);
@@ -1116,23 +1157,25 @@ void Const::set_value(int64_t new_value) {
             ::format("Unable to set const to {0} with width {1}", new_value, width()), {this});
     }
     value_ = new_value;
+    num_bits_ = 0;
 }
 
 int64_t convert_string_to_int(const std::string &value) {
-    int64_t converted_value = 0;
+    uint64_t converted_value = 0;
     // SystemVerilog uses reverse order if it's [hi:lo] (kratos does that)
-    int64_t idx = 0;
-    for (auto it = value.rbegin(); it != value.rend(); it++) {
-        auto c = static_cast<int64_t>(*it);  // NOLINT
+    // only the lowest 64 bits are kept
+    uint64_t idx = 0;
+    for (auto it = value.rbegin(); it != value.rend() && idx < 64; it++) {
+        auto c = static_cast<uint64_t>(static_cast<uint8_t>(*it));
         converted_value |= c << idx;
         idx += 8;
     }
-    return converted_value;
+    return static_cast<int64_t>(converted_value);
 }
 
 void Const::set_value(const std::string &new_value) {
     // convert string to int
-    if ((new_value.size() * 8) > sizeof(uint64_t)) {
+    if (new_value.size() > sizeof(uint64_t)) {
         throw VarException("string value too big to be converted to integer", {this});
     }
     auto converted_value = convert_string_to_int(new_value);
@@ -1140,9 +1183,9 @@ void Const::set_value(const std::string &new_value) {
 }
 
 void Const::set_width(uint32_t target_width) {
-    if (Const::is_legal(value_, target_width, is_signed()) != Const::ConstantLegal::Legal) {
-        throw VarException(::format("Unable to set const {0} to width {1}", value_, target_width),
-                           {this});
+    if (!fits(target_width)) {
+        throw VarException(
+            ::format("Unable to set const {0} to width {1}", to_string(), target_width), {this});
     }
     var_width_ = target_width;
 }
@@ -1166,7 +1209,8 @@ void Const::add_sink(const std::shared_ptr<AssignStmt> &stmt) {
 }
 
 Param::Param(Generator *m, std::string name, uint32_t width, bool is_signed)
-    : Const(m, 1, width, is_signed), parameter_name_(std::move(name)) {
+    : Const(m, is_signed && width == 1 ? -1 : 1, width, is_signed),
+      parameter_name_(std::move(name)) {
     // override the type value
     type_ = VarType::Parameter;
 }
@@ -1464,9 +1508,9 @@ std::string Const::to_string() const {
             return ::format("{0}\'h{1}", width(), hex_value_);
         }
     } else if (is_signed_ && value_ < 0) {
-        return ::format("-{0}\'h{1:X}", width(), -value_);
+        return ::format("-{0}\'h{1:X}", width(), 0 - static_cast<uint64_t>(value_));
     } else {
-        return ::format("{0}\'h{1:X}", width(), value_);
+        return ::format("{0}\'h{1:X}", width(), static_cast<uint64_t>(value_));
     }
 }
 
@@ -1484,7 +1528,17 @@ bool static is_associative_op(ExprOp op) {
 // a literal is unsigned unless specified otherwise, which makes the entire expression unsigned.
 // it's always written as a bit pattern since e.g. -4'sh8 is positive once it's extended
 static std::string operand_to_string(const Var *var, const std::string &str) {
-    if (!is_plain_const(var) || !var->is_signed() || var->width() > 64) return str;
+    if (!var->is_signed()) return str;
+    if (typeid(*var) == typeid(Const) && (!is_plain_const(var) || var->width() > 64)) {
+        // only the smallest number changes once its magnitude is read as a signed one. only big
+        // numbers can be that small
+        auto const pos = str.find('\'');
+        auto const *const_ = reinterpret_cast<const Const *>(var);
+        auto const smallest = str[0] == '-' && const_->is_bignum() && !const_->fits(var->width() - 1) &&
+                              is_power_of_two(str.substr(pos + 2));
+        return str.substr(smallest ? 1 : 0, pos + (smallest ? 0 : 1)) + "s" + str.substr(pos + 1);
+    }
+    if (!is_plain_const(var)) return str;
     auto value = static_cast<uint64_t>(reinterpret_cast<const Const *>(var)->value());
     return ::format("{0}'sh{1:X}", var->width(), truncate(value, var->width()));
 }
diff --git a/src/expr.hh b/src/expr.hh
index 3200c4b..23a2824 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -465,6 +465,8 @@ public:
     enum class ConstantLegal { Legal, Small, Big };
 
     static ConstantLegal is_legal(int64_t value, uint32_t width, bool is_signed);
+    // whether the number can be represented at a different width
+    [[nodiscard]] bool fits(uint32_t target_width) const;
 
 private:
     int64_t value_;
-- 
2.43.0


From aa1cd53ecaa262f129df514dc3a1a74c6359d6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:58 +0000
Subject: [PATCH 17/55] fix: report files that cannot be written, record the
 file of unchanged modules

---
 src/codegen.cc | 31 +++++++++++++++++--------------
 src/codegen.hh |  2 +-
 src/debug.cc   |  2 ++
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index 50f2f74..76d6cac 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -1429,6 +1429,14 @@ std::map<std::string, std::string> generate_verilog_no_pkg(Generator* top,
 std::map<uint32_t, std::vector<std::pair<std::string, uint32_t>>> extract_debug_info_gen(
     Generator* top);
 
+void static write_file(const std::string& path, const std::string& content) {
+    std::ofstream out(path, std::ios::trunc);
+    out << content;
+    // anything that goes wrong, e.g. no space left, leaves an incomplete file
+    out.close();
+    if (!out) throw UserException(::format("Unable to write to {0}", path));
+}
+
 void output_pkg_debug_info(const std::map<std::string, Generator*>& generator_map,
                            const SystemVerilogCodeGenOptions& options) {
     for (const auto& [module_name, module_gen] : generator_map) {
@@ -1455,8 +1463,7 @@ void output_pkg_debug_info(const std::map<std::string, Generator*>& generator_ma
         json << "}" << std::endl;
         // just dump it since we don't care about incremental build for debug info
         auto debug_filename = kratos::fs::join(options.output_dir, module_name + ".sv.debug");
-        std::ofstream debug_stream(debug_filename, std::ios::in | std::ios::out | std::ios::trunc);
-        debug_stream << json.str();
+        write_file(debug_filename, json.str());
     }
 }
 
@@ -1469,8 +1476,7 @@ void generate_verilog_pkg(Generator* top, SystemVerilogCodeGenOptions options) {
     // this pass assumes that all the generators has been uniquified
     // first get all the unique generators
     UniqueGeneratorVisitor unique_visitor;
-    // this can be parallelized
-    unique_visitor.visit_generator_root_p(top);
+    unique_visitor.visit_generator_root(top);
     auto const& generator_map = unique_visitor.generator_map();
     track_generators(top);
 
@@ -1490,6 +1496,11 @@ void generate_verilog_pkg(Generator* top, SystemVerilogCodeGenOptions options) {
     // https://www.veripool.org/boards/2/topics/2822
     for (auto const& [module_name, src] : result) {
         auto path = kratos::fs::join(options.output_dir, module_name + ".sv");
+        // tell the system where it is, if allowed
+        auto gens = top->context()->get_generators_by_name(module_name);
+        for (auto const& gen : gens) {
+            if (gen->debug) gen->verilog_fn = path;
+        }
         if (kratos::fs::exists(path)) {
             // load up the file
             std::ifstream in(path);
@@ -1498,14 +1509,7 @@ void generate_verilog_pkg(Generator* top, SystemVerilogCodeGenOptions options) {
             std::string content = content_stream.str();
             if (content == src) continue;
         }
-        // truncate mode
-        std::ofstream out(path, std::ios::trunc);
-        out << src;
-        // tell the system where it went, if allowed
-        auto gens = top->context()->get_generators_by_name(module_name);
-        for (auto const& gen : gens) {
-            if (gen->debug) gen->verilog_fn = path;
-        }
+        write_file(path, src);
     }
     // output debug info as well, if required
     if (options.extract_debug_info) {
@@ -1526,8 +1530,7 @@ void generate_verilog_pkg(Generator* top, SystemVerilogCodeGenOptions options) {
             return;
         }
     }
-    std::ofstream out(header_filename, std::ios::in | std::ios::out | std::ios::trunc);
-    out << def_str;
+    write_file(header_filename, def_str);
 }
 
 std::map<std::string, std::string> generate_verilog(Generator* top) {
diff --git a/src/codegen.hh b/src/codegen.hh
index 20163b0..3f1eed6 100644
--- a/src/codegen.hh
+++ b/src/codegen.hh
@@ -17,7 +17,7 @@ struct SystemVerilogCodeGenOptions {
     std::string package_name;
     uint64_t line_wrap = 80;
     std::string output_dir;
-    bool extract_debug_info;
+    bool extract_debug_info = false;
 };
 
 class VerilogModule {
diff --git a/src/debug.cc b/src/debug.cc
index 802bcc1..4618d29 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -791,6 +791,8 @@ std::map<uint32_t, std::vector<std::pair<std::string, uint32_t>>> extract_debug_
     GeneratorDebugVisitor visitor;
     visitor.visit_content(top);
     auto result = visitor.result();
+    // nothing is known about where the generator comes from
+    if (result.empty()) return {};
     if (result.size() != 1) {
         throw InternalException(
             ::format("Unable to extract debug info from the particular generator {0}", top->name));
-- 
2.43.0


From c61506fbecb9fa4a05f1301d7bd2ef6aa9f4f9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:19 +0000
Subject: [PATCH 18/55] fix: unpacked arrays, empty replications and constants
 are checked where they are used

---
 src/expr.cc | 88 ++++++++++++++++++++++++++++++++++++++++-------------
 src/stmt.cc | 20 +++++++++---
 2 files changed, 83 insertions(+), 25 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index a4fafe3..92b0be5 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -207,6 +207,13 @@ static bool is_array_var(const Var *var) {
     return var->size().size() > 1 || var->size().front() > 1 || var->explicit_array();
 }
 
+// an unpacked array is not a value any operator can be applied to
+static void check_operand(const Var *var) {
+    if (!var->is_packed() && is_array_var(var))
+        throw VarException(::format("Unpacked array {0} cannot be used as an operand", var->to_string()),
+                           {var});
+}
+
 // a select can only be applied to a name or a concatenation
 static void check_selectable(Var *var) {
     bool selectable = true;
@@ -758,6 +765,14 @@ Expr::Expr(ExprOp op, Var *left, Var *right)
       left(left),
       right(right) {
     assert(left->ir_node_kind() == IRNodeKind::VarKind);
+    // unpacked arrays of the same shape can be compared and chosen from as a whole
+    auto const aggregate_op =
+        op == ExprOp::Eq || op == ExprOp::Neq || op == ExprOp::Conditional;
+    if (!aggregate_op || !right || left->is_packed() || right->is_packed() ||
+        left->size() != right->size() || left->width() != right->width()) {
+        check_operand(left);
+        if (right) check_operand(right);
+    }
     // notice that we allow shifting to have different size
     if (right && is_shift_op(op) && (left->width() > right->width())) {
         // resize right
@@ -903,31 +918,37 @@ std::shared_ptr<AssignStmt> Var::assign(const std::shared_ptr<Var> &var, Assignm
     return assign_(var, type);
 }
 
-class AllConcat : public IRVisitor {
-public:
-    void visit(Expr *expr) override {
-        if (expr->op != ExprOp::Concat) {
-            legal = false;
+// whether a value can be stored in it. a concatenation needs all of its parts to be assignable
+static bool is_assignable(const Var *var) {
+    switch (var->type()) {
+        case VarType::ConstValue:
+        case VarType::Parameter:
+        case VarType::Iter:
+            return false;
+        case VarType::Slice:
+            return is_assignable(reinterpret_cast<const VarSlice *>(var)->parent_var);
+        case VarType::Expression: {
+            if (reinterpret_cast<const Expr *>(var)->op != ExprOp::Concat) return false;
+            auto const &vars = reinterpret_cast<const VarConcat *>(var)->vars();
+            return std::all_of(vars.begin(), vars.end(), is_assignable);
         }
+        default:
+            return true;
     }
-    bool legal = true;
-};
+}
 
 std::shared_ptr<AssignStmt> Var::assign_(const std::shared_ptr<Var> &var, AssignmentType type) {
     if (!var) {
         throw UserException("Trying to assign null to " + to_string());
     }
     // if it's a constant or expression, it can't be assigned to
-    if (type_ == VarType::ConstValue) {
-        throw VarException(::format("Cannot assign {0} to a const {1}", var->to_string(), name),
-                           {this, var.get()});
-    } else if (type_ == VarType::Expression) {
-        auto all_concat = AllConcat();
-        all_concat.visit_root(this);
-        if (!all_concat.legal)
+    if (!is_assignable(this)) {
+        if (type_ == VarType::Expression)
             throw VarException(
-                ::format("Cannot assign {0} to an expression", var->to_string(), name),
+                ::format("Cannot assign {0} to an expression {1}", var->to_string(), to_string()),
                 {this, var.get()});
+        throw VarException(::format("Cannot assign {0} to a const {1}", var->to_string(), name),
+                           {this, var.get()});
     }
 
     auto stmt = ::make_shared<AssignStmt>(shared_from_this(), var, type);
@@ -1072,6 +1093,9 @@ VarCasted::VarCasted(Var *parent, VarCastType cast_type)
       parent_var_(parent),
       cast_type_(cast_type) {
     type_ = VarType::BaseCasted;
+    if (cast_type_ == VarCastType::Signed || cast_type_ == VarCastType::Unsigned ||
+        cast_type_ == VarCastType::Enum || cast_type_ == VarCastType::Resize)
+        check_operand(parent);
     if (cast_type_ == VarCastType::Signed) {
         is_signed_ = true;
     } else if (cast_type_ == VarCastType::Unsigned) {
@@ -1079,11 +1103,12 @@ VarCasted::VarCasted(Var *parent, VarCastType cast_type)
     } else if (cast_type_ == VarCastType::Resize) {
         // changing the width keeps the sign
         is_signed_ = parent->is_signed();
-    } else if (cast_type_ == VarCastType::AsyncReset || cast_type_ == VarCastType::Clock) {
-        if (parent->size().size() != 1 || parent->size().front() != 1) {
-            throw VarException(::format("Can only cast bit width 1 to "
-                                        "Clock or AsyncReset. {0} is {1}",
-                                        parent->to_string(), parent->size().front()),
+    } else if (cast_type_ != VarCastType::Enum) {
+        // control signals
+        if (parent->width() != 1 || is_array_var(parent)) {
+            throw VarException(::format("Can only cast bit width 1 to a control signal, "
+                                        "e.g. Clock or AsyncReset. {0} is {1}",
+                                        parent->to_string(), parent->width()),
                                {parent});
         }
     }
@@ -1355,6 +1380,7 @@ std::string VarConcat::handle_name(kratos::Generator *scope) const {
 VarConcat::VarConcat(const std::shared_ptr<VarConcat> &first, const std::shared_ptr<Var> &second)
     : Expr(first.get(), second.get()) {
     // notice that the concatenation itself is always unsigned
+    check_operand(second.get());
     if (first->vars_.back()->is_signed() != second->is_signed())
         throw VarException(
             ::format("{0} is signed but {1} is not", first->to_string(), second->to_string()),
@@ -1368,6 +1394,8 @@ VarConcat::VarConcat(const std::shared_ptr<VarConcat> &first, const std::shared_
 
 VarConcat::VarConcat(const std::shared_ptr<Var> &first, const std::shared_ptr<Var> &second)
     : Expr(first.get(), second.get()) {
+    check_operand(first.get());
+    check_operand(second.get());
     if (first->is_signed() != second->is_signed())
         throw VarException(
             ::format("{0} is signed but {1} is not", first->to_string(), second->to_string()),
@@ -1450,6 +1478,7 @@ std::string VarExtend::handle_name(kratos::Generator *scope) const {
 }
 
 VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate, var, nullptr) {
+    if (count == 0) throw VarException("Duplicate count has to be positive", {var});
     auto &c = Const::constant(static_cast<int64_t>(count), 32, false);
     right = &c;
     // compute width
@@ -1460,6 +1489,7 @@ VarDuplicated::VarDuplicated(Var *var, uint32_t count) : Expr(ExprOp::Duplicate,
 VarDuplicated::VarDuplicated(Var *var, const std::shared_ptr<Const> &count)
     : Expr(ExprOp::Duplicate, var, nullptr) {
     right = count.get();
+    if (count->value() <= 0) throw VarException("Duplicate count has to be positive", {var});
     // compute width
     var_width_ = static_cast<uint32_t>(count->value()) * var->width();
     is_signed_ = false;
@@ -1528,7 +1558,18 @@ bool static is_associative_op(ExprOp op) {
 // a literal is unsigned unless specified otherwise, which makes the entire expression unsigned.
 // it's always written as a bit pattern since e.g. -4'sh8 is positive once it's extended
 static std::string operand_to_string(const Var *var, const std::string &str) {
-    if (!var->is_signed()) return str;
+    if (!var->is_signed()) {
+        // the only bit of a signed variable is written as the variable itself
+        auto const *root = var;
+        while (root->type() == VarType::Slice && !root->is_signed()) {
+            auto const *slice = reinterpret_cast<const VarSlice *>(root);
+            if (slice->sliced_by_var() || slice->parent_var->width() != 1 ||
+                is_array_var(slice->parent_var))
+                break;
+            root = slice->parent_var;
+        }
+        return root->is_signed() ? ::format("unsigned'({0})", str) : str;
+    }
     if (typeid(*var) == typeid(Const) && (!is_plain_const(var) || var->width() > 64)) {
         // only the smallest number changes once its magnitude is read as a signed one. only big
         // numbers can be that small
@@ -2412,6 +2453,11 @@ FunctionCallVar::FunctionCallVar(Generator *m, const std::shared_ptr<FunctionStm
         if (func_port->is_signed() != arg_port->is_signed())
             throw VarException(::format("{0}'s sign doesn't match", port_name),
                                {func_port.get(), arg_port.get()});
+        auto const unpacked = [](const Var &var) { return !var.is_packed() && is_array_var(&var); };
+        if (unpacked(*func_port) != unpacked(*arg_port) ||
+            (unpacked(*func_port) && func_port->size() != arg_port->size()))
+            throw VarException(::format("{0}'s array size doesn't match", port_name),
+                               {func_port.get(), arg_port.get()});
     }
     // compute the width and sign
     auto handle = func_def->function_handler();
diff --git a/src/stmt.cc b/src/stmt.cc
index ea29229..6c2c52e 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -152,7 +152,12 @@ AssignStmt::AssignStmt(const std::shared_ptr<Var> &left, std::shared_ptr<Var> ri
             if (Const::is_legal(const_->value(), left->width(), left->is_signed()) ==
                 Const::ConstantLegal::Legal) {
                 has_error = false;
-                if (typeid(*const_) == typeid(Const) && !const_->is_bignum()) {
+                if (const_->is_enum()) {
+                    // the value belongs to the enum definition
+                    auto casted = const_->cast(VarCastType::Resize)->as<VarCasted>();
+                    casted->set_target_width(left->width());
+                    right = casted;
+                } else if (typeid(*const_) == typeid(Const) && !const_->is_bignum()) {
                     // the constant can be used somewhere else, hence cannot change it in place
                     right = constant(const_->value(), left->width(), const_->is_signed())
                                 .shared_from_this();
@@ -180,9 +185,16 @@ AssignStmt::AssignStmt(const std::shared_ptr<Var> &left, std::shared_ptr<Var> ri
             right_ = right.get();
         }
     }
-    if (((left->size().front() > 1 || left->size().size() > 1 || left->explicit_array()) ||
-         (right->size().front() > 1 || right->size().size() > 1 || right->explicit_array())) &&
-        left->is_packed() != right->is_packed()) {
+    auto const left_array =
+        left->size().front() > 1 || left->size().size() > 1 || left->explicit_array();
+    auto const right_array =
+        right->size().front() > 1 || right->size().size() > 1 || right->explicit_array();
+    if (left_array && right_array && !left->is_packed() && !right->is_packed() &&
+        left->size() != right->size())
+        throw StmtException(::format("unpacked array left ({0}) and right ({1}) have different sizes",
+                                     left->to_string(), right->to_string()),
+                            {left.get(), right.get()});
+    if ((left_array || right_array) && left->is_packed() != right->is_packed()) {
         if (left->is_packed())
             throw StmtException(::format("left ({0}) is packed array but right ({1}) is not.",
                                          left->to_string(), right->to_string()),
-- 
2.43.0


From 959f6641ca057753642f40378e0ab6c50fcb8618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:00 +0000
Subject: [PATCH 19/55] fix: hash the whole content of a generator, so that
 only equal generators share a definition

---
 src/hash.cc | 533 +++++++++++++++++++++++++++++++++++++---------------
 src/pass.cc |  30 ++-
 2 files changed, 407 insertions(+), 156 deletions(-)

diff --git a/src/hash.cc b/src/hash.cc
index 0c2f66f..5dbca54 100644
--- a/src/hash.cc
+++ b/src/hash.cc
@@ -6,9 +6,11 @@
 #include "debug.hh"
 #include "generator.hh"
 #include "graph.hh"
+#include "interface.hh"
 #include "ir.hh"
 #include "pass.hh"
 #include "stmt.hh"
+#include "tb.hh"
 #include "util.hh"
 
 namespace kratos {
@@ -212,167 +214,411 @@ uint64_t hash_64_fnv1a(const void* key, uint64_t len) {
 
 }  // hash_64_fnv1a
 
-constexpr uint64_t shift_const(uint64_t value, uint8_t amount) {
-    return (value << amount) | (value >> (64u - amount));
-}
+// writes down everything that determines what the definition of a generator looks like. generators
+// with the same content can share a single definition. the names used in the content are relative
+// to the generator, so that it does not depend on where the generator is instantiated. parameter
+// values are set by whoever instantiates the generator, thus they are part of the parent's content
+class GeneratorContent {
+public:
+    explicit GeneratorContent(Generator* root) : root_(root), context_(root->context()) {
+        // the content of child generators is represented by their hash, which has to be computed
+        // before. we don't use any mechanism to lock the context's get hash or set hash.
+        // it is the caller's responsibility to prepare the calling sequence so that there
+        // won't be any race condition.
+        // by requiring this, we can have a lock-free implementation ready to scale
+        write(root->name);
+        write_attributes();
+        write_interfaces();
+        for (auto const& [name, param] : root->get_params()) write_param(name, param.get());
+        for (auto const& [name, enum_] : root->get_enums()) {
+            write_all("enum", name, enum_->width());
+            for (auto const& [value_name, value] : enum_->values)
+                write_all(value_name, value->value());
+            write("end");
+        }
+        for (auto const& [name, var] : root->vars()) write_decl(name, var.get());
+        write_children();
+        for (auto const& [name, func] : root->functions()) write_function(name, func.get());
+        for (auto const& [name, property] : root->properties()) write_property(property.get());
+        for (auto const& stmt : root->get_all_stmts()) write_stmt(stmt.get());
+    }
 
-static uint64_t hash_var(Var* var) {
-    if (!var) return 0;
-    if (var->type() == VarType::Expression) {
-        auto* expr = reinterpret_cast<Expr*>(var);
-        auto op_hash = (uint64_t)expr->op;
-        return hash_var(expr->left) ^ hash_var(expr->right) ^ op_hash;
-    } else if (var->type() == VarType::ConstValue) {
-        auto* c = reinterpret_cast<Const*>(var);
-        return static_cast<uint64_t>(c->value());
-    } else if (var->type() == VarType::Parameter) {
-        auto v = var->to_string();
-        return hash_64_fnv1a(v.c_str(), v.size());
-    } else {
-        auto v = var->to_string();
-        auto hash = hash_64_fnv1a(v.c_str(), v.size());
-        if (!var->parametrized()) {
-            hash ^= var->width();
+    [[nodiscard]] uint64_t hash() const {
+        return XXHash64::hash(content_.data(), content_.size(), 0);
+    }
+
+private:
+    Generator* root_;
+    Context* context_;
+    std::string content_;
+
+    // every entry has its size with it, so that no two different sequences look the same
+    void write(const std::string& str) {
+        content_.append(std::to_string(str.size())).append(1, ':').append(str);
+    }
+    void write(const char* str) { write(std::string(str)); }
+    template <typename T>
+    std::enable_if_t<std::is_integral_v<T>> write(T value) {
+        write(std::to_string(value));
+    }
+    template <typename T>
+    std::enable_if_t<std::is_enum_v<T>> write(T value) {
+        write(static_cast<uint64_t>(value));
+    }
+
+    template <typename... Args>
+    void write_all(const Args&... args) {
+        (write(args), ...);
+    }
+
+    void write_attributes() {
+        std::set<std::pair<std::string, std::string>> values;
+        for (auto const& attr : root_->get_attributes())
+            values.emplace(attr->type_str, attr->value_str);
+        for (auto const& [type, value] : values) write_all("attribute", type, value);
+        auto const& imports = root_->raw_package_imports();
+        for (auto const& name : std::set<std::string>(imports.begin(), imports.end()))
+            write_all("import", name);
+    }
+
+    void write_interfaces() {
+        for (auto const& [name, ref] : root_->interfaces()) {
+            auto const& def = ref->definition();
+            write_all("interface", name, ref->name(), ref->is_port(), def->def_name());
+            for (auto const& port_name : def->ports()) {
+                auto const [width, size, dir, type] = def->port(port_name);
+                write_all(port_name, width, dir, type);
+                for (auto const s : size) write(s);
+            }
+            for (auto const& var_name : def->vars()) {
+                auto const [width, size] = def->var(var_name);
+                write_all(var_name, width);
+                for (auto const s : size) write(s);
+            }
+            write("end");
         }
-        return hash;
     }
-}
 
-class HashVisitor : public IRVisitor {
-public:
-    explicit HashVisitor(Generator* root) : root_(root) {
-        context_ = root->context();
-        // compute the hash for all vars
-        auto vars = root->get_vars();
-        var_hashes_.reserve(vars.size());
-        for (const auto& var : vars) {
-            uint64_t var_hash = hash_64_fnv1a(var.c_str(), var.size());
-            var_hashes_.emplace_back(var_hash);
+    void write_param(const std::string& name, const Param* param) {
+        write_all("param", name, param->param_type(), param->width(), param->is_signed());
+        if (param->get_initial_value()) write_all("value", *param->get_initial_value());
+        if (param->get_raw_str_initial_value()) write_all("raw", *param->get_raw_str_initial_value());
+        if (param->enum_def()) write_all("enum", param->enum_def()->name);
+        write("end");
+    }
+
+    void write_decl(const std::string& name, Var* var) {
+        if (var->type() != VarType::Base && var->type() != VarType::PortIO) return;
+        write_all("var", name, var->type(), var->is_signed(), var->is_packed(),
+                  var->explicit_array(), var->is_interface(), var->before_var_str(),
+                  var->after_var_str());
+        if (var->width_param()) {
+            write_var(var->width_param());
+        } else {
+            write(var->var_width());
+        }
+        auto const& size = var->size();
+        for (uint32_t i = 0; i < size.size(); i++) {
+            if (auto* param = var->get_size_param(i))
+                write_var(param);
+            else
+                write(size[i]);
+        }
+        if (var->raw_type_parametrized()) write(var->get_raw_type_param()->to_string());
+        if (auto* enum_ = dynamic_cast<EnumType*>(var)) write(enum_->enum_type()->name);
+        if (auto* packed = dynamic_cast<PackedInterface*>(var))
+            write(packed->packed_struct()->struct_name);
+        if (auto* port = dynamic_cast<Port*>(var)) {
+            write_all(port->port_direction(), port->port_type());
+            if (port->active_high()) write(*port->active_high());
         }
+        write("end");
     }
 
-    uint64_t produce_hash() {
-        // use generator name as a seed
-        uint64_t var_hash = hash_64_fnv1a(root_->name.c_str(), root_->name.size()) << 32u;
-        for (const uint64_t var : var_hashes_) var_hash = var_hash ^ var;
-        // use var_hash as a seed
-        // FIXME: do we really need to hash in chunks? or can we use xor to ignore the ordering
-        //  of the blocks?
-        uint64_t result =
-            XXHash64::hash(stmt_hashes_.data(), stmt_hashes_.size() * sizeof(uint64_t), var_hash);
-        return result;
+    void write_children() {
+        std::map<std::string, Generator*> children;
+        for (auto const& child : root_->get_child_generators())
+            children.emplace(child->instance_name, child.get());
+        for (auto const& [name, child] : children) {
+            write_all("child", name, child->name);
+            if (context_->has_hash(child)) write(context_->get_hash(child));
+            for (auto const& [param_name, param] : child->get_params()) {
+                write(param_name);
+                if (param->parent_param()) {
+                    write_all("parent", param->parent_param()->to_string());
+                } else if (param->param_type() == ParamType::RawType) {
+                    if (param->get_raw_str_value()) write(*param->get_raw_str_value());
+                } else {
+                    write(param->value_str());
+                }
+            }
+            write("end");
+        }
     }
 
-    void visit(AssignStmt* stmt) override {
-        uint64_t stmt_hash = hash_var(stmt->left()) ^ (shift(hash_var(stmt->right()), 1));
-        // based on level
-        stmt_hash = shift(stmt_hash, level);
-        stmt_hashes_.emplace_back(stmt_hash);
+    void write_function(const std::string& name, FunctionStmtBlock* func) {
+        write_all("function", name, func->is_dpi(), func->is_builtin(), func->is_task());
+        if (func->is_builtin()) return;
+        write(func->has_return_value());
+        if (func->function_handler())
+            write_all(func->function_handler()->width(), func->function_handler()->is_signed());
+        if (func->is_dpi()) {
+            auto* dpi = reinterpret_cast<DPIFunctionStmtBlock*>(func);
+            write_all(dpi->return_width(), dpi->is_context(), dpi->is_pure());
+        }
+        for (auto const& [port_name, port] : func->ports()) write_decl(port_name, port.get());
+        for (auto const& [port_name, index] : func->port_ordering()) write_all(port_name, index);
+        write_block(func);
     }
 
-    void visit(IfStmt* stmt) override {
-        // magic number comes from here https://stackoverflow.com/a/4948967
-        // based on the requirements, warped shifting doesn't matter since it keeps
-        // the number of 0 and 1 the same. And I don't think the shifting will
-        // introduce any correlation either
-        constexpr uint64_t if_signature = shift_const(0x9e3779b97f4a7c16, 1);
-        auto var = stmt->predicate()->to_string();
-        uint64_t hash = hash_64_fnv1a(var.c_str(), var.size()) << level;
-        stmt_hashes_.emplace_back(if_signature ^ hash);
+    void write_property(Property* property) {
+        write_all("property", property->property_name(), property->action());
+        write_event(property->edge());
+        write(property->sequence()->to_string([this](const Var* var) { return var_name(var); }));
     }
 
-    void visit(SwitchStmt* stmt) override {
-        constexpr uint64_t switch_signature = shift_const(0x9e3779b97f4a7c16, 2);
-        auto var = stmt->target()->to_string();
-        uint64_t hash = hash_64_fnv1a(var.c_str(), var.size()) << level;
-        stmt_hashes_.emplace_back(switch_signature ^ hash);
+    std::string var_name(const Var* var) {
+        // use a separate content to get the content of a single variable
+        auto const content = std::move(content_);
+        content_.clear();
+        write_var(const_cast<Var*>(var));
+        auto result = std::move(content_);
+        content_ = content;
+        return result;
     }
 
-    void visit(CombinationalStmtBlock*) override {
-        constexpr uint64_t comb_signature = shift_const(0x9e3779b97f4a7c16, 3);
-        stmt_hashes_.emplace_back(comb_signature << level);
+    void write_event(const EventControl& event) {
+        write_all("event", event.type, event.edge, event.delay, event.delay_side);
+        write_var(event.var);
     }
 
-    void visit(SequentialStmtBlock* stmt) override {
-        std::string cond;
-        auto const& conditions = stmt->get_event_controls();
-        for (auto const& event_control : conditions) {
-            if (event_control.edge == EventEdgeType::Posedge)
-                cond.append("1" + event_control.var->to_string());
-            else
-                cond.append("0" + event_control.var->to_string());
+    void write_var(Var* var) {
+        if (!var) {
+            write("null");
+            return;
+        }
+        if (auto* slice = dynamic_cast<VarSlice*>(var)) {
+            write("slice");
+            write_var(slice->parent_var);
+            if (slice->sliced_by_var()) {
+                write_var(reinterpret_cast<VarVarSlice*>(var)->sliced_var());
+            } else {
+                write_all(slice->high, slice->low);
+            }
+        } else if (auto* casted = dynamic_cast<VarCasted*>(var)) {
+            write_all("cast", casted->cast_type());
+            if (casted->cast_type() == VarCastType::Resize) write(casted->width());
+            if (casted->enum_type()) write(casted->enum_type()->name);
+            write_var(casted->parent_var());
+        } else if (auto* call = dynamic_cast<FunctionCallVar*>(var)) {
+            write_all("call", call->func()->function_name());
+            for (auto const& [name, arg] : call->args()) {
+                write(name);
+                write_var(arg.get());
+            }
+            write("end");
+        } else if (auto* extend = dynamic_cast<VarExtend*>(var)) {
+            write_all("extend", extend->width());
+            write_var(extend->parent_var());
+        } else if (auto* concat = dynamic_cast<VarConcat*>(var)) {
+            write("concat");
+            for (auto* v : concat->vars()) write_var(v);
+            write("end");
+        } else if (auto* cond = dynamic_cast<ConditionalExpr*>(var)) {
+            write("conditional");
+            write_var(cond->condition);
+            write_var(cond->left);
+            write_var(cond->right);
+        } else if (auto* expr = dynamic_cast<Expr*>(var)) {
+            write_all("expr", expr->op);
+            write_var(expr->left);
+            write_var(expr->right);
+        } else if (var->type() == VarType::ConstValue) {
+            write_all("const", var->to_string(), var->is_signed());
+            if (auto* value = dynamic_cast<EnumConst*>(var))
+                write_all(value->enum_def()->name, value->value(), value->width());
+        } else {
+            // a variable. only the ones from the child generators need the instance name
+            write_all("name", var->type(), var->to_string());
+            auto const* generator = var->generator();
+            if (generator && generator != root_ && var->type() != VarType::Parameter) {
+                write(generator->parent() == root_ ? generator->instance_name
+                                                   : generator->handle_name());
+            }
         }
-        uint64_t hash = hash_64_fnv1a(cond.c_str(), cond.size()) << level;
-        constexpr uint64_t seq_signature = shift_const(0x9e3779b97f4a7c16, 3);
-        stmt_hashes_.emplace_back(hash ^ seq_signature);
     }
 
-    void visit(ModuleInstantiationStmt* stmt) override {
-        // notice that we don't use any mechanism to lock the context's get hash or set hash
-        // it is the caller's responsibility to do prepare the calling sequence so that there
-        // won't be any race condition.
-        // by requiring this, we can have a lock-free implementation ready to scale
-        auto const* target = stmt->target();
-        if (!context_->has_hash(target)) {
-            throw std::runtime_error("Internal error: " + target->name + " doesn't have a hash");
+    void write_block(StmtBlock* block) {
+        write_all("block", block->block_type());
+        if (auto const label = root_->get_block_name(block)) write_all("label", *label);
+        if (auto* seq = dynamic_cast<SequentialStmtBlock*>(block)) {
+            for (auto const& event : seq->get_event_controls()) write_event(event);
+        } else if (auto* comb = dynamic_cast<CombinationalStmtBlock*>(block)) {
+            write(comb->is_general_purpose());
+        }
+        for (auto const& stmt : *block) write_stmt(stmt.get());
+        write("end");
+    }
+
+    void write_stmt(Stmt* stmt) {
+        if (!stmt) {
+            write("null");
+            return;
         }
-        uint64_t target_hash = context_->get_hash(target);
-        constexpr uint64_t mod_signature = shift_const(0x9e3779b97f4a7c16, 4);
-        // we have assign stmts already computed the connections
-        stmt_hashes_.emplace_back(target_hash ^ mod_signature);
-    }
-
-    void visit(FunctionCallStmt* stmt) override {
-        // this is to hash the call args and func_def
-        auto func = stmt->func();
-        auto str = func->function_name();
-        auto const& var = stmt->var();
-        auto const& var_args = var->args();
-        // this is ordered map
-        for (auto const& iter : var_args) {
-            str.append(iter.second->to_string());
+        if (stmt->type() == StatementType::Comment) return;
+        write_all("stmt", stmt->type());
+        switch (stmt->type()) {
+            case StatementType::Assign: {
+                auto* assign = reinterpret_cast<AssignStmt*>(stmt);
+                write(assign->assign_type());
+                write_var(assign->left());
+                write_var(assign->right());
+                if (assign->has_delay()) write_event(*assign->get_delay());
+                break;
+            }
+            case StatementType::Block: {
+                write_block(reinterpret_cast<StmtBlock*>(stmt));
+                break;
+            }
+            case StatementType::If: {
+                auto* if_ = reinterpret_cast<IfStmt*>(stmt);
+                write_var(if_->predicate().get());
+                write_block(if_->then_body().get());
+                write_block(if_->else_body().get());
+                break;
+            }
+            case StatementType::Switch: {
+                write_switch(reinterpret_cast<SwitchStmt*>(stmt));
+                break;
+            }
+            case StatementType::For: {
+                auto* for_ = reinterpret_cast<ForStmt*>(stmt);
+                auto const iter = for_->get_iter_var();
+                write_all(iter->name, iter->is_signed(), iter->is_gen_var());
+                write_all(for_->start(), for_->end(), for_->step());
+                write_block(for_->get_loop_body().get());
+                break;
+            }
+            case StatementType::FunctionalCall: {
+                write_var(reinterpret_cast<FunctionCallStmt*>(stmt)->var().get());
+                break;
+            }
+            case StatementType::Return: {
+                write_var(reinterpret_cast<ReturnStmt*>(stmt)->value().get());
+                break;
+            }
+            case StatementType::Assert: {
+                write_assert(reinterpret_cast<AssertBase*>(stmt));
+                break;
+            }
+            case StatementType::RawString: {
+                for (auto const& str : reinterpret_cast<RawStringStmt*>(stmt)->stmts()) write(str);
+                write("end");
+                break;
+            }
+            case StatementType::ModuleInstantiation: {
+                auto* inst = reinterpret_cast<ModuleInstantiationStmt*>(stmt);
+                write(inst->target()->instance_name);
+                write_mapping(inst);
+                break;
+            }
+            case StatementType::InterfaceInstantiation: {
+                auto* inst = reinterpret_cast<InterfaceInstantiationStmt*>(stmt);
+                write(inst->interface()->name());
+                write_mapping(inst);
+                break;
+            }
+            case StatementType::Auxiliary: {
+                write_auxiliary(reinterpret_cast<AuxiliaryStmt*>(stmt));
+                break;
+            }
+            case StatementType::Break:
+            case StatementType::Comment: {
+                break;
+            }
         }
-        uint64_t hash = hash_64_fnv1a(str.c_str(), str.size()) << level;
-        constexpr uint64_t call_signature = shift_const(0x9e3779b97f4a7c16, 4);
-        stmt_hashes_.emplace_back(hash ^ call_signature);
     }
 
-private:
-    std::vector<uint64_t> var_hashes_;
-    std::vector<uint64_t> stmt_hashes_;
-    Generator* root_;
-    Context* context_;
+    void write_switch(SwitchStmt* stmt) {
+        write_var(stmt->target().get());
+        // the cases are not ordered
+        std::map<std::string, ScopedStmtBlock*> cases;
+        for (auto const& [value, block] : stmt->body())
+            cases.emplace(var_name(value.get()), block.get());
+        for (auto const& [value, block] : cases) {
+            write(value);
+            write_block(block);
+        }
+        write("end");
+    }
 
-    inline static uint64_t shift(uint64_t value, uint8_t amount) {
-        return (value << amount) | (value >> (64u - amount));
+    void write_assert(AssertBase* stmt) {
+        write(stmt->assert_type());
+        if (stmt->assert_type() == AssertType::AssertValue) {
+            auto* value = reinterpret_cast<AssertValueStmt*>(stmt);
+            write_var(value->value());
+            write_stmt(value->else_().get());
+        } else {
+            auto* property = reinterpret_cast<AssertPropertyStmt*>(stmt);
+            write_property(property->property());
+            write_stmt(property->else_().get());
+        }
     }
-};
 
-uint64_t hash_generator(Generator* generator) {
-    // if it's unique, just has the name
-    if (generator->context()->is_unique(generator)) {
-        return hash_64_fnv1a(generator->name.c_str(), generator->name.size());
+    void write_mapping(const InstantiationStmt* stmt) {
+        std::map<std::string, Var*> mapping;
+        for (auto const& [port, var] : stmt->port_mapping()) mapping.emplace(port->to_string(), var);
+        for (auto const& [name, var] : mapping) {
+            write(name);
+            write_var(var);
+        }
+        write("end");
     }
-    // we use a visitor to compute all the hashes
-    HashVisitor hash_visitor(generator);
-    hash_visitor.visit_root(generator);
-    return hash_visitor.produce_hash();
-}
 
-void hash_generator_src(Context* context, Generator* generator) {
-    auto filename = generator->external_filename();
-    std::ifstream fs(filename);
+    void write_auxiliary(AuxiliaryStmt* stmt) {
+        write(stmt->aux_type());
+        if (stmt->aux_type() == AuxiliaryType::Delay) {
+            write_event(reinterpret_cast<EventDelayStmt*>(stmt)->event());
+            return;
+        }
+        auto* event = reinterpret_cast<EventTracingStmt*>(stmt);
+        write_all(event->event_name(), event->transaction(), event->action_type());
+        for (auto const& values : {event->event_fields(), event->match_values()}) {
+            for (auto const& [name, var] : values) {
+                write(name);
+                write_var(var.get());
+            }
+            write("end");
+        }
+    }
+};
 
-    std::string content;
-    content.assign(std::istreambuf_iterator<char>(fs), std::istreambuf_iterator<char>());
-    uint64_t hash = XXHash64::hash(content.c_str(), content.size(), 0);
-    context->add_hash(generator, hash);
+uint64_t hash_generator_name(Generator* generator) {
+    auto const& name = generator->name;
+    return hash_64_fnv1a(name.c_str(), name.size());
 }
 
-void hash_generator_name(Context* context, Generator* generator) {
-    auto const& name = generator->name;
-    uint64_t hash = hash_64_fnv1a(name.c_str(), name.size());
-    context->add_hash(generator, hash);
+uint64_t hash_generator_external(Generator* generator) {
+    auto content = generator->name;
+    if (generator->is_cloned() && generator->def_instance()) {
+        auto* def = generator->def_instance();
+        content.append(1, '.').append(def->parent() == generator->parent() ? def->instance_name
+                                                                           : def->handle_name());
+    } else if (!generator->external_filename().empty()) {
+        std::ifstream fs(generator->external_filename());
+        content.append(std::istreambuf_iterator<char>(fs), std::istreambuf_iterator<char>());
+    } else {
+        // user marked external file
+        return hash_generator_name(generator);
+    }
+    return XXHash64::hash(content.c_str(), content.size(), 0);
+}
+
+uint64_t hash_generator(Generator* generator) {
+    if (generator->external()) return hash_generator_external(generator);
+    // if it's unique, just has the name
+    if (generator->context()->is_unique(generator)) return hash_generator_name(generator);
+    return GeneratorContent(generator).hash();
 }
 
 void hash_generators_context(Context* context, Generator* root, HashStrategy strategy) {
@@ -385,32 +631,9 @@ void hash_generators_context(Context* context, Generator* root, HashStrategy str
     // if it's parallel, do level sort
 
     if (strategy == HashStrategy::SequentialHash) {
-        auto const& sequence = g.get_sorted_nodes();
-        std::vector<Generator*> list;
-        // reserve for list
-        list.reserve(sequence.size());
-
-        for (auto const& node : sequence) {
-            // different cases
-            if (node->external()) {
-                if (node->external_filename().empty()) {
-                    // user marked external file, skip it
-                    continue;
-                } else {
-                    hash_generator_src(context, node);
-                }
-            } else if (context->get_generators_by_name(node->name).size() == 1) {
-                // just need to hash the name
-                hash_generator_name(context, node);
-            } else {
-                // only the one being used
-                if (node->parent() == nullptr && node != root) continue;
-                list.emplace_back(node);
-            }
-        }
-        for (auto const& node : list) {
-            uint64_t hash = hash_generator(node);
-            context->add_hash(node, hash);
+        // child generators come first
+        for (auto const& node : g.get_sorted_nodes()) {
+            context->add_hash(node, hash_generator(node));
         }
     } else if (strategy == HashStrategy::ParallelHash) {
         uint32_t num_cpus = get_num_cpus();
diff --git a/src/pass.cc b/src/pass.cc
index 1b26eac..ea7fca2 100644
--- a/src/pass.cc
+++ b/src/pass.cc
@@ -29,10 +29,32 @@ void hash_generators(Generator* top, HashStrategy strategy) {
     hash_generators_context(top->context(), top, strategy);
 }
 
+class InstanceOrderVisitor : public IRVisitor {
+public:
+    void visit(Generator* generator) override {
+        order_.emplace(generator, order_.size());
+        if (generator->is_cloned() && generator->def_instance()) clones_.emplace_back(generator);
+    }
+
+    // generators that are not part of the design come first
+    [[nodiscard]] uint64_t order(Generator* generator) const {
+        return order_.find(generator) == order_.end() ? 0 : order_.at(generator) + 1;
+    }
+    [[nodiscard]] const std::vector<Generator*>& clones() const { return clones_; }
+
+private:
+    std::unordered_map<Generator*, uint64_t> order_;
+    std::vector<Generator*> clones_;
+};
+
 void uniquify_generators(Generator* top) {
     // we assume users has run the hash_generators function
     Context* context = top->context();
-    auto const& names = context->get_generator_names();
+    // which one gets to keep the name should not depend on where it is in the memory
+    InstanceOrderVisitor visitor;
+    visitor.visit_generator_root(top);
+    auto const& name_set = context->get_generator_names();
+    auto const names = std::set<std::string>(name_set.begin(), name_set.end());
     for (auto const& name : names) {
         auto const module_sets = context->get_generators_by_name(name);
         std::vector<Generator*> module_instances;
@@ -41,6 +63,10 @@ void uniquify_generators(Generator* top) {
             if (m->external()) continue;
             module_instances.emplace_back(m.get());
         }
+        std::sort(module_instances.begin(), module_instances.end(),
+                  [&visitor](auto* lhs, auto* rhs) {
+                      return visitor.order(lhs) < visitor.order(rhs);
+                  });
         // notice that since it is a set copied by value, it is fine to iterate through it
         if (module_instances.size() == 1)
             // only one module. we are good
@@ -88,6 +114,8 @@ void uniquify_generators(Generator* top) {
             }
         }
     }
+    // clones use the definition of the original one
+    for (auto* const clone : visitor.clones()) clone->name = clone->def_instance()->name;
 }
 
 void PassManager::register_pass(const std::string& name, std::function<void(Generator*)> fn) {
-- 
2.43.0


From 4942a2ef3d0203f7ae4610c45e11337cb29ad90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:28 +0000
Subject: [PATCH 20/55] fix: use the given naming for every variable of a
 sequence

---
 src/tb.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tb.cc b/src/tb.cc
index 9a45d6e..235b169 100644
--- a/src/tb.cc
+++ b/src/tb.cc
@@ -46,11 +46,11 @@ std::string Sequence::to_string(const std::function<std::string(Var *)> &var_str
     auto wait_str = wait_to_str();
     std::string seq;
     if (wait_str.empty())
-        seq = var_->handle_name(true);
+        seq = var_str(var_);
     else
         seq = ::format("{0} {1}", wait_str, var_str(var_));
     if (next_) {
-        auto next = next_->to_string();
+        auto next = next_->to_string(var_str);
         seq = ::format("{0} |-> {1}", seq, next);
     }
     return seq;
-- 
2.43.0


From 2a23b1d5e6d328facef1d013104a95d57aeb09a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:15 +0000
Subject: [PATCH 21/55] fix: guard the constants of a generator, passes create
 them in parallel; never use an empty thread pool

---
 src/expr.cc | 16 +++++++++++++---
 src/expr.hh |  1 +
 src/util.cc |  2 +-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 92b0be5..f57bbbb 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <cassert>
 #include <iostream>
+#include <mutex>
 #include <queue>
 #include <stdexcept>
 #include <typeinfo>
@@ -1013,14 +1014,23 @@ Const::Const(int64_t value, uint32_t width, bool is_signed)
     generator_ = const_gen();
 }
 
+// constants are also created by passes that process generators in parallel
+static std::mutex consts_mutex_;
+
 Generator *Const::const_gen() {
+    std::lock_guard<std::mutex> guard(consts_mutex_);
     if (!const_generator_) const_generator_ = std::make_shared<Generator>(nullptr, "");
     return const_generator_.get();
 }
 
+void Const::add_const(const std::shared_ptr<Const> &value) {
+    std::lock_guard<std::mutex> guard(consts_mutex_);
+    consts_.emplace(value);
+}
+
 Const &Const::constant(int64_t value, uint32_t width, bool is_signed) {
     auto p = std::make_shared<Const>(value, width, is_signed);
-    consts_.emplace(p);
+    add_const(p);
     return *p;
 }
 
@@ -1063,7 +1073,7 @@ Const &Const::constant(const std::string &hex_value, uint32_t num_bits, bool neg
                                      negative ? "-" : "", hex_value, width));
     }
     p->var_width_ = width;
-    consts_.emplace(p);
+    add_const(p);
     return *p;
 }
 
@@ -1077,7 +1087,7 @@ bool Const::fits(uint32_t target_width) const {
 
 Const &Const::constant(std::string value, uint32_t width) {
     auto p = std::make_shared<StringConst>(std::move(value), width);
-    consts_.emplace(p);
+    add_const(p);
     return *p;
 }
 
diff --git a/src/expr.hh b/src/expr.hh
index 23a2824..ca0d8c6 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -471,6 +471,7 @@ public:
 private:
     int64_t value_;
     // created without a generator holder
+    static void add_const(const std::shared_ptr<Const> &value);
     static std::unordered_set<std::shared_ptr<Const>> consts_;
     static std::shared_ptr<Generator> const_generator_;
     // for very large numbers
diff --git a/src/util.cc b/src/util.cc
index 6a9d672..04415c4 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -27,7 +27,7 @@ uint32_t get_num_cpus() {
         uint32_t num_cpus = std::thread::hardware_concurrency();
         _num_cpu = static_cast<int>(std::max(1u, num_cpus / 2));
     }
-    return static_cast<uint32_t>(_num_cpu);
+    return static_cast<uint32_t>(std::max(1, _num_cpu));
 }
 void set_num_cpus(int num_cpu) { _num_cpu = num_cpu; }
 
-- 
2.43.0


From db80c47bbcce55b72700ce9e991722c40e5c974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:50 +0000
Subject: [PATCH 22/55] fix: keep the generator graph in the order of the
 hierarchy and don't read the queue's front after removing it

---
 src/graph.cc | 23 ++++++++---------------
 src/graph.hh |  5 ++++-
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/graph.cc b/src/graph.cc
index bf795c6..a7797d3 100644
--- a/src/graph.cc
+++ b/src/graph.cc
@@ -32,7 +32,7 @@ public:
                 throw InternalException(::format("{0} already has a parent",
                                                  child_node->parent->generator->instance_name));
             child_node->parent = parent_node;
-            parent_node->children.emplace(child_node->generator);
+            parent_node->children.emplace_back(child_node->generator);
         }
     }
 
@@ -58,6 +58,7 @@ GeneratorNode *GeneratorGraph::add_node(Generator *generator) {
     GeneratorNode node;
     node.generator = generator;
     nodes_.emplace(generator, node);
+    order_.emplace_back(generator);
     // return the pointer hosted by the nodes_
     return &nodes_.at(generator);
 }
@@ -89,8 +90,8 @@ void topological_sort_helper(GeneratorGraph *g, GeneratorNode *node,
 std::queue<GeneratorNode *> GeneratorGraph::topological_sort() {
     std::unordered_set<GeneratorNode *> visited;
     std::queue<GeneratorNode *> queue;
-    for (auto &iter : nodes_) {
-        auto *node = &iter.second;
+    for (auto *generator : order_) {
+        auto *node = get_node(generator);
         if (visited.find(node) == visited.end()) {
             // visit it
             topological_sort_helper(this, node, visited, queue);
@@ -110,15 +111,7 @@ std::vector<Generator *> GeneratorGraph::get_sorted_nodes() {
     return result;
 }
 
-std::vector<Generator *> GeneratorGraph::get_nodes() {
-    std::vector<Generator *> res;
-    res.reserve(nodes_.size());
-    for (auto const &iter : nodes_) {
-        res.emplace_back(iter.second.generator);
-    }
-
-    return res;
-}
+std::vector<Generator *> GeneratorGraph::get_nodes() { return order_; }
 
 std::vector<std::vector<Generator *>> GeneratorGraph::get_leveled_nodes() {
     // this is a modified breath-first search
@@ -129,7 +122,7 @@ std::vector<std::vector<Generator *>> GeneratorGraph::get_leveled_nodes() {
     uint32_t max_level = 0;
 
     while (!queue.empty()) {
-        const auto &[generator, current_level] = queue.front();
+        const auto [generator, current_level] = queue.front();
         queue.pop();
         auto const &node = get_node(generator);
         if (level_index.find(node) == level_index.end() || level_index.at(node) < current_level) {
@@ -147,8 +140,8 @@ std::vector<std::vector<Generator *>> GeneratorGraph::get_leveled_nodes() {
     std::vector<std::vector<Generator *>> result;
     // notice that max is exclusive
     result.resize(max_level + 1);
-    for (auto const &[generator_node, level] : level_index) {
-        result[level].emplace_back(generator_node->generator);
+    for (auto *generator : order_) {
+        result[level_index.at(get_node(generator))].emplace_back(generator);
     }
     return result;
 }
diff --git a/src/graph.hh b/src/graph.hh
index 7618672..4cf8a9a 100644
--- a/src/graph.hh
+++ b/src/graph.hh
@@ -11,7 +11,8 @@ namespace kratos {
 struct GeneratorNode {
     GeneratorNode *parent = nullptr;
     Generator *generator;
-    std::set<Generator *> children;
+    // in the order they're added to the parent
+    std::vector<Generator *> children;
 };
 
 class GeneratorGraph {
@@ -25,6 +26,8 @@ public:
 
 private:
     std::unordered_map<Generator *, GeneratorNode> nodes_;
+    // the order should not depend on where the generators are in the memory
+    std::vector<Generator *> order_;
     std::queue<GeneratorNode *> topological_sort();
 
     Generator *root_;
-- 
2.43.0


From 493cce553a8cc8dc102f647794065b2ae1732873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:24 +0000
Subject: [PATCH 23/55] fix: dead code elimination walks child first without
 data race and keeps variables used in events, assertions and properties

---
 src/optimize.cc | 68 ++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 4 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index 0e7977d..a402b65 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -6,8 +6,10 @@
 
 #include "except.hh"
 #include "fmt/format.h"
+#include "graph.hh"
 #include "stmt.hh"
 #include "syntax.hh"
+#include "tb.hh"
 #include "util.hh"
 
 using fmt::format;
@@ -1220,18 +1222,73 @@ void remove_unused_stmts(Generator* top) {
     visitor.visit_generator_root(top);
 }
 
+class NonAssignUseVisitor : public IRVisitor {
+    // variables used in the event controls, assertions and properties. none of these is a sink
+public:
+    explicit NonAssignUseVisitor(Generator* generator) {
+        visit_root(generator);
+        for (auto const& [name, property] : generator->properties()) {
+            add(property->edge().var);
+            property->sequence()->to_string([this](Var* var) {
+                add(var);
+                return std::string();
+            });
+        }
+    }
+    void visit(SequentialStmtBlock* stmt) override {
+        for (auto const& event : stmt->get_event_controls()) add(event.var);
+    }
+    void visit(AssignStmt* stmt) override {
+        if (stmt->has_delay()) add(stmt->get_delay()->var);
+    }
+    void visit(AuxiliaryStmt* stmt) override {
+        if (stmt->aux_type() == AuxiliaryType::Delay)
+            add(reinterpret_cast<EventDelayStmt*>(stmt)->event().var);
+    }
+    void visit(AssertBase* stmt) override {
+        if (stmt->assert_type() == AssertType::AssertValue)
+            add(reinterpret_cast<AssertValueStmt*>(stmt)->value());
+    }
+
+    [[nodiscard]] bool has(Var* var) const { return vars_.find(var) != vars_.end(); }
+
+private:
+    void add(Var* var) {
+        if (!var) return;
+        if (var->type() == VarType::BaseCasted) {
+            add(reinterpret_cast<VarCasted*>(var)->parent_var());
+        } else if (var->type() == VarType::Expression) {
+            for (uint64_t i = 0; i < var->child_count(); i++)
+                add(reinterpret_cast<Var*>(var->get_child(i)));
+        } else if (var->is_function()) {
+            for (auto const& arg : reinterpret_cast<FunctionCallVar*>(var)->args())
+                add(arg.second.get());
+        } else if (var->type() == VarType::Slice) {
+            auto* slice = reinterpret_cast<VarSlice*>(var);
+            if (slice->sliced_by_var()) add(reinterpret_cast<VarVarSlice*>(slice)->sliced_var());
+            add(slice->parent_var);
+        } else {
+            vars_.emplace(var);
+        }
+    }
+
+    std::unordered_set<Var*> vars_;
+};
+
 class DeadCodeVarElimination : public IRVisitor {
     // this pass only removes dead variables in the parent generator
 public:
     void visit(Generator* generator) override {
+        if (generator->external()) return;
         bool changed = true;
+        NonAssignUseVisitor uses(generator);
 
         while (changed) {
             changed = false;
             const auto& var_names = generator->get_vars();
             for (auto const& var_name : var_names) {
                 auto const& var = generator->get_var(var_name);
-                if (var->type() != VarType::Base) continue;
+                if (var->type() != VarType::Base || uses.has(var.get())) continue;
                 if (var->sinks().empty()) {
                     // remove all the sources
                     remove_var(var.get());
@@ -1243,11 +1300,11 @@ public:
 
         // because we run child first, the parent's content get cleared out
         // nicely before this pass runs on parent
-        clear_out_ports(generator);
+        clear_out_ports(generator, uses);
     }
 
 private:
-    static void clear_out_ports(Generator* generator) {
+    static void clear_out_ports(Generator* generator, const NonAssignUseVisitor& uses) {
         // we don't deal with top level ports, since it changes
         // interface
         if (!generator->parent_generator()) return;
@@ -1255,6 +1312,7 @@ private:
         std::vector<std::string> ports_to_remove;
         for (auto const& port_name : port_names) {
             auto const& p = generator->get_port(port_name);
+            if (uses.has(p.get())) continue;
             if (p->port_direction() == PortDirection::In) {
                 if (p->sinks().empty()) {
                     ports_to_remove.emplace_back(port_name);
@@ -1319,8 +1377,10 @@ public:
 
 void dead_code_elimination(Generator* top) {
     {
+        // not in parallel since un-wiring the ports changes the parent. child first
         DeadCodeVarElimination visitor;
-        visitor.visit_generator_root_p(top);
+        GeneratorGraph graph(top);
+        for (auto* generator : graph.get_sorted_nodes()) generator->accept_generator(&visitor);
     }
     {
         DeadCodeInstanceElimination visitor;
-- 
2.43.0


From f29645e12414830ccf7232d1dfd49a89ae936c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:53 +0000
Subject: [PATCH 24/55] fix: FSM outputs, latch reports and the debug table
 don't depend on memory addresses

---
 src/analysis.cc | 16 ++++++++++------
 src/debug.cc    |  4 +++-
 src/debug.hh    |  3 ++-
 src/fsm.cc      | 12 ++++++------
 src/fsm.hh      |  3 +++
 5 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index c0f0b75..3d68d44 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -610,13 +610,13 @@ private:
     public:
         explicit IfVisitor(Var* var) : var_(var) {}
         void visit(IfStmt* stmt) override {
-            if (has_var(stmt->predicate().get(), var_)) ifs_.emplace(stmt);
+            if (has_var(stmt->predicate().get(), var_)) ifs_.emplace_back(stmt);
         }
-        const std::unordered_set<IfStmt*>& ifs() const { return ifs_; }
+        const std::vector<IfStmt*>& ifs() const { return ifs_; }
 
     private:
         Var* var_;
-        std::unordered_set<IfStmt*> ifs_;
+        std::vector<IfStmt*> ifs_;
 
         bool static has_var(Var* var, Var* target) {
             if (var->type() == VarType::Expression) {
@@ -645,14 +645,18 @@ private:
                 }
                 left = const_cast<Var*>(slice->get_var_root_parent());
             }
-            assigned_vars_[left].emplace_back(stmt);
+            auto [it, is_new] = index_.try_emplace(left, assigned_vars_.size());
+            if (is_new) assigned_vars_.emplace_back(left, std::vector<Stmt*>{});
+            assigned_vars_[it->second].second.emplace_back(stmt);
         }
-        const std::unordered_map<Var*, std::vector<Stmt*>>& assigned_vars() const {
+        // in the order of the first assignment
+        const std::vector<std::pair<Var*, std::vector<Stmt*>>>& assigned_vars() const {
             return assigned_vars_;
         }
 
     private:
-        std::unordered_map<Var*, std::vector<Stmt*>> assigned_vars_;
+        std::unordered_map<Var*, uint64_t> index_;
+        std::vector<std::pair<Var*, std::vector<Stmt*>>> assigned_vars_;
     };
 };
 
diff --git a/src/debug.cc b/src/debug.cc
index 4618d29..a85e07d 100644
--- a/src/debug.cc
+++ b/src/debug.cc
@@ -1,5 +1,6 @@
 #include "debug.hh"
 
+#include <algorithm>
 #include <mutex>
 
 #include "except.hh"
@@ -168,7 +169,8 @@ void DebugDatabase::compute_generators(Generator *top) {
     GeneratorGraph g(top);
     auto generators = g.get_sorted_nodes();
     for (auto *gen : generators) {
-        generators_.emplace(gen);
+        if (std::find(generators_.begin(), generators_.end(), gen) == generators_.end())
+            generators_.emplace_back(gen);
     }
 }
 
diff --git a/src/debug.hh b/src/debug.hh
index c93cda5..f33ba45 100644
--- a/src/debug.hh
+++ b/src/debug.hh
@@ -38,7 +38,8 @@ private:
     std::map<const Stmt *, std::pair<std::string, uint32_t>> stmt_mapping_;
     std::unordered_map<const Generator *, std::map<std::string, std::string>> variable_mapping_;
     std::map<const Stmt *, std::map<std::string, std::pair<bool, std::string>>> stmt_context_;
-    std::unordered_set<Generator *> generators_;
+    // in the order of the hierarchy
+    std::vector<Generator *> generators_;
 
     Generator *top_ = nullptr;
 
diff --git a/src/fsm.cc b/src/fsm.cc
index c1fc562..4fe88f6 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -221,7 +221,7 @@ std::shared_ptr<FunctionStmtBlock> FSM::get_func_def() {
     std::unordered_map<std::string, Var*> name_mapping;
     name_mapping.reserve(outputs_.size());
     // add outputs
-    for (auto const& [var, _] : outputs_) {
+    for (auto* var : output_ordering_) {
         auto var_name = var->to_string() + "_value";
         func->input(var_name, var->width(), var->is_signed());
         name_mapping.emplace(var_name, var);
@@ -457,7 +457,7 @@ void FSM::output(const std::shared_ptr<Var>& var, const std::shared_ptr<Var>& de
             throw VarException("FSM output has to be scoped inside the top-level of generator",
                                {var.get()});
     }
-    outputs_.emplace(var.get(), default_.get());
+    if (outputs_.emplace(var.get(), default_.get()).second) output_ordering_.emplace_back(var.get());
 }
 
 std::shared_ptr<FSMState> FSM::add_state(const std::string& name) {
@@ -726,8 +726,9 @@ void FSMState::output(const std::shared_ptr<Var>& output_var, const std::shared_
 }
 
 void FSMState::check_outputs() {
-    auto outputs = parent_->outputs();
-    for (auto const& [output, default_] : outputs) {
+    auto const& outputs = parent_->outputs();
+    for (auto* output : parent_->output_ordering()) {
+        auto* default_ = outputs.at(output);
         if (output_values_.find(output) == output_values_.end()) {
             if (!default_) {
                 throw VarException(::format("{0} not specified", output->to_string()), {output});
@@ -738,8 +739,7 @@ void FSMState::check_outputs() {
         }
     }
     // the other way, this is to ensure a bijection
-    for (auto const& iter : output_values_) {
-        auto const& output = iter.first;
+    for (auto* output : output_ordering_) {
         if (outputs.find(output) == outputs.end()) {
             throw VarException(::format("{0} is not specified in FSM {1}", output->to_string(),
                                         parent_->fsm_name()),
diff --git a/src/fsm.hh b/src/fsm.hh
index c93aeda..8e9fe22 100644
--- a/src/fsm.hh
+++ b/src/fsm.hh
@@ -30,6 +30,7 @@ public:
 
     const std::string &fsm_name() const { return fsm_name_; }
     const std::unordered_map<Var *, Var *> &outputs() const { return outputs_; }
+    const std::vector<Var *> &output_ordering() const { return output_ordering_; }
     const std::map<std::string, std::shared_ptr<FSMState>> &states() const { return states_; }
 
     void realize();
@@ -62,6 +63,8 @@ private:
     std::string fsm_name_;
     Generator *generator_;
     std::unordered_map<Var *, Var*> outputs_;
+    // in the order they were added
+    std::vector<Var *> output_ordering_;
     std::shared_ptr<Var> clk_ = nullptr;
     std::shared_ptr<Var> reset_ = nullptr;
     std::map<std::string, std::shared_ptr<FSMState>> states_;
-- 
2.43.0


From bc2e2c0a916dc4bedb0ef356b55680b3cbb82dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:25 +0000
Subject: [PATCH 25/55] fix: the default branch is enabled when none of the
 labels matches

---
 src/analysis.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 3d68d44..730e937 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -948,8 +948,7 @@ private:
                 throw StmtException("Incorrect statement block stage", {stmt});
             }
             if (!expr) {
-                // it's the default one. we nor them together
-                std::shared_ptr<Var> or_;
+                // it's the default one. none of the others matches
                 std::vector<std::shared_ptr<Const>> conditions;
                 conditions.reserve(body.size());
                 for (auto const& [cond, stmt_blk] : body) {
@@ -962,13 +961,13 @@ private:
                     [](const std::shared_ptr<Const>& left, const std::shared_ptr<Const>& right) {
                         return left->value() < right->value();
                     });
-                or_ = conditions[0];
-                if (conditions.size() > 1) {
-                    for (uint64_t i = 1; i < conditions.size(); i++) {
-                        or_ = or_->operator||(*conditions[i]).shared_from_this();
-                    }
+                for (auto const& cond : conditions) {
+                    auto& not_equal = switch_->target()->operator!=(*cond);
+                    expr = expr ? expr->operator&&(not_equal).shared_from_this()
+                                : not_equal.shared_from_this();
                 }
-                expr = (switch_->target()->operator!=(*or_)).shared_from_this();
+                // the only branch there is
+                if (!expr) return get_cond(parent_stmt);
             }
         } else {
             return get_cond(parent_stmt);
-- 
2.43.0


From e95b3c4e4b4cd2bed7c0922f0d07d3ec69862d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:57 +0000
Subject: [PATCH 26/55] fix: statements of a function belong to its generator

---
 src/stmt.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stmt.cc b/src/stmt.cc
index 6c2c52e..709100b 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -740,7 +740,9 @@ std::vector<std::shared_ptr<VarSlice>> filter_slice_pairs_with_target(
 FunctionStmtBlock::FunctionStmtBlock(kratos::Generator *parent, std::string function_name)
     : StmtBlock(StatementBlockType::Function),
       parent_(parent),
-      function_name_(std::move(function_name)) {}
+      function_name_(std::move(function_name)) {
+    StmtBlock::set_parent(parent);
+}
 
 void FunctionStmtBlock::create_function_handler(uint32_t width, bool is_signed) {
     if (function_handler_) {
-- 
2.43.0


From 2bc1f8a6d801ef13a7e66ef21f99bb43a7d5d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:03 +0000
Subject: [PATCH 27/55] fix: slices, casts, duplications and modport ports take
 a statement out of the right set

---
 src/expr.cc | 8 ++++++--
 src/expr.hh | 5 +++--
 src/port.hh | 6 ++++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index f57bbbb..3288875 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -730,7 +730,7 @@ void VarVarSlice::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
 
 void VarVarSlice::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
     VarSlice::remove_source(stmt);
-    sliced_var_->remove_source(stmt);
+    sliced_var_->remove_sink(stmt);
 }
 
 std::string VarVarSlice::to_string() const {
@@ -1512,6 +1512,10 @@ uint32_t VarDuplicated::width() const {
 
 void VarDuplicated::add_sink(const std::shared_ptr<AssignStmt> &stmt) { left->add_sink(stmt); }
 
+void VarDuplicated::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
+    left->remove_sink(stmt);
+}
+
 void VarDuplicated::add_source(const std::shared_ptr<AssignStmt> &stmt) {
     throw StmtException("Duplicate variable cannot be on left hand side", {stmt.get()});
 }
@@ -1935,7 +1939,7 @@ void VarSlice::remove_source(const std::shared_ptr<AssignStmt> &stmt) {
 
 void VarSlice::remove_sink(const std::shared_ptr<AssignStmt> &stmt) {
     Var *parent = parent_var;
-    parent->remove_source(stmt);
+    parent->remove_sink(stmt);
 }
 
 ConditionalExpr::ConditionalExpr(const std::shared_ptr<Var> &condition,
diff --git a/src/expr.hh b/src/expr.hh
index ca0d8c6..63d1042 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -314,8 +314,8 @@ public:
     const std::unordered_set<std::shared_ptr<AssignStmt>> &sources() const override {
         return parent_var_->sources();
     };
-    void clear_sinks(bool remove_parent) override { parent_var_->clear_sources(remove_parent); }
-    void clear_sources(bool remove_parent) override { parent_var_->clear_sinks(remove_parent); }
+    void clear_sinks(bool remove_parent) override { parent_var_->clear_sinks(remove_parent); }
+    void clear_sources(bool remove_parent) override { parent_var_->clear_sources(remove_parent); }
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override {
         parent_var_->remove_source(stmt);
     }
@@ -739,6 +739,7 @@ public:
     uint32_t width() const override;
 
     void add_sink(const std::shared_ptr<AssignStmt> &stmt) override;
+    void remove_sink(const std::shared_ptr<AssignStmt> &stmt) override;
     void add_source(const std::shared_ptr<AssignStmt> &stmt) override;
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override;
 
diff --git a/src/port.hh b/src/port.hh
index ebe1999..6c3370b 100644
--- a/src/port.hh
+++ b/src/port.hh
@@ -206,8 +206,10 @@ public:
     const std::unordered_set<std::shared_ptr<AssignStmt>> &sources() const override {
         return var_->sources();
     };
-    void clear_sinks(bool remove_parent = false) override { var_->clear_sources(remove_parent); }
-    void clear_sources(bool remove_parent = false) override { var_->clear_sinks(remove_parent); }
+    void clear_sinks(bool remove_parent = false) override { var_->clear_sinks(remove_parent); }
+    void clear_sources(bool remove_parent = false) override {
+        var_->clear_sources(remove_parent);
+    }
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override {
         var_->remove_source(stmt);
     }
-- 
2.43.0


From 2340e7e418caa13ec0e01324102dea4df14e5992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:40 +0000
Subject: [PATCH 28/55] fix: statements in a for loop keep the loop body as
 their parent

---
 src/stmt.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/stmt.cc b/src/stmt.cc
index 709100b..d7400ba 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -414,9 +414,7 @@ void ForStmt::set_parent(IRNode *node) {
         iter_->set_generator(gen);
     }
     Stmt::set_parent(node);
-    for (auto &st : (*loop_body_)) {
-        st->set_parent(this);
-    }
+    loop_body_->set_parent(this);
 }
 
 IRNode *ForStmt::get_child(uint64_t index) { return index < 1 ? loop_body_.get() : nullptr; }
-- 
2.43.0


From fe204cf26988fab88d8f22fa5e72fde7fffe3bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:19 +0000
Subject: [PATCH 29/55] fix: renaming a variable checks the new name and keeps
 ports ports

---
 src/generator.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index e16aec3..01984b3 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -577,20 +577,26 @@ std::string Generator::get_unique_variable_name(const std::string &prefix,
 
 void Generator::remove_port(const std::string &port_name) {
     if (has_port(port_name)) {
-        ports_.erase(port_name);
         remove_var(port_name);
+        ports_.erase(port_name);
     }
 }
 
 void Generator::rename_var(const std::string &old_name, const std::string &new_name) {
     auto var = get_var(old_name);
-    if (!var) return;
+    if (!var || old_name == new_name) return;
+    if (vars_.find(new_name) != vars_.end())
+        throw VarException(::format("{0} already exists in {1}", new_name, instance_name),
+                           {var.get(), vars_.at(new_name).get()});
+    if (!is_valid_variable_name(new_name))
+        throw UserException(::format("{0} is a SystemVerilog keyword", new_name));
     // Using C++17 to replace the key
     auto handle = vars_.extract(old_name);
     handle.key() = new_name;
     // rename the var
     var->name = new_name;
     vars_.insert(std::move(handle));
+    if (ports_.erase(old_name)) ports_.emplace(new_name);
 }
 
 void Generator::reindex_vars() {
-- 
2.43.0


From a592d453fc6b2009ed8f923de907a6464b73c08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:17 +0000
Subject: [PATCH 30/55] fix: a removed statement no longer counts as source or
 sink of anything

---
 src/expr.cc      | 18 ++++++------
 src/generator.cc | 30 +++++++------------
 src/stmt.cc      | 75 ++++++++++++++++++++++++++++++++++++++++++++----
 src/stmt.hh      | 19 ++++++++++++
 src/transform.cc |  4 +++
 5 files changed, 114 insertions(+), 32 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 3288875..99c1da1 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -958,12 +958,10 @@ std::shared_ptr<AssignStmt> Var::assign_(const std::shared_ptr<Var> &var, Assign
 }
 
 void Var::unassign(const std::shared_ptr<AssignStmt> &stmt) {
-    // we need to take care of the slices
-    stmt->right()->sinks_.erase(stmt);
-    sources_.erase(stmt);
-    // erase from parent if any
-    // TODO: fix this will proper parent
-    generator()->remove_stmt(stmt);
+    // the argument may refer to one of the sets it is taken out from
+    auto removed = stmt;
+    removed->remove_from_parent();
+    removed->clear();
 }
 
 Const::Const(Generator *generator, int64_t value, uint32_t width, bool is_signed)
@@ -1894,7 +1892,9 @@ void Var::move_linked_to(kratos::Var *new_var) {
 
 void Var::clear_sources(bool remove_parent) {  // NOLINT
     if (remove_parent) {
-        for (auto const &stmt : sources_) {
+        // removing a statement takes it out of the sources
+        auto const stmts = sources_;
+        for (auto const &stmt : stmts) {
             stmt->remove_from_parent();
         }
     }
@@ -1904,7 +1904,9 @@ void Var::clear_sources(bool remove_parent) {  // NOLINT
 
 void Var::clear_sinks(bool remove_parent) {  // NOLINT
     if (remove_parent) {
-        for (auto const &stmt : sinks_) {
+        // removing a statement takes it out of the sinks
+        auto const stmts = sinks_;
+        for (auto const &stmt : stmts) {
             if (stmt->parent()) stmt->remove_from_parent();
         }
     }
diff --git a/src/generator.cc b/src/generator.cc
index 01984b3..45486ac 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -445,22 +445,14 @@ void Generator::remove_child_generator(const std::shared_ptr<Generator> &child)
         auto port_names = child->get_port_names();
         for (auto const &port_name : port_names) {
             auto port = child->get_port(port_name);
-            if (port->port_direction() == PortDirection::In) {
-                // do a copy
-                auto srcs = std::unordered_set<std::shared_ptr<AssignStmt>>(port->sources().begin(),
-                                                                            port->sources().end());
-                for (auto const &stmt : srcs) {
-                    auto *sink = stmt->right();
-                    sink->unassign(stmt);
-                    remove_stmt_from_parent(stmt);
-                }
-            } else {
-                auto sinks = std::unordered_set<std::shared_ptr<AssignStmt>>(port->sinks().begin(),
-                                                                             port->sinks().end());
-                for (auto const &stmt : sinks) {
-                    port->unassign(stmt);
-                    remove_stmt_from_parent(stmt);
-                }
+            // only the connections, not the statements inside the child. do a copy
+            auto stmts = port->port_direction() == PortDirection::In ? port->sources() : port->sinks();
+            for (auto const &stmt : stmts) {
+                if (stmt->generator_parent() != this) continue;
+                // conditions stay with their statement
+                auto *left = stmt->left();
+                if (left->generator()->is_auxiliary_var(left->shared_from_this())) continue;
+                port->unassign(stmt);
             }
         }
         // set parent to null
@@ -635,7 +627,10 @@ void Generator::remove_stmt(const std::shared_ptr<Stmt> &stmt) {
     }
     auto pos = std::find(stmts_.begin(), stmts_.end(), stmt);
     if (pos != stmts_.end()) {
+        // the argument may refer to a place that holds the last reference
+        auto removed = stmt;
         stmts_.erase(pos);
+        if (removed->parent() == this) removed->unlink();
     }
 }
 
@@ -1017,9 +1012,6 @@ void Generator::unwire(Var &var1, Var &var2) {
         }
     }
     if (target) {
-        auto assign_stmt = target->as<AssignStmt>();
-        assign_stmt->left()->remove_source(assign_stmt);
-        assign_stmt->right()->remove_sink(assign_stmt);
         remove_stmt(target);
     }
 }
diff --git a/src/stmt.cc b/src/stmt.cc
index d7400ba..bfea3d8 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -247,6 +247,8 @@ void AssignStmt::clear() {
     parent_ = nullptr;
 }
 
+void AssignStmt::unlink() { AssignStmt::clear(); }
+
 IfStmt::IfStmt(std::shared_ptr<Var> predicate)
     : Stmt(StatementType::If), predicate_(::move(predicate)) {
     then_body_ = std::make_shared<ScopedStmtBlock>();
@@ -373,6 +375,17 @@ void IfStmt::clear() {
     else_body_->clear();
 }
 
+void IfStmt::update_value(const AssignStmt *stmt) {
+    if (stmt == predicate_stmt_.get()) predicate_ = stmt->right()->shared_from_this();
+}
+
+void IfStmt::unlink() {
+    Stmt::unlink();
+    predicate_stmt_->unlink();
+    then_body_->unlink_stmts();
+    else_body_->unlink_stmts();
+}
+
 ForStmt::ForStmt(const std::string &iter_var_name, int64_t start, int64_t end, int64_t step)
     : Stmt(StatementType::For), start_(start), end_(end), step_(step) {
     // making a loop variable
@@ -433,6 +446,11 @@ std::shared_ptr<Stmt> ForStmt::clone() const {
 
 void ForStmt::clear() { loop_body_->clear(); }
 
+void ForStmt::unlink() {
+    Stmt::unlink();
+    loop_body_->unlink_stmts();
+}
+
 std::optional<uint64_t> ForStmt::genvar_index(const std::shared_ptr<Stmt> &stmt) {
     auto pos = std::find(gen_var_stmts_.begin(), gen_var_stmts_.end(), stmt);
     if (pos == gen_var_stmts_.end()) {
@@ -480,6 +498,18 @@ void StmtBlock::clear() {
     stmts_.clear();
 }
 
+void StmtBlock::unlink() {
+    Stmt::unlink();
+    unlink_stmts();
+}
+
+void StmtBlock::unlink_stmts() {
+    for (auto &stmt : stmts_) {
+        // statements that have been moved to somewhere else stay linked
+        if (stmt->parent() == this) stmt->unlink();
+    }
+}
+
 void StmtBlock::set_parent(IRNode *parent) {
     Stmt::set_parent(parent);
     for (auto &stmt : stmts_) {
@@ -489,12 +519,19 @@ void StmtBlock::set_parent(IRNode *parent) {
 
 void StmtBlock::remove_stmt(const std::shared_ptr<kratos::Stmt> &stmt) {
     auto pos = std::find(stmts_.begin(), stmts_.end(), stmt);
-    if (pos != stmts_.end()) stmts_.erase(pos);
+    if (pos != stmts_.end()) {
+        // the argument may refer to a place that holds the last reference
+        auto removed = stmt;
+        stmts_.erase(pos);
+        if (removed->parent() == this) removed->unlink();
+    }
 }
 
 void StmtBlock::set_child(uint64_t index, const std::shared_ptr<Stmt> &stmt) {
     if (index < stmts_.size()) {
+        auto replaced = stmts_[index];
         stmts_[index] = stmt;
+        if (replaced != stmt && replaced->parent() == this) replaced->unlink();
         stmt->set_parent(this);
     }
 }
@@ -571,6 +608,7 @@ void SwitchStmt::set_target(const std::shared_ptr<Var> &target) {
 
 void SwitchStmt::set_parent(IRNode *parent) {
     Stmt::set_parent(parent);
+    target_stmt_->set_parent(this);
     for (auto &iter : body_) {
         iter.second->set_parent(this);
     }
@@ -616,8 +654,10 @@ ScopedStmtBlock &SwitchStmt::add_switch_case(Const &switch_case,
 }
 
 void SwitchStmt::remove_switch_case(const std::shared_ptr<kratos::Const> &switch_case) {
-    if (body_.find(switch_case) != body_.end()) {
-        body_.erase(switch_case);
+    auto pos = body_.find(switch_case);
+    if (pos != body_.end()) {
+        pos->second->unlink();
+        body_.erase(pos);
     }
 }
 
@@ -683,6 +723,18 @@ std::shared_ptr<Stmt> SwitchStmt::clone() const {
     return switch_;
 }
 
+void SwitchStmt::update_value(const AssignStmt *stmt) {
+    if (stmt == target_stmt_.get()) target_ = stmt->right()->shared_from_this();
+}
+
+void SwitchStmt::unlink() {
+    Stmt::unlink();
+    target_stmt_->unlink();
+    for (auto const &iter : body_) {
+        iter.second->unlink_stmts();
+    }
+}
+
 void SwitchStmt::clear() {
     target_stmt_->clear();
     for (auto const &iter : body_) {
@@ -866,8 +918,21 @@ void ReturnStmt::set_parent(kratos::IRNode *parent) {
         func_def_->create_function_handler(value_->width(), value_->is_signed());
     }
     auto p = func_def_->function_handler();
-    auto s = p->assign(value_, AssignmentType::Blocking);
-    s->set_parent(this);
+    if (!assign_stmt_) assign_stmt_ = p->assign(value_, AssignmentType::Blocking);
+    assign_stmt_->set_parent(this);
+}
+
+void ReturnStmt::clear() {
+    if (assign_stmt_) assign_stmt_->clear();
+}
+
+void ReturnStmt::update_value(const AssignStmt *stmt) {
+    if (stmt == assign_stmt_.get()) value_ = stmt->right()->shared_from_this();
+}
+
+void ReturnStmt::unlink() {
+    Stmt::unlink();
+    if (assign_stmt_) assign_stmt_->unlink();
 }
 
 void BreakStmt::set_parent(IRNode *parent) {
diff --git a/src/stmt.hh b/src/stmt.hh
index e565ac7..6e64f57 100644
--- a/src/stmt.hh
+++ b/src/stmt.hh
@@ -75,6 +75,11 @@ public:
 
     virtual std::shared_ptr<Stmt> clone() const;
     virtual void clear(){};
+    // take the statement, and everything in it, out of the variables' sources and sinks. Setting
+    // the parent again puts it back
+    virtual void unlink() { parent_ = nullptr; }
+    // the right hand side of an assignment that stands for what the statement reads has changed
+    virtual void update_value(const AssignStmt *) {}
 
 protected:
     StatementType type_;
@@ -135,6 +140,7 @@ public:
 
     std::shared_ptr<Stmt> clone() const override;
     void clear() override;
+    void unlink() override;
 
 private:
     Var *left_ = nullptr;
@@ -177,6 +183,8 @@ public:
 
     std::shared_ptr<Stmt> clone() const override;
     void clear() override;
+    void unlink() override;
+    void update_value(const AssignStmt *stmt) override;
 
 private:
     std::shared_ptr<Var> predicate_;
@@ -226,6 +234,8 @@ public:
 
     std::shared_ptr<Stmt> clone() const override;
     void clear() override;
+    void unlink() override;
+    void update_value(const AssignStmt *stmt) override;
 
 private:
     std::shared_ptr<Var> target_;
@@ -259,6 +269,7 @@ public:
 
     std::shared_ptr<Stmt> clone() const override;
     void clear() override;
+    void unlink() override;
 
 private:
     std::shared_ptr<IterVar> iter_;
@@ -277,6 +288,9 @@ public:
     void add_stmt(Stmt &stmt) { add_stmt(stmt.shared_from_this()); }
     void remove_stmt(const std::shared_ptr<Stmt> &stmt) override;
     void clear() override;
+    void unlink() override;
+    // unlink every statement in the block
+    void unlink_stmts();
     void set_parent(IRNode *parent) override;
 
     uint64_t child_count() override { return stmts_.size(); }
@@ -459,6 +473,9 @@ class ReturnStmt : public Stmt {
 public:
     ReturnStmt(FunctionStmtBlock *func_def, std::shared_ptr<Var> value);
     void set_parent(IRNode *parent) override;
+    void clear() override;
+    void unlink() override;
+    void update_value(const AssignStmt *stmt) override;
 
     void accept(IRVisitor *visitor) override { visitor->visit(this); }
 
@@ -468,6 +485,8 @@ public:
 private:
     FunctionStmtBlock *func_def_;
     std::shared_ptr<Var> value_;
+    // makes the value's variables know about the statement
+    std::shared_ptr<AssignStmt> assign_stmt_;
 };
 
 class BreakStmt : public Stmt {
diff --git a/src/transform.cc b/src/transform.cc
index a482373..fee03f1 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -298,6 +298,8 @@ public:
         for (auto const& [name, interface] : interfaces) {
             if (interface->has_instantiated()) continue;
             if (interface->is_port()) continue;
+            // like the module instantiations, the connections stay known to the ports
+            generator->set_use_stmt_remove_cache(true);
             auto stmt = std::make_shared<InterfaceInstantiationStmt>(generator, interface.get());
             generator->add_stmt(stmt);
 
@@ -305,6 +307,8 @@ public:
             for (auto const& st : stmt->connection_stmt()) {
                 st->remove_from_parent();
             }
+            generator->set_use_stmt_remove_cache(false);
+            generator->clear_remove_stmt_cache();
         }
     }
 };
-- 
2.43.0


From 1d4a64c448629d316b5cb77dcb183b60ff8d6f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:03 +0000
Subject: [PATCH 31/55] fix: moving sources and sinks only affects the
 statements that are moved

---
 src/expr.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 99c1da1..b72255d 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -1779,7 +1779,10 @@ void stmt_set_right(AssignStmt *stmt, Var *target, Var *new_var) {
 }
 
 void stmt_set_left(AssignStmt *stmt, Var *target, Var *new_var) {
-    if (!change_var(stmt->left(), target, new_var, true))
+    auto found = change_var(stmt->left(), target, new_var, true);
+    // slices and concatenations can be shared with a statement that has been changed already
+    auto type = stmt->left()->type();
+    if (!found && (type == VarType::Base || type == VarType::PortIO))
         throw InternalException("Target not found");
 }
 
@@ -1788,9 +1791,11 @@ void Var::move_src_to(Var *var, Var *new_var, Generator *parent, bool keep_conne
     if (var->type_ == VarType::Expression || var->type_ == VarType::ConstValue)
         throw VarException("Only base or port variables are allowed.", {var, new_var});
 
-    for (const auto &stmt : var->sources()) {
+    auto const sources = var->sources();
+    for (const auto &stmt : sources) {
         if (stmt->generator_parent() != parent) continue;
         stmt_set_left(stmt.get(), var, new_var);
+        var->remove_source(stmt);
         if (parent->debug) {
             stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
         }
@@ -1801,8 +1806,6 @@ void Var::move_src_to(Var *var, Var *new_var, Generator *parent, bool keep_conne
             new_var->set_width_param(stmt->right()->width_param());
         }
     }
-    // now clear the sources
-    var->clear_sources(false);
 
     if (keep_connection) {
         // create an assignment and add it to the parent
@@ -1819,11 +1822,17 @@ void Var::move_sink_to(Var *var, Var *new_var, Generator *parent, bool keep_conn
     if (var->type_ == VarType::Expression || var->type_ == VarType::ConstValue)
         throw VarException("Only base or port variables are allowed.", {var, new_var});
 
-    for (const auto &stmt : var->sinks()) {
+    auto const sinks = var->sinks();
+    for (const auto &stmt : sinks) {
         if (stmt->generator_parent() != parent) {
             continue;
         }
         stmt_set_right(stmt.get(), var, new_var);
+        var->remove_sink(stmt);
+        // a condition or a returned value is held by the statement as well
+        auto *stmt_parent = stmt->parent();
+        if (stmt_parent && stmt_parent->ir_node_kind() == IRNodeKind::StmtKind)
+            reinterpret_cast<Stmt *>(stmt_parent)->update_value(stmt.get());
         if (parent->debug) {
             stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
         }
@@ -1834,8 +1843,6 @@ void Var::move_sink_to(Var *var, Var *new_var, Generator *parent, bool keep_conn
             new_var->set_width_param(stmt->left()->width_param());
         }
     }
-    // now clear the sinks
-    var->clear_sinks(false);
 
     if (keep_connection) {
         // create an assignment and add it to the parent
-- 
2.43.0


From ed49f908195b953756672803521a235c7c647eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:46 +0000
Subject: [PATCH 32/55] fix: replacing a child checks every port before it
 moves any connection

---
 src/generator.cc | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/generator.cc b/src/generator.cc
index 45486ac..122016f 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -1127,7 +1127,6 @@ void Generator::replace(const std::string &child_name,
                                  {this, new_child.get()});
     }
     auto old_child = children_.at(child_name);
-    new_child->instance_name = child_name;
     // first we need to make sure that the interfaces are the same
     auto old_port_names = old_child->get_port_names();
     auto new_port_names = new_child->get_port_names();
@@ -1176,19 +1175,16 @@ void Generator::replace(const std::string &child_name,
                                         old_child->name, port_name, new_child->name),
                                {old_port.get(), new_port.get()});
         }
+    }
 
-        // all passed, now replace the port!
-        if (old_port->port_direction() == PortDirection::In) {
-            // move the src
-            Var::move_src_to(old_port.get(), new_port.get(), this, false);
-        } else if (old_port->port_direction() == PortDirection::Out) {
-            // move the sinks
-            Var::move_sink_to(old_port.get(), new_port.get(), this, false);
-        } else {
-            // inout, move both source and sinks
-            Var::move_src_to(old_port.get(), new_port.get(), this, false);
-            Var::move_sink_to(old_port.get(), new_port.get(), this, false);
-        }
+    // all passed, now replace the ports!
+    new_child->instance_name = child_name;
+    for (const auto &port_name : old_port_names) {
+        auto old_port = old_child->get_port(port_name);
+        auto new_port = new_child->get_port(port_name);
+        // an input can be read in the parent as well
+        Var::move_src_to(old_port.get(), new_port.get(), this, false);
+        Var::move_sink_to(old_port.get(), new_port.get(), this, false);
     }
 
     // update other meta data info
-- 
2.43.0


From e54fb1e62deb5b35b43d631cb3a778c4d16c694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:46 +0000
Subject: [PATCH 33/55] fix: only modules that copy entire inputs to outputs
 are removed as pass-through

---
 src/optimize.cc | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index a402b65..f37fdd6 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -374,7 +374,11 @@ public:
                     // move the src to whatever it's connected to
                     // basically compress the module into a variable
                     // we will let the later downstream passes to remove the extra wiring
-                    auto* next_port = (*(port->sinks().begin()))->left();
+                    Var* next_port = nullptr;
+                    for (auto const& stmt : port->sinks()) {
+                        if (stmt->parent() == child.get()) next_port = stmt->left();
+                    }
+                    if (!next_port) throw InternalException("Pass-through port not connected");
                     auto var_name =
                         generator->get_unique_variable_name(child->instance_name, port->name);
                     auto& new_var = generator->var(var_name, port->var_width(), port->size(),
@@ -406,9 +410,10 @@ private:
             }
             return pass_through_.find(ref_gen) != pass_through_.end();
         }
+        if (generator->external()) return false;
         const auto vars = generator->get_vars();
         // has to be empty
-        if (!vars.empty()) return false;
+        if (!vars.empty() || !generator->get_child_generators().empty()) return false;
         // has to have exact number of assignments as ports
         // ports has to be an even number, i.e. one in to one out
         // maybe we can relax this restriction later
@@ -420,15 +425,30 @@ private:
         for (const auto& port_name : port_names) {
             auto const port = generator->get_port(port_name);
             if (port->port_direction() == PortDirection::In) {
-                auto sinks = port->sinks();
-                if (sinks.size() != 1) return false;
-            } else {
+                // connections and other reads in the parent don't matter
+                uint64_t count = 0;
+                for (auto const& stmt : port->sinks()) {
+                    if (stmt->generator_parent() != generator) continue;
+                    count++;
+                    if (stmt->right() != port.get()) return false;
+                }
+                if (count != 1) return false;
+            } else if (port->port_direction() == PortDirection::Out) {
                 auto const& sources = port->sources();
                 if (sources.size() != 1) return false;
-                // maybe some add stuff
+                // has to be a continuous assignment from an entire input to the entire output
                 auto stmt = *(sources.begin());
+                if (stmt->parent() != generator || stmt->left() != port.get()) return false;
                 auto* src = stmt->right();
-                if (src->type() != VarType::PortIO) return false;
+                if (src->type() != VarType::PortIO || src->generator() != generator) return false;
+                auto src_port = src->as<Port>();
+                if (src_port->port_direction() != PortDirection::In) return false;
+                if (src->size() != port->size() || src->is_packed() != port->is_packed() ||
+                    src->explicit_array() != port->explicit_array() ||
+                    src->is_struct() != port->is_struct() || src->is_enum() != port->is_enum())
+                    return false;
+            } else {
+                return false;
             }
         }
         return true;
-- 
2.43.0


From eca78cf5233140e186d1104c7521c0a501449001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:19 +0000
Subject: [PATCH 34/55] fix: only constants that are always connected are moved
 to a port

---
 src/optimize.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimize.cc b/src/optimize.cc
index f37fdd6..1dcad21 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1150,10 +1150,15 @@ class MergeConstPortVisitor : public IRVisitor {
                         continue;
                     }
                 }
+                // only whole variables that are connected outside any process
+                if (source_stmt->parent() != generator || sink_stmt->parent() != generator ||
+                    source_stmt->left() != var.get() || sink_stmt->right() != var.get())
+                    continue;
                 auto* source_from = source_stmt->right();
                 auto* sink_to = sink_stmt->left();
                 if (source_from->type() == VarType::ConstValue &&
                     sink_to->type() == VarType::PortIO &&
+                    sink_to->as<Port>()->port_direction() == PortDirection::In &&
                     sink_to->generator()->parent() == generator) {
                     sink_to->clear_sources(false);
                     generator->add_stmt(sink_to->assign(*source_from, AssignmentType::Blocking));
-- 
2.43.0


From 58162d8e06a38fe63e359f771f5e2e9b78467c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:55 +0000
Subject: [PATCH 35/55] fix: moving sinks accepts a shared index, unsetting a
 width parameter forgets the variable

---
 src/expr.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index b72255d..6215c37 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -380,10 +380,10 @@ void Var::set_width_param(Var *param) {
             visitor.visit_root(width_param_);
             auto const &params = visitor.params();
             for (const auto &p : params) {
-                p->add_param_width_var(this);
+                p->remove_param_width_var(this);
             }
         }
-        width_param_= nullptr;
+        width_param_ = nullptr;
         return;
     }
     // set width to the current param value
@@ -1772,9 +1772,13 @@ bool change_var_index(Var *&var, Var *target, Var *new_var) {
 void stmt_set_right(AssignStmt *stmt, Var *target, Var *new_var) {
     auto found = change_var(stmt->right(), target, new_var, true);
     if (change_var_index(stmt->left(), target, new_var)) found = true;
-    // an expression can be shared with a statement that has been changed already
-    auto type = stmt->right()->type();
-    if (!found && (type == VarType::Base || type == VarType::PortIO || type == VarType::ConstValue))
+    // an expression, or an indexed target, can be shared with a statement that has been changed
+    // already
+    auto is_plain = [](const Var *var) {
+        auto type = var->type();
+        return type == VarType::Base || type == VarType::PortIO || type == VarType::ConstValue;
+    };
+    if (!found && is_plain(stmt->right()) && is_plain(stmt->left()))
         throw InternalException("Target not found");
 }
 
-- 
2.43.0


From efd7112c3be429f482553db021db3e4e9f56d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:43 +0000
Subject: [PATCH 36/55] fix: inlining keeps names, parameters, functions and
 constant connections intact

---
 src/codegen.cc   |   3 +-
 src/expr.cc      |  13 ++-
 src/expr.hh      |   6 +-
 src/generator.cc | 117 ++++++++++++++++-------
 src/optimize.cc  | 240 +++++++++++++++++++++--------------------------
 src/port.hh      |   3 +
 src/stmt.cc      |  11 +++
 src/stmt.hh      |   2 +
 8 files changed, 225 insertions(+), 170 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index 76d6cac..96bd33e 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -118,7 +118,8 @@ std::string Stream::get_var_decl(kratos::Var* var) {
     // based on whether it's packed or not
     std::string type;
     if (var->is_struct()) {
-        auto v = var->as<VarPackedStruct>();
+        auto* v = dynamic_cast<PackedInterface*>(var);
+        if (!v) throw InternalException("Unable to resolve var to struct type");
         type = v->packed_struct()->struct_name;
     } else if (var->is_enum()) {
         auto* v = dynamic_cast<EnumType*>(var);
diff --git a/src/expr.cc b/src/expr.cc
index 6215c37..81e4ac0 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -905,6 +905,12 @@ Var::Var(kratos::Generator *m, const std::string &name, uint32_t var_width,
 IRNode *Var::parent() const { return generator(); }
 IRNode *VarSlice::parent() const { return parent_var; }
 
+void Var::set_generator(Generator *gen) {
+    generator_ = gen;
+    for (auto const &slice : slices_) slice->set_generator(gen);
+    for (auto const &concat : concat_vars_) concat->set_generator(gen);
+}
+
 void Var::set_parent_generator(kratos::Generator *gen) { generator_ = gen; }
 
 std::shared_ptr<AssignStmt> Var::assign(const std::shared_ptr<Var> &var) {
@@ -1880,17 +1886,16 @@ void Var::move_linked_to(kratos::Var *new_var) {
     for (auto &slice : slices_) {
         slice->set_parent(new_var);
     }
-    new_var->slices_ = std::vector(slices_.begin(), slices_.end());
+    new_var->slices_.insert(new_var->slices_.end(), slices_.begin(), slices_.end());
     slices_.clear();
 
     // change concat'ed vars
     // we use overloaded ones
     for (auto const &concat : concat_vars_) {
-        concat->move_linked_to(new_var);
         concat->replace_var(shared_from_this(), new_var->shared_from_this());
     }
-    new_var->concat_vars_ =
-        std::vector<std::shared_ptr<VarConcat>>(concat_vars_.begin(), concat_vars_.end());
+    new_var->concat_vars_.insert(new_var->concat_vars_.end(), concat_vars_.begin(),
+                                 concat_vars_.end());
     concat_vars_.clear();
 
     // casted
diff --git a/src/expr.hh b/src/expr.hh
index 63d1042..94fa573 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -145,7 +145,8 @@ public:
     void unassign(const std::shared_ptr<AssignStmt> &stmt);
 
     virtual Generator *generator() const { return generator_; }
-    void set_generator(Generator *gen) { generator_ = gen; }
+    // slices and concatenations made from the variable follow
+    void set_generator(Generator *gen);
 
     IRNode *parent() const override;
     void set_parent_generator(Generator *gen);
@@ -521,6 +522,9 @@ public:
 
     bool is_param() const override { return true; }
 
+    // unlike other constants, parameters stay with their generator
+    void add_sink(const std::shared_ptr<AssignStmt> &stmt) override { Var::add_sink(stmt); }
+
     const Param *parent_param() const { return parent_param_; }
     ParamType param_type() const { return param_type_; }
     Enum *enum_def() const { return enum_def_; }
diff --git a/src/generator.cc b/src/generator.cc
index 122016f..601d70a 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -655,7 +655,7 @@ void set_var_params(Var *var, const std::map<std::string, std::shared_ptr<Param>
             // for now, we only support exact match
             if (param->is_param() && param->as<Param>()->parent_param() == parent_param.get()) {
                 // found it
-                parent_param->remove_param_width_var(param);
+                var->set_width_param(nullptr);
                 var->set_width_param(parent_param);
                 found = true;
                 break;
@@ -677,7 +677,7 @@ void set_var_params(Var *var, const std::map<std::string, std::shared_ptr<Param>
                 // for now, we only support exact match
                 if (param->is_param() && param->as<Param>()->parent_param() == parent_param.get()) {
                     // found it
-                    parent_param->remove_param_size_var(var, i, param);
+                    var->set_size_param(i, nullptr);
                     var->set_size_param(i, parent_param.get());
                     found = true;
                     break;
@@ -693,47 +693,98 @@ void set_var_params(Var *var, const std::map<std::string, std::shared_ptr<Param>
 }
 
 void Generator::transfer_content(kratos::Generator &gen, const std::string &prefix) {
-    // move all stuff to the generator
-    // except the variable
-    gen.stmts_.reserve(gen.stmts_.size() + stmts_.size());
-    for (auto const &stmt : stmts_) {
-        gen.add_stmt(stmt);
+    if (!interfaces_.empty() || !fsms_.empty() || !properties_.empty()) {
+        throw GeneratorException(
+            ::format("Unable to transfer interfaces, state machines or properties of {0} to {1}",
+                     instance_name, gen.instance_name),
+            {this, &gen});
+    }
+    for (auto const &[enum_name, enum_] : enums_) {
+        auto it = gen.enums_.find(enum_name);
+        if (it != gen.enums_.end() && it->second != enum_)
+            throw GeneratorException(
+                ::format("Enum {0} already exists in {1}", enum_name, gen.instance_name),
+                {this, &gen});
+    }
+    gen.enums_.insert(enums_.begin(), enums_.end());
+
+    auto in_use = [&gen](const std::string &name) {
+        return gen.has_var(name) || gen.params_.find(name) != gen.params_.end() ||
+               gen.funcs_.find(name) != gen.funcs_.end() || gen.has_child_generator(name) ||
+               gen.named_blocks_.find(name) != gen.named_blocks_.end() ||
+               gen.interfaces_.find(name) != gen.interfaces_.end() || !is_valid_variable_name(name);
+    };
+    auto target_name = [&](const std::string &name) {
+        if (!in_use(name)) return name;
+        auto result = prefix + name;
+        for (uint32_t count = 0; in_use(result); count++) {
+            result = ::format("{0}{1}_{2}", prefix, name, count);
+        }
+        return result;
+    };
+
+    // parameters that are used as a value
+    for (auto const &[name, param] : params_) {
+        if (param->sinks().empty()) continue;
+        auto *parent_param = const_cast<Param *>(param->parent_param());
+        if (!parent_param || parent_param->generator() != &gen) {
+            auto new_name = target_name(name);
+            auto &new_param = gen.parameter(new_name, param->width(), param->is_signed());
+            new_param.set_value(param->value());
+            new_param.set_initial_value(param->value());
+            parent_param = &new_param;
+        }
+        Var::move_sink_to(param.get(), parent_param, this, false);
     }
+
+    for (auto const &[var_name, var] : vars_) {
+        var->set_generator(&gen);
+        var->name = target_name(var_name);
+        // ports become ordinary variables
+        if (var->type() == VarType::PortIO) var->as<Port>()->set_as_variable();
+        gen.vars_.emplace(var->name, var);
+        // parameters are kept if they're passed in from the parent
+        set_var_params(var.get(), gen.params_);
+    }
+
     for (auto const &expr : exprs_) {
         expr->set_parent_generator(&gen);
         gen.exprs_.emplace(expr);
     }
 
-    for (auto const &[var_name, var] : vars_) {
-        var->set_generator(&gen);
-        std::string target_name = var_name;
-        if (gen.has_var(var_name)) {
-            target_name = get_unique_variable_name(prefix, var_name);
-        }
-        var->name = target_name;
-        // maybe it's a port, in that case we need to copy its definition and create a var
-        if (var->type() == VarType::PortIO) {
-            auto &new_var = gen.var(*var, target_name);
-            var->move_linked_to(&new_var);
-            Var::move_sink_to(var.get(), &new_var, &gen, false);
-            Var::move_src_to(var.get(), &new_var, &gen, false);
-        } else {
-            gen.vars_.emplace(target_name, var);
-        }
-        if (parent_generator_ == &gen) {
-            const auto &parameters = gen.params_;
-            set_var_params(var.get(), parameters);
-        } else {
-            // unlink parameters
-            var->set_width_param(nullptr);
-            for (uint64_t i = 0; i < var->size().size(); i++) {
-                var->set_size_param(i, nullptr);
-            }
-        }
+    for (auto const &[index, func_name] : func_index_) {
+        auto const &func = funcs_.at(func_name);
+        auto name = target_name(func_name);
+        // imported and builtin functions are not defined in the module
+        if (!func->is_dpi() && !func->is_builtin()) func->set_function_name(name);
+        for (auto const &iter : func->ports()) iter.second->set_generator(&gen);
+        func->set_generator(&gen);
+        gen.func_index_.emplace(static_cast<uint32_t>(gen.funcs_.size()), name);
+        gen.funcs_.emplace(name, func);
+    }
+    for (auto const &call : calls_) {
+        call->set_parent_generator(&gen);
+        gen.calls_.emplace(call);
+    }
+
+    for (auto const &[label, block] : named_blocks_) {
+        gen.named_blocks_.emplace(target_name(label), block);
+    }
+
+    gen.stmts_.reserve(gen.stmts_.size() + stmts_.size());
+    for (auto const &stmt : stmts_) {
+        gen.add_stmt(stmt);
     }
 
     stmts_.clear();
     exprs_.clear();
+    vars_.clear();
+    ports_.clear();
+    port_bundle_mapping_.clear();
+    funcs_.clear();
+    func_index_.clear();
+    calls_.clear();
+    named_blocks_.clear();
 }
 
 std::shared_ptr<InterfaceRef> Generator::interface(const std::shared_ptr<IDefinition> &def,
diff --git a/src/optimize.cc b/src/optimize.cc
index 1dcad21..c376c75 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -1425,15 +1425,9 @@ public:
 
     void visit(Generator* top) override {
         auto child_generators = top->get_child_generators();
-        if (child_generators.empty()) return;
-        // calculate if we should inline or not
-        bool start_inline =
-            std::all_of(child_generators.begin(), child_generators.end(),
-                        [](auto const& gen) { return gen->get_child_generator_size() == 0; });
-        if (!start_inline) return;
-
-        std::vector<PortInfo> inline_stmts;
-        bool has_inlined_inst = false;
+        std::vector<std::pair<std::shared_ptr<Var>, PortDirection>> ports;
+        auto const& stmts = top->get_all_stmts();
+        std::unordered_set<std::shared_ptr<Stmt>> top_stmts(stmts.begin(), stmts.end());
         for (auto const& child : child_generators) {
             if (!child->has_attribute("inline")) {
                 continue;
@@ -1442,149 +1436,122 @@ public:
                 throw GeneratorException("Cannot inline cloned or external modules",
                                          {child.get(), top});
             }
-            has_inlined_inst = true;
-            // figure out which port we should focus on
-            auto port_names = child->get_port_names();
-            for (auto const& port_name : port_names) {
-                auto const& port = child->get_port(port_name);
-                auto res = get_port_assignment(port.get());
-                if (res.stmt) {
-                    inline_stmts.emplace_back(res);
+            for (auto const& port_name : child->get_port_names()) {
+                auto port = child->get_port(port_name);
+                ports.emplace_back(port, port->port_direction());
+                // decoupled connections are only known to the port. they become assignments
+                auto connections = port->sources();
+                connections.insert(port->sinks().begin(), port->sinks().end());
+                for (auto const& stmt : connections) {
+                    if (stmt->parent() == top && top_stmts.emplace(stmt).second) {
+                        stmt->set_assign_type(AssignmentType::Blocking);
+                        top->add_stmt(stmt);
+                    }
                 }
             }
 
+            // ports become variables
             child->transfer_content(*top, child->instance_name + "_");
             top->remove_child_generator(child);
         }
-        if (has_inlined_inst) {
-            optimize_passthrough_assignment(top, inline_stmts);
-        }
+        if (!ports.empty()) optimize_passthrough_assignment(top, ports);
     }
 
 private:
-    class RenameLinkedVar : public IRVisitor {
+    // uses that are not assignments
+    class VarUses : public IRVisitor {
     public:
-        explicit RenameLinkedVar(const std::unordered_map<std::string, Var*>& var_mapping)
-            : var_mapping_(var_mapping) {}
-        void visit(IfStmt* stmt) override {
-            if (auto* v = match(stmt->predicate().get())) {
-                stmt->set_predicate(v->shared_from_this());
-            }
-        }
+        void visit(SequentialStmtBlock* stmt) override { sequential.emplace_back(stmt); }
+        void visit(AssertBase*) override { has_other = true; }
+        void visit(AuxiliaryStmt*) override { has_other = true; }
 
-        void visit(SwitchStmt* stmt) override {
-            if (auto* v = match(stmt->target().get())) {
-                stmt->set_target(v->shared_from_this());
-            }
-        }
+        std::vector<SequentialStmtBlock*> sequential;
+        // uses that can't be changed
+        bool has_other = false;
+    };
 
-        void visit(SequentialStmtBlock* stmt) override {
-            auto& conds = stmt->get_event_controls();
-            for (auto& e : conds) {
-                if (auto* v = match(e.var)) {
-                    e.var = v;
-                }
-            }
-        }
+    static bool same_shape(Var* left, Var* right) {
+        auto same_struct = [](Var* a, Var* b) {
+            if (a->is_struct() != b->is_struct()) return false;
+            if (!a->is_struct()) return true;
+            auto* struct_a = dynamic_cast<PackedInterface*>(a);
+            auto* struct_b = dynamic_cast<PackedInterface*>(b);
+            return struct_a && struct_b && struct_a->packed_struct() == struct_b->packed_struct();
+        };
+        return left->width() == right->width() && left->is_signed() == right->is_signed() &&
+               left->size() == right->size() && left->is_packed() == right->is_packed() &&
+               left->explicit_array() == right->explicit_array() && !left->is_enum() &&
+               !right->is_enum() && same_struct(left, right);
+    }
 
-        void visit(AssertBase*) override {
-            throw InternalException("Assertion inline not implemented");
-        }
+    static bool is_plain(Generator* gen, Var* var) {
+        return (var->type() == VarType::Base || var->type() == VarType::PortIO) &&
+               var->generator() == gen && !var->is_interface() && !var->is_function() &&
+               gen->get_var(var->name).get() == var;
+    }
 
-        [[nodiscard]] Var* match(Var* var) const {
-            return var_mapping_.find(var->name) != var_mapping_.end() ? var_mapping_.at(var->name)
-                                                                      : nullptr;
+    // every use of var becomes a use of new_var
+    static void move_uses(Generator* gen, Var* var, Var* new_var, const VarUses& uses) {
+        var->move_linked_to(new_var);
+        Var::move_sink_to(var, new_var, gen, false);
+        for (auto* block : uses.sequential) {
+            for (auto& event : block->get_event_controls()) {
+                if (event.var == var) event.var = new_var;
+            }
         }
+    }
 
-    private:
-        const std::unordered_map<std::string, Var*>& var_mapping_;
-    };
+    // remove a variable that's a copy of something else
+    static void remove_copy(Generator* gen, Var* var, const VarUses& uses) {
+        if (!is_plain(gen, var) || var->type() != VarType::Base) return;
+        if (var->sources().size() != 1) return;
+        auto stmt = *var->sources().begin();
+        auto* right = stmt->right();
+        if (stmt->parent() != gen || stmt->left() != var || right == var) return;
+        if (!is_plain(gen, right) || !same_shape(var, right)) return;
+        gen->remove_stmt(stmt);
+        move_uses(gen, var, right, uses);
+        gen->remove_var(var->name);
+    }
 
-    static PortInfo get_port_assignment(Port* port) {
-        PortInfo info{port->port_direction(), nullptr};
-        auto* gen_parent = port->generator()->parent_generator();
-        if (port->port_direction() == PortDirection::In) {
-            // assume we have handled the port decouple
-            auto const& sources = port->sources();
-            for (auto const& stmt : sources) {
-                if (stmt->left() == port && stmt->parent() == gen_parent) {
-                    if (info.stmt) {
-                        // illegal state, return nothing just to be safe
-                        info.stmt = nullptr;
-                        return info;
-                    }
-                    info.stmt = stmt.get();
-                }
-            }
-        } else {
-            auto const& sinks = port->sinks();
-            for (auto const& stmt : sinks) {
-                if (stmt->right() == port && stmt->parent() == gen_parent) {
-                    if (info.stmt) {
-                        // illegal state, return nothing just to be safe
-                        info.stmt = nullptr;
-                        return info;
-                    }
-                    info.stmt = stmt.get();
-                }
-            }
-        }
-        return info;
+    // remove a variable whose value is only copied to something else. returns what it's copied to
+    static Var* remove_driver(Generator* gen, Var* var, const VarUses& uses) {
+        if (!is_plain(gen, var) || var->type() != VarType::Base) return nullptr;
+        for (auto const& stmt : var->sinks()) {
+            auto* left = stmt->left();
+            if (stmt->parent() != gen || stmt->right() != var || left == var) continue;
+            if (!is_plain(gen, left) || !same_shape(var, left)) continue;
+            if (left->sources().size() != 1) continue;
+            // don't touch the statement inside the set
+            auto target = stmt;
+            gen->remove_stmt(target);
+            Var::move_src_to(var, left, gen, false);
+            move_uses(gen, var, left, uses);
+            gen->remove_var(var->name);
+            return left;
+        }
+        return nullptr;
     }
 
-    static void optimize_passthrough_assignment(Generator* gen,
-                                                const std::vector<PortInfo>& stmts) {
-        gen->set_use_stmt_remove_cache(true);
-        std::unordered_map<std::string, Var*> var_mapping;
+    static void optimize_passthrough_assignment(
+        Generator* gen, const std::vector<std::pair<std::shared_ptr<Var>, PortDirection>>& ports) {
+        VarUses uses;
+        uses.visit_content(gen);
+        if (uses.has_other) return;
+
         std::vector<Var*> vars;
-        for (auto const& info : stmts) {
-            auto* stmt = info.stmt;
-            auto* left = stmt->left();
-            auto* right = stmt->right();
-            if (info.direction == PortDirection::In) {
-                // move to right
-                Var::move_sink_to(left, right, gen, false);
-                left->clear_sources(true);
-                vars.emplace_back(right);
-                var_mapping.emplace(left->name, right);
-            } else {
-                // move to left
-                Var::move_src_to(right, left, gen, false);
-                right->clear_sinks(true);
-                vars.emplace_back(left);
-                var_mapping.emplace(right->name, left);
+        for (auto const& [port, direction] : ports) {
+            if (direction == PortDirection::In) {
+                remove_copy(gen, port.get(), uses);
+            } else if (direction == PortDirection::Out) {
+                auto* var = remove_driver(gen, port.get(), uses);
+                if (var) vars.emplace_back(var);
             }
         }
-
-        // rename some constructs that's not assignments
-        RenameLinkedVar v(var_mapping);
-        v.visit_content_s(gen);
-        // now remove them
-        for (auto const& iter : var_mapping) {
-            gen->remove_var(iter.first);
-        }
-
-        // also clear out variables with only one source
-        // notice that we keep track of the ones need to check for performance reason
+        // also clear out variables that became a copy
         for (auto* var : vars) {
-            if (var->sources().size() != 1) {
-                continue;
-            }
-
-            auto const& src_stmt = *var->sources().begin();
-            auto* left = src_stmt->left();
-            auto* right = src_stmt->right();
-            if (left != var) continue;
-            if (right->type() == VarType::PortIO || right->type() == VarType::Base) {
-                // move
-                VarSlice::move_sink_to(left, right, gen, false);
-                left->clear_sources(true);
-                gen->remove_var(left->name);
-            }
+            remove_copy(gen, var, uses);
         }
-
-        gen->clear_remove_stmt_cache();
-        gen->set_use_stmt_remove_cache(false);
     }
 };
 
@@ -1592,9 +1559,20 @@ void inline_instance(Generator* top) {
     // this has to be run after decouple generator ports
     InlineGeneratorVisitor visitor;
     // we only allow leaf instances to be inlined, users can run this pass multiple times
-    // by making this assumption, we can run the pass in parallel since the parent of the target
-    // won't run this pass hence avoiding race conditions
-    visitor.visit_generator_root_tp(top);
+    // figure out where to inline before anything changes
+    GeneratorGraph graph(top);
+    std::vector<Generator*> generators;
+    for (auto* gen : graph.get_nodes()) {
+        auto children = gen->get_child_generators();
+        if (std::all_of(children.begin(), children.end(), [](auto const& child) {
+                return child->get_child_generator_size() == 0;
+            })) {
+            generators.emplace_back(gen);
+        }
+    }
+    for (auto* gen : generators) {
+        visitor.visit(gen);
+    }
 }
 
 }  // namespace kratos
\ No newline at end of file
diff --git a/src/port.hh b/src/port.hh
index 6c3370b..ca9b811 100644
--- a/src/port.hh
+++ b/src/port.hh
@@ -45,6 +45,9 @@ public:
 
     [[nodiscard]] bool connected() const;
 
+    // used when the generator is inlined: it's not a port of anything any more
+    void set_as_variable() { Var::type_ = VarType::Base; }
+
 protected:
     std::shared_ptr<AssignStmt> assign_(const std::shared_ptr<Var> &var,
                                         AssignmentType type) override;
diff --git a/src/stmt.cc b/src/stmt.cc
index bfea3d8..14ed197 100644
--- a/src/stmt.cc
+++ b/src/stmt.cc
@@ -794,6 +794,17 @@ FunctionStmtBlock::FunctionStmtBlock(kratos::Generator *parent, std::string func
     StmtBlock::set_parent(parent);
 }
 
+void FunctionStmtBlock::set_generator(Generator *gen) {
+    parent_ = gen;
+    StmtBlock::set_parent(gen);
+    if (function_handler_) function_handler_->set_generator(gen);
+}
+
+void FunctionStmtBlock::set_function_name(const std::string &name) {
+    function_name_ = name;
+    if (function_handler_) function_handler_->name = name + "_return";
+}
+
 void FunctionStmtBlock::create_function_handler(uint32_t width, bool is_signed) {
     if (function_handler_) {
         throw VarException(::format("{0} already has a function handler", function_name_),
diff --git a/src/stmt.hh b/src/stmt.hh
index 6e64f57..db495d9 100644
--- a/src/stmt.hh
+++ b/src/stmt.hh
@@ -392,6 +392,8 @@ public:
     void set_port_ordering(const std::map<uint32_t, std::string> &ordering);
     const std::map<std::string, uint32_t> &port_ordering() const { return port_ordering_; }
     Generator *generator() { return parent_; }
+    void set_generator(Generator *gen);
+    void set_function_name(const std::string &name);
 
     void accept(IRVisitor *visitor) override { visitor->visit(this); }
 
-- 
2.43.0


From b05dbde0f1ba4c544bc23d3ed117de04ea6acd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:50 +0000
Subject: [PATCH 37/55] fix: decoupling and pass-through removal with values
 shared by two levels

---
 src/optimize.cc  | 2 ++
 src/transform.cc | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index c376c75..a551fca 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -390,6 +390,8 @@ public:
                         new_var.fn_name_ln.emplace_back(__FILE__, __LINE__);
                     }
                     Var::move_src_to(port.get(), &new_var, generator, false);
+                    // the input can be read in the parent as well
+                    Var::move_sink_to(port.get(), &new_var, generator, false);
                     // move the sinks over
                     Var::move_sink_to(next_port, &new_var, generator, false);
                 }
diff --git a/src/transform.cc b/src/transform.cc
index fee03f1..e1d1df7 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -370,7 +370,7 @@ private:
                         (src->type() == VarType::Slice &&
                          src->generator() == generator->parent())) {
                         // remove it from the parent generator
-                        src->generator()->remove_stmt(stmt);
+                        stmt->remove_from_parent();
                         return;
                     }
                 }
-- 
2.43.0


From a9b4d308384e64179f9416e5e3e80367643d9274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:20 +0000
Subject: [PATCH 38/55] fix: generate loops keep index order, parameters and
 names

---
 src/transform.cc | 149 +++++++++++++++++++++++++++++++----------------
 1 file changed, 99 insertions(+), 50 deletions(-)

diff --git a/src/transform.cc b/src/transform.cc
index e1d1df7..433a6b4 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -7,6 +7,7 @@
 #include "hash.hh"
 #include "interface.hh"
 #include "stmt.hh"
+#include "syntax.hh"
 #include "tb.hh"
 #include "util.hh"
 
@@ -506,7 +507,7 @@ public:
     void visit(Generator* top) override {
         // we are only interested in generator instances that shares the same name
         // and has the same hash
-        std::unordered_map<uint64_t, std::vector<ModuleInstantiationStmt*>> generator_map;
+        std::map<uint64_t, std::vector<ModuleInstantiationStmt*>> generator_map;
         // we use the hash value. I'm pretty sure that this won't catch all the corner cases
         // but it's good enough for now
         auto const* context = top->context();
@@ -525,10 +526,10 @@ public:
         }
 
         // only interested in entries that has more than 1 entries
-        for (auto const& [hash, generators] : generator_map) {
+        for (auto& [hash, generators] : generator_map) {
             if (generators.size() <= 1) continue;
-            std::unordered_map<std::string, PortInfo> port_mapping;
-            bool check = check_child_instance(generators, port_mapping);
+            std::map<std::string, std::pair<std::string, bool>> port_mapping;
+            bool check = check_child_instance(top, generators, port_mapping);
             if (check) {
                 // change it to a loop structure
                 create_gen_var_instance(generators, port_mapping);
@@ -537,75 +538,102 @@ public:
     }
 
 private:
-    using PortInfo = std::unordered_map<std::string, std::unordered_set<uint64_t>>;
+    static bool is_local_var(Generator* gen, Var* var) {
+        return (var->type() == VarType::Base || var->type() == VarType::PortIO) &&
+               gen->get_var(var->name).get() == var;
+    }
+
+    static bool same_param(const Param* a, const Param* b) {
+        return a->parent_param() == b->parent_param() && a->value() == b->value() &&
+               a->get_raw_str_value() == b->get_raw_str_value();
+    }
+
+    // sort the instances by the index they're connected with. returns false if they cannot be put
+    // into a loop
     // NOLINTNEXTLINE
-    bool static check_child_instance(const std::vector<ModuleInstantiationStmt*>& generators,
-                                     std::unordered_map<std::string, PortInfo>& port_mapping) {
+    bool static check_child_instance(Generator* top,
+                                     std::vector<ModuleInstantiationStmt*>& generators,
+                                     std::map<std::string, std::pair<std::string, bool>>& mapping) {
         // check if all the ports are connected to the same variable and index
-        for (auto const* inst : generators) {
+        std::unordered_map<ModuleInstantiationStmt*, uint64_t> indices;
+        auto const* ref = generators[0]->target();
+        for (auto* inst : generators) {
             auto const* gen = inst->target();
+            if (gen->name != ref->name) return false;
+            for (auto const& [param_name, param] : gen->get_params()) {
+                auto const& params = ref->get_params();
+                auto it = params.find(param_name);
+                if (it == params.end() || !same_param(param.get(), it->second.get())) return false;
+            }
             for (auto const& port_name : gen->get_port_names()) {
                 auto const& port = gen->get_port(port_name);
                 // get connected net
-                // we assume the port connections are already checked
                 Var* net;
                 if (port->port_direction() == PortDirection::In) {
+                    if (port->sources().size() != 1) return false;
                     auto const& stmt = *port->sources().begin();
+                    if (stmt->left() != port.get()) return false;
                     net = stmt->right();
-                } else {
-                    auto const& stmt = *port->sinks().begin();
-                    net = stmt->left();
+                } else if (port->port_direction() == PortDirection::Out) {
+                    // unconnected
+                    Var* connected = nullptr;
+                    for (auto const& stmt : port->sinks()) {
+                        if (stmt->generator_parent() == gen) continue;
+                        if (connected || stmt->right() != port.get()) return false;
+                        connected = stmt->left();
+                    }
+                    if (!connected) return false;
+                    net = connected;
                     // if it's a fanout to a sliced net
                     if (net->sinks().size() == 1) {
                         auto const& next_stmt = *net->sinks().begin();
                         auto* n = next_stmt->left();
-                        if (n->type() == VarType::Slice) {
+                        if (n->type() == VarType::Slice && next_stmt->right() == net &&
+                            next_stmt->parent() == top) {
                             net = n;
                         }
                     }
+                } else {
+                    return false;
                 }
+                auto* var = net;
+                std::optional<uint64_t> index;
                 if (net->type() == VarType::Slice) {
                     auto* slice = reinterpret_cast<VarSlice*>(net);
-                    auto* parent = slice->parent_var;
-                    if (slice->high != slice->low) {
-                        // ranged slice not allowed
-                        return false;
-                    }
-                    port_mapping[port_name][parent->to_string()].emplace(slice->high);
-                } else {
-                    port_mapping[port_name][net->to_string()] = {};
+                    // ranged slice not allowed
+                    if (slice->high != slice->low || slice->sliced_by_var()) return false;
+                    var = slice->parent_var;
+                    index = slice->high;
+                }
+                if (!is_local_var(top, var)) return false;
+                auto info = std::make_pair(var->name, index.has_value());
+                if (mapping.emplace(port_name, info).first->second != info) return false;
+                if (index) {
+                    // every port has to use the same index
+                    if (indices.emplace(inst, *index).first->second != *index) return false;
+                } else if (port->port_direction() != PortDirection::In) {
+                    // every instance would drive it
+                    return false;
                 }
             }
         }
 
-        // make sure all the array match
-        return std::all_of(port_mapping.begin(), port_mapping.end(),
-                           [&generators](auto const& iter) -> bool {
-                               auto const& [port_name, info] = iter;
-                               // has to have one parent
-                               if (info.size() != 1) {
-                                   return false;
-                               }
-                               // if it's array slicing
-                               auto const& links = info.begin()->second;
-                               if (!links.empty()) {
-                                   // has to match with the array size
-                                   if (links.size() != generators.size()) {
-                                       return false;
-                                   }
-                                   for (uint64_t i = 0; i < generators.size(); i++) {
-                                       if (links.find(i) == links.end()) {
-                                           return false;
-                                       }
-                                   }
-                               }
-                               return true;
-                           });
+        if (indices.empty()) return true;
+        // every index from 0 has to be used once
+        std::vector<ModuleInstantiationStmt*> sorted(generators.size(), nullptr);
+        for (auto* inst : generators) {
+            if (indices.find(inst) == indices.end()) return false;
+            auto index = indices.at(inst);
+            if (index >= sorted.size() || sorted[index]) return false;
+            sorted[index] = inst;
+        }
+        generators = sorted;
+        return true;
     }
 
     static void create_gen_var_instance(
         const std::vector<ModuleInstantiationStmt*>& generators,
-        const std::unordered_map<std::string, PortInfo>& port_mapping) {
+        const std::map<std::string, std::pair<std::string, bool>>& port_mapping) {
         auto* gen = generators[0]->generator_parent();
         // need to allocate a var name
         auto const new_var = gen->get_unique_variable_name("", "i");
@@ -631,11 +659,10 @@ private:
             for (auto const& [port_name, info] : port_mapping) {
                 auto port = child->get_port(port_name);
                 // get the target_var
-                auto mapping = *info.begin();
-                auto const& target_name = mapping.first;
+                auto const& [target_name, sliced] = info;
                 auto const& target_var_base = gen->get_var(target_name);
                 std::shared_ptr<Var> target_var;
-                if (mapping.second.empty()) {
+                if (!sliced) {
                     target_var = target_var_base;
                 } else {
                     target_var = target_var_base->operator[](iter).shared_from_this();
@@ -665,6 +692,17 @@ private:
         }
     }
 
+    static bool name_used(Generator* gen, const std::vector<ModuleInstantiationStmt*>& generators,
+                          const std::string& name) {
+        auto const& children = gen->get_child_generators();
+        return std::any_of(children.begin(), children.end(), [&](auto const& child) {
+            // instances that are moved into the loop don't count
+            return child->instance_name == name &&
+                   std::none_of(generators.begin(), generators.end(),
+                                [&](auto const* inst) { return inst->target() == child.get(); });
+        });
+    }
+
     static std::string find_common_instance_name(
         const std::vector<ModuleInstantiationStmt*>& generators) {
         std::stringstream gen_inst_name;
@@ -686,14 +724,25 @@ private:
         }
         auto str = gen_inst_name.str();
         // remote _ at the end
-        while (str[str.size() - 1] == '_') {
+        while (!str.empty() && str[str.size() - 1] == '_') {
             str = str.substr(0, str.size() - 1);
         }
         // if it's empty, use gen_blk and the definition name
         if (str.empty()) {
             str = "genblk_" + generators[0]->target()->name;
         }
-        return str;
+        // the label shares the name space with everything else in the module
+        auto* gen = generators[0]->generator_parent();
+        auto result = str;
+        auto const labels = gen->named_blocks_labels();
+        for (uint32_t i = 0; !is_valid_variable_name(result) || gen->get_var(result) ||
+                             gen->get_param(result) ||
+                             gen->has_function(result) || labels.find(result) != labels.end() ||
+                             name_used(gen, generators, result);
+             i++) {
+            result = ::format("{0}_{1}", str, i);
+        }
+        return result;
     }
 };
 
-- 
2.43.0


From af113acf3faef27f2e17e11a90fe4a69eabb42ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:49 +0000
Subject: [PATCH 39/55] fix: input ports read in the parent are replaced
 everywhere

---
 src/transform.cc | 95 +++++++++++++++++++++++++-----------------------
 1 file changed, 50 insertions(+), 45 deletions(-)

diff --git a/src/transform.cc b/src/transform.cc
index 433a6b4..8c4bd60 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -752,59 +752,64 @@ void lift_genvar_instances(Generator* top) {
     visitor.visit_generator_root(top);
 }
 
-void change_var_expr(const std::shared_ptr<Expr>& expr, Var* target, Var* new_var, bool move_link);
-
 class PortLegalityFixVisitor : public IRVisitor {
 public:
     void visit(Generator* gen) override {
-        auto const* parent_gen = gen->parent_generator();
+        auto* parent_gen = gen->parent_generator();
+        if (!parent_gen) return;
         auto port_names = gen->get_port_names();
         for (auto const& port_name : port_names) {
             auto const& port = gen->get_port(port_name);
             if (port->port_direction() != PortDirection::In) continue;
-            auto sinks = std::unordered_set(port->sinks().begin(), port->sinks().end());
-            for (auto const& stmt : sinks) {
-                if (stmt->generator_parent() != parent_gen) continue;
-                // if we have any sinks that's in the parent scope, it's an illegal assignment
-                // we have to figure out the source
-                auto const& sources = port->sources();
-                if (sources.empty()) continue;
-                auto const& src = (*sources.begin())->right()->shared_from_this();
-                if (src->generator() != parent_gen)
-                    throw InternalException("Invalid src generator");
-                // replace the source with this src
-                // depends on the context, it could be an auxiliary stmt
-                if (port->generator()->is_auxiliary_var(stmt->left()->shared_from_this())) {
-                    auto* parent_stmt = reinterpret_cast<Stmt*>(stmt->parent());
-                    if (parent_stmt->type() == StatementType::If) {
-                        auto if_ = parent_stmt->as<IfStmt>();
-                        if (if_->predicate()->type() == VarType::Expression) {
-                            auto expr = if_->predicate()->as<Expr>();
-                            change_var_expr(expr, port.get(), src.get(), false);
-                        } else {
-                            if_->set_predicate(src);
-                        }
-                    } else {
-                        // case statement
-                        auto case_ = parent_stmt->as<SwitchStmt>();
-                        if (case_->target()->type() == VarType::Expression) {
-                            auto expr = case_->target()->as<Expr>();
-                            change_var_expr(expr, port.get(), src.get(), false);
-                        } else {
-                            case_->set_target(src);
-                        }
-                    }
-                } else {
-                    auto* right = stmt->right();
-                    if (right->type() == VarType::Expression) {
-                        auto expr = right->as<Expr>();
-                        change_var_expr(expr, port.get(), src.get(), false);
-                    } else {
-                        stmt->right() = src.get();
-                    }
-                }
+            // if we have any sinks that's in the parent scope, it's an illegal assignment
+            // we have to figure out the source
+            auto const& sinks = port->sinks();
+            if (std::none_of(sinks.begin(), sinks.end(), [=](auto const& stmt) {
+                    return stmt->generator_parent() == parent_gen;
+                }))
+                continue;
+            // use the source instead. conditions and targets are handled as well
+            auto* src = get_source(gen, port.get(), parent_gen);
+            if (src) Var::move_sink_to(port.get(), src, parent_gen, false);
+        }
+    }
+
+private:
+    static Var* get_source(Generator* gen, Port* port, Generator* parent_gen) {
+        auto const& sources = port->sources();
+        if (sources.empty()) return nullptr;
+        Var* value = nullptr;
+        if (sources.size() == 1) {
+            auto const& stmt = *sources.begin();
+            if (stmt->parent() == parent_gen && stmt->left() == port) {
+                auto* src = stmt->right();
+                auto type = src->type();
+                if ((type == VarType::Base || type == VarType::PortIO || type == VarType::Slice) &&
+                    src->generator() == parent_gen && !port->is_struct())
+                    return src;
+                // constants and casts, they can't be sliced
+                if (type == VarType::ConstValue || type == VarType::Parameter ||
+                    type == VarType::BaseCasted)
+                    value = src;
             }
         }
+        // need a variable that holds the value
+        auto new_name = parent_gen->get_unique_variable_name(gen->instance_name, port->name);
+        Var* var;
+        if (port->is_struct()) {
+            var = &parent_gen->var_packed(new_name, port->as<PortPackedStruct>()->packed_struct());
+        } else {
+            var = &parent_gen->var(new_name, port->var_width(), port->size(), port->is_signed());
+            var->set_is_packed(port->is_packed());
+            var->set_explicit_array(port->explicit_array());
+        }
+        if (value) {
+            parent_gen->add_stmt(var->assign(value->shared_from_this(), AssignmentType::Blocking));
+        } else {
+            Var::move_src_to(port, var, parent_gen, false);
+            parent_gen->add_stmt(port->assign(var->shared_from_this(), AssignmentType::Blocking));
+        }
+        return var;
     }
 };
 
@@ -812,7 +817,7 @@ void port_legality_fix(Generator* top) {
     // notice that we're only interested in input ports since the output ports are handled
     // properly in the decouple fix
     PortLegalityFixVisitor visitor;
-    visitor.visit_generator_root_p(top);
+    visitor.visit_generator_root(top);
 }
 
 class PortBundleVisitor : public IRVisitor {
-- 
2.43.0


From 1b8436ffe2204e100304a8b25ef33a114e12085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:23 +0000
Subject: [PATCH 40/55] fix: driver checks look at concatenations, loops and
 unknown indices

---
 src/analysis.cc | 258 ++++++++++++++++++++++++++++--------------------
 1 file changed, 151 insertions(+), 107 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 730e937..91e5ef1 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -16,6 +16,44 @@ using fmt::format;
 using std::runtime_error;
 
 namespace kratos {
+// parts of the variable that's assigned to by the left hand side
+static std::vector<Var*> assigned_parts(Var* left, const Var* var) {
+    if (left->type() == VarType::Expression) {
+        std::vector<Var*> result;
+        auto* expr = reinterpret_cast<Expr*>(left);
+        if (expr->op == ExprOp::Concat) {
+            for (auto* v : reinterpret_cast<VarConcat*>(expr)->vars()) {
+                auto const parts = assigned_parts(v, var);
+                result.insert(result.end(), parts.begin(), parts.end());
+            }
+        }
+        return result;
+    }
+    if (left->get_var_root_parent() == var) return {left};
+    return {};
+}
+
+// range of bits that can be assigned to
+static std::pair<uint32_t, uint32_t> assigned_range(Var* var) {
+    // if the index is not known, anything in the sliced variable
+    Var* v = var;
+    for (auto* node = var; node->type() == VarType::Slice;) {
+        auto* slice = reinterpret_cast<VarSlice*>(node);
+        if (slice->sliced_by_var()) v = slice->parent_var;
+        node = slice->parent_var;
+    }
+    return {v->var_low(), v->var_high()};
+}
+
+static bool index_unknown(Var* var) {
+    for (auto* node = var; node->type() == VarType::Slice;) {
+        auto* slice = reinterpret_cast<VarSlice*>(node);
+        if (slice->sliced_by_var()) return true;
+        node = slice->parent_var;
+    }
+    return false;
+}
+
 class VerifyAssignmentVisitor : public IRVisitor {
 public:
     void visit(AssignStmt* stmt) override {
@@ -144,7 +182,8 @@ private:
         auto const& var = generator->get_var(name);
         AssignmentType type = AssignmentType::Undefined;
         for (auto const& stmt : var->sources()) {
-            if (stmt->left()->get_var_root_parent() != var.get()) continue;
+            auto const parts = assigned_parts(stmt->left(), var.get());
+            if (parts.empty()) continue;
             if (type == AssignmentType ::Undefined)
                 type = stmt->assign_type();
             else if (type != stmt->assign_type()) {
@@ -156,62 +195,80 @@ private:
                                     stmt_list.begin(), stmt_list.end());
             }
             // check assignment
-            check_var_parent(generator, stmt->left(), stmt->right(), stmt.get());
+            check_var_parent(generator, parts.front(), stmt->right(), stmt.get());
         }
     }
 
-    static bool has_non_port(Generator* context, Var* var) {
-        if (!var) return false;
-        if (var->type() == VarType::Expression) {
-            auto* expr = dynamic_cast<Expr*>(var);
-            return has_non_port(context, expr->left) || has_non_port(context, expr->right);
-        } else if (var->type() == VarType::Slice) {
-            auto* slice = dynamic_cast<VarSlice*>(var);
-            return has_non_port(context, slice->parent_var);
-        } else {
-            return var->generator() != context && var->type() != VarType::PortIO &&
-                   var->type() != VarType ::ConstValue;
+    // whether the variable is out of the context's reach, i.e. neither its own nor a port of one of
+    // its child generators
+    static bool out_of_reach(Generator* context, Var* var) {
+        if (!var || var->is_function() || var->is_interface()) return false;
+        switch (var->type()) {
+            case VarType::ConstValue:
+            case VarType::Parameter:
+            case VarType::Iter:
+                return false;
+            case VarType::Slice: {
+                auto* slice = reinterpret_cast<VarSlice*>(var);
+                if (slice->sliced_by_var() &&
+                    out_of_reach(context, reinterpret_cast<VarVarSlice*>(slice)->sliced_var()))
+                    return true;
+                return out_of_reach(context, slice->parent_var);
+            }
+            case VarType::BaseCasted:
+                return out_of_reach(context, reinterpret_cast<VarCasted*>(var)->parent_var());
+            case VarType::Expression: {
+                auto* expr = reinterpret_cast<Expr*>(var);
+                if (expr->op == ExprOp::Concat) {
+                    auto const& vars = reinterpret_cast<VarConcat*>(expr)->vars();
+                    return std::any_of(vars.begin(), vars.end(),
+                                       [=](auto* v) { return out_of_reach(context, v); });
+                } else if (expr->op == ExprOp::Extend) {
+                    return out_of_reach(context, reinterpret_cast<VarExtend*>(expr)->parent_var());
+                } else if (expr->op == ExprOp::Conditional &&
+                           out_of_reach(context,
+                                        reinterpret_cast<ConditionalExpr*>(expr)->condition)) {
+                    return true;
+                }
+                return out_of_reach(context, expr->left) || out_of_reach(context, expr->right);
+            }
+            default: {
+                auto* gen = var->generator();
+                return gen != context &&
+                       (var->type() != VarType::PortIO || gen->parent() != context);
+            }
         }
     }
 
     static void check_var_parent(Generator* generator, Var* dst_var, Var* var, Stmt* stmt) {
         auto* gen = var->generator();
-        if (gen == Const::const_gen()) return;
-        if (var->type() == VarType::ConstValue && var->generator() != generator) {
-            var->set_generator(gen);
-            return;
-        }
-        if (generator != gen) {
-            // if it's an input port, the parent context is different
-            if (dst_var->type() == VarType::Slice) {
-                auto* slice = dynamic_cast<VarSlice*>(dst_var);
-                dst_var = const_cast<Var*>(slice->get_var_root_parent());
-            }
-            if (dst_var->type() == VarType::PortIO) {
-                auto* port = dynamic_cast<Port*>(dst_var);
-                if (port->port_direction() == PortDirection::In) {
-                    auto* context_g = dst_var->generator()->parent();
-                    if (gen != context_g && gen->parent() != context_g &&
-                        gen->parent() != context_g) {
-                        throw VarException(
-                            ::format("{0}.{1} cannot be wired to {2}.{3} because {0} is "
-                                     "not a child generator of {2}",
-                                     generator->instance_name, dst_var->to_string(),
-                                     gen->instance_name, var->to_string()),
-                            {generator, gen, dst_var, var});
-                    }
-                    return;
-                }
-            }
-            if ((gen->parent() != generator && gen->parent() != generator->parent()) ||
-                has_non_port(generator, var)) {
-                throw VarException(::format("{0}.{1} cannot be wired to {2}.{3} because {2} is "
-                                            "not a child generator of {0}",
-                                            generator->instance_name, dst_var->to_string(),
-                                            gen->instance_name, var->to_string()),
-                                   {generator, gen, dst_var, var, stmt});
+        auto* context = stmt->generator_parent();
+        // input ports are driven from outside, anything else from inside
+        bool wrong_context = context != generator;
+        auto* root = const_cast<Var*>(dst_var->get_var_root_parent());
+        if (root->type() == VarType::PortIO) {
+            auto* port = reinterpret_cast<Port*>(root);
+            if (port->is_interface()) return;
+            if (port->port_direction() == PortDirection::In) {
+                wrong_context = context != generator->parent();
+            } else if (port->port_direction() == PortDirection::InOut) {
+                wrong_context = context != generator && context != generator->parent();
             }
         }
+        if (wrong_context) {
+            throw VarException(::format("{0}.{1} cannot be driven by an assignment in {2}",
+                                        generator->instance_name, dst_var->to_string(),
+                                        context->instance_name),
+                               {generator, dst_var, stmt});
+        }
+        if (out_of_reach(context, var)) {
+            throw VarException(::format("{0}.{1} cannot be wired to {2}.{3} because it is out of "
+                                        "reach in {4}",
+                                        generator->instance_name, dst_var->to_string(),
+                                        gen->instance_name, var->to_string(),
+                                        context->instance_name),
+                               {generator, gen, dst_var, var, stmt});
+        }
     }
 };
 
@@ -712,73 +769,54 @@ private:
     }
 
     static void check_var(Var* var) {
-        std::unordered_map<uint32_t, std::pair<IRNode*, Stmt*>> parents;
+        struct Driver {
+            Stmt* stmt;
+            Stmt* root;
+            bool exact;
+        };
+        std::unordered_map<uint32_t, std::vector<Driver>> drivers;
         for (auto const& stmt : var->sources()) {
-            // TODO: FIX THIS
-            //  This is a hack to bypass the check if there is a for loop
-            if (has_for_loop(stmt.get())) continue;
-            auto* v = stmt->left();
-            if (v->get_var_root_parent() != var) continue;
-            if (v->type() == VarType::Slice) {
-                auto slice = v->as<VarSlice>();
-                if (slice->sliced_by_var()) continue;
-            }
-            uint32_t var_low = v->var_low();
-            uint32_t var_high = v->var_high();
-            for (uint32_t i = var_low; i <= var_high; i++) {
-                if (parents.find(i) != parents.end()) {
-                    auto* parent = stmt->parent();
-                    auto* stmt_parent = non_gen_root_parent(stmt.get());
-                    auto const& [ref_parent, ref_stmt_parent] = parents.at(i);
-                    // the purpose of the following statement is to make sure that there is no
-                    // other assignment that's assigning the same var slice in the same scope
-                    // it cannot be driven through different blocks, either.
-                    // notice that there is a caveat. in combinational block, as long as the
-                    // they are in the same stmt parent, they can have different scope, since
-                    // having different scope implies priority. as a result, we need to filter
-                    // this case out
-                    bool has_multiple_driver = stmt_parent != ref_stmt_parent;
-                    if (!has_multiple_driver) {
-                        // skip the special case
-                        if (parent == ref_parent) {
-                            has_multiple_driver = true;
-                            if (stmt_parent->ir_node_kind() == IRNodeKind::StmtKind) {
-                                auto* st = dynamic_cast<Stmt*>(stmt_parent);
-                                if (st && st->type() == StatementType::Block) {
-                                    auto* block = dynamic_cast<StmtBlock*>(st);
-                                    if (block->block_type() == StatementBlockType::Combinational ||
-                                        block->block_type() == StatementBlockType::Latch) {
-                                        has_multiple_driver = false;
-                                    }
-                                }
-                            }
-                        } else {
-                            if (stmt_parent->ir_node_kind() == IRNodeKind::StmtKind) {
-                                auto* st = dynamic_cast<Stmt*>(stmt_parent);
-                                if (st && st->type() == StatementType::Block) {
-                                    auto* block = dynamic_cast<StmtBlock*>(st);
-                                    if (block->block_type() == StatementBlockType::Sequential) {
-                                        // TODO: this algorithm is not perfect as it only
-                                        //  accounts for standalone assignments
-                                        has_multiple_driver = !share_root(parent, ref_parent);
-                                    }
-                                }
-                            }
+            // assignments in a loop, or with an index that's not known, can only be in conflict
+            // with the ones outside its own block
+            auto* root = non_gen_root_parent(stmt.get());
+            auto const loop = has_for_loop(stmt.get());
+            for (auto* v : assigned_parts(stmt->left(), var)) {
+                auto const exact = !loop && !index_unknown(v);
+                auto const [var_low, var_high] = assigned_range(v);
+                for (uint32_t i = var_low; i <= var_high; i++) {
+                    auto& bit_drivers = drivers[i];
+                    for (auto const& ref : bit_drivers) {
+                        bool const has_multiple_driver =
+                            ref.root != root ||
+                            (exact && ref.exact && same_scope(stmt.get(), ref.stmt, root));
+                        if (has_multiple_driver) {
+                            throw StmtException(::format("{0} has multiple driver in the same scope",
+                                                         var->handle_name()),
+                                                {var, stmt->parent(), ref.stmt, stmt.get()});
                         }
                     }
-                    if (has_multiple_driver) {
-                        throw StmtException(::format("{0} has multiple driver in the same scope",
-                                                     var->handle_name()),
-                                            {var, parent, stmt.get()});
-                    }
-                } else {
-                    parents.emplace(
-                        i, std::make_pair(stmt->parent(), non_gen_root_parent(stmt.get())));
+                    bit_drivers.emplace_back(Driver{stmt.get(), root, exact});
                 }
             }
         }
     }
 
+    // make sure that there is no other assignment that's assigning the same bit in the same scope.
+    // notice that there is a caveat. in combinational block they can be in the same scope or in
+    // a different one, since that implies priority
+    static bool same_scope(Stmt* stmt1, Stmt* stmt2, Stmt* root) {
+        StatementBlockType type = StatementBlockType::Scope;
+        if (root->type() == StatementType::Block) {
+            type = reinterpret_cast<StmtBlock*>(root)->block_type();
+        }
+        if (stmt1->parent() == stmt2->parent()) {
+            return type != StatementBlockType::Combinational && type != StatementBlockType::Latch;
+        }
+        // TODO: this algorithm is not perfect as it only accounts for standalone assignments
+        return type == StatementBlockType::Sequential &&
+               !share_root(stmt1->parent(), stmt2->parent());
+    }
+
     static Stmt* non_gen_root_parent(Stmt* stmt) {
         // this is just to get the root stmt parent that's holding given stmt
         IRNode* parent = stmt;
@@ -1510,7 +1548,13 @@ bool connected(const std::shared_ptr<Port>& port, std::unordered_set<uint32_t>&
         auto sources = port->sources();
         for (const auto& stmt : sources) {
             auto* src = stmt->left();
-            if (src->type() == VarType::Slice) {
+            if (src->type() == VarType::Expression) {
+                // part of a concatenation
+                for (auto* part : assigned_parts(src, port.get())) {
+                    auto const [low, high] = assigned_range(part);
+                    for (uint32_t i = low; i <= high; i++) bits.emplace(i);
+                }
+            } else if (src->type() == VarType::Slice) {
                 auto ptr = src->as<VarSlice>();
                 auto* ptr_parent = ptr->get_var_root_parent();
                 uint32_t high, low;
-- 
2.43.0


From f3b8380ee1f399c94e22df3c4a5a0fb850e69a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:59 +0000
Subject: [PATCH 41/55] fix: latch and return checks look at bits and at every
 branch

---
 src/analysis.cc | 155 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 112 insertions(+), 43 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 91e5ef1..5f36fe8 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -449,6 +449,20 @@ void check_active_high(Generator* top) {
     visitor.visit_root_s(top);
 }
 
+static bool covers_all_cases(SwitchStmt* stmt) {
+    auto const& cases = stmt->body();
+    if (cases.find(nullptr) != cases.end()) return true;
+    // if there is no default case, all the cases have to be covered
+    // the only exception is that if the target is an enum and we've covered all it's enum case
+    auto const target = stmt->target();
+    if (target->is_enum()) {
+        auto* enum_var = dynamic_cast<EnumType*>(target.get());
+        if (!enum_var) throw InternalException("Unable to resolve enum type");
+        return cases.size() == enum_var->enum_type()->values.size();
+    }
+    return target->width() < 64 && cases.size() == (1ull << target->width());
+}
+
 bool check_stmt_condition(Stmt* stmt, const std::function<bool(Stmt*)>& cond,
                           bool check_unreachable = false, bool full_branch = true) {
     if (cond(stmt)) {
@@ -485,28 +499,15 @@ bool check_stmt_condition(Stmt* stmt, const std::function<bool(Stmt*)>& cond,
                 "Statement is not switch but is marked as StatementType::Switch");
         auto cases = stmt_->body();
         if (cases.empty()) return false;
-        uint32_t found_case = 0;
+        uint64_t found_case = 0;
         for (auto const& iter : cases) {
             auto* scope_stmt = iter.second.get();
             if (check_stmt_condition(scope_stmt, cond, check_unreachable, full_branch))
                 found_case++;
-            else if (full_branch)
-                return false;
         }
         // make sure default case is covered
-        // if there is no default case, all the cases have to be covered
-        // the only exception is that if the target is an enum and we've covered all it's enum case
-        uint32_t targeted_cases;
-        if (stmt_->target()->is_enum()) {
-            auto* enum_var = dynamic_cast<EnumType*>(stmt_->target().get());
-            if (!enum_var) throw InternalException("Unable to resolve enum type");
-            auto const* enum_def = enum_var->enum_type();
-            targeted_cases = enum_def->values.size();
-        } else {
-            targeted_cases = 1u << stmt_->target()->width();
-        }
         if (full_branch) {
-            return cases.find(nullptr) != cases.end() || found_case == targeted_cases;
+            return found_case == cases.size() && covers_all_cases(stmt_);
         } else {
             return found_case > 0;
         }
@@ -516,13 +517,12 @@ bool check_stmt_condition(Stmt* stmt, const std::function<bool(Stmt*)>& cond,
             throw InternalException("Statement is not if but is marked as StatementType::If");
         auto const& then = stmt_->then_body();
         auto const& else_ = stmt_->else_body();
-        if (full_branch) {
-            return check_stmt_condition(then.get(), cond, check_unreachable, full_branch) &&
-                   check_stmt_condition(else_.get(), cond, check_unreachable, full_branch);
-        } else {
-            return check_stmt_condition(then.get(), cond, check_unreachable, full_branch) ||
-                   check_stmt_condition(else_.get(), cond, check_unreachable, full_branch);
-        }
+        // always look at both since there can be unreachable code in either of them
+        auto const found_then =
+            check_stmt_condition(then.get(), cond, check_unreachable, full_branch);
+        auto const found_else =
+            check_stmt_condition(else_.get(), cond, check_unreachable, full_branch);
+        return full_branch ? (found_then && found_else) : (found_then || found_else);
     } else if (stmt->type() == StatementType::For) {
         auto* stmt_ = dynamic_cast<ForStmt*>(stmt);
         if (!stmt_)
@@ -594,7 +594,7 @@ private:
             [=](Stmt* s) -> bool {
                 if (s->type() == StatementType::Assign) {
                     auto assign = s->as<AssignStmt>();
-                    return assign->left() == var;
+                    return !assigned_parts(assign->left(), var).empty();
                 }
                 return false;
             },
@@ -606,12 +606,7 @@ private:
         auto check = [=](Stmt* s) -> bool {
             if (s->type() == StatementType::Assign) {
                 auto* assign = reinterpret_cast<AssignStmt*>(s);
-                auto* left = assign->left();
-                if (left->type() == VarType::Slice) {
-                    auto* slice = reinterpret_cast<VarSlice*>(left);
-                    left = const_cast<Var*>(slice->get_var_root_parent());
-                }
-                return left == var;
+                return !assigned_parts(assign->left(), var).empty();
             } else if (s->type() == StatementType::Block) {
                 auto* block = reinterpret_cast<StmtBlock*>(s);
                 if (block->block_type() == StatementBlockType::Function) {
@@ -629,12 +624,83 @@ private:
         }
     }
 
+    using Bits = std::set<uint32_t>;
+
+    // bits that are assigned no matter which branches are taken
+    static Bits always_assigned(Stmt* stmt, const Var* var) {
+        Bits result;
+        switch (stmt->type()) {
+            case StatementType::Assign: {
+                for (auto* v : assigned_parts(reinterpret_cast<AssignStmt*>(stmt)->left(), var)) {
+                    // if the index is not known we assume everything gets assigned
+                    auto const [low, high] = assigned_range(v);
+                    for (auto i = low; i <= high; i++) result.emplace(i);
+                }
+                break;
+            }
+            case StatementType::If: {
+                auto* if_ = reinterpret_cast<IfStmt*>(stmt);
+                auto const then = always_assigned(if_->then_body().get(), var);
+                auto const else_ = always_assigned(if_->else_body().get(), var);
+                std::set_intersection(then.begin(), then.end(), else_.begin(), else_.end(),
+                                      std::inserter(result, result.begin()));
+                break;
+            }
+            case StatementType::Switch: {
+                auto* switch_ = reinterpret_cast<SwitchStmt*>(stmt);
+                if (!covers_all_cases(switch_)) break;
+                bool first = true;
+                for (auto const& [label, body] : switch_->body()) {
+                    auto const bits = always_assigned(body.get(), var);
+                    if (first) {
+                        result = bits;
+                        first = false;
+                        continue;
+                    }
+                    Bits common;
+                    std::set_intersection(result.begin(), result.end(), bits.begin(), bits.end(),
+                                          std::inserter(common, common.begin()));
+                    result = common;
+                }
+                break;
+            }
+            case StatementType::For: {
+                auto* for_ = reinterpret_cast<ForStmt*>(stmt);
+                return always_assigned(for_->get_loop_body().get(), var);
+            }
+            case StatementType::Block: {
+                auto* block = reinterpret_cast<StmtBlock*>(stmt);
+                for (uint64_t i = 0; i < block->size(); i++) {
+                    auto const bits = always_assigned(block->get_stmt(i).get(), var);
+                    result.insert(bits.begin(), bits.end());
+                }
+                break;
+            }
+            default:
+                break;
+        }
+        return result;
+    }
+
     void static check_combinational(CombinationalStmtBlock* stmt) {
         AssignedVarVisitor visitor;
         visitor.visit_root(stmt);
         const auto& vars = visitor.assigned_vars();
-        for (auto const& iter : vars) {
-            check_stmt_block(stmt, iter.first, iter.second, true);
+        for (auto const& [var, stmts] : vars) {
+            auto const bits = always_assigned(stmt, var);
+            for (auto* s : stmts) {
+                for (auto* v : assigned_parts(reinterpret_cast<AssignStmt*>(s)->left(), var)) {
+                    if (index_unknown(v)) continue;
+                    auto const [low, high] = assigned_range(v);
+                    for (auto i = low; i <= high; i++) {
+                        if (bits.find(i) == bits.end()) {
+                            throw StmtException(
+                                ::format("{0} will be inferred as latch", var->to_string()),
+                                stmts.begin(), stmts.end());
+                        }
+                    }
+                }
+            }
         }
     }
 
@@ -693,25 +759,28 @@ private:
 
     class AssignedVarVisitor : public IRVisitor {
     public:
-        void visit(AssignStmt* stmt) override {
-            auto* left = stmt->left();
-            if (left->type() == VarType::Slice) {
-                auto* slice = reinterpret_cast<VarSlice*>(left);
-                if (slice->sliced_by_var()) {
-                    return;
+        void visit(AssignStmt* stmt) override { add(stmt, stmt->left()); }
+        // in the order of the first assignment
+        const std::vector<std::pair<Var*, std::vector<Stmt*>>>& assigned_vars() const {
+            return assigned_vars_;
+        }
+
+    private:
+        void add(Stmt* stmt, Var* left) {
+            if (left->type() == VarType::Expression) {
+                auto* expr = reinterpret_cast<Expr*>(left);
+                if (expr->op == ExprOp::Concat) {
+                    for (auto* v : reinterpret_cast<VarConcat*>(expr)->vars()) add(stmt, v);
                 }
-                left = const_cast<Var*>(slice->get_var_root_parent());
+                return;
             }
+            if (index_unknown(left)) return;
+            left = const_cast<Var*>(left->get_var_root_parent());
             auto [it, is_new] = index_.try_emplace(left, assigned_vars_.size());
             if (is_new) assigned_vars_.emplace_back(left, std::vector<Stmt*>{});
             assigned_vars_[it->second].second.emplace_back(stmt);
         }
-        // in the order of the first assignment
-        const std::vector<std::pair<Var*, std::vector<Stmt*>>>& assigned_vars() const {
-            return assigned_vars_;
-        }
 
-    private:
         std::unordered_map<Var*, uint64_t> index_;
         std::vector<std::pair<Var*, std::vector<Stmt*>>> assigned_vars_;
     };
-- 
2.43.0


From 91c781e757d8169bc0df9ac6c117176c73e2c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:28 +0000
Subject: [PATCH 42/55] fix: combinational loops are found through processes
 and instances

---
 src/analysis.cc | 377 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 355 insertions(+), 22 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index 5f36fe8..fe0018a 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -906,50 +906,383 @@ void check_multiple_driver(Generator* top) {
     visitor.visit_generator_root_tp(top);
 }
 
+// which bits are computed from which other ones without any delay
 class CombinationalLoopVisitor : public IRVisitor {
 public:
     void visit(Generator* gen) override {
-        auto var_names = gen->get_vars();
-        for (auto const& name : var_names) {
+        auto const names = gen->get_all_var_names();
+        for (auto const& name : names) {
             auto const& var = gen->get_var(name);
-            check_var(var.get());
+            for (auto const& stmt : var->sources()) {
+                if (stmt->parent()->ir_node_kind() == IRNodeKind::GeneratorKind &&
+                    stmt->assign_type() == AssignmentType::Blocking && stmts_.emplace(stmt).second)
+                    add_assign(stmt.get());
+            }
+        }
+        uint64_t const stmt_count = gen->stmts_count();
+        for (uint64_t i = 0; i < stmt_count; i++) {
+            auto stmt = gen->get_stmt(i);
+            if (stmt->type() != StatementType::Block) continue;
+            auto* block = reinterpret_cast<StmtBlock*>(stmt.get());
+            if (block->block_type() != StatementBlockType::Combinational ||
+                block->as<CombinationalStmtBlock>()->is_general_purpose())
+                continue;
+            add_block(block);
         }
+    }
 
-        auto port_names = gen->get_port_names();
-        for (auto const& name : port_names) {
-            auto const& port = gen->get_port(name);
-            check_var(port.get());
+    void check() const {
+        // depth first search without recursion
+        enum class State : uint8_t { New, Open, Done };
+        std::vector<State> state(deps_.size(), State::New);
+        for (uint64_t root = 0; root < deps_.size(); root++) {
+            if (state[root] != State::New) continue;
+            std::vector<std::pair<uint64_t, uint64_t>> stack = {{root, 0}};
+            state[root] = State::Open;
+            while (!stack.empty()) {
+                auto& [node, next] = stack.back();
+                if (next == deps_[node].size()) {
+                    state[node] = State::Done;
+                    stack.pop_back();
+                    continue;
+                }
+                auto const child = deps_[node][next++];
+                if (state[child] == State::Open) report(child, stack);
+                if (state[child] == State::New) {
+                    state[child] = State::Open;
+                    stack.emplace_back(child, 0);
+                }
+            }
         }
     }
 
 private:
-    static void check_var(Var* var) {
-        // get all the sources
-        auto const& sources = var->sources();
-        for (auto const& stmt : sources) {
-            if (stmt->assign_type() == AssignmentType::Blocking && has_var(stmt->right(), var) &&
-                stmt->parent()->ir_node_kind() == IRNodeKind::GeneratorKind) {
-                throw StmtException(::format("Combinational loop detected at {0} <- {1}",
-                                             stmt->left()->to_string(), stmt->right()->to_string()),
-                                    {stmt.get(), var});
+    using Node = uint64_t;
+    using Values = std::vector<std::vector<Node>>;
+    // what has been assigned to in a block
+    using Env = std::map<std::pair<const Var*, uint32_t>, std::vector<Node>>;
+
+    std::map<std::pair<const Var*, uint32_t>, Node> nodes_;
+    std::unordered_set<Node> bits_;
+    std::vector<std::vector<Node>> deps_;
+    // the assignment that defines the value
+    std::vector<Stmt*> definition_;
+    std::set<std::shared_ptr<AssignStmt>> stmts_;
+
+    Node new_node() {
+        deps_.emplace_back();
+        definition_.emplace_back(nullptr);
+        return deps_.size() - 1;
+    }
+
+    Node get_node(const Var* var, uint32_t bit) {
+        auto const key = std::make_pair(var, bit);
+        auto it = nodes_.find(key);
+        if (it == nodes_.end()) {
+            it = nodes_.emplace(key, new_node()).first;
+            bits_.emplace(it->second);
+        }
+        return it->second;
+    }
+
+    // every bit is computed from all the values
+    Values mix(const std::vector<Values>& values, uint32_t width) {
+        auto node = new_node();
+        for (auto const& v : values)
+            for (auto const& bit : v)
+                deps_[node].insert(deps_[node].end(), bit.begin(), bit.end());
+        return Values(width, {node});
+    }
+
+    static void merge(Values& result, const Values& value) {
+        for (uint64_t i = 0; i < result.size() && i < value.size(); i++)
+            result[i].insert(result[i].end(), value[i].begin(), value[i].end());
+    }
+
+    Values read(Var* var, const Env* env) {
+        auto const width = var->width();
+        if (var->is_function()) {
+            std::vector<Values> values;
+            for (auto const& [name, arg] : reinterpret_cast<FunctionCallVar*>(var)->args())
+                values.emplace_back(read(arg.get(), env));
+            return mix(values, width);
+        }
+        switch (var->type()) {
+            case VarType::ConstValue:
+            case VarType::Parameter:
+            case VarType::Iter:
+                return Values(width);
+            case VarType::BaseCasted: {
+                auto result = read(reinterpret_cast<VarCasted*>(var)->parent_var(), env);
+                result.resize(width);
+                return result;
+            }
+            case VarType::Expression:
+                return read_expr(reinterpret_cast<Expr*>(var), env);
+            default:
+                break;
+        }
+        auto const* root = var->get_var_root_parent();
+        std::vector<Values> index;
+        for (auto* node = var; node->type() == VarType::Slice;) {
+            auto* slice = reinterpret_cast<VarSlice*>(node);
+            if (slice->sliced_by_var())
+                index.emplace_back(read(reinterpret_cast<VarVarSlice*>(slice)->sliced_var(), env));
+            node = slice->parent_var;
+        }
+        auto const [low, high] = assigned_range(var);
+        Values bits;
+        for (auto i = low; i <= high; i++) {
+            if (env) {
+                auto it = env->find({root, i});
+                if (it != env->end()) {
+                    bits.emplace_back(it->second);
+                    continue;
+                }
             }
+            bits.emplace_back(std::vector<Node>{get_node(root, i)});
         }
+        if (!index.empty()) {
+            index.emplace_back(bits);
+            return mix(index, width);
+        }
+        bits.resize(width);
+        return bits;
     }
 
-    static bool has_var(Var* var, Var* target) {
-        if (!var) return false;
-        if (var == target) return true;
+    Values read_expr(Expr* expr, const Env* env) {
+        auto const width = expr->width();
+        switch (expr->op) {
+            case ExprOp::Concat: {
+                // the first one holds the most significant bits
+                auto const& vars = reinterpret_cast<VarConcat*>(expr)->vars();
+                Values result;
+                for (auto it = vars.rbegin(); it != vars.rend(); it++) {
+                    auto const bits = read(*it, env);
+                    result.insert(result.end(), bits.begin(), bits.end());
+                }
+                result.resize(width);
+                return result;
+            }
+            case ExprOp::Extend: {
+                auto* parent = reinterpret_cast<VarExtend*>(expr)->parent_var();
+                auto result = read(parent, env);
+                auto const sign =
+                    parent->is_signed() && !result.empty() ? result.back() : std::vector<Node>{};
+                result.resize(width, sign);
+                return result;
+            }
+            case ExprOp::Conditional: {
+                auto result = mix({read(reinterpret_cast<ConditionalExpr*>(expr)->condition, env)},
+                                  width);
+                merge(result, read(expr->left, env));
+                merge(result, read(expr->right, env));
+                return result;
+            }
+            case ExprOp::And:
+            case ExprOp::Or:
+            case ExprOp::Xor:
+                if (expr->left->width() == width && expr->right->width() == width) {
+                    auto result = read(expr->left, env);
+                    merge(result, read(expr->right, env));
+                    return result;
+                }
+                break;
+            case ExprOp::UInvert:
+                return read(expr->left, env);
+            default:
+                break;
+        }
+        std::vector<Values> values;
+        if (expr->left) values.emplace_back(read(expr->left, env));
+        if (expr->right) values.emplace_back(read(expr->right, env));
+        return mix(values, width);
+    }
+
+    // calls back with every bit that's assigned to and what the bit is computed from
+    template <typename F>
+    void assign(AssignStmt* stmt, const Env* env, const F& fn) {
+        auto values = read(stmt->right(), env);
+        uint64_t offset = 0;
+        std::vector<Var*> parts = {stmt->left()};
+        if (stmt->left()->type() == VarType::Expression) {
+            auto const* root = reinterpret_cast<Expr*>(stmt->left());
+            parts.clear();
+            if (root->op == ExprOp::Concat) flatten(stmt->left(), parts);
+        }
+        for (auto it = parts.rbegin(); it != parts.rend(); it++) {
+            auto* part = *it;
+            auto const* var = part->get_var_root_parent();
+            auto const exact = !index_unknown(part);
+            auto const [low, high] = assigned_range(part);
+            if (exact) {
+                for (auto i = low; i <= high; i++) {
+                    auto const index = offset + i - low;
+                    fn(var, i, index < values.size() ? values[index] : std::vector<Node>{}, true);
+                }
+            } else {
+                auto const all = mix({values}, 1);
+                for (auto i = low; i <= high; i++) fn(var, i, all[0], false);
+            }
+            offset += part->width();
+        }
+    }
+
+    static void flatten(Var* var, std::vector<Var*>& parts) {
         if (var->type() == VarType::Expression) {
             auto* expr = reinterpret_cast<Expr*>(var);
-            return has_var(expr->left, target) || has_var(expr->right, target);
+            if (expr->op == ExprOp::Concat) {
+                for (auto* v : reinterpret_cast<VarConcat*>(expr)->vars()) flatten(v, parts);
+            }
+        } else {
+            parts.emplace_back(var);
+        }
+    }
+
+    void add_assign(AssignStmt* stmt) {
+        assign(stmt, nullptr,
+               [&](const Var* var, uint32_t bit, const std::vector<Node>& values, bool) {
+                   auto node = get_node(var, bit);
+                   deps_[node].insert(deps_[node].end(), values.begin(), values.end());
+                   definition_[node] = stmt;
+               });
+    }
+
+    static void merge_env(Env& env, const Env& base, const std::vector<Env>& branches,
+                          const std::vector<Node>& condition) {
+        for (auto const& branch : branches) {
+            for (auto const& [bit, values] : branch) {
+                auto it = base.find(bit);
+                if (it != base.end() && it->second == values) continue;
+                auto& result = env[bit];
+                result.insert(result.end(), values.begin(), values.end());
+                result.insert(result.end(), condition.begin(), condition.end());
+            }
         }
-        return false;
+    }
+
+    void run(Stmt* stmt, Env& env) {
+        switch (stmt->type()) {
+            case StatementType::Assign: {
+                // the right hand side is read before anything is assigned
+                assign(reinterpret_cast<AssignStmt*>(stmt), &env,
+                       [&](const Var* var, uint32_t bit, const std::vector<Node>& values,
+                           bool exact) {
+                           auto const node = new_node();
+                           deps_[node] = values;
+                           auto& result = env[{var, bit}];
+                           if (exact) result.clear();
+                           result.emplace_back(node);
+                       });
+                break;
+            }
+            case StatementType::If: {
+                auto* if_ = reinterpret_cast<IfStmt*>(stmt);
+                auto const base = env;
+                auto const condition = mix({read(if_->predicate().get(), &base)}, 1);
+                std::vector<Env> branches(2, base);
+                run(if_->then_body().get(), branches[0]);
+                run(if_->else_body().get(), branches[1]);
+                // if every branch assigns to it the previous value is gone
+                forget(env, base, branches);
+                merge_env(env, base, branches, condition[0]);
+                break;
+            }
+            case StatementType::Switch: {
+                auto* switch_ = reinterpret_cast<SwitchStmt*>(stmt);
+                auto const base = env;
+                auto const condition = mix({read(switch_->target().get(), &base)}, 1);
+                std::vector<Env> branches;
+                for (auto const& [label, body] : switch_->body()) {
+                    branches.emplace_back(base);
+                    run(body.get(), branches.back());
+                }
+                if (covers_all_cases(switch_)) forget(env, base, branches);
+                merge_env(env, base, branches, condition[0]);
+                break;
+            }
+            case StatementType::For: {
+                // values can be carried over from one iteration to the next
+                auto* for_ = reinterpret_cast<ForStmt*>(stmt);
+                for (int i = 0; i < 2; i++) run(for_->get_loop_body().get(), env);
+                break;
+            }
+            case StatementType::Block: {
+                auto* block = reinterpret_cast<StmtBlock*>(stmt);
+                for (uint64_t i = 0; i < block->size(); i++) run(block->get_stmt(i).get(), env);
+                break;
+            }
+            default:
+                break;
+        }
+    }
+
+    static void forget(Env& env, const Env& base, const std::vector<Env>& branches) {
+        for (auto const& [bit, values] : base) {
+            if (!branches.empty() &&
+                std::all_of(branches.begin(), branches.end(), [&, &b = bit, &v = values](
+                                                                  auto const& branch) {
+                    return branch.at(b) != v;
+                }))
+                env.erase(bit);
+        }
+    }
+
+    void add_block(StmtBlock* block) {
+        Env env;
+        run(block, env);
+        // the block doesn't react to the variables that are assigned by itself
+        std::set<Node> own;
+        for (auto const& [bit, values] : env) own.emplace(get_node(bit.first, bit.second));
+        std::unordered_map<Node, Node> copies;
+        for (auto const& [bit, values] : env) {
+            auto node = get_node(bit.first, bit.second);
+            definition_[node] = block;
+            for (auto value : values) {
+                if (own.find(value) != own.end()) continue;
+                auto const result = copy(value, own, copies);
+                deps_[node].emplace_back(result);
+            }
+        }
+    }
+
+    // values that are computed in the block, without the block's own variables
+    Node copy(Node node, const std::set<Node>& own, std::unordered_map<Node, Node>& copies) {
+        if (bits_.find(node) != bits_.end()) return node;
+        auto it = copies.find(node);
+        if (it != copies.end()) return it->second;
+        auto result = new_node();
+        copies.emplace(node, result);
+        auto const deps = deps_[node];
+        for (auto dep : deps) {
+            if (own.find(dep) != own.end()) continue;
+            auto const value = copy(dep, own, copies);
+            deps_[result].emplace_back(value);
+        }
+        return result;
+    }
+
+    void report(Node start, const std::vector<std::pair<uint64_t, uint64_t>>& stack) const {
+        std::vector<Stmt*> stmts;
+        std::string names;
+        bool found = false;
+        for (auto const& [node, next] : stack) {
+            if (node == start) found = true;
+            if (!found || !definition_[node]) continue;
+            stmts.emplace_back(definition_[node]);
+            for (auto const& [bit, n] : nodes_) {
+                if (n == node) names.append(::format(" <- {0}[{1}]", bit.first->handle_name(), bit.second));
+            }
+        }
+        throw StmtException(::format("Combinational loop detected at{0}", names), stmts.begin(),
+                            stmts.end());
     }
 };
 
 void check_combinational_loop(Generator* top) {
     CombinationalLoopVisitor visitor;
-    visitor.visit_generator_root_tp(top);
+    visitor.visit_generator_root(top);
+    visitor.check();
 }
 
 class CheckFlipFlopAlwaysFFVisitor : public IRVisitor {
-- 
2.43.0


From 23021d0fdeb0065a7bddf54f554ed39d5b7fc8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:02 +0000
Subject: [PATCH 43/55] fix: non-synthesizable content and reset polarity are
 found everywhere

---
 src/analysis.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/analysis.cc b/src/analysis.cc
index fe0018a..656bbf2 100644
--- a/src/analysis.cc
+++ b/src/analysis.cc
@@ -287,9 +287,17 @@ public:
 
     void visit(FunctionCallVar* var) override {
         auto* const def = var->func();
-        if (def->is_dpi() || def->is_task()) {
+        if (def->is_builtin()) {
+            auto info = get_builtin_function_info(def->function_name());
+            if (info && !info->synthesizable) nodes_.emplace_back(var);
+        } else if (def->is_dpi() || def->is_task()) {
             nodes_.emplace_back(var);
         }
+        for (auto const& [name, arg] : var->args()) visit_root(arg.get());
+    }
+
+    void visit(ReturnStmt* stmt) override {
+        if (stmt->value()) visit_root(stmt->value().get());
     }
 
     void visit(FunctionCallStmt* stmt) override {
@@ -302,12 +310,15 @@ public:
                 nodes_.emplace_back(stmt);
             }
         }
+        for (auto const& [name, arg] : stmt->var()->args()) visit_root(arg.get());
     }
 
     void visit(AuxiliaryStmt* stmt) override { nodes_.emplace_back(stmt); }
 
     void visit(InitialStmtBlock* stmt) override { nodes_.emplace_back(stmt); }
 
+    void visit(FinalStmtBlock* stmt) override { nodes_.emplace_back(stmt); }
+
     void visit(CombinationalStmtBlock* stmt) override {
         if (stmt->is_general_purpose()) nodes_.emplace_back(stmt);
     }
@@ -422,7 +433,7 @@ public:
                         }
                     } else {
                         reset_map_.emplace(std::make_pair(port, reset_high));
-                        reset_map_.emplace(std::make_pair(port, stmt));
+                        reset_stmt_.emplace(std::make_pair(port, stmt));
                     }
                 } else if (port->port_type() == PortType::Reset) {
                     throw VarException(
@@ -1923,7 +1934,7 @@ class SensitivityVisitor : public IRVisitor {
                 if (var_casted->cast_type() != VarCastType::Clock &&
                     var_casted->cast_type() != VarCastType::AsyncReset) {
                     throw StmtException(::format("Only Clock and AsyncReset allowed in "
-                                                 "sensitivity list. Please use cast() to cast {0}}",
+                                                 "sensitivity list. Please use cast() to cast {0}",
                                                  var->to_string()),
                                         {stmt, var});
                 }
-- 
2.43.0


From 60e96f58eb365694954e72a91da21844d663648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:55 +0000
Subject: [PATCH 44/55] fix: an output port read inside is not a fan-out-one
 wire

---
 src/optimize.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index a551fca..8725b3d 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -320,7 +320,10 @@ public:
     void static compute_assign_chain(
         const std::shared_ptr<Var>& var, const std::unordered_set<const Var*>& sensitive_vars,
         std::vector<std::pair<std::shared_ptr<Var>, std::shared_ptr<AssignStmt>>>& queue) {
-        if (var->sinks().size() == 1 && sensitive_vars.find(var.get()) == sensitive_vars.end()) {
+        // a port is visible outside so the chain stops there
+        auto const is_end = !queue.empty() && var->type() == VarType::PortIO;
+        if (!is_end && var->sinks().size() == 1 &&
+            sensitive_vars.find(var.get()) == sensitive_vars.end()) {
             auto const& stmt = *(var->sinks().begin());
             if (!stmt->parent()) return;
             if (stmt->parent()->ir_node_kind() == IRNodeKind::GeneratorKind) {
-- 
2.43.0


From e172910b5ea51652039728b38ca4e1f208fc5d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:26 +0000
Subject: [PATCH 45/55] fix: pipeline stages keep types, internal reads and
 instance connections

---
 src/expr.cc      |  6 +++++-
 src/generator.cc |  2 +-
 src/optimize.cc  | 41 ++++++++++++++++++++++++++++++++++++++---
 3 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index 81e4ac0..e1987ed 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -466,6 +466,8 @@ bool check_parent_param(const Param *param, const Generator *parent, bool check_
 Var &copy_var_const_parm(Var *var, Generator *parent, bool check_param) {
     if (var->is_param()) {
         auto param = var->as<Param>();
+        // copied inside the same generator
+        if (param->generator() == parent) return *param;
         const auto *param_parent = param->parent_param();
         bool correct = check_parent_param(param_parent, parent, check_param);
         if (correct) {
@@ -512,7 +514,9 @@ void Var::copy_meta_data(Var *new_var, bool check_param) const {
 
     // need to copy the raw_param as well
     if (raw_type_param_) {
-        const auto *parent_param = raw_type_param_->parent_param();
+        const auto *parent_param = raw_type_param_->generator() == new_var->generator()
+                                       ? raw_type_param_
+                                       : raw_type_param_->parent_param();
         if (!parent_param || parent_param->generator() != new_var->generator()) {
             throw UserException(::format(
                 ::format("Unable to copy var definition since the width parametrization is set to "
diff --git a/src/generator.cc b/src/generator.cc
index 601d70a..d281a60 100644
--- a/src/generator.cc
+++ b/src/generator.cc
@@ -108,7 +108,7 @@ Var &Generator::var(const Var &v, const std::string &var_name) {
     v_.set_explicit_array(v.explicit_array());
     v_.set_is_packed(v.is_packed());
     // need to copy other definition over
-    v_.copy_meta_data(&v_, true);
+    v.copy_meta_data(&v_, true);
     return v_;
 }
 
diff --git a/src/optimize.cc b/src/optimize.cc
index 8725b3d..f127082 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -689,14 +689,15 @@ public:
                 for (uint32_t i = 0; i < num_stages; i++) {
                     auto new_name =
                         generator->get_unique_variable_name(port_name, ::format("stage_{0}", i));
-                    auto& var = generator->var(new_name, port->var_width(), port->size(),
-                                               port->is_signed());
+                    auto& var = create_stage(generator, port.get(), new_name);
                     if (generator->debug)
                         var.fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
                     vars[i] = var.shared_from_this();
                 }
-                // move the source to the first stage
+                // move the source to the first stage. the logic inside the generator keeps reading
+                // the value before the pipeline
                 Var::move_src_to(port.get(), vars[0].get(), generator, false);
+                Var::move_sink_to(port.get(), vars[0].get(), generator, false);
                 // connect the stages together
                 for (uint32_t i = 0; i < num_stages - 1; i++) {
                     auto pre_stage = vars[i];
@@ -707,6 +708,40 @@ public:
                 blocks[num_stages - 1]->add_stmt(
                     port->assign(vars[num_stages - 1], AssignmentType::NonBlocking));
             }
+            update_instances(generator);
+        }
+    }
+
+private:
+    static Var& create_stage(Generator* generator, Port* port, const std::string& name) {
+        if (port->is_enum()) {
+            auto* enum_type = dynamic_cast<EnumType*>(port);
+            if (!enum_type) throw InternalException("Unable to resolve enum type");
+            auto* enum_def = const_cast<Enum*>(enum_type->enum_type());
+            return generator->enum_var(name, enum_def->shared_from_this());
+        } else if (port->is_struct()) {
+            return generator->var_packed(name, port->as<PortPackedStruct>()->packed_struct());
+        } else {
+            return generator->var(*port, name);
+        }
+    }
+
+    // the connections of the instances that have been created already
+    static void update_instances(Generator* generator) {
+        auto const stmts_count = generator->stmts_count();
+        for (uint64_t i = 0; i < stmts_count; i++) {
+            auto stmt = generator->get_stmt(i);
+            if (stmt->type() != StatementType::ModuleInstantiation) continue;
+            auto inst = stmt->as<ModuleInstantiationStmt>();
+            auto const mapping = inst->port_mapping();
+            for (auto const& [port, var] : mapping) {
+                auto const is_input = port->port_direction() == PortDirection::In;
+                auto const& links = is_input ? port->sources() : port->sinks();
+                for (auto const& link : links) {
+                    if (link->generator_parent() != generator) continue;
+                    inst->set_mapping(port, is_input ? link->right() : link->left());
+                }
+            }
         }
     }
 };
-- 
2.43.0


From d8cfcf8fa47f39046f8c5c840a20d4bd14aef978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:55 +0000
Subject: [PATCH 46/55] fix: inserted enables and sync resets respect what is
 there

---
 src/optimize.cc | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/optimize.cc b/src/optimize.cc
index f127082..ed85630 100644
--- a/src/optimize.cc
+++ b/src/optimize.cc
@@ -881,22 +881,26 @@ private:
     Generator* top_;
 
     bool has_clk_en_stmt(StmtBlock* block) const {
-        if (!block->empty()) {
-            auto stmt = block->get_stmt(0);
-            if (stmt->type() == StatementType::If) {
-                auto if_ = stmt->as<IfStmt>();
-                auto cond = if_->predicate();
-                if (cond->type() == VarType::PortIO) {
-                    auto p = cond->as<Port>();
-                    if (p->port_type() == PortType::ClockEnable) {
-                        return true;
-                    }
-                } else if (cond->type() == VarType::BaseCasted) {
-                    auto casted = cond->as<VarCasted>();
-                    return casted->cast_type() == VarCastType::ClockEnable;
-                } else if (cond->name == clk_en_name_) {
+        // every statement has to be enabled
+        return !block->empty() &&
+               std::all_of(block->begin(), block->end(),
+                           [this](auto const& stmt) { return is_clk_en_stmt(stmt.get()); });
+    }
+
+    bool is_clk_en_stmt(Stmt* stmt) const {
+        if (stmt->type() == StatementType::If) {
+            auto if_ = stmt->as<IfStmt>();
+            auto cond = if_->predicate();
+            if (cond->type() == VarType::PortIO) {
+                auto p = cond->as<Port>();
+                if (p->port_type() == PortType::ClockEnable) {
                     return true;
                 }
+            } else if (cond->type() == VarType::BaseCasted) {
+                auto casted = cond->as<VarCasted>();
+                return casted->cast_type() == VarCastType::ClockEnable;
+            } else if (cond->name == clk_en_name_) {
+                return true;
             }
         }
         return false;
@@ -984,9 +988,9 @@ public:
                 if (sources.size() > 1) continue;
                 if (sources.size() == 1) {
                     auto* right = (*sources.begin())->right();
-                    if (right->type() == VarType::ConstValue) {
-                        child_port->clear_sources(true);
-                    }
+                    // already connected
+                    if (right->type() != VarType::ConstValue) continue;
+                    child_port->clear_sources(true);
                 }
                 generator->wire(*child_port, *port);
             }
-- 
2.43.0


From 0113bc8ec7f8aced3994f30a30a4d461e45ac7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:29 +0000
Subject: [PATCH 47/55] fix: zeroes are assigned in the right module and for
 every type

---
 src/transform.cc | 117 +++++++++++++++++++----------------------------
 1 file changed, 46 insertions(+), 71 deletions(-)

diff --git a/src/transform.cc b/src/transform.cc
index 8c4bd60..2d97e95 100644
--- a/src/transform.cc
+++ b/src/transform.cc
@@ -75,13 +75,56 @@ void fix_assignment_type(Generator* top) {
     final_visitor.visit_root_s(top->ast_node());
 }
 
+// assigns zero to every bit of the variable that's not in the set. the variable starts from the low bit
+static void zero_out(Generator* generator, Var& var, const std::unordered_set<uint32_t>& bits,
+                     uint32_t low) {
+    auto is_driven = [&bits, low](uint32_t i) { return bits.find(low + i) != bits.end(); };
+    auto add_stmt = [generator](Var& target) {
+        std::shared_ptr<AssignStmt> stmt;
+        auto& zero = constant(0, target.width(), target.is_signed());
+        if (target.is_enum()) {
+            auto* enum_type = dynamic_cast<EnumType*>(&target);
+            if (!enum_type) throw InternalException("Unable to resolve enum type");
+            auto value = zero.cast(VarCastType::Enum)->as<VarCasted>();
+            value->set_enum_type(const_cast<Enum*>(enum_type->enum_type()));
+            stmt = target.assign(value);
+        } else {
+            stmt = target.assign(zero);
+        }
+        stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
+        generator->add_stmt(stmt);
+    };
+    uint32_t num_driven = 0;
+    for (uint32_t i = 0; i < var.width(); i++) num_driven += is_driven(i) ? 1 : 0;
+    if (num_driven == var.width()) return;
+    auto const is_array = var.size().size() > 1 || var.size().front() > 1 || var.explicit_array();
+    if (num_driven == 0 && (!is_array || var.is_packed())) {
+        add_stmt(var);
+    } else if (is_array) {
+        auto const num_elements = var.size().front();
+        auto const element_width = var.width() / num_elements;
+        for (uint32_t i = 0; i < num_elements; i++)
+            zero_out(generator, var[i], bits, low + i * element_width);
+    } else {
+        // bulk wiring for bits next to each other
+        for (uint32_t i = 0; i < var.width(); i++) {
+            if (is_driven(i)) continue;
+            auto high = i;
+            while (high + 1 < var.width() && !is_driven(high + 1)) high++;
+            add_stmt(var[{high, i}]);
+            i = high;
+        }
+    }
+}
+
 class StubGeneratorVisitor : public IRVisitor {
 public:
     void visit(Generator* generator) override {
         if (!generator->is_stub()) return;
         // to be a stub, there shouldn't be any extra variables
         if (generator->stmts_count() > 0) {
-            throw ::runtime_error(::format("{0} is marked as a stub but contains statements"));
+            throw ::runtime_error(::format("{0} is marked as a stub but contains statements",
+                                                generator->name));
         }
 
         // has to be the exact same number of ports and vars, otherwise it means there are
@@ -108,7 +151,7 @@ public:
                         fmt::format("{0}.{1} is driven by a net, but {0} is declared as a stub",
                                     generator->name, port_name),
                         {port.get(), generator});
-                generator->add_stmt(port->assign(constant(0, port->width())));
+                zero_out(generator, *port, {}, 0);
             }
         }
     }
@@ -148,75 +191,7 @@ public:
                     std::unordered_set<uint32_t> bits;
                     bool is_connected = connected(port, bits);
                     if (!is_connected) {
-                        // notice that we can two choices here:
-                        // bit wiring and bulk wiring
-                        // we will implement bulk wiring here since the merge wiring pass is not
-                        // complete at the time of implementation
-                        // compute the set difference
-                        std::vector<uint32_t> diff_bits;
-                        for (uint32_t i = 0; i < port->width(); i++) {
-                            if (bits.find(i) == bits.end()) {
-                                // no need to sort the bits since we're going in order
-                                // so it's already sorted.
-                                diff_bits.emplace_back(i);
-                            }
-                        }
-                        // we will connect the size 1 easily
-                        // however, if it's an array and sliced in a weird way, there is nothing
-                        // easy we can do. for now we will throw an exception
-                        // maximum the slices range
-                        uint32_t low = diff_bits[0];
-                        uint32_t high = low;
-                        uint32_t pre_high = high;
-
-                        // lambda functions to handle the situation
-                        std::function<void(uint32_t, uint32_t)> wire_zero = [=](uint32_t h,
-                                                                                uint32_t l) {
-                            uint32_t ll, hh;
-                            if (port->size().size() == 1 && port->size().front() == 1) {
-                                ll = l;
-                                hh = h;
-                            } else {
-                                if (l % port->var_width() || (h + 1) % port->var_width()) {
-                                    // can't handle it right now
-                                    auto stmts = std::vector<Stmt*>();
-                                    stmts.reserve(port->sources().size());
-                                    for (auto const& stmt : port->sources()) {
-                                        stmts.emplace_back(stmt.get());
-                                    }
-                                    throw StmtException(
-                                        "Cannot fix up unpacked array due to irregular slicing",
-                                        stmts.begin(), stmts.end());
-                                }
-                                // compute the low and high
-                                ll = l / port->var_width();
-                                hh = h / port->var_width();
-                            }
-                            std::shared_ptr<AssignStmt> stmt;
-                            // a special case is that the port is not connected at all!
-                            if (ll == 0 && hh == (port->width() - 1)) {
-                                stmt = port->assign(constant(0, port->width(), port->is_signed()));
-                            } else {
-                                auto& slice = port->operator[]({hh, ll});
-                                stmt = slice.assign(constant(0, slice.width(), slice.is_signed()));
-                            }
-                            stmt->fn_name_ln.emplace_back(std::make_pair(__FILE__, __LINE__));
-                            gen->add_stmt(stmt);
-                        };
-
-                        for (auto const bit : diff_bits) {
-                            high = bit;
-                            if (high - pre_high > 1) {
-                                // there is a gap
-                                wire_zero(pre_high, low);
-                                low = high;
-                                pre_high = low;
-                            } else {
-                                pre_high = high;
-                            }
-                        }
-                        // the last bit
-                        wire_zero(high, low);
+                        zero_out(generator, *port, bits, 0);
                     }
                 }
             }
-- 
2.43.0


From 0ea82646c9221369a2125e5aa2fa6da08cf3aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:43 +0000
Subject: [PATCH 48/55] fix: parameters keep their value, type and dependents
 when they change

---
 src/expr.cc | 108 +++++++++++++++++++++++++++++++++++++++-------------
 src/expr.hh |  19 ++++++++-
 2 files changed, 98 insertions(+), 29 deletions(-)

diff --git a/src/expr.cc b/src/expr.cc
index e1987ed..c18abc5 100644
--- a/src/expr.cc
+++ b/src/expr.cc
@@ -398,6 +398,7 @@ void Var::set_width_param(Var *param) {
     for (const auto &p : params) {
         p->add_param_width_var(this);
     }
+    for (auto const &slice : slices_) slice->update_shape();
 }
 
 VarSlice &Var::operator[](uint32_t bit) { return this->operator[]({bit, bit}); }
@@ -442,6 +443,8 @@ void Var::set_size_param(uint32_t index, Var *param) {
     // all good. now we need to resize the index
     size_[index] = new_dim_size;
     size_param_[index] = param;
+    // stays an array even if there is only one element
+    explicit_array_ = true;
 
     // get all the parameters
     ParamVisitor visitor;
@@ -450,6 +453,7 @@ void Var::set_size_param(uint32_t index, Var *param) {
     for (const auto &p : params) {
         p->add_param_size_var(this, index, param);
     }
+    for (auto const &slice : slices_) slice->update_shape();
 }
 
 bool check_parent_param(const Param *param, const Generator *parent, bool check_param) {
@@ -534,17 +538,22 @@ VarSlice::VarSlice(Var *parent, uint32_t high, uint32_t low)
       low(low),
       high(high),
       op_({high, low}) {
+    if (is_array_var(parent) && high >= parent->size().front()) {
+        throw VarException(::format("Parent {0} only has {1} element(s), got [{2}, {3}]",
+                                    parent->to_string(), parent->size().front(), high, low),
+                           {parent});
+    }
+    compute_shape();
+}
+
+void VarSlice::compute_shape() {
+    auto *parent = parent_var;
     // compute the width
     // notice that if the user has explicit set it to be an array
     // we need to honer their wish
     // we also need to honer the way the dimension the array is set
     uint32_t base_width;
     if (is_array_var(parent)) {
-        if (high >= parent->size().front()) {
-            throw VarException(::format("Parent {0} only has {1} element(s), got [{2}, {3}]",
-                                        parent->to_string(), parent->size().front(), high, low),
-                               {parent});
-        }
         base_width = parent->var_width();
         for (uint64_t i = 1; i < parent->size().size(); i++) base_width *= parent->size()[i];
         if (high == low) {
@@ -568,6 +577,11 @@ VarSlice::VarSlice(Var *parent, uint32_t high, uint32_t low)
     var_high_ = offset + (high + 1) * base_width - 1;
 }
 
+void VarSlice::update_shape() {
+    compute_shape();
+    for (auto const &slice : slices_) slice->update_shape();
+}
+
 // peel one layer of the array
 void VarSlice::set_element_of(const Var *parent) {
     var_width_ = parent->var_width();
@@ -669,25 +683,11 @@ VarVarSlice::VarVarSlice(kratos::Var *parent, kratos::Var *slice)
     // there is an issue about the var_high and var_low; the problem will only show up during
     // the connectivity check
     // TODO: fix this
+    compute_shape();
     uint32_t required_width;
     if (!is_array_var(parent)) {
-        // slice through the 1D array
-        // so the width will be 1
-        var_width_ = 1;
-        size_ = {1};
-        is_signed_ = false;
-        explicit_array_ = false;
-        // potentially cover all the bits
-        var_high_ = parent->width() - 1;
-        var_low_ = 0;
-        if (parent->width_param())
-            required_width = Simulator::static_evaluate_expr(parent->width_param());
-        else
-            required_width = clog2(parent->width());
+        required_width = clog2(parent->width());
     } else {
-        set_element_of(parent);
-        var_high_ = parent->var_high();
-        var_low_ = parent->var_low();
         // we need to compute the clog2 here
         if (parent->get_size_param(0))
             required_width = clog2(Simulator::static_evaluate_expr(parent->get_size_param(0)));
@@ -717,6 +717,24 @@ VarVarSlice::VarVarSlice(kratos::Var *parent, kratos::Var *slice)
     }
 }
 
+void VarVarSlice::compute_shape() {
+    if (!is_array_var(parent_var)) {
+        // slice through the 1D array
+        // so the width will be 1
+        var_width_ = 1;
+        size_ = {1};
+        is_signed_ = false;
+        explicit_array_ = false;
+        // potentially cover all the bits
+        var_high_ = parent_var->width() - 1;
+        var_low_ = 0;
+    } else {
+        set_element_of(parent_var);
+        var_high_ = parent_var->var_high();
+        var_low_ = parent_var->var_low();
+    }
+}
+
 void VarVarSlice::add_sink(const std::shared_ptr<AssignStmt> &stmt) {
     VarSlice::add_sink(stmt);
     sliced_var_->add_sink(stmt);
@@ -1137,6 +1155,13 @@ std::shared_ptr<AssignStmt> VarCasted::assign_(const std::shared_ptr<Var> &var,
     return parent_var_->assign(var, type);
 }
 
+uint32_t VarCasted::width() const {
+    // the parent can be parametrized
+    if (cast_type_ == VarCastType::Signed || cast_type_ == VarCastType::Unsigned)
+        return parent_var_->width();
+    return Var::width();
+}
+
 std::string VarCasted::to_string() const {
     if (cast_type_ == VarCastType::Signed) {
         return ::format("signed'({0})", parent_var_->to_string());
@@ -1273,12 +1298,29 @@ Param::Param(Generator *m, std::string name, Enum *enum_def)
 }
 
 Param::Param(Generator *m, const std::shared_ptr<Param> &param, std::string parameter_name)
-    : Const(m, 1, 1, false),
+    : Const(m, param->value(), param->width(), param->is_signed()),
       parameter_name_(std::move(parameter_name)),
-      param_type_(param->param_type_),
-      enum_def_(param->enum_def_) {}
+      // a parent only gives the value
+      param_type_(param->param_type_ != ParamType::Parameter ? param->param_type_
+                  : param->enum_def_                         ? ParamType::Enum
+                                                             : ParamType::Integral),
+      enum_def_(param->enum_def_) {
+    type_ = VarType::Parameter;
+}
 
 void Param::set_value(int64_t new_value) {
+    check_value(new_value);
+    if (parent_param_) {
+        // no longer follows the parent
+        parent_param_->param_params_.erase(this);
+        parent_param_ = nullptr;
+        if (param_type_ == ParamType::Parameter)
+            param_type_ = enum_def_ ? ParamType::Enum : ParamType::Integral;
+    }
+    update_value(new_value);
+}
+
+void Param::check_value(int64_t new_value) const {
     if (new_value <= 0 && !param_vars_width_.empty()) {
         throw VarException(
             ::format(
@@ -1286,12 +1328,16 @@ void Param::set_value(int64_t new_value) {
                 to_string(), new_value),
             {this});
     }
+    for (auto const &param : param_params_) param->check_value(new_value);
+}
+
+void Param::update_value(int64_t new_value) {
     Const::set_value(new_value);
     has_value_ = true;
 
     // change the width of parametrized variables
     for (const auto &var : param_vars_width_) {
-        var->var_width() = new_value;
+        var->set_width_param(var->width_param());
     }
     // change the size as well
     for (const auto &[var, index, expr] : param_vars_size_) {
@@ -1300,7 +1346,7 @@ void Param::set_value(int64_t new_value) {
 
     // change the entire chain
     for (const auto &param : param_params_) {
-        param->set_value(new_value);
+        param->update_value(new_value);
     }
 }
 
@@ -1334,12 +1380,14 @@ bool Param::has_param_size_var(kratos::Var *var, uint32_t index, kratos::Var *ex
 }
 
 void Param::set_value(const std::shared_ptr<Param> &param) {
+    check_value(param->value());
+    if (parent_param_) parent_param_->param_params_.erase(this);
     param->param_params_.emplace(this);
     parent_param_ = param.get();
     if (param->param_type() != ParamType::RawType) param_type_ = ParamType::Parameter;
 
     // update the values
-    set_value(param->value());
+    update_value(param->value());
 }
 
 void Param::set_value(const std::string &str_value) { raw_str_value_ = str_value; }
@@ -1424,6 +1472,12 @@ VarConcat::VarConcat(const std::shared_ptr<Var> &first, const std::shared_ptr<Va
     op = ExprOp::Concat;
 }
 
+uint32_t VarConcat::width() const {
+    uint32_t result = 0;
+    for (auto const *var : vars_) result += var->width();
+    return result;
+}
+
 VarConcat &VarConcat::concat(kratos::Var &var) {
     auto result = std::make_shared<VarConcat>(as<VarConcat>(), var.shared_from_this());
     // add it to the first one
diff --git a/src/expr.hh b/src/expr.hh
index 94fa573..bfd9e52 100644
--- a/src/expr.hh
+++ b/src/expr.hh
@@ -298,6 +298,8 @@ public:
 
     Var *&parent_var() { return parent_var_; }
 
+    uint32_t width() const override;
+
     std::string to_string() const override;
 
     VarCastType cast_type() const { return cast_type_; }
@@ -394,6 +396,9 @@ public:
     // struct definition if the slice is an element of a packed struct array
     const PackedStruct *element_struct() const;
 
+    // called after what's sliced changes its shape due to parametrization
+    virtual void update_shape();
+
     bool is_struct() const override { return struct_ != nullptr; }
 
 protected:
@@ -403,6 +408,7 @@ protected:
     std::pair<uint32_t, uint32_t> op_;
 
     void set_element_of(const Var *parent);
+    virtual void compute_shape();
 
     const PackedStruct *struct_ = nullptr;
 };
@@ -428,6 +434,9 @@ public:
 
     void accept(IRVisitor *visitor) override { visitor->visit(this); }
 
+protected:
+    void compute_shape() override;
+
 private:
     Var *sliced_var_;
 };
@@ -532,6 +541,9 @@ public:
     [[nodiscard]] const std::string &parameter_name() const { return parameter_name_; }
 
 private:
+    void check_value(int64_t new_value) const;
+    void update_value(int64_t new_value);
+
     std::string parameter_name_;
     ParamType param_type_ = ParamType::Integral;
 
@@ -592,6 +604,9 @@ public:
 
     std::string to_string() const override;
 
+    // the shape is the one of the struct
+    void update_shape() override {}
+
     std::shared_ptr<Var> slice_var(std::shared_ptr<Var> var) override;
 
     bool is_struct() const override {
@@ -688,6 +703,8 @@ public:
     void add_source(const std::shared_ptr<AssignStmt> &stmt) override;
     void remove_source(const std::shared_ptr<AssignStmt> &stmt) override;
 
+    uint32_t width() const override;
+
     const std::vector<Var *> &vars() const { return vars_; }
     void replace_var(const std::shared_ptr<Var> &target, const std::shared_ptr<Var> &item);
     // replace target wherever it is used, including slices and expressions
@@ -700,8 +717,6 @@ public:
         return index < vars_.size() ? vars_[index] : nullptr;
     }
 
-    uint32_t width() const override { return var_width_; }
-
     void accept(IRVisitor *visitor) override { visitor->visit(this); }
 
     std::string to_string() const override;
-- 
2.43.0


From 9f08c4b6682f87cb87ce31b4d8d1eab4f6e9a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:13 +0000
Subject: [PATCH 49/55] fix: state machine reset polarity of internal resets

---
 src/fsm.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fsm.cc b/src/fsm.cc
index 4fe88f6..e98bb9c 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -158,9 +158,12 @@ void FSM::realize() {
     auto seq = generator_->sequential();
     bool reset_high = true;
     seq->add_condition({EventEdgeType::Posedge, clk_});
-    if (reset_->type() == VarType::PortIO &&
-        ((reset_->as<Port>()->active_high() && !(*reset_->as<Port>()->active_high())) ||
-         !reset_high_)) {
+    bool port_low = false;
+    if (reset_->type() == VarType::PortIO) {
+        auto active_high = reset_->as<Port>()->active_high();
+        port_low = active_high && !(*active_high);
+    }
+    if (port_low || !reset_high_) {
         seq->add_condition({EventEdgeType::Negedge, reset_});
         reset_high = false;
     } else {
-- 
2.43.0


From 2a5fa11ad958f3c084c549527cf21451fab78f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:43 +0000
Subject: [PATCH 50/55] fix: mealy outputs of unconditional transitions

---
 src/fsm.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fsm.cc b/src/fsm.cc
index e98bb9c..00c21f9 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -280,7 +280,14 @@ void FSM::generate_state_transition(
                 // direct transition
                 auto stmt = get_next_state_stmt(enum_def, next_state, state, next_fsm_state,
                                                 state_name_mapping);
-                case_state_comb->add_switch_case(enum_def.get_enum(state_name), stmt);
+                std::vector<std::shared_ptr<Stmt>> stmts = {stmt};
+                if (!moore_) {
+                    std::shared_ptr<FunctionCallStmt> func_stmt = nullptr;
+                    get_func_call_stmt(func_def, next_fsm_state, func_stmt);
+                    add_debug_info_to_stmt(func_stmt, state);
+                    stmts.emplace_back(func_stmt);
+                }
+                case_state_comb->add_switch_case(enum_def.get_enum(state_name), stmts);
                 break;
             } else if (!cond) {
                 // we have a default case here
@@ -327,7 +334,7 @@ void FSM::generate_state_transition(
             std::shared_ptr<FunctionCallStmt> func_stmt = nullptr;
             if (!moore_) {
                 get_func_call_stmt(func_def, next_fsm_state, func_stmt);
-                if_->add_then_stmt(func_stmt);
+                if_->add_else_stmt(func_stmt);
             }
             add_debug_info_to_stmt(func_stmt, state);
         }
-- 
2.43.0


From e0ee4eb7e4ab21feb58797c2e183bb1fe351d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:11 +0000
Subject: [PATCH 51/55] fix: state machines with terminal, unchanged or
 ambiguous states

---
 src/fsm.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/fsm.cc b/src/fsm.cc
index 00c21f9..028e770 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -114,7 +114,9 @@ void FSM::realize() {
         } else {
             state_name = state->name();
         }
-        raw_def.emplace(state_name, count++);
+        if (!raw_def.emplace(state_name, count++).second)
+            throw UserException(
+                ::format("{0} stands for more than one state in FSM {1}", state_name, fsm_name_));
         state_name_mapping.emplace(state, state_name);
         // check states
         state->check_outputs();
@@ -269,6 +271,8 @@ void FSM::generate_state_transition(
         std::shared_ptr<IfStmt> if_ = nullptr;
         std::shared_ptr<IfStmt> top_if = nullptr;
         auto transitions = state->transitions();
+        // nowhere to go: the machine stays where it is
+        if (transitions.empty()) transitions.emplace_back(std::make_pair(nullptr, state));
         // slide through condition
         bool has_slide_through = false;
         if (transitions.size() == 1 && transitions[0].first == nullptr) {
@@ -399,7 +403,15 @@ void FSM::generate_output(Enum& enum_def, EnumVar& current_state,
 
     // need to deal with fully specified case where default is the same as start state
     // also default case
-    if (!is_2_power(enum_def.values.size())) {
+    // a state in which no output changes has no case, and hence cannot have a default one either
+    auto const unchanged = [](const FSMState* state) {
+        auto const& values = state->output_values();
+        return std::all_of(values.begin(), values.end(), [](auto const& iter) {
+            return !iter.second || iter.second == iter.first;
+        });
+    };
+    if (!is_2_power(enum_def.values.size()) &&
+        std::none_of(states.begin(), states.end(), unchanged)) {
         states.emplace_back(nullptr);
     }
 
@@ -683,6 +695,8 @@ void FSMState::next(const std::shared_ptr<FSMState>& next_state, const std::shar
     };
 
     if (!cond) {
+        if (find_match(nullptr))
+            throw UserException("Unconditional transition has been assign to " + name_);
         transitions_.emplace_back(std::make_pair(nullptr, state_ptr));
     } else {
         if (find_match(nullptr)) {
-- 
2.43.0


From 729739cea368156c1f863eb5a3ad39b772822b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:43 +0000
Subject: [PATCH 52/55] fix: state machine output table before realization

---
 src/fsm.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fsm.cc b/src/fsm.cc
index 028e770..50d1360 100644
--- a/src/fsm.cc
+++ b/src/fsm.cc
@@ -604,8 +604,12 @@ std::string FSM::output_table() {
     for (auto const& [state_name, state] : states_) {
         stream << state_name;
         for (auto const& output : outputs) {
-            auto* value = state->output_values().at(output);
-            stream << "," << value->to_string();
+            // not every state says what each output is. it's the default value then
+            auto const& values = state->output_values();
+            auto const& it = values.find(output);
+            auto* value = it != values.end() ? it->second : outputs_.at(output);
+            // no value means that the output doesn't change
+            stream << "," << (value ? value : output)->to_string();
         }
         stream << ::endl;
     }
@@ -725,8 +729,8 @@ void FSMState::output(const std::shared_ptr<Var>& output_var,
     auto* output = output_var.get();
     auto* value = value_var.get();
     if (output_values_.find(output) != output_values_.end()) {
-        throw VarException(::format("{0} already has specified output"),
-                           {output_values_.at(output)});
+        throw VarException(::format("{0} already has specified output", output->to_string()),
+                           {output});
     }
     output_ordering_.emplace_back(output);
     output_values_.emplace(output, value);
-- 
2.43.0


From 286438926633a0d8a8bc2c254d21f16a7b444bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:13 +0000
Subject: [PATCH 53/55] fix: coverage of case items, loops and function
 arguments

---
 src/fault.cc | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/fault.cc b/src/fault.cc
index da6928b..51e52d4 100644
--- a/src/fault.cc
+++ b/src/fault.cc
@@ -119,6 +119,28 @@ void compute_hit_stmts(Simulator *state, std::unordered_set<Stmt *> &result, Stm
         } else {
             compute_hit_stmts(state, result, if_->else_body().get());
         }
+    } else if (stmt->type() == StatementType::Switch) {
+        auto *switch_ = cast<SwitchStmt>(stmt);
+        auto target = switch_->target();
+        auto const &body = switch_->body();
+        auto val = state->get(target.get());
+        // compare the bits
+        uint64_t mask = target->width() < 64 ? (1ul << target->width()) - 1 : ~0ul;
+        auto it = std::find_if(body.begin(), body.end(), [&](auto const &iter) {
+            return iter.first && val &&
+                   (static_cast<uint64_t>(iter.first->value()) & mask) == (*val & mask);
+        });
+        if (it == body.end()) it = body.find(nullptr);
+        if (it != body.end()) compute_hit_stmts(state, result, it->second.get());
+    } else if (stmt->type() == StatementType::For) {
+        auto *for_ = cast<ForStmt>(stmt);
+        if (!for_->step()) return;
+        auto iter_var = for_->get_iter_var();
+        for (auto i = for_->start(); for_->step() > 0 ? i < for_->end() : i > for_->end();
+             i += for_->step()) {
+            state->set_i(iter_var.get(), i, false);
+            compute_hit_stmts(state, result, for_->get_loop_body().get());
+        }
     } else if (stmt->type() == StatementType::Block) {
         auto *block = cast<StmtBlock>(stmt);
         // normal sequential block and combinational block always gets executed
@@ -132,6 +154,12 @@ void compute_hit_stmts(Simulator *state, std::unordered_set<Stmt *> &result, Stm
         if (func->var()->func()->is_dpi() || func->var()->func()->is_builtin()) {
             // nothing
         } else {
+            // the arguments have the value of this call
+            auto const &args = func->var()->args();
+            for (auto const &[name, port] : func->var()->func()->ports()) {
+                if (args.find(name) != args.end())
+                    state->set(port.get(), state->get(args.at(name).get()), false);
+            }
             compute_hit_stmts(state, result, func->var()->func());
         }
     }
@@ -545,7 +573,7 @@ std::unordered_map<Stmt *, uint32_t> reverse_map_stmt(
 
 std::unordered_map<Stmt *, uint32_t> parse_verilator_coverage(Generator *top,
                                                               const std::string &filename) {
-    if (!fs::exists(filename)) throw UserException(::format("{0} does not exist"));
+    if (!fs::exists(filename)) throw UserException(::format("{0} does not exist", filename));
     std::ifstream file(filename);
     std::set<std::tuple<std::string, uint32_t, uint32_t>> parse_result;
     for (std::string line; std::getline(file, line);) {
@@ -639,7 +667,7 @@ std::vector<std::string> get_icc_tokens(std::string str) {
 std::unordered_map<Stmt *, uint32_t> parse_icc_coverage(Generator *top,
                                                         const std::string &filename) {
     std::set<std::tuple<std::string, uint32_t, uint32_t>> parse_result;
-    if (!fs::exists(filename)) throw UserException(::format("{0} does not exist"));
+    if (!fs::exists(filename)) throw UserException(::format("{0} does not exist", filename));
     std::ifstream file(filename);
     // state 0: nothing
     // state 1: searching for block header
-- 
2.43.0


From 6922d5c5673d89ccdacac554bc3742488c67a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:42 +0000
Subject: [PATCH 54/55] fix: simulated casts, slices and logical operators

---
 src/eval.cc |  7 +++----
 src/sim.cc  | 18 ++++++++++++++----
 src/util.cc |  9 +++++----
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index d715bcd..e75438d 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -55,6 +55,9 @@ static uint64_t power(uint64_t base, uint64_t exponent) {
 
 uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint32_t width,
                      bool signed_) {
+    // logical operators take their operands as they are
+    if (op == ExprOp::LAnd) return left_value && right_value;
+    if (op == ExprOp::LOr) return left_value || right_value;
     auto const mask = UINT64_MASK >> (UINT64_WIDTH_ - width);
     left_value &= mask;
     right_value &= mask;
@@ -94,10 +97,6 @@ uint64_t eval_bin_op(uint64_t left_value, uint64_t right_value, ExprOp op, uint3
         case ExprOp::Xor:
             result = left_value ^ right_value;
             break;
-        case ExprOp::LAnd:
-            return left_value && right_value;
-        case ExprOp::LOr:
-            return left_value || right_value;
         case ExprOp::Eq:
             return left_value == right_value;
         case ExprOp::Neq:
diff --git a/src/sim.cc b/src/sim.cc
index 376010f..91abea7 100644
--- a/src/sim.cc
+++ b/src/sim.cc
@@ -215,11 +215,21 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
         } else {
             return std::nullopt;
         }
+    } else if (var->type() == VarType::BaseCasted) {
+        // extended with the sign of what is casted
+        auto *parent = static_cast<VarCasted *>(const_cast<Var *>(var))->parent_var();
+        auto value = get_value_(parent);
+        if (!value) return std::nullopt;
+        auto result = truncate(*value, parent->width());
+        if (parent->is_signed() && result >> (parent->width() - 1)) {
+            if (parent->width() < 64) result |= UINT64_MASK << parent->width();
+        }
+        return truncate(result, std::min(64u, var->width()));
     } else if (var->type() == VarType::Slice) {
         auto const *root = var->get_var_root_parent();
         std::vector<uint64_t> values;
         if (root->type() == VarType::ConstValue || root->type() == VarType::Parameter) {
-            auto value = get_value_(var);
+            auto value = get_value_(root);
             if (!value)
                 throw InternalException(
                     ::format("Unable to get value for {0}", var->handle_name()));
@@ -244,7 +254,7 @@ std::optional<uint64_t> Simulator::get_value_(const kratos::Var *var) const {
         auto low = var_low % root->var_width();
         auto high = var_high % root->var_width();
         auto value = values[base];
-        return (value >> low) & (~(0xFFFFFFFFFFFFFFFF << (high + 1)));
+        return (value >> low) & (0xFFFFFFFFFFFFFFFF >> (63 - (high - low)));
     } else {
         // function call
         if (var->is_function()) {
@@ -676,8 +686,8 @@ void Simulator::process_stmt(kratos::SwitchStmt *switch_, const Var *var) {
             int64_t cond_val = cond->value();
             int64_t *v_p = &cond_val;
             uint64_t bits = *(reinterpret_cast<uint64_t *>(v_p));
-            bits &= (0xFFFFFFFFFFFFFFFF >> target->width());
-            if (value == bits) {
+            bits = truncate(bits, target->width());
+            if (truncate(value, target->width()) == bits) {
                 process_stmt(stmt.get(), var);
                 return;
             }
diff --git a/src/util.cc b/src/util.cc
index 04415c4..66ce0fd 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -180,10 +180,11 @@ std::pair<uint32_t, uint32_t> compute_var_high_low(
     uint64_t i = 0;
     while (i < index.size()) {
         auto const &[slice_high, slice_low] = index[i];
-        if (slice_high > slice_low) {
-            var_low += slice_low * bases[index_to_size] * root->var_width();
-            var_high = var_low +
-                       (slice_high - slice_low + 1) * bases[index_to_size] * root->var_width() - 1;
+        if (slice_high > slice_low && index_to_size < var_sizes.size() &&
+            var_sizes[index_to_size] > 1) {
+            // a range of elements. further indices select from the same dimension
+            var_low += slice_low * bases[index_to_size];
+            var_high = var_low + (slice_high - slice_low + 1) * bases[index_to_size] - 1;
         } else if (slice_high == slice_low && index_to_size < var_sizes.size() &&
                    var_sizes[index_to_size] > 1) {
             var_low += slice_low * bases[index_to_size];
-- 
2.43.0


From 4f9707d18529c03bd24aa3cef31a5671337826f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:01 +0000
Subject: [PATCH 55/55] fix: line numbers of sequential blocks and case items

---
 src/codegen.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/codegen.cc b/src/codegen.cc
index 96bd33e..575422e 100644
--- a/src/codegen.cc
+++ b/src/codegen.cc
@@ -541,9 +541,9 @@ void SystemVerilogCodeGen::stmt_code(SequentialStmtBlock* stmt) {
     if (!stmt->comment.empty()) {
         stream_ << indent() << "// " << strip_newline(stmt->comment) << stream_.endl();
     }
-    // produce the sensitive list
+    // produce the sensitive list. there is an empty line first
     if (generator_->debug) {
-        stmt->verilog_ln = stream_.line_no();
+        stmt->verilog_ln = stream_.line_no() + 1;
     }
     std::vector<std::string> sensitive_list;
     for (const auto& event_control : stmt->get_event_controls()) {
@@ -912,6 +912,7 @@ void SystemVerilogCodeGen::stmt_code(SwitchStmt* stmt) {
 
     for (auto& cond : conds) {
         const auto& stmt_blk = (body.find(cond) != body.end()) ? body.at(cond) : nullptr;
+        if (stmt_blk && generator_->debug) stmt_blk->verilog_ln = stream_.line_no();
         stream_ << indent() << (cond ? stream_.var_str(cond) : "default") << ": ";
         if (stmt_blk && stmt_blk->empty() && cond) {
             throw VarException(
-- 
2.43.0

