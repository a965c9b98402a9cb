From 237cb5a9307e9dffbac02022f5b99eefa64e3291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:06 +0000
Subject: [PATCH 01/32] fix: do not trap when dividing the smallest number by
 -1

---
 libgringo/src/term.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libgringo/src/term.cc b/libgringo/src/term.cc
index 156391e..d2a7eda 100644
--- a/libgringo/src/term.cc
+++ b/libgringo/src/term.cc
@@ -836,14 +836,16 @@ int eval(BinOp op, int x, int y) {
         }
         case BinOp::MOD: {
             assert(y != 0 && "must be checked before call");
-            return x % y;
+            // NOTE: the quotient of the smallest number and -1 is not representable
+            return y != -1 ? x % y : 0;
         }
         case BinOp::POW: {
             return ipow(x, y);
         }
         case BinOp::DIV: {
             assert(y != 0 && "must be checked before call");
-            return x / y;
+            // NOTE: the quotient of the smallest number and -1 is not representable
+            return y != -1 ? x / y : static_cast<int>(0U - static_cast<unsigned>(x));
         }
     }
     assert(false);
-- 
2.43.0


From cd46cd637dd7bceea3e1a048eeb80148827a4ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:07 +0000
Subject: [PATCH 02/32] fix: do not trap when matching the smallest number
 against a negated variable

---
 libgringo/src/term.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libgringo/src/term.cc b/libgringo/src/term.cc
index d2a7eda..5d5257e 100644
--- a/libgringo/src/term.cc
+++ b/libgringo/src/term.cc
@@ -639,10 +639,15 @@ bool GLinearTerm::match(Symbol const &x) {
     }
     int y = x.num();
     y -= n_;
-    if (y % m_ != 0) {
-        return false;
+    // NOTE: the quotient of the smallest number and -1 is not representable
+    if (m_ == -1) {
+        y = static_cast<int>(0U - static_cast<unsigned>(y));
+    } else {
+        if (y % m_ != 0) {
+            return false;
+        }
+        y /= m_;
     }
-    y /= m_;
     if (*ref_) {
         return ref_->match(Symbol::createNum(y));
     }
@@ -1672,6 +1677,10 @@ bool LinearTerm::match(Symbol const &val) const {
     if (val.type() == SymbolType::Num) {
         assert(m_ != 0);
         int c(val.num() - n_);
+        // NOTE: the quotient of the smallest number and -1 is not representable
+        if (m_ == -1) {
+            return var_->match(Symbol::createNum(static_cast<int>(0U - static_cast<unsigned>(c))));
+        }
         if (c % m_ == 0) {
             return var_->match(Symbol::createNum(c / m_));
         }
-- 
2.43.0


From 38289a0fe13f5cd14d376c459cf69c81d5e4d4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:02 +0000
Subject: [PATCH 03/32] fix: ignore negative weights in #sum+ head aggregates

---
 libgringo/src/output/literals.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/libgringo/src/output/literals.cc b/libgringo/src/output/literals.cc
index 5b56086..1cede23 100644
--- a/libgringo/src/output/literals.cc
+++ b/libgringo/src/output/literals.cc
@@ -1440,15 +1440,19 @@ LiteralId HeadAggregateLiteral::translate(Translator &x) {
                     choice.addHead(head);
                 }
                 // e :- h, c.
-                auto bdElem = bdElems.try_emplace(it->second.first);
-                LitVec cond;
-                if (condLit) {
-                    cond.emplace_back(condLit);
-                }
-                if (head) {
-                    cond.emplace_back(head);
+                // NOTE: tuples with negative weights do not contribute to the value of a #sum+ aggregate
+                if (atm.fun() != AggregateFunction::SUMP ||
+                    getWeight(atm.fun(), data_.tuple(it->second.first)) >= Symbol::createNum(0)) {
+                    auto bdElem = bdElems.try_emplace(it->second.first);
+                    LitVec cond;
+                    if (condLit) {
+                        cond.emplace_back(condLit);
+                    }
+                    if (head) {
+                        cond.emplace_back(head);
+                    }
+                    bdElem.first.value().emplace_back(data_.clause(cond));
                 }
-                bdElem.first.value().emplace_back(data_.clause(cond));
                 ++it;
             } while (it != ie && it->first == condId);
             if (choice.numHeads() > 0) {
-- 
2.43.0


From 9466d67bd0f4337cc4b29cc829cb1fab486c4f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 04/32] fix: sum aggregates with large weights overflowed and
 were silently mistranslated

---
 libgringo/src/output/aggregates.cc | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/libgringo/src/output/aggregates.cc b/libgringo/src/output/aggregates.cc
index 3587414..127ff8b 100644
--- a/libgringo/src/output/aggregates.cc
+++ b/libgringo/src/output/aggregates.cc
@@ -22,8 +22,11 @@
 
 // }}}
 
+#include <algorithm>
 #include <gringo/output/aggregates.hh>
 #include <gringo/output/statements.hh>
+#include <limits>
+#include <stdexcept>
 
 namespace Gringo {
 namespace Output {
@@ -335,13 +338,13 @@ class SumTranslator {
                     if (!neg) {
                         neg = data.newAux();
                     }
-                    Potassco::Weight_t lower = 1 - bound.second.left.bound.num();
+                    int64_t lower = int64_t{1} - bound.second.left.bound.num();
                     translate(data, x, neg, lower, litsNegRec_, litsPosRec_, litsNegStrat_, litsPosStrat_);
                 } else {
                     if (!pos) {
                         pos = data.newAux();
                     }
-                    Potassco::Weight_t lower = bound.second.left.bound.num();
+                    int64_t lower = bound.second.left.bound.num();
                     translate(data, x, pos, lower, litsPosRec_, litsNegRec_, litsPosStrat_, litsNegStrat_);
                 }
             }
@@ -350,13 +353,13 @@ class SumTranslator {
                     if (!neg) {
                         neg = data.newAux();
                     }
-                    Potassco::Weight_t lower = 1 + bound.first.right.bound.num();
+                    int64_t lower = int64_t{1} + bound.first.right.bound.num();
                     translate(data, x, neg, lower, litsPosRec_, litsNegRec_, litsPosStrat_, litsNegStrat_);
                 } else {
                     if (!pos) {
                         pos = data.newAux();
                     }
-                    Potassco::Weight_t lower = -bound.first.right.bound.num();
+                    int64_t lower = -int64_t{bound.first.right.bound.num()};
                     translate(data, x, pos, lower, litsNegRec_, litsPosRec_, litsNegStrat_, litsPosStrat_);
                 }
             }
@@ -374,7 +377,7 @@ class SumTranslator {
     }
 
   private:
-    static void translate(DomainData &data, Translator &x, LiteralId const &head, Potassco::Weight_t bound,
+    static void translate(DomainData &data, Translator &x, LiteralId const &head, int64_t bound,
                           LitUintVec const &litsPosRec, LitUintVec const &litsNegRec, LitUintVec const &litsPosStrat,
                           LitUintVec const &litsNegStrat) {
         LitUintVec elems;
@@ -385,18 +388,25 @@ class SumTranslator {
             elems.emplace_back(get_clone(wLit.first), wLit.second);
         }
         for (auto const &wLit : litsNegStrat) {
-            bound += static_cast<Potassco::Weight_t>(wLit.second);
+            bound += wLit.second;
             elems.emplace_back(wLit.first.negate(), wLit.second);
         }
         for (auto const &wLit : litsNegRec) {
-            bound += static_cast<Potassco::Weight_t>(wLit.second);
+            bound += wLit.second;
             LiteralId aux = data.newAux();
             elems.emplace_back(get_clone(aux), wLit.second);
             Rule().addHead(aux).addBody(wLit.first.negate()).translate(data, x);
             Rule().addHead(aux).addBody(head).translate(data, x);
             Rule().addHead(aux).addHead(wLit.first).addHead(head.negate()).translate(data, x);
         }
-        WeightRule(head, bound, std::move(elems)).translate(data, x);
+        // NOTE: weight rules with weights or bounds that cannot be represented would have a different meaning
+        constexpr int64_t max = std::numeric_limits<Potassco::Weight_t>::max();
+        if (bound > max ||
+            std::any_of(elems.begin(), elems.end(), [](LitUintVec::value_type const &x) { return x.second > max; })) {
+            throw std::overflow_error("integer overflow in sum aggregate");
+        }
+        bound = std::max<int64_t>(bound, std::numeric_limits<Potassco::Weight_t>::min());
+        WeightRule(head, static_cast<Potassco::Weight_t>(bound), std::move(elems)).translate(data, x);
     }
 
     LitUintVec litsPosRec_;
-- 
2.43.0


From ea225d294ffe7a0705162d9b8b0771d6b03b98b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 05/32] fix: the analysis of aggregates overflowed at the ends
 of the range of numbers

---
 libgringo/src/output/aggregates.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libgringo/src/output/aggregates.cc b/libgringo/src/output/aggregates.cc
index 127ff8b..746a7b4 100644
--- a/libgringo/src/output/aggregates.cc
+++ b/libgringo/src/output/aggregates.cc
@@ -112,15 +112,17 @@ void AggregateAnalyzer::print(std::ostream &out) {
 AggregateAnalyzer::AggregateAnalyzer(DomainData &data, NAF naf, DisjunctiveBounds const &disjunctiveBounds,
                                      AggregateFunction fun, Interval range, BodyAggregateElements const &elems)
     : weightType{POSITIVE}, range(range) {
+    constexpr int numMin = std::numeric_limits<int>::min();
+    constexpr int numMax = std::numeric_limits<int>::max();
     // NOTE: considers everything that is fixed in a reduct as ANTIMONOTONE
     IntervalSet<Symbol> numBounds;
     for (auto const &y : disjunctiveBounds) {
         Interval x = y;
-        if (!x.right.inclusive && x.right.bound.type() == SymbolType::Num) {
+        if (!x.right.inclusive && x.right.bound.type() == SymbolType::Num && x.right.bound.num() > numMin) {
             x.right.inclusive = true;
             x.right.bound = Symbol::createNum(x.right.bound.num() - 1);
         }
-        if (!x.left.inclusive && x.left.bound.type() == SymbolType::Num) {
+        if (!x.left.inclusive && x.left.bound.type() == SymbolType::Num && x.left.bound.num() < numMax) {
             x.left.inclusive = true;
             x.left.bound = Symbol::createNum(x.left.bound.num() + 1);
         }
@@ -130,11 +132,11 @@ AggregateAnalyzer::AggregateAnalyzer(DomainData &data, NAF naf, DisjunctiveBound
     bool nonMonotone = false;
     for (auto const &y : complement) {
         Interval x = y;
-        if (x.right.inclusive && x.right.bound.type() == SymbolType::Num) {
+        if (x.right.inclusive && x.right.bound.type() == SymbolType::Num && x.right.bound.num() < numMax) {
             x.right.inclusive = false;
             x.right.bound = Symbol::createNum(x.right.bound.num() + 1);
         }
-        if (x.left.inclusive && x.left.bound.type() == SymbolType::Num) {
+        if (x.left.inclusive && x.left.bound.type() == SymbolType::Num && x.left.bound.num() > numMin) {
             x.left.inclusive = false;
             x.left.bound = Symbol::createNum(x.left.bound.num() - 1);
         }
-- 
2.43.0


From a00e2f02e8c47469fd012da7fabb05e1028e1f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 06/32] fix: sums that are not representable were clamped
 before they were compared

---
 libgringo/src/output/aggregates.cc |  4 ++++
 libgringo/src/output/literals.cc   | 14 +++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/libgringo/src/output/aggregates.cc b/libgringo/src/output/aggregates.cc
index 746a7b4..c490739 100644
--- a/libgringo/src/output/aggregates.cc
+++ b/libgringo/src/output/aggregates.cc
@@ -112,6 +112,10 @@ void AggregateAnalyzer::print(std::ostream &out) {
 AggregateAnalyzer::AggregateAnalyzer(DomainData &data, NAF naf, DisjunctiveBounds const &disjunctiveBounds,
                                      AggregateFunction fun, Interval range, BodyAggregateElements const &elems)
     : weightType{POSITIVE}, range(range) {
+    bool isSum = fun != AggregateFunction::MIN && fun != AggregateFunction::MAX;
+    if (isSum && (range.left.bound.type() != SymbolType::Num || range.right.bound.type() != SymbolType::Num)) {
+        throw std::overflow_error("integer overflow in sum aggregate");
+    }
     constexpr int numMin = std::numeric_limits<int>::min();
     constexpr int numMax = std::numeric_limits<int>::max();
     // NOTE: considers everything that is fixed in a reduct as ANTIMONOTONE
diff --git a/libgringo/src/output/literals.cc b/libgringo/src/output/literals.cc
index 1cede23..cc8e596 100644
--- a/libgringo/src/output/literals.cc
+++ b/libgringo/src/output/literals.cc
@@ -238,7 +238,19 @@ void AggregateAtomRange::init(AggregateFunction fun, DisjunctiveBounds &&bounds)
 
 Interval AggregateAtomRange::range() const {
     if (fun != AggregateFunction::MIN && fun != AggregateFunction::MAX) {
-        return {{Symbol::createNum(clamp(intMin())), true}, {Symbol::createNum(clamp(intMax())), true}};
+        // NOTE: values that are not representable lie strictly between the
+        //       representable ones and the symbols that are no numbers
+        constexpr int numMin = std::numeric_limits<int>::min();
+        constexpr int numMax = std::numeric_limits<int>::max();
+        Interval rng{{Symbol::createNum(clamp(intMin())), intMin() <= numMax},
+                     {Symbol::createNum(clamp(intMax())), intMax() >= numMin}};
+        if (intMin() < numMin) {
+            rng.left = {Symbol::createInf(), false};
+        }
+        if (intMax() > numMax) {
+            rng.right = {Symbol::createId(""), false};
+        }
+        return rng;
     }
     return {{valMin(), true}, {valMax(), true}};
 }
-- 
2.43.0


From 886fcd488b2bb68063659156afad55f2224b9f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 07/32] fix: print all bounds of aggregates with inequalities

The bounds printed in text mode were wrong if an inequality was combined
with another one or if its value was not in the range of the aggregate.
---
 libgringo/src/output/literals.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/libgringo/src/output/literals.cc b/libgringo/src/output/literals.cc
index cc8e596..bc491ce 100644
--- a/libgringo/src/output/literals.cc
+++ b/libgringo/src/output/literals.cc
@@ -263,7 +263,15 @@ PlainBounds AggregateAtomRange::plainBounds() {
     // Case (c) can furthermore correspond to one or two != occurrences.
     PlainBounds cBounds;
     auto rng = range();
-    for (auto part : bounds) {
+    // Note: only parts between (and including) the ones next to the start and
+    // the end of the range matter
+    auto it = std::find_if(bounds.begin(), bounds.end(),
+                           [&rng](Interval const &part) { return rng.left < part.right; });
+    if (it != bounds.begin() && (it == bounds.end() || rng.left < it->left)) {
+        --it;
+    }
+    for (; it != bounds.end(); ++it) {
+        auto const &part = *it;
         if (rng.left < part.left) {
             // (a)
             if (cBounds.empty()) {
@@ -284,14 +292,15 @@ PlainBounds AggregateAtomRange::plainBounds() {
                 }
                 cBounds.back() = {Relation::NEQ, left};
                 if (left != right) {
-                    cBounds.back() = {Relation::NEQ, right};
+                    cBounds.emplace_back(Relation::NEQ, right);
                 }
             }
         }
-        if (part.right < rng.right) {
-            // (b)
-            cBounds.emplace_back(part.right.inclusive ? Relation::LEQ : Relation::LT, part.right.bound);
+        if (!(part.right < rng.right)) {
+            break;
         }
+        // (b)
+        cBounds.emplace_back(part.right.inclusive ? Relation::LEQ : Relation::LT, part.right.bound);
     }
     assert(cBounds.size() < 3);
     return cBounds;
-- 
2.43.0


From 72380ff73f333b50d0834cd24022ead911f5e5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 08/32] fix: assign to elements of string sequences in ASTs

The function called does not exist; any assignment raised an AttributeError.
---
 libpyclingo/clingo/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index bd02538..9e4d0c0 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -851,7 +851,7 @@ class StrSequence(abc.MutableSequence):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
         _handle_error(
-            _lib.clingo_str_attribute_set_string_at(
+            _lib.clingo_ast_attribute_set_string_at(
                 self._rep, self._attribute, index, value.encode()
             )
         )
-- 
2.43.0


From ab1a872025315c727d03c8ffc967f371664dc418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 09/32] fix: indices when modifying sequences in ASTs

Negative indices raised an OverflowError and indices past the end were passed
on unchecked, which accesses memory outside of the underlying array.
---
 libpyclingo/clingo/ast.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libpyclingo/clingo/ast.py b/libpyclingo/clingo/ast.py
index 9e4d0c0..5223024 100644
--- a/libpyclingo/clingo/ast.py
+++ b/libpyclingo/clingo/ast.py
@@ -757,6 +757,11 @@ class ASTSequence(abc.MutableSequence):
     def __setitem__(self, index, ast):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
+        size = len(self)
+        if index < 0:
+            index += size
+        if index < 0 or index >= size:
+            raise IndexError("invalid index")
         _handle_error(
             _lib.clingo_ast_attribute_set_ast_at(
                 self._rep, self._attribute, index, ast._rep
@@ -776,6 +781,10 @@ class ASTSequence(abc.MutableSequence):
         )
 
     def insert(self, index, value):
+        size = len(self)
+        if index < 0:
+            index = max(index + size, 0)
+        index = min(index, size)
         _handle_error(
             _lib.clingo_ast_attribute_insert_ast_at(
                 self._rep, self._attribute, index, value._rep
@@ -850,6 +859,11 @@ class StrSequence(abc.MutableSequence):
     def __setitem__(self, index, value):
         if isinstance(index, slice):
             raise TypeError("slicing not implemented")
+        size = len(self)
+        if index < 0:
+            index += size
+        if index < 0 or index >= size:
+            raise IndexError("invalid index")
         _handle_error(
             _lib.clingo_ast_attribute_set_string_at(
                 self._rep, self._attribute, index, value.encode()
@@ -871,6 +885,10 @@ class StrSequence(abc.MutableSequence):
         )
 
     def insert(self, index, value):
+        size = len(self)
+        if index < 0:
+            index = max(index + size, 0)
+        index = min(index, size)
         _handle_error(
             _lib.clingo_ast_attribute_insert_string_at(
                 self._rep, self._attribute, index, value.encode()
-- 
2.43.0


From 133dbaf2624a88ffefa28773f7e8373150ffae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:08 +0000
Subject: [PATCH 10/32] fix: insert into slices of sequences in ASTs

Inserting overwrote the element at the given position, and appending raised
an IndexError.
---
 libpyclingo/clingo/util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libpyclingo/clingo/util.py b/libpyclingo/clingo/util.py
index 54054e8..374970a 100644
--- a/libpyclingo/clingo/util.py
+++ b/libpyclingo/clingo/util.py
@@ -92,4 +92,13 @@ class SlicedMutableSequence(SlicedSequence, abc.MutableSequence):
         del self._mut_seq[self._rng[index]]
 
     def insert(self, index, value):
-        self._mut_seq[self._rng[index]] = value
+        rng = self._rng
+        size = len(rng)
+        if index < 0:
+            index = max(index + size, 0)
+        if index < size:
+            pos = rng[index]
+        else:
+            # insert after the last element of the slice
+            pos = rng[-1] + 1 if size > 0 else rng.start
+        self._mut_seq.insert(pos, value)
-- 
2.43.0


From 6b9e3b0f5a326ec8cd4aa03b67f037613cf3eee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 11/32] fix: use falsy context objects during grounding

---
 libpyclingo/clingo/control.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libpyclingo/clingo/control.py b/libpyclingo/clingo/control.py
index 4cc7ef7..00c0371 100644
--- a/libpyclingo/clingo/control.py
+++ b/libpyclingo/clingo/control.py
@@ -548,8 +548,8 @@ class Control:
         # pylint: disable=protected-access,dangerous-default-value
         self._error.clear()
         data = _CBData(context, self._error)
-        c_data = _ffi.new_handle(data) if context else _ffi.NULL
-        c_cb = _lib.pyclingo_ground_callback if context else _ffi.NULL
+        c_data = _ffi.new_handle(data) if context is not None else _ffi.NULL
+        c_cb = _lib.pyclingo_ground_callback if context is not None else _ffi.NULL
 
         c_mem = []
         c_parts = _ffi.new("clingo_part_t[]", len(parts))
-- 
2.43.0


From 330177e6b7fa145457450688aa8c3c83d4416191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 12/32] fix: pass step option to registered reify backends

---
 libgringo/src/output/output.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgringo/src/output/output.cc b/libgringo/src/output/output.cc
index acc3eb6..566a095 100644
--- a/libgringo/src/output/output.cc
+++ b/libgringo/src/output/output.cc
@@ -840,7 +840,7 @@ UBackend make_backend(std::unique_ptr<std::ostream> out, OutputFormat format, bo
     UBackend backend;
     switch (format) {
         case OutputFormat::REIFY: {
-            backend = gringo_make_unique<BackendAdapter<Reify::Reifier>>(std::move(out), reify_sccs, reify_sccs);
+            backend = gringo_make_unique<BackendAdapter<Reify::Reifier>>(std::move(out), reify_sccs, reify_steps);
             break;
         }
         case OutputFormat::INTERMEDIATE: {
-- 
2.43.0


From 868ea805ecc98e3edd410d16829d873042c277bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 13/32] fix: keep repeated weighted literals when reifying

---
 libreify/reify/program.hh | 2 +-
 libreify/src/program.cc   | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/libreify/reify/program.hh b/libreify/reify/program.hh
index 2efb036..3f77e35 100644
--- a/libreify/reify/program.hh
+++ b/libreify/reify/program.hh
@@ -93,7 +93,7 @@ class Reifier : public Potassco::AbstractProgram {
     Graph::Node &addNode(Atom_t atom);
 
   private:
-    using WLVec = std::vector<std::pair<Lit_t, Weight_t>>;
+    using WLVec = std::vector<std::pair<Lit_t, int64_t>>;
     struct StepData {
         std::unordered_map<std::vector<Id_t>, size_t, Hash<std::vector<Id_t>>> theoryTuples;
         std::unordered_map<std::vector<Id_t>, size_t, Hash<std::vector<Id_t>>> theoryElementTuples;
diff --git a/libreify/src/program.cc b/libreify/src/program.cc
index 5afc12f..138acfe 100644
--- a/libreify/src/program.cc
+++ b/libreify/src/program.cc
@@ -94,8 +94,15 @@ size_t Reifier::litTuple(LitSpan const &args) { return tuple(stepData_.litTuples
 size_t Reifier::weightLitTuple(WeightLitSpan const &args) {
     WLVec lits;
     lits.reserve(args.size);
+    std::unordered_map<Lit_t, size_t> seen;
     for (auto &x : args) {
-        lits.emplace_back(x.lit, x.weight);
+        // facts are sets: the weights of repeated literals have to be summed up
+        auto ret = seen.emplace(x.lit, lits.size());
+        if (ret.second) {
+            lits.emplace_back(x.lit, x.weight);
+        } else {
+            lits[ret.first->second].second += x.weight;
+        }
     }
     return tuple(stepData_.weightLitTuples, "weighted_literal_tuple", std::move(lits));
 }
-- 
2.43.0


From 5ff776b0e940cce500623948ad0597a0952bdead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 14/32] fix: report constants defined in terms of themselves

---
 libgringo/src/term.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libgringo/src/term.cc b/libgringo/src/term.cc
index 5d5257e..047482f 100644
--- a/libgringo/src/term.cc
+++ b/libgringo/src/term.cc
@@ -74,8 +74,13 @@ void Defines::init(Logger &log) {
             }
         }
     }
+    // a definition like a=a is harmless but a=f(a) is not
+    auto recursive = [](DefineGraph::Node const &x) {
+        auto const &val = *std::get<2>(x.data->second);
+        return std::find(x.begin(), x.end(), &x) != x.end() && val.isEDB() != Symbol::createId(x.data->first.c_str());
+    };
     for (auto &scc : graph.tarjan()) {
-        if (scc.size() > 1) {
+        if (scc.size() > 1 || recursive(*scc.back())) {
             std::ostringstream msg;
             msg << std::get<1>(scc.back()->data->second) << ": error: cyclic constant definition:\n"
                 << "  #const " << scc.back()->data->first << "=" << *std::get<2>(scc.back()->data->second) << ".\n";
-- 
2.43.0


From ea5fa35334dfe1074a924526fc9fcb17996e2266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 15/32] fix: keep signs when replacing constants in symbols

---
 libgringo/src/term.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/libgringo/src/term.cc b/libgringo/src/term.cc
index 047482f..a6bf87b 100644
--- a/libgringo/src/term.cc
+++ b/libgringo/src/term.cc
@@ -101,7 +101,22 @@ bool Defines::empty() const { return defs_.empty(); }
 
 void Defines::apply(Symbol x, Symbol &retVal, UTerm &retTerm, bool replace) {
     if (x.type() == SymbolType::Fun) {
-        if (x.sig().arity() > 0) {
+        if (x.sign()) {
+            // negative symbols are replaced like negated terms
+            Symbol val;
+            UTerm term;
+            apply(x.flipSign(), val, term, replace);
+            if (val.type() == SymbolType::Fun && val.name() != "") {
+                retVal = val.flipSign();
+            } else if (val.type() != SymbolType::Special || term) {
+                auto it = defs_.find(x.name());
+                auto loc = term ? term->loc() : std::get<1>(it->second);
+                if (!term) {
+                    term = make_locatable<ValTerm>(loc, val);
+                }
+                retTerm = make_locatable<UnOpTerm>(loc, UnOp::NEG, std::move(term));
+            }
+        } else if (x.sig().arity() > 0) {
             SymVec args;
             bool changed = true;
             for (std::size_t i = 0, e = x.args().size; i != e; ++i) {
-- 
2.43.0


From babfb751b4b23c773356a92bf7ffe8dcace908e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 16/32] fix: order constant definitions using nested symbols

---
 libgringo/src/term.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/libgringo/src/term.cc b/libgringo/src/term.cc
index a6bf87b..46da39c 100644
--- a/libgringo/src/term.cc
+++ b/libgringo/src/term.cc
@@ -1339,6 +1339,21 @@ bool PoolTerm::addToLinearTerm(IETermVec &terms) const {
 
 // {{{1 definition of ValTerm
 
+namespace {
+
+void collectSymbolIds(Symbol sym, Term::VarSet &vars) {
+    if (sym.type() == SymbolType::Fun) {
+        if (sym.sig().arity() == 0) {
+            vars.emplace(sym.name());
+        }
+        for (auto const &x : sym.args()) {
+            collectSymbolIds(x, vars);
+        }
+    }
+}
+
+} // namespace
+
 ValTerm::ValTerm(Symbol value) : value_(value) {}
 
 bool ValTerm::addToLinearTerm(IETermVec &terms) const {
@@ -1437,11 +1452,7 @@ UGTerm ValTerm::gterm(RenameMap &names, ReferenceMap &refs) const {
     return gringo_make_unique<GValTerm>(value_);
 }
 
-void ValTerm::collectIds(VarSet &vars) const {
-    if (value_.type() == SymbolType::Fun && value_.sig().arity() == 0) {
-        vars.emplace(value_.name());
-    }
-}
+void ValTerm::collectIds(VarSet &vars) const { collectSymbolIds(value_, vars); }
 
 UTerm ValTerm::replace(Defines &defs, bool replace) {
     Symbol retVal;
-- 
2.43.0


From 97021333c090d9ae2bbc5e8684922270ad993454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 17/32] fix: do not replace names of classically negated atoms

---
 libgringo/src/term.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgringo/src/term.cc b/libgringo/src/term.cc
index 46da39c..ecf8ace 100644
--- a/libgringo/src/term.cc
+++ b/libgringo/src/term.cc
@@ -1961,8 +1961,8 @@ UGFunTerm UnOpTerm::gfunterm(RenameMap &names, ReferenceMap &refs) const {
 void UnOpTerm::collectIds(VarSet &vars) const { arg_->collectIds(vars); }
 
 UTerm UnOpTerm::replace(Defines &defs, bool replace) {
-    static_cast<void>(replace);
-    Term::replace(arg_, arg_->replace(defs, true));
+    // the name of a classically negated atom is not a term
+    Term::replace(arg_, arg_->replace(defs, replace || op_ != UnOp::NEG));
     return nullptr;
 }
 
-- 
2.43.0


From 035c1590d8fcbb4bc0469a5721a784ab390b2175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 18/32] fix: drop theory elements with undefined conditions
 only

---
 libgringo/src/input/theory.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libgringo/src/input/theory.cc b/libgringo/src/input/theory.cc
index e41c325..e0569f0 100644
--- a/libgringo/src/input/theory.cc
+++ b/libgringo/src/input/theory.cc
@@ -309,12 +309,12 @@ bool TheoryAtom::simplify(Projections &project, SimplifyState &state, Logger &lo
     if (name_->simplify(state, false, false, log).update(name_, false).undefined()) {
         return false;
     }
-    for (auto &elem : elems_) {
-        auto elemState = SimplifyState::make_substate(state);
-        if (!elem.simplify(project, elemState, log)) {
-            return false;
-        }
-    }
+    elems_.erase(std::remove_if(elems_.begin(), elems_.end(),
+                                [&](TheoryElement &elem) {
+                                    auto elemState = SimplifyState::make_substate(state);
+                                    return !elem.simplify(project, elemState, log);
+                                }),
+                 elems_.end());
     return true;
 }
 
-- 
2.43.0


From f5e8c18f1f7cf6ca2f7f07246ddf6581df329395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 19/32] fix: do not negate smallest number in theory terms

---
 libgringo/src/output/theory.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libgringo/src/output/theory.cc b/libgringo/src/output/theory.cc
index a1ec31c..71e04e3 100644
--- a/libgringo/src/output/theory.cc
+++ b/libgringo/src/output/theory.cc
@@ -29,6 +29,7 @@
 #include "gringo/output/literals.hh"
 #include "potassco/basic_types.h"
 #include <cstring>
+#include <limits>
 #include <tuple>
 
 namespace Gringo {
@@ -485,7 +486,8 @@ Potassco::Id_t TheoryData::addTerm(Symbol value) {
     switch (value.type()) {
         case SymbolType::Num: {
             auto num = value.num();
-            if (num < 0) {
+            // NOTE: the smallest number cannot be negated
+            if (num < 0 && num != std::numeric_limits<int>::min()) {
                 auto f = addTerm("-");
                 auto ret = addTerm(-num);
                 // NOLINTNEXTLINE(cppcoreguidelines-avoid-c-arrays,modernize-avoid-c-arrays)
-- 
2.43.0


From e611591bf80dbdb2f3b89df40adcc54b094f9139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 20/32] fix: do not look ahead past the end of files

---
 libgringo/gringo/lexerstate.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libgringo/gringo/lexerstate.hh b/libgringo/gringo/lexerstate.hh
index 463ef99..380269f 100644
--- a/libgringo/gringo/lexerstate.hh
+++ b/libgringo/gringo/lexerstate.hh
@@ -158,8 +158,9 @@ template <class T> void LexerState<T>::State::fill(size_t n) {
         cursor -= shift;
     }
     size_t inc = n < bufmin ? bufmin : n;
-    if (bufsize < inc + (limit - buffer)) {
-        bufsize = inc + (limit - buffer);
+    // NOTE: there is space for a zero byte to end tokens looking ahead past the end of the file
+    if (bufsize < inc + (limit - buffer) + 1) {
+        bufsize = inc + (limit - buffer) + 1;
         // NOLINTNEXTLINE(cppcoreguidelines-owning-memory,cppcoreguidelines-no-malloc)
         auto *buf = static_cast<char *>(realloc(buffer, bufsize * sizeof(char)));
         start = buf + (start - buffer);
@@ -185,6 +186,7 @@ template <class T> void LexerState<T>::State::fill(size_t n) {
     if (read < inc) {
         eof = limit;
         *eof++ = '\n';
+        *eof = '\0';
     }
     // NOLINTEND(cppcoreguidelines-pro-bounds-pointer-arithmetic)
 }
-- 
2.43.0


From 32ffa640e29d08d1fadcba35074510f422ad7734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 21/32] fix: copy strings of theory terms when reading aspif

---
 libgringo/src/input/nongroundparser.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libgringo/src/input/nongroundparser.cc b/libgringo/src/input/nongroundparser.cc
index 8584366..d3339f5 100644
--- a/libgringo/src/input/nongroundparser.cc
+++ b/libgringo/src/input/nongroundparser.cc
@@ -759,9 +759,11 @@ void NonGroundParser::aspif_theory_(Location &loc) {
             aspif_ws_(loc);
             auto idx = aspif_unsigned_(loc);
             aspif_ws_(loc);
-            auto str = aspif_string_(loc);
+            // NOTE: the span is invalidated when reading further
+            auto span = aspif_string_(loc);
+            auto str = std::string(Potassco::begin(span), Potassco::end(span));
             aspif_nl_(loc);
-            bck_.theoryTerm(idx, str);
+            bck_.theoryTerm(idx, Potassco::toSpan(str));
             break;
         }
         case Potassco::Theory_t::Compound: {
-- 
2.43.0


From 56ec4fb291e06d0596607ee696f7e25f1dad4135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 22/32] fix: read octal numbers with zeros

---
 libgringo/src/input/groundtermlexer.xh | 2 +-
 libgringo/src/input/nongroundlexer.xch | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgringo/src/input/groundtermlexer.xh b/libgringo/src/input/groundtermlexer.xh
index 41e37f3..2a5fb63 100644
--- a/libgringo/src/input/groundtermlexer.xh
+++ b/libgringo/src/input/groundtermlexer.xh
@@ -32,7 +32,7 @@
 /*!re2c
     DEC        = "0"|([1-9][0-9]*);
     HEX        = "0x"([0-9A-Fa-f]+);
-    OCT        = "0o"([1-7]+);
+    OCT        = "0o"([0-7]+);
     BIN        = "0b"([0-1]+);
     NUMBER     = DEC | HEX | OCT | BIN;
     ANY        = [\000-\377];
diff --git a/libgringo/src/input/nongroundlexer.xch b/libgringo/src/input/nongroundlexer.xch
index af5ae76..96bdc3c 100644
--- a/libgringo/src/input/nongroundlexer.xch
+++ b/libgringo/src/input/nongroundlexer.xch
@@ -37,7 +37,7 @@
 
     DEC        = "0"|([1-9][0-9]*);
     HEX        = "0x"([0-9A-Fa-f]+);
-    OCT        = "0o"([1-7]+);
+    OCT        = "0o"([0-7]+);
     BIN        = "0b"([0-1]+);
     NUMBER     = DEC | HEX | OCT | BIN;
     ANY        = [\000-\377];
-- 
2.43.0


From a1ab4aee8fed932243ce89a38cae0cf62f14d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 23/32] fix: do not replace names of theory atoms

---
 libgringo/src/input/theory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgringo/src/input/theory.cc b/libgringo/src/input/theory.cc
index e0569f0..3149b5c 100644
--- a/libgringo/src/input/theory.cc
+++ b/libgringo/src/input/theory.cc
@@ -259,7 +259,7 @@ void TheoryAtom::unpoolComparison() {
 }
 
 void TheoryAtom::replace(Defines &x) {
-    Term::replace(name_, name_->replace(x, true));
+    Term::replace(name_, name_->replace(x, false));
     for (auto &elem : elems_) {
         elem.replace(x);
     }
-- 
2.43.0


From e3d89da232f3f37634e0688ec58a5a4c64b61a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 24/32] fix: print empty pools as a single term

---
 libclingo/src/astv2_str.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libclingo/src/astv2_str.cc b/libclingo/src/astv2_str.cc
index b07fd35..308831e 100644
--- a/libclingo/src/astv2_str.cc
+++ b/libclingo/src/astv2_str.cc
@@ -337,8 +337,7 @@ std::ostream &operator<<(std::ostream &out, AST const &ast) {
             auto const &args = get<AST::ASTVec>(ast, clingo_ast_attribute_arguments);
             if (args.empty()) {
                 out << "(1/0)";
-            }
-            if (args.size() == 1) {
+            } else if (args.size() == 1) {
                 out << args.front();
             } else {
                 bool old_ext = false;
-- 
2.43.0


From 3340834627913597ff2436662eac11c70dfafa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 25/32] fix: print elements with neither terms nor condition

---
 libclingo/src/astv2_str.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libclingo/src/astv2_str.cc b/libclingo/src/astv2_str.cc
index 308831e..85a949b 100644
--- a/libclingo/src/astv2_str.cc
+++ b/libclingo/src/astv2_str.cc
@@ -415,8 +415,9 @@ std::ostream &operator<<(std::ostream &out, AST const &ast) {
             break;
         }
         case clingo_ast_type_body_aggregate_element: {
-            out << print_list<AST::ASTVec>(ast, clingo_ast_attribute_terms, "", ",", "", false)
-                << print_list<AST::ASTVec>(ast, clingo_ast_attribute_condition, ": ", ", ", "", false);
+            auto const &terms = get<AST::ASTVec>(ast, clingo_ast_attribute_terms);
+            out << print_list<AST::ASTVec>(terms, "", ",", "", false)
+                << print_list<AST::ASTVec>(ast, clingo_ast_attribute_condition, ": ", ", ", "", terms.empty());
             break;
         }
         case clingo_ast_type_body_aggregate: {
@@ -472,8 +473,9 @@ std::ostream &operator<<(std::ostream &out, AST const &ast) {
             break;
         }
         case clingo_ast_type_theory_atom_element: {
-            out << print_list<AST::ASTVec>(ast, clingo_ast_attribute_terms, "", ",", "", false)
-                << print_list<AST::ASTVec>(ast, clingo_ast_attribute_condition, ": ", ", ", "", false);
+            auto const &terms = get<AST::ASTVec>(ast, clingo_ast_attribute_terms);
+            out << print_list<AST::ASTVec>(terms, "", ",", "", false)
+                << print_list<AST::ASTVec>(ast, clingo_ast_attribute_condition, ": ", ", ", "", terms.empty());
             break;
         }
         case clingo_ast_type_theory_atom: {
-- 
2.43.0


From 575b32dc6f4cca1fc3e090f3bb11a6b6613ae73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:23 +0000
Subject: [PATCH 26/32] fix: keep empty conditions when printing bodies

---
 libclingo/src/astv2_str.cc | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/libclingo/src/astv2_str.cc b/libclingo/src/astv2_str.cc
index 85a949b..6d5f797 100644
--- a/libclingo/src/astv2_str.cc
+++ b/libclingo/src/astv2_str.cc
@@ -239,10 +239,29 @@ PrintList<T> print_list(AST const &ast, clingo_ast_attribute_e attribute, char c
     return {get<T>(ast, attribute), pre, sep, post, empty};
 }
 
-PrintList<AST::ASTVec> print_body(AST const &ast, clingo_ast_attribute_e attribute, char const *pre = " : ") {
-    auto const &body = get<AST::ASTVec>(ast, attribute);
-    return print_list(body, body.empty() ? "" : pre, "; ", ".", true);
-}
+class print_body {
+  public:
+    print_body(AST const &ast, clingo_ast_attribute_e attribute, char const *pre = " : ")
+        : body_{get<AST::ASTVec>(ast, attribute)}, pre_{pre} {}
+
+    friend std::ostream &operator<<(std::ostream &out, print_body const &self) {
+        char const *sep = self.pre_;
+        for (auto const &lit : self.body_) {
+            out << sep << lit;
+            // the variables of a conditional literal are local even if its condition is empty
+            if (lit->type() == clingo_ast_type_conditional_literal &&
+                get<AST::ASTVec>(*lit, clingo_ast_attribute_condition).empty()) {
+                out << ": ";
+            }
+            sep = "; ";
+        }
+        return out << ".";
+    }
+
+  private:
+    AST::ASTVec const &body_;
+    char const *pre_;
+};
 
 class print {
   public:
-- 
2.43.0


From 3239ac82c941792a1dbe4858b0423d9f3f7525bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:54 +0000
Subject: [PATCH 27/32] fix: copy optional syntax trees when copying deeply

---
 libclingo/src/astv2.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libclingo/src/astv2.cc b/libclingo/src/astv2.cc
index e7e1759..7788fa6 100644
--- a/libclingo/src/astv2.cc
+++ b/libclingo/src/astv2.cc
@@ -32,6 +32,9 @@ namespace {
 struct Deepcopy {
     template <typename T> AST::Value operator()(T const &val) { return val; }
     AST::Value operator()(SAST &ast) { return ast->deepcopy(); }
+    AST::Value operator()(OAST &ast) {
+        return ast.ast.get() != nullptr ? OAST{ast.ast->deepcopy()} : OAST{SAST{nullptr}};
+    }
     AST::Value operator()(AST::ASTVec &asts) {
         AST::ASTVec ret;
         ret.reserve(asts.size());
-- 
2.43.0


From e52c370932b1ed160fc79e4a8760415faf7eca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 28/32] fix: locate theory atoms in heads as a whole

---
 libclingo/src/astv2_build.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libclingo/src/astv2_build.cc b/libclingo/src/astv2_build.cc
index 0caaed0..c1b9dee 100644
--- a/libclingo/src/astv2_build.cc
+++ b/libclingo/src/astv2_build.cc
@@ -232,7 +232,9 @@ class ASTBuilder : public Gringo::Input::INongroundProgramBuilder {
     HdLitUid headlit(LitUid litUid) override { return heads_.insert(lits_.erase(litUid)); }
 
     HdLitUid headaggr(Location const &loc, TheoryAtomUid atomUid) override {
-        return heads_.insert(theoryatoms_.erase(atomUid));
+        auto atom = theoryatoms_.erase(atomUid);
+        get<Location>(*atom, clingo_ast_attribute_location) = loc;
+        return heads_.insert(std::move(atom));
     }
 
     std::pair<AST::Value, AST::Value> guards_(BoundVecUid bounds) {
-- 
2.43.0


From dca6d670506d39c062e59d5455aaa89a333d6810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 29/32] fix: locate negated aggregates from left to right

---
 libgringo/src/input/nongroundgrammar.yy | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libgringo/src/input/nongroundgrammar.yy b/libgringo/src/input/nongroundgrammar.yy
index 9ed07fc..b53d766 100644
--- a/libgringo/src/input/nongroundgrammar.yy
+++ b/libgringo/src/input/nongroundgrammar.yy
@@ -632,10 +632,10 @@ bodycomma
     | bodycomma[body] literal[lit] SEM                        { $$ = BUILDER.bodylit($body, $lit); }
     | bodycomma[body] lubodyaggregate[aggr] COMMA             { $$ = lexer->bodyaggregate($body, @aggr, NAF::POS, $aggr); }
     | bodycomma[body] lubodyaggregate[aggr] SEM               { $$ = lexer->bodyaggregate($body, @aggr, NAF::POS, $aggr); }
-    | bodycomma[body] NOT[l] lubodyaggregate[aggr] COMMA      { $$ = lexer->bodyaggregate($body, @aggr + @l, NAF::NOT, $aggr); }
-    | bodycomma[body] NOT[l] lubodyaggregate[aggr] SEM        { $$ = lexer->bodyaggregate($body, @aggr + @l, NAF::NOT, $aggr); }
-    | bodycomma[body] NOT[l] NOT lubodyaggregate[aggr] COMMA  { $$ = lexer->bodyaggregate($body, @aggr + @l, NAF::NOTNOT, $aggr); }
-    | bodycomma[body] NOT[l] NOT lubodyaggregate[aggr] SEM    { $$ = lexer->bodyaggregate($body, @aggr + @l, NAF::NOTNOT, $aggr); }
+    | bodycomma[body] NOT[l] lubodyaggregate[aggr] COMMA      { $$ = lexer->bodyaggregate($body, @l + @aggr, NAF::NOT, $aggr); }
+    | bodycomma[body] NOT[l] lubodyaggregate[aggr] SEM        { $$ = lexer->bodyaggregate($body, @l + @aggr, NAF::NOT, $aggr); }
+    | bodycomma[body] NOT[l] NOT lubodyaggregate[aggr] COMMA  { $$ = lexer->bodyaggregate($body, @l + @aggr, NAF::NOTNOT, $aggr); }
+    | bodycomma[body] NOT[l] NOT lubodyaggregate[aggr] SEM    { $$ = lexer->bodyaggregate($body, @l + @aggr, NAF::NOTNOT, $aggr); }
     | bodycomma[body] conjunction[conj] SEM                   { $$ = BUILDER.conjunction($body, @conj, $conj.first, $conj.second); }
     |                                                         { $$ = BUILDER.body(); }
     ;
@@ -643,8 +643,8 @@ bodycomma
 bodydot
     : bodycomma[body] literal[lit] DOT                      { $$ = BUILDER.bodylit($body, $lit); }
     | bodycomma[body] lubodyaggregate[aggr] DOT             { $$ = lexer->bodyaggregate($body, @aggr, NAF::POS, $aggr); }
-    | bodycomma[body] NOT[l] lubodyaggregate[aggr] DOT      { $$ = lexer->bodyaggregate($body, @aggr + @l, NAF::NOT, $aggr); }
-    | bodycomma[body] NOT[l] NOT lubodyaggregate[aggr] DOT  { $$ = lexer->bodyaggregate($body, @aggr + @l, NAF::NOTNOT, $aggr); }
+    | bodycomma[body] NOT[l] lubodyaggregate[aggr] DOT      { $$ = lexer->bodyaggregate($body, @l + @aggr, NAF::NOT, $aggr); }
+    | bodycomma[body] NOT[l] NOT lubodyaggregate[aggr] DOT  { $$ = lexer->bodyaggregate($body, @l + @aggr, NAF::NOTNOT, $aggr); }
     | bodycomma[body] conjunction[conj] DOT                 { $$ = BUILDER.conjunction($body, @conj, $conj.first, $conj.second); }
     ;
 
-- 
2.43.0


From a1f6cb98aec11a78d81c216021d517432f3d0e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 30/32] fix: keep signatures with large arities in place

Signatures with 65535 or more arguments refer to an entry of a hash set, which
moved whenever the set grew.
---
 libgringo/src/symbol.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libgringo/src/symbol.cc b/libgringo/src/symbol.cc
index 0da667d..de4ac49 100644
--- a/libgringo/src/symbol.cc
+++ b/libgringo/src/symbol.cc
@@ -27,6 +27,7 @@
 #include <gringo/hash_set.hh>
 #include <gringo/symbol.hh>
 #include <iterator>
+#include <memory>
 #include <mutex>
 
 #ifdef _MSC_VER
@@ -122,20 +123,21 @@ class MSig {
         }
     };
 
-    explicit MSig(Cons const &cons, size_t hash) : sig_{cons.first, cons.second}, hash_{hash} {}
+    explicit MSig(Cons const &cons, size_t hash) : sig_{gringo_make_unique<Cons>(cons)}, hash_{hash} {}
 
-    Cons const &as_sig() const { return sig_; }
+    Cons const &as_sig() const { return *sig_; }
 
   private:
-    static String name(MSig const &a) { return a.sig_.first; }
+    static String name(MSig const &a) { return a.sig_->first; }
 
     static String name(Cons const &a) { return a.first; }
 
-    static uint32_t arity(MSig const &a) { return a.sig_.second; }
+    static uint32_t arity(MSig const &a) { return a.sig_->second; }
 
     static uint32_t arity(Cons const &a) { return a.second; }
 
-    std::pair<String, uint32_t> sig_;
+    // NOTE: signatures refer to the pair, which must not move with the set
+    std::unique_ptr<Cons> sig_;
     size_t hash_;
 };
 
-- 
2.43.0


From 8468d0c5f907a8a3368777cde732a2b4f415c9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 31/32] fix: refuse positions outside of arrays of syntax trees

Setting, deleting, and inserting elements at positions behind the last one
wrote outside of the array.
---
 libclingo/src/control.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libclingo/src/control.cc b/libclingo/src/control.cc
index 41b9b06..b6179c1 100644
--- a/libclingo/src/control.cc
+++ b/libclingo/src/control.cc
@@ -1732,7 +1732,7 @@ extern "C" bool clingo_ast_attribute_get_string_at(clingo_ast_t *ast, clingo_ast
 
 extern "C" bool clingo_ast_attribute_set_string_at(clingo_ast_t *ast, clingo_ast_attribute_t attribute, size_t index,
                                                    char const *value) {
-    GRINGO_CLINGO_TRY { get_attr<Input::AST::StrVec>(ast, attribute)[index] = value; }
+    GRINGO_CLINGO_TRY { get_attr<Input::AST::StrVec>(ast, attribute).at(index) = value; }
     GRINGO_CLINGO_CATCH;
 }
 
@@ -1740,6 +1740,9 @@ extern "C" bool clingo_ast_attribute_delete_string_at(clingo_ast_t *ast, clingo_
                                                       size_t index) {
     GRINGO_CLINGO_TRY {
         auto &arr = get_attr<Input::AST::StrVec>(ast, attribute);
+        if (index >= arr.size()) {
+            throw std::out_of_range("index out of range");
+        }
         arr.erase(arr.begin() + index);
     }
     GRINGO_CLINGO_CATCH;
@@ -1755,6 +1758,9 @@ extern "C" bool clingo_ast_attribute_insert_string_at(clingo_ast_t *ast, clingo_
                                                       char const *value) {
     GRINGO_CLINGO_TRY {
         auto &arr = get_attr<Input::AST::StrVec>(ast, attribute);
+        if (index > arr.size()) {
+            throw std::out_of_range("index out of range");
+        }
         arr.insert(arr.begin() + index, value);
     }
     GRINGO_CLINGO_CATCH;
@@ -1775,7 +1781,7 @@ extern "C" bool clingo_ast_attribute_set_ast_at(clingo_ast_t *ast, clingo_ast_at
         if (value == nullptr) {
             throw std::runtime_error("ast must not be null");
         }
-        get_attr<Input::AST::ASTVec>(ast, attribute)[index] = Input::SAST{reinterpret_cast<Input::AST *>(value)};
+        get_attr<Input::AST::ASTVec>(ast, attribute).at(index) = Input::SAST{reinterpret_cast<Input::AST *>(value)};
     }
     GRINGO_CLINGO_CATCH;
 }
@@ -1783,6 +1789,9 @@ extern "C" bool clingo_ast_attribute_set_ast_at(clingo_ast_t *ast, clingo_ast_at
 extern "C" bool clingo_ast_attribute_delete_ast_at(clingo_ast_t *ast, clingo_ast_attribute_t attribute, size_t index) {
     GRINGO_CLINGO_TRY {
         auto &arr = get_attr<Input::AST::ASTVec>(ast, attribute);
+        if (index >= arr.size()) {
+            throw std::out_of_range("index out of range");
+        }
         arr.erase(arr.begin() + index);
     }
     GRINGO_CLINGO_CATCH;
@@ -1800,6 +1809,9 @@ extern "C" bool clingo_ast_attribute_insert_ast_at(clingo_ast_t *ast, clingo_ast
             throw std::runtime_error("ast must not be null");
         }
         auto &arr = get_attr<Input::AST::ASTVec>(ast, attribute);
+        if (index > arr.size()) {
+            throw std::out_of_range("index out of range");
+        }
         arr.insert(arr.begin() + index, Input::SAST{reinterpret_cast<Input::AST *>(value)});
     }
     GRINGO_CLINGO_CATCH;
-- 
2.43.0


From 007a2e93f6ca7444c47a0fae270488eb62c5d761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 32/32] fix: report options without description

The check looked at the address of the result instead of the result.
---
 libclingo/src/control.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo/src/control.cc b/libclingo/src/control.cc
index b6179c1..2b4c5f4 100644
--- a/libclingo/src/control.cc
+++ b/libclingo/src/control.cc
@@ -1057,7 +1057,7 @@ extern "C" bool clingo_configuration_description(clingo_configuration_t const *c
                                                  char const **ret) {
     GRINGO_CLINGO_TRY {
         conf->getKeyInfo(key, nullptr, nullptr, ret, nullptr);
-        if (!ret) {
+        if (!*ret) {
             throw std::runtime_error("no description");
         }
     }
-- 
2.43.0

