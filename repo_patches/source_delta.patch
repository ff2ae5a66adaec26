From dfaa7fd5a6aaa97299c974de6608f0fe5589eb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 01/32] fix: real-minus-complex, real-over-complex and mixed
 comparisons handle the imaginary part

---
 src/CommonHeader.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/CommonHeader.cpp b/src/CommonHeader.cpp
index bf6ac3c..6208752 100644
--- a/src/CommonHeader.cpp
+++ b/src/CommonHeader.cpp
@@ -33,7 +33,7 @@
 
   // Subtraction (Type and complex number)
   Type operator-(Real val, const Type &cmx) {
-    return {val - cmx.real(), cmx.imag()};
+    return {val - cmx.real(), -cmx.imag()};
   }
 
   Type operator-(const Type &cmx, Real val) {
@@ -51,8 +51,7 @@
 
   // Division (Type and complex number)
   Type operator/(Real val, const Type &cmx) {
-    Real abs_sq = (cmx * cmx).real();
-    return {(val * cmx.real()) / abs_sq, (-1 * val * cmx.imag()) / abs_sq};
+    return Type(val) / cmx;
   }
 
   Type operator/(const Type &cmx, Real val) {
@@ -61,19 +60,19 @@
 
   // Not equal (Type and complex number)
   bool operator!=(const Type &cmx, Real val) {
-    return !(cmx.real() == val && cmx.imag() == val);
+    return !(cmx.real() == val && cmx.imag() == (Real)(0));
   }
 
   bool operator!=(Real val, const Type &cmx) {
-    return !(cmx.real() == val && cmx.imag() == val);
+    return !(cmx.real() == val && cmx.imag() == (Real)(0));
   }
 
   // Equal (Type and complex number)
   bool operator==(const Type &cmx, Real val) {
-    return (cmx.real() == val && cmx.imag() == val);
+    return (cmx.real() == val && cmx.imag() == (Real)(0));
   }
 
   bool operator==(Real val, const Type &cmx) {
-    return (cmx.real() == val && cmx.imag() == val);
+    return (cmx.real() == val && cmx.imag() == (Real)(0));
   }
 #endif
-- 
2.43.0


From d06f0b550898602af2c02f37ce20c9685fc3aeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 02/32] fix: symbolic value of number/expression keeps the
 number

---
 include/Scalar/BinaryOps/GenericDiv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Scalar/BinaryOps/GenericDiv.hpp b/include/Scalar/BinaryOps/GenericDiv.hpp
index 7893f31..9a22fef 100644
--- a/include/Scalar/BinaryOps/GenericDiv.hpp
+++ b/include/Scalar/BinaryOps/GenericDiv.hpp
@@ -257,7 +257,7 @@ public:
   V_OVERRIDE(Variable* symEval()) {
     // Evaluate variable in run-time
     if (nullptr == this->mp_tmp) {
-      auto tmp = Allocate<Expression>((Type)(1) / (EVAL_R()));
+      auto tmp = Allocate<Expression>(mp_left / (EVAL_R()));
       this->mp_tmp = tmp.get();
     }
     return this->mp_tmp;
-- 
2.43.0


From d91b12bfaf07f4d5ad6921748880fe234f1987f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 03/32] fix: power derivatives at vanishing and negative bases
 with constant exponents

---
 include/Scalar/BinaryOps/GenericPow.hpp | 58 ++++++++++++++++++-------
 1 file changed, 42 insertions(+), 16 deletions(-)

diff --git a/include/Scalar/BinaryOps/GenericPow.hpp b/include/Scalar/BinaryOps/GenericPow.hpp
index 65b40cb..8a1b23c 100644
--- a/include/Scalar/BinaryOps/GenericPow.hpp
+++ b/include/Scalar/BinaryOps/GenericPow.hpp
@@ -24,6 +24,21 @@
 #include "IVariable.hpp"
 #include "Variable.hpp"
 
+// Power and its slope with respect to the base, also at a vanishing base
+namespace CoolDiff {
+  namespace TensorR1 {
+    namespace Details {
+      inline Type PowValue(const Type& u, const Type& v) {
+        return ((v == (Type)(0)) ? (Type)(1) : (Type)(std::pow(u, v)));
+      }
+
+      inline Type PowSlope(const Type& u, const Type& v) {
+        return ((v == (Type)(0)) ? (Type)(0) : (Type)(v * PowValue(u, v - (Type)(1))));
+      }
+    }
+  }
+}
+
 // Left/right side is an expression
 template <typename T1, typename T2, typename... Callables>
 class GenericPow : public IVariable<GenericPow<T1, T2, Callables...>> {
@@ -67,8 +82,13 @@ public:
   V_OVERRIDE(Variable* symDeval(const Variable& var)) {
     // Static derivative computation
     if (auto it = this->mp_dtmp.find(var.m_nidx); it == this->mp_dtmp.end()) {
-      auto tmp = Allocate<Expression>(pow(EVAL_L(), EVAL_R()) * (((EVAL_R() / EVAL_L()) * DEVAL_L(var)) + (DEVAL_R(var) * log(EVAL_L()))));
-      this->mp_dtmp[var.m_nidx] = tmp.get();
+      if constexpr (true == std::is_same_v<T2, Parameter>) {
+        auto tmp = Allocate<Expression>(EVAL_R() * pow(EVAL_L(), EVAL_R() - (Type)(1)) * DEVAL_L(var));
+        this->mp_dtmp[var.m_nidx] = tmp.get();
+      } else {
+        auto tmp = Allocate<Expression>(pow(EVAL_L(), EVAL_R()) * (((EVAL_R() / EVAL_L()) * DEVAL_L(var)) + (DEVAL_R(var) * log(EVAL_L()))));
+        this->mp_dtmp[var.m_nidx] = tmp.get();
+      }
     }
     return this->mp_dtmp[var.m_nidx];
   }
@@ -78,17 +98,18 @@ public:
     // Returned evaluation
     const Type u = mp_left->eval();
     const Type v = mp_right->eval();
-    return (Type)(std::pow(u, v));
+    return CoolDiff::TensorR1::Details::PowValue(u, v);
   }
 
   // Deval in run-time for forward derivative
   V_OVERRIDE(Type devalF(const Variable& var)) {
-    // Return derivative of pow: pow(u,v)*(ud*v/u + vd*log(u))
+    // Return derivative of pow: v*pow(u,v-1)*ud + pow(u,v)*vd*log(u)
     const Type du = mp_left->devalF(var);
     const Type dv = mp_right->devalF(var);
     const Type v = mp_right->eval();
     const Type u = mp_left->eval();
-    return ((Type)(std::pow(u, v) * (((v / u) * du) + (dv * log(u)))));
+    const Type dbase = CoolDiff::TensorR1::Details::PowSlope(u, v) * du;
+    return ((dv == (Type)(0)) ? dbase : (Type)(dbase + (CoolDiff::TensorR1::Details::PowValue(u, v) * (dv * log(u)))));
   }
 
   // Traverse run-time
@@ -115,8 +136,8 @@ public:
       /* IMPORTANT: The derivative is computed here */
       const Type v = mp_right->eval();
       const Type u = mp_left->eval();
-      const Type pw = (Type)std::pow(u, v);
-      const Type du = ((v / u) * pw);
+      const Type pw = CoolDiff::TensorR1::Details::PowValue(u, v);
+      const Type du = CoolDiff::TensorR1::Details::PowSlope(u, v);
       const Type dv = (log(u) * pw);
       (*cache)[mp_left->m_nidx] += du;
       (*cache)[mp_right->m_nidx] += dv;
@@ -155,8 +176,8 @@ public:
       /* IMPORTANT: The derivative is computed here */
       const Type v = mp_right->eval();
       const Type u = mp_left->eval();
-      const Type pw = (Type)std::pow(u, v);
-      const Type vstar = (((v / u) * pw) * cCache);
+      const Type pw = CoolDiff::TensorR1::Details::PowValue(u, v);
+      const Type vstar = (CoolDiff::TensorR1::Details::PowSlope(u, v) * cCache);
       const Type ustar = ((log(u) * pw) * cCache);
       (*cache)[mp_left->m_nidx] += (vstar);
       (*cache)[mp_right->m_nidx] += (ustar);
@@ -281,7 +302,7 @@ public:
     // Return derivative of pow: pow(u,v)*vd*log(u)
     const Type dv = mp_right->devalF(var);
     const Type v = mp_right->eval();
-    return ((Type)(std::pow(mp_left, v) * dv * log(mp_left)));
+    return ((dv == (Type)(0)) ? (Type)(0) : (Type)(std::pow(mp_left, v) * dv * log(mp_left)));
   }
 
   // Traverse run-time
@@ -418,8 +439,13 @@ public:
   V_OVERRIDE(Variable* symDeval(const Variable& var)) {
     // Static derivative computation
     if (auto it = this->mp_dtmp.find(var.m_nidx); it == this->mp_dtmp.end()) {
-      auto tmp = Allocate<Expression>((mp_right * pow(EVAL_L(), mp_right - (Type)(1)) * DEVAL_L(var)));
-      this->mp_dtmp[var.m_nidx] = tmp.get();
+      if (mp_right == (Type)(0)) {
+        auto tmp = Allocate<Expression>(mp_right * DEVAL_L(var));
+        this->mp_dtmp[var.m_nidx] = tmp.get();
+      } else {
+        auto tmp = Allocate<Expression>((mp_right * pow(EVAL_L(), mp_right - (Type)(1)) * DEVAL_L(var)));
+        this->mp_dtmp[var.m_nidx] = tmp.get();
+      }
     }
     return this->mp_dtmp[var.m_nidx];
   }
@@ -428,7 +454,7 @@ public:
   V_OVERRIDE(Type eval()) {
     // Returned evaluation
     const Type u = mp_left->eval();
-    return ((Type)std::pow(u, mp_right));
+    return CoolDiff::TensorR1::Details::PowValue(u, mp_right);
   }
 
   // Deval in run-time for forward derivative
@@ -436,7 +462,7 @@ public:
     // Return derivative of pow: v*pow(u,v-1)*du
     const Type du = mp_left->devalF(var);
     const Type u = mp_left->eval();
-    return (mp_right * (Type)(std::pow(u, mp_right - (Type)(1)) * du));
+    return (CoolDiff::TensorR1::Details::PowSlope(u, mp_right) * du);
   }
 
   // Traverse run-time
@@ -458,7 +484,7 @@ public:
 
       /* IMPORTANT: The derivative is computed here */
       const Type u = mp_left->eval();
-      const Type du = (mp_right * (Type)(std::pow(u, mp_right - (Type)(1))));
+      const Type du = CoolDiff::TensorR1::Details::PowSlope(u, mp_right);
       (*cache)[mp_left->m_nidx] += du;
 
       // Modify cache for left node
@@ -482,7 +508,7 @@ public:
       /* IMPORTANT: The derivative is computed here */
       const Type u = mp_left->eval();
       const Type ustar =
-          (mp_right * (Type)std::pow(u, mp_right - (Type)1)) * cCache;
+          CoolDiff::TensorR1::Details::PowSlope(u, mp_right) * cCache;
       (*cache)[mp_left->m_nidx] += (ustar);
 
       // Modify cache for left node
-- 
2.43.0


From d1339ae2bcbd612bf9311d86c0349eaff55e0e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 04/32] fix: assigning a parameter to a parameter copies its
 value

---
 src/Scalar/Parameter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Scalar/Parameter.cpp b/src/Scalar/Parameter.cpp
index 33c5487..5d0c607 100644
--- a/src/Scalar/Parameter.cpp
+++ b/src/Scalar/Parameter.cpp
@@ -26,6 +26,7 @@
 void Parameter::swap(Parameter& other) noexcept {
   std::swap(m_nidx, other.m_nidx);
   std::swap(m_cache, other.m_cache);
+  std::swap(mp_tmp, other.mp_tmp);
 }
 
 // Constructors
@@ -54,12 +55,20 @@ Parameter::Parameter(Parameter&& s) noexcept :  m_nidx{std::exchange(s.m_nidx, -
 
 // Copy assignment
 Parameter& Parameter::operator=(const Parameter& s) {
+  // Live expressions refer to the storage of this parameter: copy the value
+  if (nullptr != this->mp_tmp && nullptr != s.mp_tmp) {
+    return (*this = s.mp_tmp->getValue());
+  }
   Parameter{s}.swap(*this);
   return *this;
 }
 
 // Move assignment
 Parameter& Parameter::operator=(Parameter&& s) noexcept {
+  // Live expressions refer to the storage of this parameter: copy the value
+  if (nullptr != this->mp_tmp && nullptr != s.mp_tmp) {
+    return (*this = s.mp_tmp->getValue());
+  }
   Parameter{std::move(s)}.swap(*this);
   return *this;
 }
-- 
2.43.0


From f70b7cfdd0fd9f4d1fa1acd9129c30daac89481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 05/32] fix: queries reset every shared sub-expression, not
 only those below visited nodes

---
 include/CommonHeader.hpp                        | 17 +++++++++++++++++
 include/Matrix/CommonMatFunctions.hpp           |  6 ++++++
 .../Matrix/MatrixInterface/MatrixVirtuals.ipp   |  3 ++-
 src/Scalar/Variable.cpp                         |  4 +++-
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/CommonHeader.hpp b/include/CommonHeader.hpp
index fd8c541..764809d 100644
--- a/include/CommonHeader.hpp
+++ b/include/CommonHeader.hpp
@@ -22,6 +22,7 @@
 #pragma once
 
 #include <algorithm>
+#include <atomic>
 #include <cassert>
 #include <chrono>
 #include <cmath>
@@ -369,6 +370,22 @@ class CommonHeader {
   protected:
     // Index counter (A counter to count the number of matrix/scalar operations)
     inline static size_t m_idx_count{0};
+
+    // Reset passes: every query starts one, and it reaches each shared node exactly once
+    inline static std::atomic<size_t> m_pass_count{0};
+    inline static thread_local size_t m_pass{0};
+    size_t m_last_pass{0};
+
+    // Is it the first time that the current reset pass reaches this node?
+    bool isFirstInPass() {
+      return (std::exchange(m_last_pass, m_pass) != m_pass);
+    }
+
+  public:
+    // Start a new reset pass
+    static void startResetPass() {
+      m_pass = ++m_pass_count;
+    }
 };
 
 // Useful macros for Generic unary/binary operators
diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index a77275f..23d554d 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -48,11 +48,13 @@ namespace CoolDiff {
     inline Matrix<Type>& Eval(IMatrix<T>& Mexp) {
       if constexpr(true == std::is_same_v<T, Expression>) {
         // Reset graph/tree
+        CommonHeader::startResetPass();
         Mexp.resetImpl();
         // Return evaluation value
         return *(Mexp.eval());
       } else {
         // Reset graph/tree
+        CommonHeader::startResetPass();
         Mexp.reset();
         // Return evaluation value
         return *(Mexp.eval());
@@ -64,11 +66,13 @@ namespace CoolDiff {
     inline Matrix<Type>& DevalF(IMatrix<T>& Mexp, Matrix<Variable>& X) {
       if constexpr(true == std::is_same_v<T, Expression>) {
         // Reset graph/tree
+        CommonHeader::startResetPass();
         Mexp.resetImpl();
         // Return evaluation value
         return *(Mexp.devalF(X));
       } else {
         // Reset graph/tree
+        CommonHeader::startResetPass();
         Mexp.reset();
         // Return evaluation value
         return *(Mexp.devalF(X));
@@ -80,11 +84,13 @@ namespace CoolDiff {
     inline void PreComp(Matrix<T>& Mexp) {
       if constexpr(true == std::is_same_v<T, Expression>) {
         // Reset graph/tree
+        CommonHeader::startResetPass();
         Mexp.resetImpl();
         // Return evaluation value
         Mexp.traverse();
       } else {
         // Reset graph/tree
+        CommonHeader::startResetPass();
         Mexp.reset();
         // Return evaluation value
         Mexp.traverse();
diff --git a/include/Matrix/MatrixInterface/MatrixVirtuals.ipp b/include/Matrix/MatrixInterface/MatrixVirtuals.ipp
index 899749c..8416b3c 100644
--- a/include/Matrix/MatrixInterface/MatrixVirtuals.ipp
+++ b/include/Matrix/MatrixInterface/MatrixVirtuals.ipp
@@ -131,7 +131,8 @@ OMMatPair& Matrix<T>::getCache() {
 // Reset all visited flags
 template<typename T>
 void Matrix<T>::reset() {
-    if (true == this->m_visited) {
+    // A node that was not visited may still have visited nodes below it
+    if (true == this->isFirstInPass()) {
         this->m_visited = false;
         // Reset states
         m_eval = false;
diff --git a/src/Scalar/Variable.cpp b/src/Scalar/Variable.cpp
index e6309a5..0db7020 100644
--- a/src/Scalar/Variable.cpp
+++ b/src/Scalar/Variable.cpp
@@ -116,6 +116,7 @@ Type Variable::getdValue() const {
 }
 
 void Variable::resetImpl() {
+  CommonHeader::startResetPass();
   this->m_visited = true;
   // Reset states
   std::for_each(EXECUTION_SEQ m_gh_vec.begin(), m_gh_vec.end(), [](auto* item) {
@@ -249,7 +250,8 @@ OMPair& Variable::getCache() {
 
 // Reset
 void Variable::reset() {
-  if (true == this->m_visited) {
+  // A node that was not visited may still have visited nodes below it
+  if (true == this->isFirstInPass()) {
     this->m_visited = false;
     // Reset states
     std::for_each(EXECUTION_SEQ m_gh_vec.begin(), m_gh_vec.end(),
-- 
2.43.0


From 8b3c663dbc50a8e9754e303170ee634a0427a365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 06/32] fix: an enclosing query keeps the gradient table of a
 sub-expression

---
 src/Scalar/Variable.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/Scalar/Variable.cpp b/src/Scalar/Variable.cpp
index 0db7020..817bd0e 100644
--- a/src/Scalar/Variable.cpp
+++ b/src/Scalar/Variable.cpp
@@ -268,10 +268,8 @@ void Variable::reset() {
   setValue(*m_value_var);
   setdValue((Type)0);
 
-  // Empty cache
-  if (false == m_cache.empty()) {
-    m_cache.clear();
-  }
+  // The cache stays: it holds the outcome of this expression's own PreComp and
+  // is replaced by the next traverse, not by a query on an enclosing expression
 
   // Reset mp_tmp and mp_dtmp
   MetaVariable::resetTemp();
-- 
2.43.0


From 8df171749b550d8b35a431bbd949ff405bd23fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 07/32] fix: symbolic derivatives follow a redefinition of a
 sub-expression

---
 include/CommonHeader.hpp        | 8 ++++++++
 include/Scalar/Expression.hpp   | 1 +
 include/Scalar/MetaVariable.hpp | 2 ++
 src/Scalar/Expression.cpp       | 4 ++--
 src/Scalar/MetaVariable.cpp     | 7 +++++++
 src/Scalar/Parameter.cpp        | 6 ++++--
 src/Scalar/Variable.cpp         | 2 ++
 7 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/CommonHeader.hpp b/include/CommonHeader.hpp
index 764809d..e201336 100644
--- a/include/CommonHeader.hpp
+++ b/include/CommonHeader.hpp
@@ -381,11 +381,19 @@ class CommonHeader {
       return (std::exchange(m_last_pass, m_pass) != m_pass);
     }
 
+    // Definitions: symbolic temporaries are outdated once an expression or variable is redefined
+    inline static std::atomic<size_t> m_definition_count{0};
+
   public:
     // Start a new reset pass
     static void startResetPass() {
       m_pass = ++m_pass_count;
     }
+
+    // An expression or variable is redefined
+    static void startDefinition() {
+      ++m_definition_count;
+    }
 };
 
 // Useful macros for Generic unary/binary operators
diff --git a/include/Scalar/Expression.hpp b/include/Scalar/Expression.hpp
index 8b571f0..593eb87 100644
--- a/include/Scalar/Expression.hpp
+++ b/include/Scalar/Expression.hpp
@@ -56,6 +56,7 @@ public:
   // Copy assignment for expression evaluation - e.g.Variable x = x1 + x2 + x3;
   template <typename T> 
   Expression& operator=(const IVariable<T>& expr) {
+    CommonHeader::startDefinition();
     if (auto rec = static_cast<const T&>(expr).findMe(this); rec == false) {
       m_gh_vec.clear();
     } else {
diff --git a/include/Scalar/MetaVariable.hpp b/include/Scalar/MetaVariable.hpp
index b372c98..a462a5d 100644
--- a/include/Scalar/MetaVariable.hpp
+++ b/include/Scalar/MetaVariable.hpp
@@ -28,6 +28,8 @@ protected:
   // Value and derivative temporaries for symbolic differentiation
   Variable* mp_tmp{nullptr};
   UnOrderedMap<size_t, Variable*> mp_dtmp;
+  // Definition count at which the temporaries were last known to be valid
+  size_t m_tmp_definition{0};
 
   // Reset temporaries
   void resetTemp();
diff --git a/src/Scalar/Expression.cpp b/src/Scalar/Expression.cpp
index d83fa4c..d894a44 100644
--- a/src/Scalar/Expression.cpp
+++ b/src/Scalar/Expression.cpp
@@ -41,6 +41,7 @@ Expression::Expression(const Expression& expr) {
 }
 
 Expression& Expression::operator=(const Expression& expr) {
+  CommonHeader::startDefinition();
   if(auto rec = static_cast<const Expression&>(expr).findMe(this); rec == false) {
     m_gh_vec.clear();
   } else {
@@ -57,8 +58,7 @@ bool Expression::isRecursive() const {
 }
 
 Expression& Expression::SymDiff(const Variable& var) {
-  auto tmp = Allocate<Expression>();
-  *tmp = Variable::SymDiff(var);
+  auto tmp = Allocate<Expression>(Variable::SymDiff(var));
   return *tmp;
 }
 
diff --git a/src/Scalar/MetaVariable.cpp b/src/Scalar/MetaVariable.cpp
index 3836dc1..7ca0149 100644
--- a/src/Scalar/MetaVariable.cpp
+++ b/src/Scalar/MetaVariable.cpp
@@ -24,6 +24,13 @@
 
 // Reset value and derivative temporaries
 void MetaVariable::resetTemp() {
+  // Drop temporaries that were derived from outdated definitions
+  if (const size_t count = m_definition_count; m_tmp_definition != count) {
+    m_tmp_definition = count;
+    this->mp_tmp = nullptr;
+    this->mp_dtmp.clear();
+  }
+
   // Reset value temporaries
   if (nullptr != this->mp_tmp) {
     this->mp_tmp->reset();
diff --git a/src/Scalar/Parameter.cpp b/src/Scalar/Parameter.cpp
index 5d0c607..254aeea 100644
--- a/src/Scalar/Parameter.cpp
+++ b/src/Scalar/Parameter.cpp
@@ -85,8 +85,10 @@ Type Parameter::eval() {
 }
 
 void Parameter::reset() {
-  // Reset temporaries
-  MetaVariable::resetTemp();
+  // Reset the underlying variable (It is the storage, not a temporary)
+  if (nullptr != this->mp_tmp) {
+    this->mp_tmp->reset();
+  }
   return;
 }
 
diff --git a/src/Scalar/Variable.cpp b/src/Scalar/Variable.cpp
index 817bd0e..ede7c08 100644
--- a/src/Scalar/Variable.cpp
+++ b/src/Scalar/Variable.cpp
@@ -88,12 +88,14 @@ Variable::Variable(Variable&& exp) noexcept : m_nidx{std::exchange(exp.m_nidx, -
 
 // Copy assignment from one variable to another
 Variable& Variable::operator=(const Variable& exp) {
+  CommonHeader::startDefinition();
   // Copy-swap idiom
   Variable{exp}.swap(*this);
   return *this;
 }
 
 Variable& Variable::operator=(Variable&& exp) noexcept {
+  CommonHeader::startDefinition();
   // Copy-swap idiom
   Variable{std::move(exp)}.swap(*this);
   return *this;
-- 
2.43.0


From 4c2b6bb9a5de852fe3719c3ec0b1f0372d342c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 08/32] fix: naive transpose no longer conjugates complex
 entries

---
 .../NaiveCPU/MatDervTransposeNaiveHandler.hpp               | 6 +-----
 .../MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp   | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp
index dd73e07..141f851 100644
--- a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatDervTransposeNaiveHandler.hpp
@@ -56,11 +56,7 @@ class MatDervTransposeNaiveHandler : public T {
                               // Inner Row and column index
                               const size_t m = (n2 % ncols_x);
                               const size_t l = ((n2 - m) / ncols_x);
-                              #if defined(USE_COMPLEX_MATH)
-                                (*result)(l + (j * nrows_x), m + (i * ncols_x)) = std::conj((*rhs)(l + (i * nrows_x), m + (j * ncols_x)));
-                              #else
-                                (*result)(l + (j * nrows_x), m + (i * ncols_x)) = (*rhs)(l + (i * nrows_x), m + (j * ncols_x));
-                              #endif
+                              (*result)(l + (j * nrows_x), m + (i * ncols_x)) = (*rhs)(l + (i * nrows_x), m + (j * ncols_x));
               });
         });
       }
diff --git a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp
index 6d79778..fdb0531 100644
--- a/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixTranspose/NaiveCPU/MatTransposeNaiveHandler.hpp
@@ -44,11 +44,7 @@
           // Row and column index
           const size_t j = (n % ncols);
           const size_t i = ((n - j) / ncols);
-          #if defined(USE_COMPLEX_MATH)
-              (*result)(j, i) = std::conj((*rhs)(i, j));
-          #else
-              (*result)(j, i) = (*rhs)(i, j);
-          #endif
+          (*result)(j, i) = (*rhs)(i, j);
         });
       }
 };
\ No newline at end of file
-- 
2.43.0


From 43f1f0710d8dbebe9f91b764d9e9920cd3b7c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 09/32] fix: naive Kronecker product writes the blocks of zero
 entries

---
 .../NaiveCPU/MatKronNaiveHandler.hpp              | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp
index 432a592..9619ad0 100644
--- a/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixKronProduct/NaiveCPU/MatKronNaiveHandler.hpp
@@ -53,14 +53,13 @@ class MatKronNaiveHandler : public T {
           const size_t i = ((n1 - j) / lc);
           Type val = (*lhs)(i, j);
 
-          if ((Type)(0) != val) {
-            std::for_each(EXECUTION_PAR rhs_idx.begin(), rhs_idx.end(),
-                [&](const size_t n2) {
-                  const size_t m = (n2 % rc);
-                  const size_t l = ((n2 - m) / rc);
-                  (*result)((i * rr) + l, (j * rc) + m) = ((*rhs)(l, m) * val);
-                });
-          }
+          // Zero entries are written as well, as the result matrix may be reused
+          std::for_each(EXECUTION_PAR rhs_idx.begin(), rhs_idx.end(),
+              [&](const size_t n2) {
+                const size_t m = (n2 % rc);
+                const size_t l = ((n2 - m) / rc);
+                (*result)((i * rr) + l, (j * rc) + m) = ((*rhs)(l, m) * val);
+              });
         });
 
         return;
-- 
2.43.0


From c98c3cbbfec88b63e0d64972a162a2793be45734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 10/32] fix: reverse derivative of an unused matrix has the
 shape of that matrix

---
 include/Matrix/CommonMatFunctions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index 23d554d..25d0bf9 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -102,7 +102,7 @@ namespace CoolDiff {
                                                                   std::is_base_of_v<MetaVariable, U>  ||
                                                                   std::is_base_of_v<MetaMatrix, T>>>
     inline Matrix<Type>& DevalR(T& Mexp, const U& X) {
-      if constexpr(true == std::is_base_of_v<U, MetaMatrix>) {
+      if constexpr(true == std::is_base_of_v<MetaMatrix, U>) {
         const size_t nrows = X.getNumRows();
         const size_t ncols = X.getNumColumns();
         if(auto it = Mexp.getCache().find(X.m_nidx); it != Mexp.getCache().end()) {
-- 
2.43.0


From fe20cbef4d141ffaea4dbd9c0790b30d36b88870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 11/32] fix: derivative of a variable matrix with respect to
 itself clears its reused result

---
 include/Matrix/MatrixInterface/MatrixUtils.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index cf83119..94deb56 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -141,6 +141,8 @@ void Matrix<T>::setDevalF(const Matrix<Variable>& X) {
 
             // Vector of indices in X matrix
             const auto idx = CoolDiff::Common::Range<size_t>(0, X.getNumElem());
+            // The result matrix is reused, so clear what an earlier derivative left
+            std::fill_n(EXECUTION_PAR mp_dresult->getMatrixPtr(), mp_dresult->getNumElem(), (Type)(0));
             // Logic for Kronecker product (With ones)
             std::for_each(EXECUTION_PAR idx.begin(), idx.end(),
                     [this, xrows, xcols](const size_t n) {
-- 
2.43.0


From 0c8653d6c570e0f3ba503e4b19d79ac46d1e9714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 12/32] fix: vec leaves its operand's result alone and keeps
 the derivative layout

---
 include/Matrix/UnaryOps/GenericMatVec.hpp | 32 ++++++++++++++---------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/Matrix/UnaryOps/GenericMatVec.hpp b/include/Matrix/UnaryOps/GenericMatVec.hpp
index 2746347..e20b254 100644
--- a/include/Matrix/UnaryOps/GenericMatVec.hpp
+++ b/include/Matrix/UnaryOps/GenericMatVec.hpp
@@ -37,7 +37,7 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
         #endif
 
         // All matrices
-        inline static constexpr const size_t m_size{2};
+        inline static constexpr const size_t m_size{4};
         Matrix<Type>* mp_arr[m_size]{};
 
     public:
@@ -84,10 +84,11 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
             const size_t nrows = getNumRows();
             const size_t ncols = getNumColumns();
 
-            // Reshape and return
-            Matrix<Type>* right_mat = mp_right->eval();
-            right_mat->reshape(nrows, ncols);
-            return right_mat;
+            // Reshaped copy (the operand's own result keeps its shape)
+            const Matrix<Type>* right_mat = mp_right->eval();
+            MemoryManager::MatrixPool(mp_arr[2], nrows, ncols, allocatorType());
+            mp_arr[2]->copyData(*right_mat);
+            return mp_arr[2];
         }
 
         // Matrix devalF computation
@@ -98,13 +99,20 @@ class GenericMatVec : public IMatrix<GenericMatVec<T>> {
             const size_t nrows = getNumRows();
             const size_t ncols = getNumColumns();
 
-            // Matrix derivative vectorization
-            Matrix<Variable> Y(1, xrows*xcols, X.getMatrixPtr());
-
-            // Reshape and return
-            Matrix<Type>* dright_mat = mp_right->devalF(Y);
-            dright_mat->reshape(nrows*xrows, ncols*xcols);
-            return dright_mat;
+            // Operand derivative and its number of rows/columns
+            const Matrix<Type>* dright_mat = mp_right->devalF(X);
+            const size_t rcols = mp_right->getNumColumns();
+
+            // Matrix derivative vectorization (Block (i,j) of the operand is block (i*rcols+j) of the result)
+            MemoryManager::MatrixPool(mp_arr[3], nrows*xrows, ncols*xcols, allocatorType());
+            const auto idx = CoolDiff::Common::Range<size_t>(0, nrows*xrows*xcols);
+            std::for_each(EXECUTION_PAR idx.begin(), idx.end(), [&](const size_t n) {
+                const size_t m = (n % xcols);
+                const size_t l = ((n / xcols) % xrows);
+                const size_t k = (n / (xrows * xcols));
+                (*mp_arr[3])((k * xrows) + l, m) = (*dright_mat)(((k / rcols) * xrows) + l, ((k % rcols) * xcols) + m);
+            });
+            return mp_arr[3];
         }
 
         // Traverse
-- 
2.43.0


From efb69534117aa1b623a90ae5b96d674d8ed4a458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 13/32] fix: elementwise matrix division is defined for zero
 and negative entries

---
 include/Matrix/CommonMatFunctions.hpp |  5 ++++-
 include/Matrix/UnaryFunctions.hpp     | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index 25d0bf9..ccaccb6 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -306,6 +306,9 @@ UNARY_MATRIX_OPERATOR(ExpM, Exp<Type>, Exp<Type>)
 // Matrix Log function
 UNARY_MATRIX_OPERATOR(LogM, Log<Type>, DLog<Type>)
 
+// Matrix reciprocal function
+UNARY_MATRIX_OPERATOR(ReciprocalM, Reciprocal<Type>, DReciprocal<Type>)
+
 // Matrix Sqrt function
 UNARY_MATRIX_OPERATOR(SqrtM, Sqrt<Type>, DSqrt<Type>)
 
@@ -343,7 +346,7 @@ constexpr const auto& operator/(const IMatrix<T1>& X, const IMatrix<T2>& Y) {
   ASSERT((X.allocatorType() == Y.allocatorType()), "LHS and RHS matrices live in different memory spaces");
   
   // Return expression
-  return ExpM(LogM(X) - LogM(Y));
+  return X ^ ReciprocalM(Y);
 }
 
 // Matrix broadcast function 
diff --git a/include/Matrix/UnaryFunctions.hpp b/include/Matrix/UnaryFunctions.hpp
index 4f1e97c..24cdeeb 100644
--- a/include/Matrix/UnaryFunctions.hpp
+++ b/include/Matrix/UnaryFunctions.hpp
@@ -79,6 +79,18 @@ __host__ __device__ T DLog(T x) {
     return (T)((T)1/(x)); 
 }
 
+// Reciprocal function
+template<typename T>
+__host__ __device__ T Reciprocal(T x) { 
+    return (T)((T)1/(x)); 
+}
+
+// Derivative of Reciprocal function
+template<typename T>
+__host__ __device__ T DReciprocal(T x) { 
+    return (T)((T)(-1)/(x*x)); 
+}
+
 // Square function 
 template<typename T>
 __host__ __device__ T Sqrt(T x) { 
@@ -162,6 +174,7 @@ enum DEVICE_FUNCTIONS {
     COS, DCOS, 
     EXP, 
     LOG, DLOG,  
+    RECIPROCAL, DRECIPROCAL,
     SQRT, DSQRT, 
     TANH, DTANH, 
     SIGMOID, DSIGMOID,
@@ -183,6 +196,7 @@ __global__ void DeviceFunctionsInit() {
     device_functions<T>[DEVICE_FUNCTIONS::COS]  = Cos<T>;            device_functions<T>[DEVICE_FUNCTIONS::DCOS] = DCos<T>;
     device_functions<T>[DEVICE_FUNCTIONS::EXP]  = Exp<T>;
     device_functions<T>[DEVICE_FUNCTIONS::LOG]  = Log<T>;            device_functions<T>[DEVICE_FUNCTIONS::DLOG] = DLog<T>;
+    device_functions<T>[DEVICE_FUNCTIONS::RECIPROCAL] = Reciprocal<T>; device_functions<T>[DEVICE_FUNCTIONS::DRECIPROCAL] = DReciprocal<T>;
     device_functions<T>[DEVICE_FUNCTIONS::SQRT] = Sqrt<T>;           device_functions<T>[DEVICE_FUNCTIONS::DSQRT] = DSqrt<T>;
     device_functions<T>[DEVICE_FUNCTIONS::TANH] = Tanh<T>;           device_functions<T>[DEVICE_FUNCTIONS::DTANH] = DTanh<T>;
     device_functions<T>[DEVICE_FUNCTIONS::SIGMOID] = Sigmoid<T>;     device_functions<T>[DEVICE_FUNCTIONS::DSIGMOID] = DSigmoid<T>;
@@ -198,6 +212,7 @@ std::unordered_map<FunctionTypeCuda<T>, int> device_functions_map{  /* <-- Funct
                                                                     {Cos<T>, COS},                  {DCos<T>, DCOS}, 
                                                                     {Exp<T>, EXP},
                                                                     {Log<T>, LOG},                  {DLog<T>, DLOG},
+                                                                    {Reciprocal<T>, RECIPROCAL},    {DReciprocal<T>, DRECIPROCAL},
                                                                     {Sqrt<T>, SQRT},                {DSqrt<T>, DSQRT},
                                                                     {Tanh<T>, TANH},                {DTanh<T>, DTANH},
                                                                     {Sigmoid<T>, SIGMOID},          {DSigmoid<T>, DSIGMOID},
-- 
2.43.0


From 55baec0499d6239309430ab630dfed5b51d3393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 14/32] fix: padding into a reused result clears its border

---
 include/Matrix/MatrixInterface/MatrixUtils.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index 94deb56..880ae72 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -87,6 +87,10 @@ template<typename T>
 void Matrix<T>::pad(const size_t r, const size_t c, Matrix*& result) const {
     // Special matrix embedding
     MemoryManager::MatrixPool(result, m_rows + 2 * r, m_cols + 2 * c, allocatorType());
+    // A reused result still holds the previous border
+    if constexpr (true == std::is_same_v<T, Type>) {
+        CoolDiff::TensorR2::Details::ResetZero(result);
+    }
     result->setBlockMat({r, r + m_rows - 1}, {c, c + m_cols - 1}, this);
 }
 
-- 
2.43.0


From 8831a069fc5927a7b2ff45c92433a3f5eb8fc5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:20 +0000
Subject: [PATCH 15/32] fix: reverse derivative of a convolution handles every
 stride, padding and shape

---
 include/Matrix/BinaryOps/GenericMatConv.hpp | 78 ++++++++++++---------
 1 file changed, 46 insertions(+), 32 deletions(-)

diff --git a/include/Matrix/BinaryOps/GenericMatConv.hpp b/include/Matrix/BinaryOps/GenericMatConv.hpp
index 37f155f..56f428d 100644
--- a/include/Matrix/BinaryOps/GenericMatConv.hpp
+++ b/include/Matrix/BinaryOps/GenericMatConv.hpp
@@ -51,6 +51,36 @@ private:
   inline static constexpr const size_t m_size{4};
   Matrix<Type>* mp_arr[m_size]{};
 
+  // Pull the sensitivity of the result (one everywhere if nullptr) back onto the input and the kernel
+  void pullback(const Matrix<Type>* seed, const Matrix<Type>* left_mat, const Matrix<Type>* right_mat) {
+    const size_t lrows = left_mat->getNumRows();
+    const size_t lcols = left_mat->getNumColumns();
+    const size_t rrows = right_mat->getNumRows();
+    const size_t rcols = right_mat->getNumColumns();
+
+    MemoryManager::MatrixPool(mp_arr[2], lrows, lcols, allocatorType());
+    MemoryManager::MatrixPool(mp_arr[3], rrows, rcols, allocatorType());
+    CoolDiff::TensorR2::Details::ResetZero(mp_arr[2]);
+    CoolDiff::TensorR2::Details::ResetZero(mp_arr[3]);
+
+    for (size_t i{}; i < getNumRows(); ++i) {
+      for (size_t j{}; j < getNumColumns(); ++j) {
+        const Type g = (nullptr != seed) ? (*seed)(i, j) : (Type)(1);
+        for (size_t p{}; p < rrows; ++p) {
+          for (size_t q{}; q < rcols; ++q) {
+            // Position in the padded input
+            const size_t x = (i * m_stride_x) + p;
+            const size_t y = (j * m_stride_y) + q;
+            if ((x >= m_pad_x) && (x < m_pad_x + lrows) && (y >= m_pad_y) && (y < m_pad_y + lcols)) {
+              (*mp_arr[2])(x - m_pad_x, y - m_pad_y) += (g * (*right_mat)(p, q));
+              (*mp_arr[3])(p, q) += (g * (*left_mat)(x - m_pad_x, y - m_pad_y));
+            }
+          }
+        }
+      }
+    }
+  }
+
 public:
   // Block index
   const size_t m_nidx{};
@@ -180,19 +210,22 @@ public:
       const Matrix<Type>* left_mat = mp_left->eval();
       const Matrix<Type>* right_mat = mp_right->eval();
 
-      const auto mp_right_val = CoolDiff::TensorR2::Details::ScalarSpl(right_mat);
-      const auto mp_left_val = CoolDiff::TensorR2::Details::ScalarSpl(left_mat);
+      /* IMPORTANT: The derivative is computed here */
+      pullback(nullptr, left_mat, right_mat);
+
+      const auto mp_arr2_val = CoolDiff::TensorR2::Details::ScalarSpl(mp_arr[2]);
+      const auto mp_arr3_val = CoolDiff::TensorR2::Details::ScalarSpl(mp_arr[3]);
 
       if(auto it2 = cache->find(mp_left->m_nidx); it2 != cache->end()) {
-        MATRIX_ADD((*cache)[mp_left->m_nidx], right_mat, (*cache)[mp_left->m_nidx]); 
+        MATRIX_ADD((*cache)[mp_left->m_nidx], mp_arr[2], (*cache)[mp_left->m_nidx]); 
       } else {
-        (*cache)[mp_left->m_nidx] = const_cast<Matrix<Type>*>(right_mat);
+        (*cache)[mp_left->m_nidx] = mp_arr[2];
       }
 
       if(auto it2 = cache->find(mp_right->m_nidx); it2 != cache->end()) {
-        MATRIX_ADD((*cache)[mp_right->m_nidx], left_mat, (*cache)[mp_right->m_nidx]); 
+        MATRIX_ADD((*cache)[mp_right->m_nidx], mp_arr[3], (*cache)[mp_right->m_nidx]); 
       } else {
-        (*cache)[mp_right->m_nidx] = const_cast<Matrix<Type>*>(left_mat);
+        (*cache)[mp_right->m_nidx] = mp_arr[3];
       }
 
       // Clone the cache
@@ -203,13 +236,13 @@ public:
       // Modify cache for left node
       std::for_each(EXECUTION_PAR mp_left->m_cache.begin(), mp_left->m_cache.end(), 
                       [&](const auto& item) {
-                      const size_t rows = right_mat->getNumRows();
-                      const size_t cols = right_mat->getNumColumns(); 
+                      const size_t rows = mp_arr[2]->getNumRows();
+                      const size_t cols = mp_arr[2]->getNumColumns(); 
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
                       MatType*& ptr = this->m_cloned[this->incFunc()];
-                      MATRIX_SCALAR_MUL(mp_right_val, val, ptr);
+                      MATRIX_SCALAR_MUL(mp_arr2_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
                       } else {
@@ -220,13 +253,13 @@ public:
       // Modify cache for right node
       std::for_each(EXECUTION_PAR mp_right->m_cache.begin(), mp_right->m_cache.end(), 
                     [&](const auto& item) {
-                      const size_t rows = left_mat->getNumRows();
-                      const size_t cols = left_mat->getNumColumns(); 
+                      const size_t rows = mp_arr[3]->getNumRows();
+                      const size_t cols = mp_arr[3]->getNumColumns(); 
                       ASSERT((rows == 1) && (cols == 1), "Matrix expression not scalar for reverse mode derivative"); 
 
                       const auto idx = item.first; const auto val = item.second;
                       MatType*& ptr = this->m_cloned[this->incFunc()];
-                      MATRIX_SCALAR_MUL(mp_left_val, val, ptr);
+                      MATRIX_SCALAR_MUL(mp_arr3_val, val, ptr);
                       if(auto it2 = cache->find(idx); it2 != cache->end()) {
                         MATRIX_ADD((*cache)[idx], ptr, (*cache)[idx]);
                       } else {
@@ -251,27 +284,8 @@ public:
         const Matrix<Type>* left_mat = mp_left->eval();
         const Matrix<Type>* right_mat = mp_right->eval();
 
-        // Right matrix rows and columns size (Kernel)
-        const size_t rrows = right_mat->getNumRows();
-        const size_t rcols = right_mat->getNumColumns();
-        
-        // Left matrix rows and columns size (Input)
-        const size_t lrows = left_mat->getNumRows();
-        const size_t lcols = left_mat->getNumColumns();
-
-        // Cache rows and columns size (Pullback)
-        const size_t crows = cCache->getNumRows();
-        const size_t ccols = cCache->getNumColumns(); 
-
         /* IMPORTANT: The derivative is computed here */
-        // Typically, right_mat will be less than cCache dimension, so no need for padding
-        MATRIX_CONV(m_stride_x, m_stride_y, m_pad_x, m_pad_y, cCache, right_mat, mp_arr[2]);
-
-        // Find the best number of zero padding on the input to match the output dimensions (right_mat)
-        const size_t px = (m_stride_x*(rrows - 1) + crows - lrows)/2; 
-        const size_t py = (m_stride_y*(rcols - 1) + ccols - lcols)/2;
-
-        MATRIX_CONV(m_stride_x, m_stride_y, px, py, left_mat, cCache, mp_arr[3]);
+        pullback(cCache, left_mat, right_mat);
 
         const auto mp_arr2_val = CoolDiff::TensorR2::Details::ScalarSpl(mp_arr[2]);
         const auto mp_arr3_val = CoolDiff::TensorR2::Details::ScalarSpl(mp_arr[3]);
-- 
2.43.0


From dba6a7f0947f59045eb23c252375c9dec49191fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 16/32] fix: getColumn returns the requested column

---
 include/Matrix/MatrixInterface/MatrixAccessors.ipp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/Matrix/MatrixInterface/MatrixAccessors.ipp b/include/Matrix/MatrixInterface/MatrixAccessors.ipp
index a44bb45..155b9ee 100644
--- a/include/Matrix/MatrixInterface/MatrixAccessors.ipp
+++ b/include/Matrix/MatrixInterface/MatrixAccessors.ipp
@@ -169,10 +169,8 @@ Matrix<T> Matrix<T>::getColumn(const size_t i) && {
   const auto idx = CoolDiff::Common::Range<size_t>(0, m_rows);
   // For each execution
   std::for_each(EXECUTION_PAR idx.begin(), idx.end(),
-                  [this, &tmp](const size_t n) {
-                  const size_t j = (n % m_cols);
-                  const size_t i = (n - j) / m_cols;
-                  tmp.getMatrixPtr()[j] = getMatrixPtr()[j * m_rows + i];
+                  [this, &tmp, i](const size_t n) {
+                  tmp.getMatrixPtr()[n] = getMatrixPtr()[n * m_cols + i];
                   });
 
   return std::move(tmp);
@@ -188,10 +186,8 @@ Matrix<T> Matrix<T>::getColumn(const size_t i) const & {
   const auto idx = CoolDiff::Common::Range<size_t>(0, m_rows);
   // For each execution
   std::for_each(EXECUTION_PAR idx.begin(), idx.end(),
-                  [this, &tmp](const size_t n) {
-                  const size_t j = (n % m_cols);
-                  const size_t i = (n - j) / m_cols;
-                  tmp.getMatrixPtr()[j] = getMatrixPtr()[j * m_rows + i];
+                  [this, &tmp, i](const size_t n) {
+                  tmp.getMatrixPtr()[n] = getMatrixPtr()[n * m_cols + i];
                   });
 
   return tmp;
-- 
2.43.0


From edbc72186431677ceae560a66967628b2c12061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 17/32] fix: Hessians fill their off-diagonal entries

---
 include/Matrix/CommonMatFunctions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index ccaccb6..0c53f12 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -215,7 +215,7 @@ namespace CoolDiff {
         // Precompute
         CoolDiff::TensorR1::PreComp(firstSym[i]);
         for (size_t j{}; j <= i; ++j) {
-          if (i < j) {
+          if (j < i) {
             result(i, j) = CoolDiff::TensorR1::DevalR(firstSym[i], vec[j]);
             result(j, i) = result(i, j);
           } else if (i == j) {
@@ -261,7 +261,7 @@ namespace CoolDiff {
       // Exploit Hessian symmetry
       for (size_t i{}; i < dim; ++i) {
         for (size_t j{}; j <= i; ++j) {
-          if (i < j) {
+          if (j < i) {
             result(i, j) = CoolDiff::TensorR1::SymDiff(CoolDiff::TensorR1::SymDiff(exp, vec[i]), vec[j]);
             result(j, i) = result(i, j);
           } else if (i == j) {
-- 
2.43.0


From bdfad5dcd308b514572d4f63468997ff77b4eb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 18/32] fix: scalar gradient, Jacobian and Hessian assembly
 compiles again (allocator of the result)

---
 include/Matrix/CommonMatFunctions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index 0c53f12..14ad354 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -125,7 +125,7 @@ namespace CoolDiff {
     template <typename T, typename = CoolDiff::TensorR1::Details::IsPureMetaVariableType<T>>
     Matrix<Type>& DevalF(T& exp, const Matrix<Variable>& m, bool serial = true) {
       const size_t n = m.getNumElem();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), m.allocatorType());
 
       // If T is an expression
       if constexpr (true == std::is_same_v<T, Expression>) {
@@ -169,7 +169,7 @@ namespace CoolDiff {
     template <typename T, typename = std::enable_if_t<std::is_same_v<T, Expression>>> 
     Matrix<Type>& DevalR(T& exp, const Matrix<Variable>& m) {
       const size_t n = m.getNumElem();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(m.getNumRows(), m.getNumColumns(), m.allocatorType());
 
       // Precompute (By design, the operation is serial)
       CoolDiff::TensorR1::PreComp(exp);
@@ -184,7 +184,7 @@ namespace CoolDiff {
     template <typename T, typename = std::enable_if_t<std::is_same_v<T, Expression>>>
     Matrix<Type>& JacobianR(T& exp, const Vector<Variable>& vec) {
       const size_t rows = vec.size();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(rows, 1, exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(rows, 1);
 
       // Precompute (By design, the operation is serial)
       CoolDiff::TensorR1::PreComp(exp);
@@ -206,7 +206,7 @@ namespace CoolDiff {
     template <typename T, typename = std::enable_if_t<std::is_same_v<T, Expression>>>
     Matrix<Type>& HessianR(T& exp, const Vector<Variable>& vec) {
       const size_t dim = vec.size();
-      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(dim, dim, exp.allocatorType());
+      auto& result = Matrix<Type>::MatrixFactory::CreateMatrix(dim, dim);
       Matrix<Expression> firstSym(dim, 1);
 
       // Exploit Hessian symmetry
-- 
2.43.0


From 38bcd1b9234df65294da6878c450ea38c48c60f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 19/32] fix: a recursive matrix expression has the shape of its
 last formula before it is evaluated

---
 include/Matrix/Matrix.hpp                          | 8 +++++++-
 include/Matrix/MatrixInterface/MatrixAccessors.ipp | 8 ++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index dcc8866..0f082b0 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -231,8 +231,14 @@ public:
       m_devalf = false;
       m_dest = true;
     }
+    // The new formula may mention this expression: its shape is taken before this one's changes
+    const size_t rows = expr.getNumRows();
+    const size_t cols = expr.getNumColumns();
     // Expression multiplied with eye matrix and emplace it in a generic holder (Dont change it)
-    m_gh_vec.push_back((Matrix<Expression>*)&(expr*(*(CoolDiff::TensorR2::MatrixBasics::Eye(allocatorType(), expr.getNumColumns())))));
+    m_gh_vec.push_back((Matrix<Expression>*)&(expr*(*(CoolDiff::TensorR2::MatrixBasics::Eye(allocatorType(), cols)))));
+    // The shape is that of the last formula, also if it extends earlier ones
+    m_rows = rows;
+    m_cols = cols;
     return *this;
   }
 
diff --git a/include/Matrix/MatrixInterface/MatrixAccessors.ipp b/include/Matrix/MatrixInterface/MatrixAccessors.ipp
index 155b9ee..917d893 100644
--- a/include/Matrix/MatrixInterface/MatrixAccessors.ipp
+++ b/include/Matrix/MatrixInterface/MatrixAccessors.ipp
@@ -217,8 +217,8 @@ size_t Matrix<T>::getFinalNumRows() const {
   size_t rows{m_rows}; 
   // If the type T is an Expression
   if constexpr (true == std::is_same_v<T, Expression>) {
-    // If the vector of MetaVariables non-empty
-    if (false == m_gh_vec.empty()) {
+    // A single definition is looked through (the shape of a recursive one is its own)
+    if (1 == m_gh_vec.size()) {
       // Choose the last value in this vector
       if (auto it = m_gh_vec.back(); nullptr != it) {
           if(auto* ptr = dynamic_cast<Matrix<Expression>*>(it)) {
@@ -238,8 +238,8 @@ size_t Matrix<T>::getFinalNumColumns() const {
   size_t cols{m_cols};
   // If the type T is an Expression
   if constexpr (true == std::is_same_v<T, Expression>) {
-    // If the vector of MetaVariables non-empty
-    if (false == m_gh_vec.empty()) {
+    // A single definition is looked through (the shape of a recursive one is its own)
+    if (1 == m_gh_vec.size()) {
       // Choose the last value in this vector
       if (auto it = m_gh_vec.back(); nullptr != it) {
           if(auto* ptr = dynamic_cast<Matrix<Expression>*>(it)) {
-- 
2.43.0


From 47e88b1fcde058c5b2f465877dfc36c94e56a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 20/32] fix: a copied matrix is an object of its own in reverse
 mode

The copy shared the index of its source, so gradients with respect to the
two were added up. Variables keep it: copies of a variable denote it.
---
 include/Matrix/MatrixInterface/MatrixConstructors.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Matrix/MatrixInterface/MatrixConstructors.ipp b/include/Matrix/MatrixInterface/MatrixConstructors.ipp
index 4282ba7..dd5e278 100644
--- a/include/Matrix/MatrixInterface/MatrixConstructors.ipp
+++ b/include/Matrix/MatrixInterface/MatrixConstructors.ipp
@@ -127,7 +127,7 @@ Matrix<T>::Matrix(const Matrix& m) :  m_rows{m.m_rows},
                                       m_devalf{m.m_devalf},
                                       m_dest{true},
                                       m_cache{m.m_cache}, 
-                                      m_nidx{m.m_nidx} {
+                                      m_nidx{std::is_same_v<T, Variable> ? m.m_nidx : this->m_idx_count++} {
   // If T is an Expression type
   if constexpr(false == std::is_same_v<T,Expression>) {
     if(nullptr != m.getMatrixPtr()) {
-- 
2.43.0


From 4520eb0d06c5f9cd3c6c74d02bbc39cdad06eeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 21/32] fix: assigning a matrix expression to itself keeps its
 formula

---
 include/Matrix/MatrixInterface/MatrixConstructors.ipp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/MatrixInterface/MatrixConstructors.ipp b/include/Matrix/MatrixInterface/MatrixConstructors.ipp
index dd5e278..4efe84f 100644
--- a/include/Matrix/MatrixInterface/MatrixConstructors.ipp
+++ b/include/Matrix/MatrixInterface/MatrixConstructors.ipp
@@ -145,8 +145,11 @@ Matrix<T>::Matrix(const Matrix& m) :  m_rows{m.m_rows},
 // Copy assignment operator
 template<typename T>
 Matrix<T>& Matrix<T>::operator=(const Matrix& m) {
-  // Copy-swap idiom
-  Matrix<T>{m}.swap(*this);
+  // A copy of an expression refers to its source: assigning an expression to itself changes nothing
+  if (this != &m) {
+    // Copy-swap idiom
+    Matrix<T>{m}.swap(*this);
+  }
   // Return this reference
   return *this;
 }
-- 
2.43.0


From 8d2987bfb585d8b04875683a9d37c6154c1473f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:19 +0000
Subject: [PATCH 22/32] fix: a moved from matrix can be copied and assigned a
 formula

---
 include/Matrix/Matrix.hpp                             | 4 ++++
 include/Matrix/MatrixInterface/MatrixConstructors.ipp | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index 0f082b0..00df133 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -231,6 +231,10 @@ public:
       m_devalf = false;
       m_dest = true;
     }
+    // A moved from matrix has no memory strategy
+    if (nullptr == mp_allocator) {
+      mp_allocator = MemoryStrategyFactory(expr.allocatorType());
+    }
     // The new formula may mention this expression: its shape is taken before this one's changes
     const size_t rows = expr.getNumRows();
     const size_t cols = expr.getNumColumns();
diff --git a/include/Matrix/MatrixInterface/MatrixConstructors.ipp b/include/Matrix/MatrixInterface/MatrixConstructors.ipp
index 4efe84f..6cc4513 100644
--- a/include/Matrix/MatrixInterface/MatrixConstructors.ipp
+++ b/include/Matrix/MatrixInterface/MatrixConstructors.ipp
@@ -122,7 +122,7 @@ constexpr const auto& Matrix<T>::cloneExp() const {
 template<typename T>
 Matrix<T>::Matrix(const Matrix& m) :  m_rows{m.m_rows}, 
                                       m_cols{m.m_cols},
-                                      mp_allocator{MemoryStrategyFactory((m.mp_allocator)->allocatorType())},
+                                      mp_allocator{MemoryStrategyFactory(m.allocatorType())},
                                       m_eval{m.m_eval}, 
                                       m_devalf{m.m_devalf},
                                       m_dest{true},
-- 
2.43.0


From 0fa174158f1221d99b2e8f2724967d1120bbf876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 23/32] fix: assigning a copy of a matrix expression to its
 source changes nothing

---
 include/Matrix/Matrix.hpp                         |  3 +++
 .../Matrix/MatrixInterface/MatrixConstructors.ipp | 11 +++++++----
 include/Matrix/MatrixInterface/MatrixUtils.ipp    | 15 +++++++++++++++
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index 00df133..876b464 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -138,6 +138,9 @@ private:
   // Assign clone
   void assignClone(const Matrix*);
 
+  // Is this matrix the given one, or an expression copied from it?
+  bool isCopyOf(const Matrix*) const;
+
   // Allocate friend function
   template <typename Z, typename... Argz>
   friend SharedPtr<Z> Allocate(Argz&&...);
diff --git a/include/Matrix/MatrixInterface/MatrixConstructors.ipp b/include/Matrix/MatrixInterface/MatrixConstructors.ipp
index 6cc4513..228d444 100644
--- a/include/Matrix/MatrixInterface/MatrixConstructors.ipp
+++ b/include/Matrix/MatrixInterface/MatrixConstructors.ipp
@@ -145,8 +145,8 @@ Matrix<T>::Matrix(const Matrix& m) :  m_rows{m.m_rows},
 // Copy assignment operator
 template<typename T>
 Matrix<T>& Matrix<T>::operator=(const Matrix& m) {
-  // A copy of an expression refers to its source: assigning an expression to itself changes nothing
-  if (this != &m) {
+  // A copy of an expression refers to its source: assigning an expression, or a copy of it, to itself changes nothing
+  if (false == m.isCopyOf(this)) {
     // Copy-swap idiom
     Matrix<T>{m}.swap(*this);
   }
@@ -172,8 +172,11 @@ Matrix<T>::Matrix(Matrix&& m) noexcept :  m_rows{std::exchange(m.m_rows, -1)},
 // Move assignment operator
 template<typename T>
 Matrix<T>& Matrix<T>::operator=(Matrix&& m) noexcept {
-  // Copy-swap idiom
-  Matrix<T>{std::move(m)}.swap(*this);
+  // As for the copy assignment
+  if (false == m.isCopyOf(this)) {
+    // Copy-swap idiom
+    Matrix<T>{std::move(m)}.swap(*this);
+  }
   // Return this reference
   return *this;
 }
diff --git a/include/Matrix/MatrixInterface/MatrixUtils.ipp b/include/Matrix/MatrixInterface/MatrixUtils.ipp
index 880ae72..7b3fdea 100644
--- a/include/Matrix/MatrixInterface/MatrixUtils.ipp
+++ b/include/Matrix/MatrixInterface/MatrixUtils.ipp
@@ -194,6 +194,21 @@ bool Matrix<T>::findMe(void* v) const {
     }
 }
 
+// Is this matrix the given one, or an expression copied from it?
+template<typename T>
+bool Matrix<T>::isCopyOf(const Matrix<T>* v) const {
+    if (this == v) {
+        return true;
+    }
+    if constexpr (true == std::is_same_v<T, Expression>) {
+        if (1 == m_gh_vec.size()) {
+            const auto* ptr = dynamic_cast<const Matrix<Expression>*>(m_gh_vec.back());
+            return (nullptr != ptr) && ptr->isCopyOf(v);
+        }
+    }
+    return false;
+}
+
 // Reset impl
 template<typename T>
 void Matrix<T>::resetImpl() {
-- 
2.43.0


From 5d4910ce009008fa5707943adcc7786ea8b896fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 24/32] fix: redefining a matrix expression leaves the results
 of shared sub-expressions alone

---
 include/Matrix/Matrix.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index 876b464..49248e6 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -221,14 +221,11 @@ public:
       m_rows = expr.getNumRows();
       m_cols = expr.getNumColumns();
 
-      // Deallocate mp_mat, mp_result, mp_dresult;
+      // Deallocate mp_mat
       deallocator();
-      if(nullptr != mp_result) {
-        mp_result->deallocator();
-      }
-      if(nullptr != mp_dresult) {
-        mp_dresult->deallocator();
-      }
+      // The results belong to the previous formula, which other expressions may still use
+      mp_result = nullptr;
+      mp_dresult = nullptr;
 
       m_eval = false;
       m_devalf = false;
-- 
2.43.0


From 54979f0451c77a58a30a6fee74250b04c02d2abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 25/32] fix: clones made in a reverse sweep have memory of
 their own

Slots of the clone pool are reused as results in the next sweep. A clone
that shared memory with another matrix was overwritten through it when the
number of gradients had changed in between.
---
 include/Matrix/Matrix.hpp                     |  3 ---
 .../MatrixInterface/MatrixConstructors.ipp    | 26 +++----------------
 2 files changed, 3 insertions(+), 26 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index 49248e6..daf1fc4 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -135,9 +135,6 @@ private:
   // Swap for assignment
   void swap(Matrix&) noexcept;
 
-  // Assign clone
-  void assignClone(const Matrix*);
-
   // Is this matrix the given one, or an expression copied from it?
   bool isCopyOf(const Matrix*) const;
 
diff --git a/include/Matrix/MatrixInterface/MatrixConstructors.ipp b/include/Matrix/MatrixInterface/MatrixConstructors.ipp
index 228d444..47075c5 100644
--- a/include/Matrix/MatrixInterface/MatrixConstructors.ipp
+++ b/include/Matrix/MatrixInterface/MatrixConstructors.ipp
@@ -38,24 +38,6 @@ void Matrix<T>::swap(Matrix& other) noexcept {
   std::swap(mp_allocator, other.mp_allocator);
 }
 
-template<typename T>
-void Matrix<T>::assignClone(const Matrix<T>* other) {
-  m_rows = other->m_rows;
-  m_cols = other->m_cols;
-  m_gh_vec = other->m_gh_vec;
-  m_eval = other->m_eval;
-  m_devalf = other->m_devalf;
-  mp_result = other->mp_result;
-  mp_dresult = other->mp_dresult;
-  m_nidx = other->m_nidx;
-  m_cache = other->m_cache;
-  mp_allocator = other->mp_allocator;
-  
-  // The temporary that is created for assignClone is non-destroyable. 
-  // It just holds the pointer of other matrix
-  m_dest = false;
-}
-
 // Default constructor - Zero arguments
 template<typename T>
 Matrix<T>::Matrix(std::string_view alloc_type) : Matrix(1, 1, alloc_type) {}
@@ -104,11 +86,9 @@ Matrix<T>::Matrix(const size_t rows, const size_t cols, T* ptr, std::string_view
 // Matrix clone
 template<typename T>
 Matrix<T>* Matrix<T>::clone(Matrix<T>*& mat) const {
-  if(nullptr == mat) {
-    mat = Matrix<Type>::MatrixFactory::CreateMatrixPtr(m_rows, m_cols, nullptr, allocatorType());
-  }
-  // Dont use copy assigment, due to allocation and reallocation of resources!
-  mat->assignClone(this);
+  // The clone has memory of its own: it is reused as a result, which must not change this matrix
+  MemoryManager::MatrixPool(mat, m_rows, m_cols, allocatorType());
+  mat->copyData(*this);
   return mat;
 } 
 
-- 
2.43.0


From 5b8f97e2c676a6c30be332a29629f3c80aa21f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 26/32] fix: convolutions in different threads no longer share
 their scratch matrices unprotected

---
 src/Matrix/MatOperators.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Matrix/MatOperators.cpp b/src/Matrix/MatOperators.cpp
index 03e6d93..21b75a6 100644
--- a/src/Matrix/MatOperators.cpp
+++ b/src/Matrix/MatOperators.cpp
@@ -23,6 +23,8 @@
 
 #include "Matrix.hpp"
 
+#include <mutex>
+
 // Handler of sizes {1,2,3,4,5,6,7}
 #define HANDLER1(X) X<MatrixStaticHandler>
 #define HANDLER2(X1,X2) X1<X2<MatrixStaticHandler>>
@@ -203,6 +205,9 @@ namespace CoolDiff {
             handler.handle(mat, func, result);
           }
 
+          // The convolution handlers keep scratch matrices between calls (one convolution at a time)
+          static std::mutex g_conv_mutex;
+
           // Matrix convolution
           void MatrixConv(const size_t stride_x, const size_t stride_y,
                           const size_t pad_x, const size_t pad_y, const Matrix<Type>* lhs,
@@ -213,6 +218,7 @@ namespace CoolDiff {
 
             // TODO - CUDA
             static HANDLER2(MatConvEigenHandler, MatConvNaiveHandler) handler; 
+            const std::lock_guard<std::mutex> lock{g_conv_mutex};
             handler.handle(stride_x, stride_y, pad_x, pad_y, lhs, rhs, result);
           }
 
@@ -232,6 +238,7 @@ namespace CoolDiff {
             
             // Applies only for naive handler
             static HANDLER1(MatDervConvNaiveHandler) handler;
+            const std::lock_guard<std::mutex> lock{g_conv_mutex};
 
             // Handle Matrix convolution derivative
             handler.handle(nrows_x, ncols_x, stride_x, stride_y, pad_x, pad_y, lhs, dlhs, rhs, drhs, result);
-- 
2.43.0


From 610e8906498057866a156c90b19c9ae816b3bddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 27/32] fix: the NAIVE trace accumulates sequentially (lost
 updates with parallel execution)

---
 .../MatrixHandler/MatrixTrace/NaiveCPU/MatTraceNaiveHandler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Matrix/MatrixHandler/MatrixTrace/NaiveCPU/MatTraceNaiveHandler.hpp b/include/Matrix/MatrixHandler/MatrixTrace/NaiveCPU/MatTraceNaiveHandler.hpp
index 29bf86b..7d9bd1e 100644
--- a/include/Matrix/MatrixHandler/MatrixTrace/NaiveCPU/MatTraceNaiveHandler.hpp
+++ b/include/Matrix/MatrixHandler/MatrixTrace/NaiveCPU/MatTraceNaiveHandler.hpp
@@ -47,7 +47,7 @@ class MatTraceNaiveHandler : public T {
 
             // Naive matrix-matrix multiplication
             Type tmp{};
-            std::for_each(EXECUTION_PAR outer_idx.begin(), outer_idx.end(), [&](const size_t n) {
+            std::for_each(EXECUTION_SEQ outer_idx.begin(), outer_idx.end(), [&](const size_t n) {
                     tmp = tmp + (*rhs)(n,n);
             });
             (*result)[0] = tmp;
-- 
2.43.0


From 8994b23f935c056fa04a1fddb15880a159926d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 28/32] fix: reading a reverse derivative only looks it up
 (derivatives of one expression are read in parallel)

---
 src/Scalar/Variable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Scalar/Variable.cpp b/src/Scalar/Variable.cpp
index ede7c08..bb6bdc5 100644
--- a/src/Scalar/Variable.cpp
+++ b/src/Scalar/Variable.cpp
@@ -180,7 +180,9 @@ Type Variable::devalF(const Variable& var) {
 
 // Deval in run-time for reverse derivative 1st
 Type Variable::devalR(const Variable& var) { 
-  return m_cache[var.m_nidx]; 
+  // Only look up (the derivatives of one expression can be read in parallel)
+  const auto it = m_cache.find(var.m_nidx);
+  return ((it != m_cache.end()) ? it->second : (Type)(0));
 }
 
 // Evaluate variable
-- 
2.43.0


From 8b0506e089a5a311cb5aaa208e7fd05ac4910179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:08 +0000
Subject: [PATCH 29/32] fix: random fills draw from the shared generator
 sequentially

---
 include/Matrix/Matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index daf1fc4..d5c6a12 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -446,7 +446,7 @@ namespace CoolDiff {
           // Distribution
           static T<Type> dis(std::forward<Args>(args)...);
           // Sample values
-          std::generate(EXECUTION_PAR M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
+          std::generate(EXECUTION_SEQ M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
       }
 
       // Fill matrix with random weights (Non templatized distributions)
@@ -455,7 +455,7 @@ namespace CoolDiff {
           // Distribution
           static T dis(std::forward<Args>(args)...);
           // Sample values
-          std::generate(EXECUTION_PAR M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
+          std::generate(EXECUTION_SEQ M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
       }
 
     }
-- 
2.43.0


From 2ff817b69ee00e65583ac5f5b103e20f3b0e3467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:18 +0000
Subject: [PATCH 30/32] fix: DevalF(expression, matrix) evaluates its copies of
 the expression one after the other (they share nodes)

---
 include/Matrix/CommonMatFunctions.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index 14ad354..3220c35 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -134,13 +134,13 @@ namespace CoolDiff {
                         [&exp](const auto &v) { return CoolDiff::TensorR1::DevalF(exp, v); });
           return result;
         } else {
-          // Copy expression and fill it up with exp
+          // Copy expression and fill it up with exp (the copies share their nodes, so they are evaluated one after the other)
           Vector<Expression> exp_coll(n);
           exp_coll.reserve(n);
-          std::fill(EXECUTION_PAR exp_coll.begin(), exp_coll.end(), exp);
+          std::fill(EXECUTION_SEQ exp_coll.begin(), exp_coll.end(), exp);
 
           // Tranform and get results
-          std::transform(EXECUTION_PAR exp_coll.begin(), exp_coll.end(), m.getMatrixPtr(), result.getMatrixPtr(),
+          std::transform(EXECUTION_SEQ exp_coll.begin(), exp_coll.end(), m.getMatrixPtr(), result.getMatrixPtr(),
                         [](auto &v1, const auto &v2) { return CoolDiff::TensorR1::DevalF(v1, v2); });
           return result;
         }
@@ -151,13 +151,13 @@ namespace CoolDiff {
         std::transform(EXECUTION_SEQ m.getMatrixPtr(), m.getMatrixPtr() + n, result.getMatrixPtr(),
                       [&exp](const auto &v) { return CoolDiff::TensorR1::DevalF(exp, v); });
       } else {
-        // Copy expression and fill it up with exp
+        // Copy expression and fill it up with exp (the copies share their nodes, so they are evaluated one after the other)
         Vector<Expression> exp_coll(n);
         exp_coll.reserve(n);
-        std::fill(EXECUTION_PAR exp_coll.begin(), exp_coll.end(), exp);
+        std::fill(EXECUTION_SEQ exp_coll.begin(), exp_coll.end(), exp);
 
         // Tranform and get results
-        std::transform(EXECUTION_PAR exp_coll.begin(), exp_coll.end(),
+        std::transform(EXECUTION_SEQ exp_coll.begin(), exp_coll.end(),
                       m.getMatrixPtr(), result.getMatrixPtr(),
                       [](auto &v1, const auto &v2) { return CoolDiff::TensorR1::DevalF(v1, v2); });
       }
-- 
2.43.0


From 95c105d15e69ac4dffa736a70ffb92fd3e197c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:18 +0000
Subject: [PATCH 31/32] fix: factorials of MatrixExp no longer overflow (21
 terms and more)

---
 include/Matrix/CommonMatFunctions.hpp | 4 ++--
 src/Matrix/CommonMatFunctions.cpp     | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/Matrix/CommonMatFunctions.hpp b/include/Matrix/CommonMatFunctions.hpp
index 3220c35..499db8b 100644
--- a/include/Matrix/CommonMatFunctions.hpp
+++ b/include/Matrix/CommonMatFunctions.hpp
@@ -38,8 +38,8 @@
 
 namespace CoolDiff {
   namespace Common {
-    // Factorial of n 
-    const size_t Factorial(const size_t);
+    // Factorial of n (as Type, integers overflow beyond 20!)
+    const Type Factorial(const size_t);
   }
 
   namespace TensorR2 {
diff --git a/src/Matrix/CommonMatFunctions.cpp b/src/Matrix/CommonMatFunctions.cpp
index eb295d2..b7ffa58 100644
--- a/src/Matrix/CommonMatFunctions.cpp
+++ b/src/Matrix/CommonMatFunctions.cpp
@@ -23,10 +23,10 @@
 
 namespace CoolDiff {
    namespace Common {
-      const size_t Factorial(const size_t n) {
-         static UnOrderedMap<size_t, size_t> map{{0,1},{1,1}}; 
+      const Type Factorial(const size_t n) {
+         static UnOrderedMap<size_t, Type> map{{0,(Type)(1)},{1,(Type)(1)}}; 
          if(auto it = map.find(n); it == map.end()) {
-            map[n] = n*Factorial(n-1); 
+            map[n] = (Type)(n)*Factorial(n-1); 
          }
          return map[n]; 
       }
-- 
2.43.0


From 8c20ff8bc2873c4e6eed7612efe81ad946c6a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:18 +0000
Subject: [PATCH 32/32] fix: random fills use the distribution arguments of the
 call, not those of the first call

---
 include/Matrix/Matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Matrix/Matrix.hpp b/include/Matrix/Matrix.hpp
index d5c6a12..f18a5cc 100644
--- a/include/Matrix/Matrix.hpp
+++ b/include/Matrix/Matrix.hpp
@@ -444,7 +444,7 @@ namespace CoolDiff {
       template<template <typename> class T, typename... Args>
       void FillRandomValues(MatType& M, Args&&... args) {
           // Distribution
-          static T<Type> dis(std::forward<Args>(args)...);
+          T<Type> dis(std::forward<Args>(args)...);
           // Sample values
           std::generate(EXECUTION_SEQ M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
       }
@@ -453,7 +453,7 @@ namespace CoolDiff {
       template<typename T, typename... Args>
       void FillRandomValues(MatType& M, Args&&... args) {
           // Distribution
-          static T dis(std::forward<Args>(args)...);
+          T dis(std::forward<Args>(args)...);
           // Sample values
           std::generate(EXECUTION_SEQ M.getMatrixPtr(), M.getMatrixPtr() + M.getNumElem(), [&]() { return dis(gen); });
       }
-- 
2.43.0

