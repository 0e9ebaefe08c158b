From 4f72f32495f517a4efdfa0673d161a43dd8ca13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 01/21] fix: differentiate exp(x) by another variable to zero

---
 single/include/tomsolver/tomsolver.h | 4 ----
 src/tomsolver/diff.cpp               | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5cae8a4..0dcd97c 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -4225,10 +4225,6 @@ public:
                 return;
             }
 
-            // e^x=e^x
-            if (node->left->type == NodeType::VARIABLE)
-                return;
-
             // (e^u)' = e^u * u'
             auto u2 = Clone(node->left);
             q.emplace(*u2);
diff --git a/src/tomsolver/diff.cpp b/src/tomsolver/diff.cpp
index a83450e..b3ef1bf 100644
--- a/src/tomsolver/diff.cpp
+++ b/src/tomsolver/diff.cpp
@@ -241,10 +241,6 @@ public:
                 return;
             }
 
-            // e^x=e^x
-            if (node->left->type == NodeType::VARIABLE)
-                return;
-
             // (e^u)' = e^u * u'
             auto u2 = Clone(node->left);
             q.emplace(*u2);
-- 
2.43.0


From 0cbac7e7fd623d6ea1dad59db919f384bd98588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 02/21] fix: leave invalid constant operations unfolded in
 Simplify instead of terminating

---
 single/include/tomsolver/tomsolver.h | 25 ++++++++++++++++---------
 src/tomsolver/simplify.cpp           | 26 +++++++++++++++++---------
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 0dcd97c..dabbe16 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2998,6 +2998,20 @@ public:
         SimplifyNode(NodeImpl &node) : node(node), isLeftChild(!node.parent || node.parent->left.get() == &node) {}
     };
 
+    // 把操作数均为数字的运算符节点n直接计算为数字节点。
+    // 如果计算出现无效值（例如1/0），那么保持n不变，留待求值时抛出异常。
+    static void TryFold(NodeImpl &n) noexcept {
+        try {
+            n.value = tomsolver::Calc(n.op, n.left->value, n.right ? n.right->value : 0);
+        } catch (const MathError &) {
+            return;
+        }
+        n.type = NodeType::NUMBER;
+        n.op = MathOperator::MATH_NULL;
+        n.left = nullptr;
+        n.right = nullptr;
+    }
+
     // 对单节点n进行化简。
     static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
         auto parent = n->parent;
@@ -3005,10 +3019,7 @@ public:
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, 0);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
+                TryFold(*n);
             }
             break;
 
@@ -3016,11 +3027,7 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
-                n->right = nullptr;
+                TryFold(*n);
                 return;
             }
 
diff --git a/src/tomsolver/simplify.cpp b/src/tomsolver/simplify.cpp
index 98a9558..d862914 100644
--- a/src/tomsolver/simplify.cpp
+++ b/src/tomsolver/simplify.cpp
@@ -1,4 +1,5 @@
 #include "simplify.h"
+#include "error_type.h"
 #include "math_operator.h"
 #include "node.h"
 
@@ -20,6 +21,20 @@ public:
         SimplifyNode(NodeImpl &node) : node(node), isLeftChild(!node.parent || node.parent->left.get() == &node) {}
     };
 
+    // 把操作数均为数字的运算符节点n直接计算为数字节点。
+    // 如果计算出现无效值（例如1/0），那么保持n不变，留待求值时抛出异常。
+    static void TryFold(NodeImpl &n) noexcept {
+        try {
+            n.value = tomsolver::Calc(n.op, n.left->value, n.right ? n.right->value : 0);
+        } catch (const MathError &) {
+            return;
+        }
+        n.type = NodeType::NUMBER;
+        n.op = MathOperator::MATH_NULL;
+        n.left = nullptr;
+        n.right = nullptr;
+    }
+
     // 对单节点n进行化简。
     static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
         auto parent = n->parent;
@@ -27,10 +42,7 @@ public:
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, 0);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
+                TryFold(*n);
             }
             break;
 
@@ -38,11 +50,7 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
-                n->right = nullptr;
+                TryFold(*n);
                 return;
             }
 
-- 
2.43.0


From 93ea13ad8af35b870b3d855ec0af26c137aad720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 03/21] fix: let Jacobian propagate the exception for
 non-differentiable operators

---
 single/include/tomsolver/tomsolver.h | 10 +++++++---
 src/tomsolver/symmat.cpp             |  2 +-
 src/tomsolver/symmat.h               |  8 ++++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index dabbe16..bba7e8a 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2782,7 +2782,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -2807,7 +2807,11 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+/**
+ * 雅可比矩阵。第i行第j列是第i个方程对第j个变量的偏导数。
+ * @exception runtime_error 如果方程内包含AND(&) OR(|) MOD(%)这类不能求导的运算符，则抛出异常
+ */
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 inline std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
@@ -4592,7 +4596,7 @@ inline const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index 08ecb46..e9750d9 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -204,7 +204,7 @@ const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/symmat.h b/src/tomsolver/symmat.h
index 9f4bda8..a75103d 100644
--- a/src/tomsolver/symmat.h
+++ b/src/tomsolver/symmat.h
@@ -97,7 +97,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -122,7 +122,11 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+/**
+ * 雅可比矩阵。第i行第j列是第i个方程对第j个变量的偏导数。
+ * @exception runtime_error 如果方程内包含AND(&) OR(|) MOD(%)这类不能求导的运算符，则抛出异常
+ */
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
-- 
2.43.0


From 59706fa3770a854021828343b70a87c1d90f3ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 04/21] fix: treat out-of-range and zero operands of % & | as
 invalid numbers

---
 single/include/tomsolver/tomsolver.h | 24 +++++++++++++++++++++---
 src/tomsolver/math_operator.cpp      | 24 +++++++++++++++++++++---
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index bba7e8a..8028bd4 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1644,6 +1644,17 @@ inline Node Var(std::string varname) {
 
 namespace tomsolver {
 
+namespace {
+
+/**
+ * 返回截断小数部分后是否在int范围内。（nan返回false）
+ */
+inline bool IsIntRange(double v) noexcept {
+    return v > std::numeric_limits<int>::min() - 1.0 && v < std::numeric_limits<int>::max() + 1.0;
+}
+
+} // namespace
+
 inline std::string MathOperatorToStr(MathOperator op) {
     switch (op) {
     case MathOperator::MATH_NULL:
@@ -1949,13 +1960,20 @@ inline double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        if (IsIntRange(v1) && IsIntRange(v2) && (int)v2 != 0) {
+            // 转为long long以避免 INT_MIN % -1 溢出
+            ret = static_cast<double>((long long)v1 % (long long)v2);
+        }
         break;
     case MathOperator::MATH_AND: //&
-        ret = (int)v1 & (int)v2;
+        if (IsIntRange(v1) && IsIntRange(v2)) {
+            ret = (int)v1 & (int)v2;
+        }
         break;
     case MathOperator::MATH_OR: //|
-        ret = (int)v1 | (int)v2;
+        if (IsIntRange(v1) && IsIntRange(v2)) {
+            ret = (int)v1 | (int)v2;
+        }
         break;
 
     case MathOperator::MATH_POWER: //^
diff --git a/src/tomsolver/math_operator.cpp b/src/tomsolver/math_operator.cpp
index 0872c01..6c1432c 100644
--- a/src/tomsolver/math_operator.cpp
+++ b/src/tomsolver/math_operator.cpp
@@ -9,6 +9,17 @@
 
 namespace tomsolver {
 
+namespace {
+
+/**
+ * 返回截断小数部分后是否在int范围内。（nan返回false）
+ */
+bool IsIntRange(double v) noexcept {
+    return v > std::numeric_limits<int>::min() - 1.0 && v < std::numeric_limits<int>::max() + 1.0;
+}
+
+} // namespace
+
 std::string MathOperatorToStr(MathOperator op) {
     switch (op) {
     case MathOperator::MATH_NULL:
@@ -314,13 +325,20 @@ double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        if (IsIntRange(v1) && IsIntRange(v2) && (int)v2 != 0) {
+            // 转为long long以避免 INT_MIN % -1 溢出
+            ret = static_cast<double>((long long)v1 % (long long)v2);
+        }
         break;
     case MathOperator::MATH_AND: //&
-        ret = (int)v1 & (int)v2;
+        if (IsIntRange(v1) && IsIntRange(v2)) {
+            ret = (int)v1 & (int)v2;
+        }
         break;
     case MathOperator::MATH_OR: //|
-        ret = (int)v1 | (int)v2;
+        if (IsIntRange(v1) && IsIntRange(v2)) {
+            ret = (int)v1 | (int)v2;
+        }
         break;
 
     case MathOperator::MATH_POWER: //^
-- 
2.43.0


From a783fd5faba05d07409a214bf394a48505c05f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 05/21] fix: reject blank, juxtaposed and postfix expressions
 in Parse

---
 single/include/tomsolver/tomsolver.h | 37 +++++++++++++++++++++++++++
 src/tomsolver/parse.cpp              | 38 ++++++++++++++++++++++++++++
 2 files changed, 75 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 8028bd4..27de556 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3520,6 +3520,11 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     tryComfirmToken();
 
+    // 只有空白字符
+    if (ret.empty()) {
+        throw SingleParseError(0, 0, "empty input", content);
+    }
+
     return ret;
 }
 
@@ -3528,6 +3533,27 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
     int parenthesisBalance = 0;
     std::stack<Token> tokenStack;
 
+    // 检查操作数和运算符是否正确交替出现
+    bool expectOperand = true;                     // 下一个记号是否应当为操作数的开头
+    bool missingOperand = false;                   // 是否缺少操作数
+    std::vector<SingleParseError> unexpectedToken; // 紧跟在操作数后面的操作数，例如"1 2"
+    auto checkOrder = [&](const Token &token) {
+        bool startsOperand = true; // 是操作数的开头：数字、变量、函数、左括号、正负号
+        bool endsOperand = true;   // 是操作数的结尾：数字、变量、右括号
+        if (token.node->type == NodeType::OPERATOR) {
+            auto op = token.node->op;
+            endsOperand = op == MathOperator::MATH_RIGHT_PARENTHESIS;
+            startsOperand = op == MathOperator::MATH_LEFT_PARENTHESIS || (!endsOperand && GetOperatorNum(op) == 1);
+        }
+        if (startsOperand && !expectOperand) {
+            unexpectedToken.emplace_back(token.line, token.pos, token.content, "Parse Error at: \"", token.s, "\"");
+        }
+        if (!startsOperand && expectOperand) {
+            missingOperand = true;
+        }
+        expectOperand = !endsOperand;
+    };
+
     auto popToken = [&tokenStack] {
         auto r = std::move(tokenStack.top());
         tokenStack.pop();
@@ -3538,6 +3564,8 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
         auto f = std::move(inOrder.front());
         inOrder.pop_front();
 
+        checkOrder(f);
+
         switch (f.node->type) {
         // 数字直接入栈
         case NodeType::NUMBER:
@@ -3614,6 +3642,15 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
         postOrder.emplace_back(std::move(token));
     }
 
+    if (missingOperand || expectOperand) {
+        throw MathError{ErrorType::ERROR_WRONG_EXPRESSION};
+    }
+
+    if (!unexpectedToken.empty()) {
+        std::reverse(unexpectedToken.begin(), unexpectedToken.end()); // MultiParseError从后往前输出
+        throw MultiParseError(unexpectedToken);
+    }
+
     return postOrder;
 }
 
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 509ea18..9a4bb21 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -202,6 +202,11 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     tryComfirmToken();
 
+    // 只有空白字符
+    if (ret.empty()) {
+        throw SingleParseError(0, 0, "empty input", content);
+    }
+
     return ret;
 }
 
@@ -210,6 +215,28 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
     int parenthesisBalance = 0;
     std::stack<Token> tokenStack;
 
+    // 检查操作数和运算符是否正确交替出现
+    bool expectOperand = true;                     // 下一个记号是否应当为操作数的开头
+    bool missingOperand = false;                   // 是否缺少操作数
+    std::vector<SingleParseError> unexpectedToken; // 紧跟在操作数后面的操作数，例如"1 2"
+    auto checkOrder = [&](const Token &token) {
+        bool startsOperand = true; // 是操作数的开头：数字、变量、函数、左括号、正负号
+        bool endsOperand = true;   // 是操作数的结尾：数字、变量、右括号
+        if (token.node->type == NodeType::OPERATOR) {
+            auto op = token.node->op;
+            endsOperand = op == MathOperator::MATH_RIGHT_PARENTHESIS;
+            startsOperand = op == MathOperator::MATH_LEFT_PARENTHESIS ||
+                            (!endsOperand && GetOperatorNum(op) == 1);
+        }
+        if (startsOperand && !expectOperand) {
+            unexpectedToken.emplace_back(token.line, token.pos, token.content, "Parse Error at: \"", token.s, "\"");
+        }
+        if (!startsOperand && expectOperand) {
+            missingOperand = true;
+        }
+        expectOperand = !endsOperand;
+    };
+
     auto popToken = [&tokenStack] {
         auto r = std::move(tokenStack.top());
         tokenStack.pop();
@@ -220,6 +247,8 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
         auto f = std::move(inOrder.front());
         inOrder.pop_front();
 
+        checkOrder(f);
+
         switch (f.node->type) {
         // 数字直接入栈
         case NodeType::NUMBER:
@@ -296,6 +325,15 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
         postOrder.emplace_back(std::move(token));
     }
 
+    if (missingOperand || expectOperand) {
+        throw MathError{ErrorType::ERROR_WRONG_EXPRESSION};
+    }
+
+    if (!unexpectedToken.empty()) {
+        std::reverse(unexpectedToken.begin(), unexpectedToken.end()); // MultiParseError从后往前输出
+        throw MultiParseError(unexpectedToken);
+    }
+
     return postOrder;
 }
 
-- 
2.43.0


From 878bb73ad61ec3aaec777063ba169e5edd0ccd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 06/21] fix: count closed parentheses so that a surplus ')' is
 reported, not a crash

---
 single/include/tomsolver/tomsolver.h | 1 +
 src/tomsolver/parse.cpp              | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 27de556..8825de4 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3591,6 +3591,7 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            parenthesisBalance--;
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
             }
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 9a4bb21..946be3c 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -274,6 +274,7 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            parenthesisBalance--;
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
             }
-- 
2.43.0


From f6aece5aed0f48155db73aebb951839cac90dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 07/21] fix: parse asin, acos and atan, the names ToString
 prints

---
 single/include/tomsolver/tomsolver.h | 3 +++
 src/tomsolver/parse.cpp              | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 8825de4..38fa611 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3408,10 +3408,13 @@ inline MathOperator Str2Function(internal::StringView s) noexcept {
         return MathOperator::MATH_COS;
     case "tan"_fnv1a:
         return MathOperator::MATH_TAN;
+    case "asin"_fnv1a:
     case "arcsin"_fnv1a:
         return MathOperator::MATH_ARCSIN;
+    case "acos"_fnv1a:
     case "arccos"_fnv1a:
         return MathOperator::MATH_ARCCOS;
+    case "atan"_fnv1a:
     case "arctan"_fnv1a:
         return MathOperator::MATH_ARCTAN;
     case "sqrt"_fnv1a:
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 946be3c..54bb727 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -90,10 +90,13 @@ MathOperator Str2Function(internal::StringView s) noexcept {
         return MathOperator::MATH_COS;
     case "tan"_fnv1a:
         return MathOperator::MATH_TAN;
+    case "asin"_fnv1a:
     case "arcsin"_fnv1a:
         return MathOperator::MATH_ARCSIN;
+    case "acos"_fnv1a:
     case "arccos"_fnv1a:
         return MathOperator::MATH_ARCCOS;
+    case "atan"_fnv1a:
     case "arctan"_fnv1a:
         return MathOperator::MATH_ARCTAN;
     case "sqrt"_fnv1a:
-- 
2.43.0


From 105ae847698c93004b758d8b194603090bc98809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 08/21] fix: parse signed exponents, as printed by ToString for
 large and small numbers

---
 single/include/tomsolver/tomsolver.h | 21 ++++++++++++++++++++-
 src/tomsolver/parse.cpp              | 21 ++++++++++++++++++++-
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 38fa611..ca8f65d 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3370,6 +3370,23 @@ inline bool IsBasicOperator(char c) noexcept {
     return false;
 }
 
+/* iter指向的字符是否为浮点数的指数的正负号，例如1e+16, 2.5E-3中的+和-。记号的开头是nameIter */
+inline bool IsExponentSign(const char *nameIter, const char *iter, const char *end) noexcept {
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+
+    if ((*iter != '+' && *iter != '-') || iter + 1 == end || !isDigit(iter[1]) || iter - nameIter < 2 ||
+        (iter[-1] != 'e' && iter[-1] != 'E')) {
+        return false;
+    }
+
+    // 指数符号e前面必须是十进制小数
+    auto digits = std::count_if(nameIter, iter - 1, isDigit);
+    auto dots = std::count(nameIter, iter - 1, '.');
+    return digits > 0 && dots <= 1 && digits + dots == iter - 1 - nameIter;
+}
+
 /*  */
 inline MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
     switch (c) {
@@ -3504,7 +3521,9 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
     };
 
     while (iter != content.end()) {
-        if (IsBasicOperator(*iter)) {
+        if (IsExponentSign(nameIter, iter, content.end())) {
+            ++iter;
+        } else if (IsBasicOperator(*iter)) {
             tryComfirmToken();
             auto unaryOp = ret.empty() || (ret.back().node->type == NodeType::OPERATOR &&
                                            ret.back().node->op != MathOperator::MATH_RIGHT_PARENTHESIS);
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 54bb727..b7ff710 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -52,6 +52,23 @@ bool IsBasicOperator(char c) noexcept {
     return false;
 }
 
+/* iter指向的字符是否为浮点数的指数的正负号，例如1e+16, 2.5E-3中的+和-。记号的开头是nameIter */
+bool IsExponentSign(const char *nameIter, const char *iter, const char *end) noexcept {
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+
+    if ((*iter != '+' && *iter != '-') || iter + 1 == end || !isDigit(iter[1]) || iter - nameIter < 2 ||
+        (iter[-1] != 'e' && iter[-1] != 'E')) {
+        return false;
+    }
+
+    // 指数符号e前面必须是十进制小数
+    auto digits = std::count_if(nameIter, iter - 1, isDigit);
+    auto dots = std::count(nameIter, iter - 1, '.');
+    return digits > 0 && dots <= 1 && digits + dots == iter - 1 - nameIter;
+}
+
 /*  */
 MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
     switch (c) {
@@ -186,7 +203,9 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
     };
 
     while (iter != content.end()) {
-        if (IsBasicOperator(*iter)) {
+        if (IsExponentSign(nameIter, iter, content.end())) {
+            ++iter;
+        } else if (IsBasicOperator(*iter)) {
             tryComfirmToken();
             auto unaryOp = ret.empty() || (ret.back().node->type == NodeType::OPERATOR &&
                                            ret.back().node->op != MathOperator::MATH_RIGHT_PARENTHESIS);
-- 
2.43.0


From ae2d962d4257509c3ab83e90f9a95914160e2b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 09/21] fix: check variable names without recursion so that
 long names do not overflow the stack

---
 single/include/tomsolver/tomsolver.h |  9 ++++++++-
 src/tomsolver/node.cpp               | 11 +++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index ca8f65d..dbe0ec3 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1630,7 +1630,14 @@ inline Node Op(MathOperator op) {
 }
 
 inline bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    // 不使用std::regex，因为它是递归实现，变量名过长时会导致栈溢出
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    auto isWord = [&isDigit](char c) {
+        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || isDigit(c);
+    };
+    return !varname.empty() && !isDigit(varname.front()) && std::all_of(varname.begin(), varname.end(), isWord);
 }
 
 inline Node Var(std::string varname) {
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index 2bc8831..39605ad 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -3,13 +3,13 @@
 #include "config.h"
 #include "math_operator.h"
 
+#include <algorithm>
 #include <cassert>
 #include <forward_list>
 #include <functional>
 #include <iostream>
 #include <limits>
 #include <memory>
-#include <regex>
 #include <stack>
 #include <string>
 #include <type_traits>
@@ -661,7 +661,14 @@ Node Op(MathOperator op) {
 }
 
 bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    // 不使用std::regex，因为它是递归实现，变量名过长时会导致栈溢出
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    auto isWord = [&isDigit](char c) {
+        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || isDigit(c);
+    };
+    return !varname.empty() && !isDigit(varname.front()) && std::all_of(varname.begin(), varname.end(), isWord);
 }
 
 Node Var(std::string varname) {
-- 
2.43.0


From 4a901cddb119945f40427e0b5513040ef1c6872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 10/21] fix: support compound assignment of an expression with
 itself

---
 single/include/tomsolver/tomsolver.h | 33 +++++++++++++++++++++++-----
 src/tomsolver/node.cpp               |  8 +++++++
 src/tomsolver/node.h                 | 25 ++++++++++++++++-----
 3 files changed, 56 insertions(+), 10 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index dbe0ec3..ff4f14c 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -851,6 +851,16 @@ inline void CopyOrMoveTo(NodeImpl *parent, Node &child, Node &&n1) noexcept;
  */
 inline void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept;
 
+/**
+ * 移动节点n1。
+ */
+inline Node CopyOrMove(Node &&n1) noexcept;
+
+/**
+ * 拷贝节点n1。
+ */
+inline Node CopyOrMove(const Node &n1) noexcept;
+
 /**
  * 重载std::ostream的<<操作符以输出一个Node节点。
  */
@@ -925,7 +935,8 @@ inline SfinaeNode<T1, T2> operator+(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator+=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n1和n2可能是同一个对象，所以先取得n2
+    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -946,7 +957,8 @@ inline SfinaeNode<T> operator+(T &&n1) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator-=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n1和n2可能是同一个对象，所以先取得n2
+    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -957,7 +969,8 @@ inline SfinaeNode<T1, T2> operator*(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator*=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n1和n2可能是同一个对象，所以先取得n2
+    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -968,7 +981,8 @@ inline SfinaeNode<T1, T2> operator/(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator/=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n1和n2可能是同一个对象，所以先取得n2
+    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -979,7 +993,8 @@ inline SfinaeNode<T1, T2> operator^(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator^=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n1和n2可能是同一个对象，所以先取得n2
+    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -1556,6 +1571,14 @@ inline void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept
     child = std::move(n1Clone);
 }
 
+inline Node CopyOrMove(Node &&n1) noexcept {
+    return std::move(n1);
+}
+
+inline Node CopyOrMove(const Node &n1) noexcept {
+    return Clone(n1);
+}
+
 inline std::ostream &operator<<(std::ostream &out, const Node &n) noexcept {
     out << n->ToString();
     return out;
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index 39605ad..76b611f 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -587,6 +587,14 @@ void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept {
     child = std::move(n1Clone);
 }
 
+Node CopyOrMove(Node &&n1) noexcept {
+    return std::move(n1);
+}
+
+Node CopyOrMove(const Node &n1) noexcept {
+    return Clone(n1);
+}
+
 std::ostream &operator<<(std::ostream &out, const Node &n) noexcept {
     out << n->ToString();
     return out;
diff --git a/src/tomsolver/node.h b/src/tomsolver/node.h
index 353af17..3c8478f 100644
--- a/src/tomsolver/node.h
+++ b/src/tomsolver/node.h
@@ -164,6 +164,16 @@ void CopyOrMoveTo(NodeImpl *parent, Node &child, Node &&n1) noexcept;
  */
 void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept;
 
+/**
+ * 移动节点n1。
+ */
+Node CopyOrMove(Node &&n1) noexcept;
+
+/**
+ * 拷贝节点n1。
+ */
+Node CopyOrMove(const Node &n1) noexcept;
+
 /**
  * 重载std::ostream的<<操作符以输出一个Node节点。
  */
@@ -238,7 +248,8 @@ SfinaeNode<T1, T2> operator+(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator+=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n1和n2可能是同一个对象，所以先取得n2
+    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -259,7 +270,8 @@ SfinaeNode<T> operator+(T &&n1) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator-=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n1和n2可能是同一个对象，所以先取得n2
+    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -270,7 +282,8 @@ SfinaeNode<T1, T2> operator*(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator*=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n1和n2可能是同一个对象，所以先取得n2
+    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -281,7 +294,8 @@ SfinaeNode<T1, T2> operator/(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator/=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n1和n2可能是同一个对象，所以先取得n2
+    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::move(rhs));
     return n1;
 }
 
@@ -292,7 +306,8 @@ SfinaeNode<T1, T2> operator^(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator^=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::forward<T>(n2));
+    auto rhs = internal::CopyOrMove(std::forward<T>(n2)); // n1和n2可能是同一个对象，所以先取得n2
+    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::move(rhs));
     return n1;
 }
 
-- 
2.43.0


From 02a9c5566a887537db065e2e409835831205cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 11/21] fix: divide by the elements of the second matrix in
 EachDivide

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/mat.cpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index ff4f14c..b017d2e 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2315,7 +2315,7 @@ inline Mat operator*(double k, const Mat &mat) noexcept {
 inline Mat EachDivide(const Mat &a, const Mat &b) noexcept {
     assert(a.rows == b.rows);
     assert(a.cols == b.cols);
-    return {a.rows, b.cols, b.data / b.data};
+    return {a.rows, b.cols, a.data / b.data};
 }
 
 inline bool IsZero(const Mat &mat) noexcept {
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index ee1e783..82532af 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -270,7 +270,7 @@ Mat operator*(double k, const Mat &mat) noexcept {
 Mat EachDivide(const Mat &a, const Mat &b) noexcept {
     assert(a.rows == b.rows);
     assert(a.cols == b.cols);
-    return {a.rows, b.cols, b.data / b.data};
+    return {a.rows, b.cols, a.data / b.data};
 }
 
 bool IsZero(const Mat &mat) noexcept {
-- 
2.43.0


From 8588395a50842527279be8774c14f8bea636d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 12/21] fix: keep the pivot row index in range when the column
 contains NaN

---
 single/include/tomsolver/tomsolver.h | 3 ++-
 src/tomsolver/mat.cpp                | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index b017d2e..e2f5f5a 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2334,7 +2334,8 @@ inline bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 inline int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    // 不使用temp.max()再查找的方式，因为存在nan时可能找不到
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index 82532af..e2168a8 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -289,7 +289,8 @@ bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    // 不使用temp.max()再查找的方式，因为存在nan时可能找不到
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
-- 
2.43.0


From bf267b908fa7f997577694ac92040cc564d30847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 13/21] fix: determine the ranks of rank-deficient systems
 correctly in SolveLinear

---
 single/include/tomsolver/tomsolver.h | 32 ++++++++++++----------------
 src/tomsolver/linear.cpp             | 32 ++++++++++++----------------
 2 files changed, 28 insertions(+), 36 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index e2f5f5a..7149764 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2568,35 +2568,31 @@ inline Vec SolveLinear(Mat A, Vec b) {
     std::vector<int> TrueRowNumber(cols);
 
     // 列主元消元法
-    for (auto y = 0, x = 0; y < rows && x < cols; y++, x++) {
-        // if (A[i].size() != rows)
-
-        // 从当前行(y)到最后一行(rows-1)中，找出x列最大的一行与y行交换
-        int maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
-        A.SwapRow(y, maxAbsRowIndex);
-        b.SwapRow(y, maxAbsRowIndex);
+    for (auto y = 0, x = 0; y < rows; y++, x++) {
+        for (; x < cols; x++) { // 如果当前列均为0  x一直递增到非0
+            // 从当前行(y)到最后一行(rows-1)中，找出x列最大的一行与y行交换
+            int maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
+            A.SwapRow(y, maxAbsRowIndex);
+            b.SwapRow(y, maxAbsRowIndex);
 
-        while (std::abs(A.Value(y, x)) < Config::Get().epsilon) // 如果当前值为0  x一直递增到非0
-        {
-            x++;
-            if (x == cols) {
+            if (!(std::abs(A.Value(y, x)) < Config::Get().epsilon)) {
                 break;
             }
-
-            // 交换本行与最大行
-            maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
-            A.SwapRow(y, maxAbsRowIndex);
-            b.SwapRow(y, maxAbsRowIndex);
         }
 
         if (x != cols && x > y) {
             TrueRowNumber[y] = x; // 补齐方程时 当前行应换到x行
         }
 
-        if (x == cols) // 本行全为0
+        if (x == cols) // 本行及以下各行全为0
         {
             RankA = y;
-            if (std::abs(b[y]) < Config::Get().epsilon) {
+
+            auto bIsZero = true;
+            for (auto row = y; row < rows; row++) {
+                bIsZero = bIsZero && std::abs(b[row]) < Config::Get().epsilon;
+            }
+            if (bIsZero) {
                 RankAb = y;
             }
 
diff --git a/src/tomsolver/linear.cpp b/src/tomsolver/linear.cpp
index 2c680db..3cf6faf 100644
--- a/src/tomsolver/linear.cpp
+++ b/src/tomsolver/linear.cpp
@@ -48,35 +48,31 @@ Vec SolveLinear(Mat A, Vec b) {
     std::vector<int> TrueRowNumber(cols);
 
     // 列主元消元法
-    for (auto y = 0, x = 0; y < rows && x < cols; y++, x++) {
-        // if (A[i].size() != rows)
-
-        // 从当前行(y)到最后一行(rows-1)中，找出x列最大的一行与y行交换
-        int maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
-        A.SwapRow(y, maxAbsRowIndex);
-        b.SwapRow(y, maxAbsRowIndex);
+    for (auto y = 0, x = 0; y < rows; y++, x++) {
+        for (; x < cols; x++) { // 如果当前列均为0  x一直递增到非0
+            // 从当前行(y)到最后一行(rows-1)中，找出x列最大的一行与y行交换
+            int maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
+            A.SwapRow(y, maxAbsRowIndex);
+            b.SwapRow(y, maxAbsRowIndex);
 
-        while (std::abs(A.Value(y, x)) < Config::Get().epsilon) // 如果当前值为0  x一直递增到非0
-        {
-            x++;
-            if (x == cols) {
+            if (!(std::abs(A.Value(y, x)) < Config::Get().epsilon)) {
                 break;
             }
-
-            // 交换本行与最大行
-            maxAbsRowIndex = GetMaxAbsRowIndex(A, y, rows - 1, x);
-            A.SwapRow(y, maxAbsRowIndex);
-            b.SwapRow(y, maxAbsRowIndex);
         }
 
         if (x != cols && x > y) {
             TrueRowNumber[y] = x; // 补齐方程时 当前行应换到x行
         }
 
-        if (x == cols) // 本行全为0
+        if (x == cols) // 本行及以下各行全为0
         {
             RankA = y;
-            if (std::abs(b[y]) < Config::Get().epsilon) {
+
+            auto bIsZero = true;
+            for (auto row = y; row < rows; row++) {
+                bIsZero = bIsZero && std::abs(b[row]) < Config::Get().epsilon;
+            }
+            if (bIsZero) {
                 RankAb = y;
             }
 
-- 
2.43.0


From 7dbf04268cd077dbb63d7c664f3ef7a3cbdbdd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 14/21] fix: start Newton-Raphson iteration at the given
 initial values

---
 single/include/tomsolver/tomsolver.h | 3 +--
 src/tomsolver/nonlinear.cpp          | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 7149764..6ba118a 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3918,8 +3918,7 @@ inline void PrintAtIterationStart(int it) noexcept {
 inline VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
-    int n = table.VarNums(); // 未知量数量
-    Vec q(n);                // x向量
+    Vec q = table.Values(); // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index dd1c74e..3943d94 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -89,8 +89,7 @@ void PrintAtIterationStart(int it) noexcept {
 VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
-    int n = table.VarNums(); // 未知量数量
-    Vec q(n);                // x向量
+    Vec q = table.Values(); // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
-- 
2.43.0


From f8e02d60fafae68e63be54898becb8d2b751722e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 15/21] fix: report non-square systems in SolveByLM instead of
 mixing up dimensions

---
 single/include/tomsolver/tomsolver.h | 8 ++++++++
 src/tomsolver/nonlinear.cpp          | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 6ba118a..b17379f 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3975,6 +3975,14 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
     Vec q = table.Values();  // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
+    // 方向向量及Armijo条件均要求雅可比矩阵为方阵
+    if (equations.Rows() > n) {
+        throw MathError(ErrorType::ERROR_OVER_DETERMINED_EQUATIONS);
+    }
+    if (equations.Rows() < n) {
+        throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION);
+    }
+
     SymMat JaEqs = Jacobian(equations, table.Vars());
     internal::PrintJacobian(JaEqs);
 
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 3943d94..97a0646 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -146,6 +146,14 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
     Vec q = table.Values();  // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
+    // 方向向量及Armijo条件均要求雅可比矩阵为方阵
+    if (equations.Rows() > n) {
+        throw MathError(ErrorType::ERROR_OVER_DETERMINED_EQUATIONS);
+    }
+    if (equations.Rows() < n) {
+        throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION);
+    }
+
     SymMat JaEqs = Jacobian(equations, table.Vars());
     internal::PrintJacobian(JaEqs);
 
-- 
2.43.0


From cc03d705b03dab1921a4c0cf245ad12166c42698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 16/21] fix: end the Armijo search when the condition can never
 hold because of NaN

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/nonlinear.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index b17379f..9e1e742 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3852,7 +3852,7 @@ inline double Armijo(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, std:
 
         auto l = f(x_new).Norm2();
         auto r = (f(x).AsMat() + gamma * alpha * df(x).Transpose() * d).Norm2();
-        if (l <= r) // 检验条件
+        if (l <= r || alpha == 0) // 检验条件。出现nan时条件永远不满足，alpha减小到0时退出
         {
             break;
         } else
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 97a0646..c265bbb 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -23,7 +23,7 @@ double Armijo(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, std::functi
 
         auto l = f(x_new).Norm2();
         auto r = (f(x).AsMat() + gamma * alpha * df(x).Transpose() * d).Norm2();
-        if (l <= r) // 检验条件
+        if (l <= r || alpha == 0) // 检验条件。出现nan时条件永远不满足，alpha减小到0时退出
         {
             break;
         } else
-- 
2.43.0


From b81e4d7b00fa2743f79057dfb04f3735c3000086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 17/21] fix: pad short rows with zero when constructing Mat
 from rows of different lengths

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/mat.cpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 9e1e742..386711d 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2074,7 +2074,7 @@ inline Mat::Mat(std::initializer_list<std::initializer_list<double>> init) noexc
 
     auto i = 0;
     for (auto values : init) {
-        Row(i++) = values;
+        std::copy(values.begin(), values.end(), std::begin(data) + cols * i++); // 较短的行用0补齐
     }
 }
 
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index e2168a8..6612cbd 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -30,7 +30,7 @@ Mat::Mat(std::initializer_list<std::initializer_list<double>> init) noexcept {
 
     auto i = 0;
     for (auto values : init) {
-        Row(i++) = values;
+        std::copy(values.begin(), values.end(), std::begin(data) + cols * i++); // 较短的行用0补齐
     }
 }
 
-- 
2.43.0


From 1a20c6bddfc6c5e67b2449ca21afb7ded288f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 18/21] fix: differentiate powers whose exponent does not
 involve the variable without taking log of the base

---
 single/include/tomsolver/tomsolver.h | 42 +++++++++++++++++++++++--
 src/tomsolver/diff.cpp               | 46 +++++++++++++++++++++++++---
 2 files changed, 81 insertions(+), 7 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 386711d..a690028 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -4130,7 +4130,7 @@ public:
         std::queue<DiffNode> q;
 
         if (root->type == NodeType::OPERATOR) {
-            DiffOnceOperator(root, q);
+            DiffOnceOperator(root, q, varname);
         } else {
             q.emplace(*root);
         }
@@ -4153,7 +4153,7 @@ public:
 
             case NodeType::OPERATOR: {
                 auto &child = isLeftChild ? node.parent->left : node.parent->right;
-                DiffOnceOperator(child, q);
+                DiffOnceOperator(child, q, varname);
                 break;
             }
             default:
@@ -4162,7 +4162,31 @@ public:
         }
     }
 
-    static void DiffOnceOperator(Node &node, std::queue<DiffNode> &q) {
+    // 返回表达式是否为与变量varname无关的常量（含有不可求导的运算符&, |, %时返回false）
+    static bool IsConstant(const NodeImpl &root, const std::string &varname) {
+        std::stack<std::reference_wrapper<const NodeImpl>> stk;
+        stk.emplace(root);
+        while (!stk.empty()) {
+            auto &node = stk.top().get();
+            stk.pop();
+            if (node.type == NodeType::VARIABLE && node.varname == varname) {
+                return false;
+            }
+            if (node.op == MathOperator::MATH_AND || node.op == MathOperator::MATH_OR ||
+                node.op == MathOperator::MATH_MOD) {
+                return false;
+            }
+            if (node.left) {
+                stk.emplace(*node.left);
+            }
+            if (node.right) {
+                stk.emplace(*node.right);
+            }
+        }
+        return true;
+    }
+
+    static void DiffOnceOperator(Node &node, std::queue<DiffNode> &q, const std::string &varname) {
         auto parent = node->parent;
 
         // 调用前提：node是1元操作符
@@ -4443,6 +4467,18 @@ public:
                 return;
             }
 
+            // (u^a)' = a*u^(a-1) * u'，a是与varname无关的表达式。此时u可以是负数
+            if (IsConstant(*node->right, varname)) {
+                auto &a = node->right;
+                auto &u = node->left;
+                auto aMinus1 = a - Num(1);
+                auto u2 = Clone(u);
+                q.emplace(*u2);
+                node = std::move(a) * (std::move(u) ^ std::move(aMinus1)) * std::move(u2);
+                node->parent = parent;
+                return;
+            }
+
             // (a^x)' = a^x * ln(a)  when a>0 and a!=1
             if (lChildIsNumber) {
                 auto &a = node->left;
diff --git a/src/tomsolver/diff.cpp b/src/tomsolver/diff.cpp
index b3ef1bf..0bff77a 100644
--- a/src/tomsolver/diff.cpp
+++ b/src/tomsolver/diff.cpp
@@ -3,8 +3,10 @@
 #include "functions.h"
 #include "simplify.h"
 
-#include <queue>
 #include <cmath> // std::log
+#include <functional>
+#include <queue>
+#include <stack>
 
 namespace tomsolver {
 
@@ -23,7 +25,7 @@ public:
         std::queue<DiffNode> q;
 
         if (root->type == NodeType::OPERATOR) {
-            DiffOnceOperator(root, q);
+            DiffOnceOperator(root, q, varname);
         } else {
             q.emplace(*root);
         }
@@ -46,7 +48,7 @@ public:
 
             case NodeType::OPERATOR: {
                 auto &child = isLeftChild ? node.parent->left : node.parent->right;
-                DiffOnceOperator(child, q);
+                DiffOnceOperator(child, q, varname);
                 break;
             }
             default:
@@ -55,7 +57,31 @@ public:
         }
     }
 
-    static void DiffOnceOperator(Node &node, std::queue<DiffNode> &q) {
+    // 返回表达式是否为与变量varname无关的常量（含有不可求导的运算符&, |, %时返回false）
+    static bool IsConstant(const NodeImpl &root, const std::string &varname) {
+        std::stack<std::reference_wrapper<const NodeImpl>> stk;
+        stk.emplace(root);
+        while (!stk.empty()) {
+            auto &node = stk.top().get();
+            stk.pop();
+            if (node.type == NodeType::VARIABLE && node.varname == varname) {
+                return false;
+            }
+            if (node.op == MathOperator::MATH_AND || node.op == MathOperator::MATH_OR ||
+                node.op == MathOperator::MATH_MOD) {
+                return false;
+            }
+            if (node.left) {
+                stk.emplace(*node.left);
+            }
+            if (node.right) {
+                stk.emplace(*node.right);
+            }
+        }
+        return true;
+    }
+
+    static void DiffOnceOperator(Node &node, std::queue<DiffNode> &q, const std::string &varname) {
         auto parent = node->parent;
 
         // 调用前提：node是1元操作符
@@ -336,6 +362,18 @@ public:
                 return;
             }
 
+            // (u^a)' = a*u^(a-1) * u'，a是与varname无关的表达式。此时u可以是负数
+            if (IsConstant(*node->right, varname)) {
+                auto &a = node->right;
+                auto &u = node->left;
+                auto aMinus1 = a - Num(1);
+                auto u2 = Clone(u);
+                q.emplace(*u2);
+                node = std::move(a) * (std::move(u) ^ std::move(aMinus1)) * std::move(u2);
+                node->parent = parent;
+                return;
+            }
+
             // (a^x)' = a^x * ln(a)  when a>0 and a!=1
             if (lChildIsNumber) {
                 auto &a = node->left;
-- 
2.43.0


From 6655534f6997937e4e82b4b7b403bcebb93d0173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:27 +0000
Subject: [PATCH 19/21] fix: quote the whole input in the error for an illegal
 token

The position of SingleParseError counts from the start of the input, but only the
token itself was passed as the content, so the caret pointed past the quoted text.
---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/parse.cpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index a690028..2fdc3a4 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3540,7 +3540,7 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             // 非运算符、数字、函数
             if (!VarNameIsLegal(expStr)) // 变量名首字符需为下划线或字母
             {
-                throw SingleParseError(token.line, token.pos, exp, "Invalid variable name: \"", exp, "\"");
+                throw SingleParseError(token.line, token.pos, content, "Invalid variable name: \"", exp, "\"");
             }
 
             token.node = Var(expStr);
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index b7ff710..701873c 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -195,7 +195,7 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             // 非运算符、数字、函数
             if (!VarNameIsLegal(expStr)) // 变量名首字符需为下划线或字母
             {
-                throw SingleParseError(token.line, token.pos, exp, "Invalid variable name: \"", exp, "\"");
+                throw SingleParseError(token.line, token.pos, content, "Invalid variable name: \"", exp, "\"");
             }
 
             token.node = Var(expStr);
-- 
2.43.0


From ee87c1973864727f3e9c709548468c9abdee75dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:11 +0000
Subject: [PATCH 20/21] fix: pass content and message of the empty-input error
 in the right order

---
 single/include/tomsolver/tomsolver.h | 4 ++--
 src/tomsolver/parse.cpp              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 2fdc3a4..87cdd96 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3507,7 +3507,7 @@ namespace internal {
 inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     if (content.empty()) {
-        throw SingleParseError(0, 0, "empty input", content);
+        throw SingleParseError(0, 0, content, "empty input");
     }
 
     auto iter = content.begin(), nameIter = iter;
@@ -3571,7 +3571,7 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     // 只有空白字符
     if (ret.empty()) {
-        throw SingleParseError(0, 0, "empty input", content);
+        throw SingleParseError(0, 0, content, "empty input");
     }
 
     return ret;
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 701873c..698bb39 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -162,7 +162,7 @@ namespace internal {
 std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     if (content.empty()) {
-        throw SingleParseError(0, 0, "empty input", content);
+        throw SingleParseError(0, 0, content, "empty input");
     }
 
     auto iter = content.begin(), nameIter = iter;
@@ -226,7 +226,7 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     // 只有空白字符
     if (ret.empty()) {
-        throw SingleParseError(0, 0, "empty input", content);
+        throw SingleParseError(0, 0, content, "empty input");
     }
 
     return ret;
-- 
2.43.0


From ac19659cfa0f5ef16d8eb60f726f15b76e1a3424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:00 +0000
Subject: [PATCH 21/21] fix: identifiers whose hash equals a function name's
 are variables

---
 single/include/tomsolver/tomsolver.h | 59 +++++++------------------
 src/tomsolver/parse.cpp              | 66 ++++++++++------------------
 2 files changed, 39 insertions(+), 86 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 87cdd96..2b1fa32 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3362,23 +3362,6 @@ namespace tomsolver {
 
 namespace {
 
-inline constexpr auto fnv1a(internal::StringView s) {
-    constexpr uint64_t offsetBasis = 14695981039346656037ul;
-    constexpr uint64_t prime = 1099511628211ul;
-
-    uint64_t hash = offsetBasis;
-
-    for (auto c : s) {
-        hash = (hash ^ c) * prime;
-    }
-
-    return hash;
-}
-
-inline constexpr auto operator""_fnv1a(const char *s, size_t) {
-    return fnv1a(s);
-}
-
 /* 是基本运算符()+-* /^&|% */
 inline bool IsBasicOperator(char c) noexcept {
     switch (c) {
@@ -3445,32 +3428,22 @@ inline MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
 }
 
 inline MathOperator Str2Function(internal::StringView s) noexcept {
-    switch (fnv1a(s)) {
-    case "sin"_fnv1a:
-        return MathOperator::MATH_SIN;
-    case "cos"_fnv1a:
-        return MathOperator::MATH_COS;
-    case "tan"_fnv1a:
-        return MathOperator::MATH_TAN;
-    case "asin"_fnv1a:
-    case "arcsin"_fnv1a:
-        return MathOperator::MATH_ARCSIN;
-    case "acos"_fnv1a:
-    case "arccos"_fnv1a:
-        return MathOperator::MATH_ARCCOS;
-    case "atan"_fnv1a:
-    case "arctan"_fnv1a:
-        return MathOperator::MATH_ARCTAN;
-    case "sqrt"_fnv1a:
-        return MathOperator::MATH_SQRT;
-    case "log"_fnv1a:
-        return MathOperator::MATH_LOG;
-    case "log2"_fnv1a:
-        return MathOperator::MATH_LOG2;
-    case "log10"_fnv1a:
-        return MathOperator::MATH_LOG10;
-    case "exp"_fnv1a:
-        return MathOperator::MATH_EXP;
+    static constexpr struct {
+        internal::StringView name;
+        MathOperator op;
+    } functions[] = {
+        {"sin", MathOperator::MATH_SIN},       {"cos", MathOperator::MATH_COS},
+        {"tan", MathOperator::MATH_TAN},       {"asin", MathOperator::MATH_ARCSIN},
+        {"arcsin", MathOperator::MATH_ARCSIN}, {"acos", MathOperator::MATH_ARCCOS},
+        {"arccos", MathOperator::MATH_ARCCOS}, {"atan", MathOperator::MATH_ARCTAN},
+        {"arctan", MathOperator::MATH_ARCTAN}, {"sqrt", MathOperator::MATH_SQRT},
+        {"log", MathOperator::MATH_LOG},       {"log2", MathOperator::MATH_LOG2},
+        {"log10", MathOperator::MATH_LOG10},   {"exp", MathOperator::MATH_EXP},
+    };
+    for (const auto &function : functions) {
+        if (std::equal(s.begin(), s.end(), function.name.begin(), function.name.end())) {
+            return function.op;
+        }
     }
     return MathOperator::MATH_NULL;
 }
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 698bb39..1f584c8 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -17,23 +17,6 @@ namespace tomsolver {
 
 namespace {
 
-constexpr auto fnv1a(internal::StringView s) {
-    constexpr uint64_t offsetBasis = 14695981039346656037ul;
-    constexpr uint64_t prime = 1099511628211ul;
-
-    uint64_t hash = offsetBasis;
-
-    for (auto c : s) {
-        hash = (hash ^ c) * prime;
-    }
-
-    return hash;
-}
-
-constexpr auto operator""_fnv1a(const char *s, size_t) {
-    return fnv1a(s);
-}
-
 /* 是基本运算符()+-* /^&|% */
 bool IsBasicOperator(char c) noexcept {
     switch (c) {
@@ -100,32 +83,29 @@ MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
 }
 
 MathOperator Str2Function(internal::StringView s) noexcept {
-    switch (fnv1a(s)) {
-    case "sin"_fnv1a:
-        return MathOperator::MATH_SIN;
-    case "cos"_fnv1a:
-        return MathOperator::MATH_COS;
-    case "tan"_fnv1a:
-        return MathOperator::MATH_TAN;
-    case "asin"_fnv1a:
-    case "arcsin"_fnv1a:
-        return MathOperator::MATH_ARCSIN;
-    case "acos"_fnv1a:
-    case "arccos"_fnv1a:
-        return MathOperator::MATH_ARCCOS;
-    case "atan"_fnv1a:
-    case "arctan"_fnv1a:
-        return MathOperator::MATH_ARCTAN;
-    case "sqrt"_fnv1a:
-        return MathOperator::MATH_SQRT;
-    case "log"_fnv1a:
-        return MathOperator::MATH_LOG;
-    case "log2"_fnv1a:
-        return MathOperator::MATH_LOG2;
-    case "log10"_fnv1a:
-        return MathOperator::MATH_LOG10;
-    case "exp"_fnv1a:
-        return MathOperator::MATH_EXP;
+    static constexpr struct {
+        internal::StringView name;
+        MathOperator op;
+    } functions[] = {
+        {"sin", MathOperator::MATH_SIN},
+        {"cos", MathOperator::MATH_COS},
+        {"tan", MathOperator::MATH_TAN},
+        {"asin", MathOperator::MATH_ARCSIN},
+        {"arcsin", MathOperator::MATH_ARCSIN},
+        {"acos", MathOperator::MATH_ARCCOS},
+        {"arccos", MathOperator::MATH_ARCCOS},
+        {"atan", MathOperator::MATH_ARCTAN},
+        {"arctan", MathOperator::MATH_ARCTAN},
+        {"sqrt", MathOperator::MATH_SQRT},
+        {"log", MathOperator::MATH_LOG},
+        {"log2", MathOperator::MATH_LOG2},
+        {"log10", MathOperator::MATH_LOG10},
+        {"exp", MathOperator::MATH_EXP},
+    };
+    for (const auto &function : functions) {
+        if (std::equal(s.begin(), s.end(), function.name.begin(), function.name.end())) {
+            return function.op;
+        }
     }
     return MathOperator::MATH_NULL;
 }
-- 
2.43.0

