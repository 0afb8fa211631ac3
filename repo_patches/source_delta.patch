From 46332032ddb154425543862687471f802882579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 01/47] fix: flood fill started on a refined element no longer
 leaks out of that element

Tree::flood_fill delegates to the first leaf descendent, but then also ran from
the refined element itself, flooding all its neighbors even when the leaf is
enclosed by a barrier.
---
 src/Tree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Tree.cpp b/src/Tree.cpp
index 3d3a5b4..c4025cc 100644
--- a/src/Tree.cpp
+++ b/src/Tree.cpp
@@ -158,7 +158,11 @@ void Tree::set_status(int new_status)
 void Tree::flood_fill(int new_status)
 {
   HEXED_ASSERT(new_status != unprocessed, "`flood_fill` may not be used to set status to `unprocessed`");
-  if (!is_leaf()) children_storage[0]->flood_fill(new_status); // find a leaf element to start
+  // find a leaf element to start
+  if (!is_leaf()) {
+    children_storage[0]->flood_fill(new_status);
+    return;
+  }
   std::queue<Tree*> to_process;
   to_process.push(this);
   while (!to_process.empty()) {
-- 
2.43.0


From 0f966f1e1abdcb67c4e262349a4c296655840b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 02/47] fix: hanging-node connections in 1D no longer recurse
 without end

In 1D a face is a single vertex, so Hanging_vertex_matcher::match has nothing to
interpolate; it called hypercube_matvec with zero dimensions, which never returns.
---
 src/Hanging_vertex_matcher.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Hanging_vertex_matcher.cpp b/src/Hanging_vertex_matcher.cpp
index 8ad9a44..58925c2 100644
--- a/src/Hanging_vertex_matcher.cpp
+++ b/src/Hanging_vertex_matcher.cpp
@@ -12,6 +12,7 @@ Hanging_vertex_matcher::Hanging_vertex_matcher(std::vector<Element*> fine_elemen
 
 void Hanging_vertex_matcher::match(std::function<double&(Element&, int i_vertex)> access_func)
 {
+  if (n_dim < 2) return; // in 1D, the face is a single vertex so there is nothing to interpolate
   // extract the indices and values of the vertices on the desired face
   int inds [4]; // for `n_dim <= 3` the required size will be <= 4
   Eigen::VectorXd values (n_vert);
-- 
2.43.0


From 3c8e145cdd9c5f3f8d6eea6dd7e95867c75d4fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 03/47] fix: honor the unrefinement lock of every sibling
 element

Only the lock of the first sibling to be visited was checked, so a locked element
could be unrefined if another member of its sibling group came first.
---
 src/Accessible_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 1e52e0d..099d512 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1181,7 +1181,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
             for (Tree* child : parent->children()) {
               if (!child->is_leaf() && has_existent_children(child)) unref = false;
               else if (child->elem) if (child->elem->record != 2) {
-                unref = unref && child->elem->record == -1;
+                unref = unref && child->elem->record == -1 && !child->elem->unrefinement_locked;
                 is_def = is_def || child->elem->get_is_deformed();
               }
             }
-- 
2.43.0


From 76a90885dcf91b321688a8060a74aadc2b46dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 04/47] fix: HIL `exit` leaves the text null-terminated

---
 src/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index da03e60..7dbb0da 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -329,7 +329,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     return input;
   }));
   variables->create("exit", new Namespace::Heisenberg<std::string>([this]() {
-    _text.clear();
+    _text.assign(1, '\0'); // the text always has to end with a null character
     return "";
   }));
   variables->create("throw", new Namespace::Heisenberg<std::string>([this]() {
-- 
2.43.0


From 3ccb04f2c7c0abd9616c44fde652cee8dc07f253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 05/47] fix: HIL binary operator without an operand is an error
 instead of undefined behavior

---
 src/Interpreter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 7dbb0da..6d83fd7 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -174,6 +174,7 @@ Interpreter::_Dynamic_value Interpreter::_arithmetic_op(Interpreter::_Dynamic_va
   Interpreter::_Dynamic_value v;
   if (o0.i && o1.i) v.i = iop(*o0.i, *o1.i);
   else {
+    HEXED_ASSERT((o0.i || o0.d) && (o1.i || o1.d), "binary operator is missing an operand", Hil_exception);
     double op0 = o0.i ? *o0.i : *o0.d;
     double op1 = o1.i ? *o1.i : *o1.d;
     v.d = dop(op0, op1);
@@ -188,6 +189,7 @@ Interpreter::_Dynamic_value Interpreter::_comparison_op(Interpreter::_Dynamic_va
   Interpreter::_Dynamic_value v;
   if (o0.i && o1.i) v.i = iop(*o0.i, *o1.i);
   else {
+    HEXED_ASSERT((o0.i || o0.d) && (o1.i || o1.d), "binary operator is missing an operand", Hil_exception);
     double op0 = o0.i ? *o0.i : *o0.d;
     double op1 = o1.i ? *o1.i : *o1.d;
     v.i = dop(op0, op1);
-- 
2.43.0


From 7f581f84e8e095cc5efcad0457da4c7c6a598da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 06/47] fix: HIL integer division by zero is an error instead
 of a crash

---
 src/Interpreter.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 6d83fd7..25bcb10 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -157,13 +157,24 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
   return val;
 }
 
-template<> int Interpreter::_pow<int>(int op0, int op1) {return math::pow(op0, op1);}
+template<> int Interpreter::_div<int>(int op0, int op1)
+{
+  HEXED_ASSERT(op1, "integer division by zero", Hil_exception);
+  return int64_t(op0)/op1; // 64-bit so that the most negative `int` can be divided by -1
+}
+
+template<> int Interpreter::_pow<int>(int op0, int op1)
+{
+  HEXED_ASSERT(op0 || op1 >= 0, "integer zero raised to negative power", Hil_exception);
+  return math::pow(op0, op1);
+}
 
 Interpreter::_Dynamic_value Interpreter::_mod(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
   HEXED_ASSERT(o0.i && o1.i, "binary operator `%` only accepts integers", Hil_exception);
   _Dynamic_value v;
-  v.i = *o0.i%*o1.i;
+  HEXED_ASSERT(*o1.i, "integer modulo zero", Hil_exception);
+  v.i = int64_t(*o0.i)%*o1.i;
   return v;
 }
 
-- 
2.43.0


From 83d7a2b629948c9000b54a3bda477316ae490b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 07/47] fix: HIL string index out of range is an error instead
 of undefined behavior

---
 src/Interpreter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 25bcb10..1b10afc 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -314,7 +314,8 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     {"^" , {1, _arithmetic_op<_pow<double>, _pow<int>>}}, // note: 0 is for unary ops
     {"#" , {1, [this](_Dynamic_value str, _Dynamic_value i) {
       HEXED_ASSERT(str.s && i.i, "firt operand of binary `#` must be `string` and second must be `int`", Hil_exception);
-      return _Dynamic_value(std::string(1, (*str.s)[*i.i]));
+      HEXED_ASSERT(*i.i >= 0 && *i.i < int(str.s->size()), format_str(100, "index %i is out of range for string of size %i", *i.i, int(str.s->size())), Hil_exception);
+    return _Dynamic_value(std::string(1, (*str.s)[*i.i]));
     }}},
     {"%" , {2, _mod}},
     {"/" , {2, _arithmetic_op<_div<double>, _div<int>>}},
-- 
2.43.0


From 693fd45e4bea50cf65a97ab16a3957651fce8a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 08/47] fix: HIL `abs` of a string raises a HIL exception

---
 src/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 1b10afc..f3eb7fe 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -284,7 +284,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     {"abs", [](_Dynamic_value val) {
       if      (val.i) *val.i = std::abs(*val.i);
       else if (val.d) *val.d = std::abs(*val.d);
-      else HEXED_ASSERT(false, "unary operator `abs` requires numeric argument")
+      else HEXED_ASSERT(false, "unary operator `abs` requires numeric argument", Hil_exception)
       return val;
     }},
     {"read", [this](_Dynamic_value val) {
-- 
2.43.0


From 615ced0cbc844d0820cf6b4ce680050c936104eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 09/47] fix: rejected HIL assignment raises a HIL exception so
 that it can be handled

---
 src/Interpreter.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index f3eb7fe..be35c92 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -117,9 +117,13 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
           // variable assignment
           _pop();
           val = _eval(std::numeric_limits<int>::max() - 2);
-          if (val.i) variables->assign(n, *val.i);
-          if (val.d) variables->assign(n, *val.d);
-          if (val.s) variables->assign(n, *val.s);
+          try {
+            if (val.i) variables->assign(n, *val.i);
+            if (val.d) variables->assign(n, *val.d);
+            if (val.s) variables->assign(n, *val.s);
+          } catch (const std::exception& e) {
+            HEXED_ASSERT(false, e.what(), Hil_exception);
+          }
         } else {
           // variable lookup
           HEXED_ASSERT(variables->exists_recursive(n), format_str(1000, "undefined variable `%s`", n.c_str()), Hil_exception);
-- 
2.43.0


From 431192497b618211e97b0155f363b8b49e4f55bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 10/47] fix: HIL exceptions after the first handled one can be
 handled too

---
 src/Interpreter.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index be35c92..8b5ac9f 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -380,19 +380,21 @@ void Interpreter::exec(std::string comms)
   Lock::Acquire a(_lock);
   _text.assign(comms.begin(), comms.end());
   _text.push_back('\0');
-  try {
-    _eval(std::numeric_limits<int>::max() - 1);
-  } catch (const Hil_exception& e) {
-    std::string except = variables->lookup<std::string>("except").value();
-    std::string message = "Hexed Interface Language exception (in `hexed::Interpreter`):\n    " + std::string(e.what()) + "\n" + _debug_info();
-    if (!except.empty()) {
+  for (bool done = false; !done;) {
+    try {
+      _eval(std::numeric_limits<int>::max() - 1);
+      done = true;
+    } catch (const Hil_exception& e) {
+      std::string except = variables->lookup<std::string>("except").value();
+      std::string message = "Hexed Interface Language exception (in `hexed::Interpreter`):\n    " + std::string(e.what()) + "\n" + _debug_info();
+      if (except.empty()) throw Hil_unhandled_exception(message);
       variables->assign<std::string>("exception", message);
+      variables->assign<std::string>("except", ""); // so that an exception in the handler is not handled by itself
       _skip_spaces();
       while (_more() && (_text.front() != '\n' && _text.front() != ';')) _pop();
       except = except + "; exception = {}; except = {};";
       _text.insert(_text.begin(), except.begin(), except.end());
-      _eval(std::numeric_limits<int>::max() - 1);
-    } else throw Hil_unhandled_exception(message);
+    }
   }
   _text.clear();
 }
-- 
2.43.0


From f85e6b3845058f0d657ba3b9a126dd10c075e486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 11/47] fix: variable is visible if it exists in any
 supernamespace at any depth

---
 include/Namespace.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Namespace.hpp b/include/Namespace.hpp
index e35b80b..1b5ee3f 100644
--- a/include/Namespace.hpp
+++ b/include/Namespace.hpp
@@ -85,8 +85,8 @@ inline bool Namespace::exists_recursive(std::string name)
 {
   if (exists(name)) return true;
   if (!supers.empty()) {
-    auto predicate = [name](std::shared_ptr<Namespace>& space) {return space->exists(name);};
-    return std::all_of(supers.begin(), supers.end(), predicate);
+    auto predicate = [name](std::shared_ptr<Namespace>& space) {return space->exists_recursive(name);};
+    return std::any_of(supers.begin(), supers.end(), predicate);
   }
   return false;
 }
-- 
2.43.0


From 2320270de08ac0f48e296ae15efbb77c0fd06767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 12/47] fix: HIL error about a long token is a HIL exception

---
 src/Interpreter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 8b5ac9f..c214eb0 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -89,7 +89,7 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
         if (is_int) val = std::stoi(value.c_str());
         else        val = std::stod(value.c_str());
       } catch (...) {
-        HEXED_ASSERT(false, format_str(1000, "failed to parse numeric literal `%s`", value.c_str()), Hil_exception);
+        HEXED_ASSERT(false, "failed to parse numeric literal `" + value + "`", Hil_exception);
       }
     } else if (_text.front() == '{') {
       // string literals
@@ -126,7 +126,7 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
           }
         } else {
           // variable lookup
-          HEXED_ASSERT(variables->exists_recursive(n), format_str(1000, "undefined variable `%s`", n.c_str()), Hil_exception);
+          HEXED_ASSERT(variables->exists_recursive(n), "undefined variable `" + n + "`", Hil_exception);
           val = _Dynamic_value();
           val.i = variables->lookup<int>(n);
           if (!val.i) val.d = variables->lookup<double>(n);
@@ -294,7 +294,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     {"read", [this](_Dynamic_value val) {
       HEXED_ASSERT(val.s.has_value(), "operand of `read` must be `string`", Hil_exception);
       std::ifstream file(*val.s);
-      HEXED_ASSERT(file.good(), format_str(1000, "failed to open file `%s`", (*val.s).c_str()), Hil_exception);
+      HEXED_ASSERT(file.good(), "failed to open file `" + *val.s + "`", Hil_exception);
       _Dynamic_value str;
       str.s = "";
       char c;
-- 
2.43.0


From 8ffb90639201d7ed87c99d0bb835823a1318c45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 13/47] fix: HIL expression nested too deeply is an error
 instead of a stack overflow

---
 include/Interpreter.hpp | 2 ++
 src/Interpreter.cpp     | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/include/Interpreter.hpp b/include/Interpreter.hpp
index 53e589c..aac1412 100644
--- a/include/Interpreter.hpp
+++ b/include/Interpreter.hpp
@@ -69,6 +69,8 @@ class Interpreter
   std::map<std::string, std::function<_Dynamic_value(_Dynamic_value)>> _un_ops;
   std::map<std::string, _Binary_op> _bin_ops;
   Lock _lock;
+  int _depth = 0; // current recursion depth of `_eval`
+  static constexpr int _max_depth = 1000;
 
   public:
   static const std::string builtin_file;
diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index c214eb0..a4f4925 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -60,6 +60,13 @@ void Interpreter::_substitute()
 
 Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
 {
+  // limit the recursion depth so that deeply nested expressions and infinite recursion don't overflow the stack
+  struct Nested {
+    int& depth;
+    Nested(int& d) : depth{d} {++depth;}
+    ~Nested() {--depth;}
+  } nested(_depth);
+  HEXED_ASSERT(_depth <= _max_depth, "expression is nested too deeply", Hil_exception);
   _Dynamic_value val;
   while (_more())
   {
-- 
2.43.0


From 2879058a516e015456be5e4375e8198d0c8b1d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 14/47] fix: HIL `format_double` can no longer be an arbitrary
 `snprintf` format

---
 include/Interpreter.hpp |  1 +
 src/Interpreter.cpp     | 29 ++++++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/Interpreter.hpp b/include/Interpreter.hpp
index aac1412..1837671 100644
--- a/include/Interpreter.hpp
+++ b/include/Interpreter.hpp
@@ -55,6 +55,7 @@ class Interpreter
   template<bool (*)(double, double), bool (*)(int, int)>
   static _Dynamic_value _comparison_op(_Dynamic_value, _Dynamic_value);
 
+  std::string _double_str(double);
   static _Dynamic_value _print_str(_Dynamic_value);
   static _Dynamic_value _general_eq(_Dynamic_value, _Dynamic_value);
   _Dynamic_value _general_add(_Dynamic_value, _Dynamic_value);
diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index a4f4925..dd20d5d 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -231,20 +231,43 @@ Interpreter::_Dynamic_value Interpreter::_general_eq(Interpreter::_Dynamic_value
   }
 }
 
+std::string Interpreter::_double_str(double d)
+{
+  std::string fd = variables->lookup<std::string>("format_double").value();
+  // `fd` is passed to `snprintf`, so it must contain exactly one conversion and that conversion must be for a `double`
+  int n_conv = 0;
+  bool valid = true;
+  for (size_t i = 0; i < fd.size(); ++i) if (fd[i] == '%') {
+    if (fd.compare(i, 2, "%%") == 0) ++i;
+    else {
+      i = fd.find_first_not_of("-+ #0123456789.", i + 1);
+      valid = valid && i != std::string::npos && std::string("aAeEfFgG").find(fd[i]) != std::string::npos;
+      ++n_conv;
+      if (!valid) break;
+    }
+  }
+  HEXED_ASSERT(valid && n_conv == 1, "`format_double` must contain exactly one floating-point conversion", Hil_exception);
+  try {
+    return format_str(1000, fd, d);
+  } catch (const std::exception& e) {
+    HEXED_ASSERT(false, e.what(), Hil_exception);
+  }
+  return "";
+}
+
 Interpreter::_Dynamic_value Interpreter::_general_add(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
   if (!o0.s && !o1.s) return _arithmetic_op<_add<double>, _add<int>>(o0, o1);
   _Dynamic_value val;
-  std::string fd = variables->lookup<std::string>("format_double").value();
   if (o0.s) {
     val.s.emplace(*o0.s);
     if (o1.i) *val.s += std::to_string(*o1.i);
-    if (o1.d) *val.s += format_str(300, fd, *o1.d);
+    if (o1.d) *val.s += _double_str(*o1.d);
     if (o1.s) *val.s += *o1.s;
   } else {
     val.s.emplace(*o1.s);
     if (o0.i) *val.s = std::to_string(*o0.i) + *val.s;
-    if (o0.d) *val.s = format_str(300, fd, *o0.d) + *val.s;
+    if (o0.d) *val.s = _double_str(*o0.d) + *val.s;
   }
   return val;
 }
-- 
2.43.0


From 74cbadf64f218f8ef279808ab56c112d8e5dcd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 15/47] fix: an exception in the HIL REPL no longer prints or
 requires a previous result

---
 include/builtin.hil | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/builtin.hil b/include/builtin.hil
index 16a1924..1c11c12 100644
--- a/include/builtin.hil
+++ b/include/builtin.hil
@@ -53,6 +53,7 @@ repl = {
         print {#+^$ }
         hexed_repl_cmd = ask
         {basically reimplement the conditional to avoid overwriting `if`/`then`/`else`}
+        hexed_result = {}
         hexed_result = {} + ($hexed_repl_cmd)
         hexed_repl_case0 = {println hexed_result}
         hexed_repl_case1 = {}
-- 
2.43.0


From 1152f1ce5f3a986acaee9cda3b6d2ddbb804a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 16/47] fix: HIL `split` negates its whole predicate

---
 include/builtin.hil | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/builtin.hil b/include/builtin.hil
index 1c11c12..f02c04c 100644
--- a/include/builtin.hil
+++ b/include/builtin.hil
@@ -34,7 +34,7 @@ split_rest = {}
 split = {
     split_first = {}
     split_i = 0
-    while = {!$split_at}
+    while = {!($split_at)}
     do = {split_first = split_first + split_str#split_i; split_i = split_i + 1}
     $loop
     split_rest = {}
-- 
2.43.0


From 589bcf4c8da30318ab099982fd2f6cfc6fa694c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:58 +0000
Subject: [PATCH 17/47] fix: snap_faces indexed fine elements that do not exist
 at stretched hanging connections

---
 src/Solver_snap_faces.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver_snap_faces.cpp b/src/Solver_snap_faces.cpp
index 5e1aa8b..622dd98 100644
--- a/src/Solver_snap_faces.cpp
+++ b/src/Solver_snap_faces.cpp
@@ -64,7 +64,7 @@ void hexed::Solver::snap_faces()
       auto& ref_cons = acc_mesh->deformed().refined_connections();
       #pragma omp parallel for
       for (int i_con = 0; i_con < ref_cons.size(); ++i_con) {
-        for (int i_fine = 0; i_fine < 2; ++i_fine) {
+        for (int i_fine = 0; i_fine < ref_cons[i_con].n_fine_elements(); ++i_fine) {
           double* state = ref_cons[i_con].connection(i_fine).state(0, false);
           for (int i_qpoint = 0; i_qpoint < nfq; ++i_qpoint) state[i_qpoint] *= 2;
           state = ref_cons[i_con].connection(i_fine).state(1, false);
-- 
2.43.0


From e722b3728602c36eb42b5ed52c111aa3f4a3549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:50 +0000
Subject: [PATCH 18/47] fix: Mesh::cleanup deleted newly created elements of
 tree meshes

---
 src/Accessible_mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 099d512..92f9e0d 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -245,6 +245,10 @@ void Accessible_mesh::disconnect_boundary(int bc_sn)
 
 void Accessible_mesh::cleanup()
 {
+  // `purge` deletes tree-mesh elements with nonzero records, but here the records can hold serial numbers from creating elements
+  auto& elems = elements();
+  #pragma omp parallel for
+  for (int i_elem = 0; i_elem < elems.size(); ++i_elem) elems[i_elem].record = 0;
   purge();
   id_smooth_verts();
   id_boundary_verts();
-- 
2.43.0


From 1ab4b98430da75f35b2d2bce8fb7cea7a45343b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 19/47] fix: copying a Vertex::Transferable_ptr left its
 shareable value uninitialized

---
 src/Vertex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index 3636ab1..2b1e53d 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -97,7 +97,7 @@ Vertex::Transferable_ptr::Transferable_ptr(Mat<3> pos, bool mbl)
 }
 
 Vertex::Transferable_ptr::Transferable_ptr(const Vertex::Transferable_ptr& other)
-: ptr{other.ptr}, mobile{other.mobile}
+: ptr{other.ptr}, shareable_value{other.shareable_value}, mobile{other.mobile}
 {
   ptr->trbl_ptrs.insert(this);
 }
-- 
2.43.0


From 85260924227cee205deced6f3b573a03780d8e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:01 +0000
Subject: [PATCH 20/47] fix: self-assignment of a Vertex::Non_transferable_ptr
 detached it from its vertex

---
 src/Vertex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index 2b1e53d..f5271e8 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -154,8 +154,9 @@ Vertex::Non_transferable_ptr::~Non_transferable_ptr()
 
 Vertex::Non_transferable_ptr& Vertex::Non_transferable_ptr::operator=(const Vertex::Non_transferable_ptr& other)
 {
+  Vertex* target = other.ptr; // get this before `nullify`ing in case of self-assignment
   nullify();
-  ptr = other.ptr;
+  ptr = target;
   if (ptr) ptr->nont_ptrs.insert(this);
   return *this;
 }
-- 
2.43.0


From 7b3d72ad4aa058e9a27b747b33004ed26aec3d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 21/47] fix: Hypersphere::nearest_point returned the center for
 a query at the center

---
 src/Surface_geom.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Surface_geom.cpp b/src/Surface_geom.cpp
index 32cfa83..a448e8e 100644
--- a/src/Surface_geom.cpp
+++ b/src/Surface_geom.cpp
@@ -31,7 +31,9 @@ Hypersphere::Hypersphere(Mat<> center, double radius)
 Nearest_point<dyn> Hypersphere::nearest_point(Mat<> point, double max_distance, double distance_guess)
 {
   Nearest_point<dyn> nearest(point, max_distance);
-  nearest.merge(c + r*(point - c).normalized());
+  Mat<> diff = point - c;
+  if (diff.squaredNorm() == 0) diff = Mat<>::Unit(c.size(), 0); // all points on the surface are equally near to the center, so choose one
+  nearest.merge(c + r*diff.normalized());
   return nearest;
 }
 
-- 
2.43.0


From ec8047c920cc0b3dbc1c4a2f233032aa4bd78a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 22/47] fix: Simplex_geom missed intersections because the
 bounding balls of its tree had the wrong radius

---
 include/Simplex_geom.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simplex_geom.hpp b/include/Simplex_geom.hpp
index 7d9d4ea..26914c0 100644
--- a/include/Simplex_geom.hpp
+++ b/include/Simplex_geom.hpp
@@ -81,7 +81,7 @@ class Simplex_geom : public Surface_geom
 
   void recursive_intersections(std::vector<double>& inters, Tree& tree, Mat<n_dim> point0, Mat<n_dim> point1)
   {
-    if (!math::intersects(math::Ball<n_dim>(tree.center(), tree.nominal_size()*n_dim/4.), point0, point1)) return;
+    if (!math::intersects(math::Ball<n_dim>(tree.center(), math::pow(tree.nominal_size(), 2)*n_dim/4.), point0, point1)) return;
     Mat<n_dim> diff = point1 - point0;
     for (int i_simplex : tree.misc_data) {
       auto sim = _simplices[i_simplex];
-- 
2.43.0


From f78c0e9d7898fba3941c1d5992545f81cecc35ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 23/47] fix: Simplex_geom missed intersections with small
 simplices and with lines given by distant points

---
 include/Simplex_geom.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/Simplex_geom.hpp b/include/Simplex_geom.hpp
index 26914c0..d6789f7 100644
--- a/include/Simplex_geom.hpp
+++ b/include/Simplex_geom.hpp
@@ -90,9 +90,14 @@ class Simplex_geom : public Surface_geom
         Mat<n_dim, n_dim> lhs;
         lhs(all, 0) = -diff;
         for (int col = 1; col < n_dim; ++col) lhs(all, col) = sim(all, col) - sim(all, 0);
+        // normalize the columns so that whether the line is considered parallel to the simplex
+        // depends only on their directions and not on their sizes
+        Mat<n_dim> scale = lhs.colwise().norm().transpose();
+        if (scale.minCoeff() <= 0.) continue;
+        for (int col = 0; col < n_dim; ++col) lhs(all, col) /= scale(col);
         auto fact = lhs.lu();
         if (fact.rcond() > 1e-7) {
-          Mat<n_dim> soln = fact.solve(point0 - sim(all, 0));
+          Mat<n_dim> soln = fact.solve(point0 - sim(all, 0)).cwiseQuotient(scale);
           // if intersection is inside simplex, add it to the list
           Eigen::Array<double, n_dim - 1, 1> arr = soln(Eigen::seqN(1, n_dim - 1)).array();
           if ((arr >= -gap_tol).all() && arr.sum() <= 1 + gap_tol) inters.push_back(soln(0));
-- 
2.43.0


From c7a7ab62b6f267d7208d264ba83ee1eefeaa2f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 24/47] fix: Simplex_geom missed lines through the vertices
 which determine a bounding ball

---
 include/Simplex_geom.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/Simplex_geom.hpp b/include/Simplex_geom.hpp
index d6789f7..8e17f66 100644
--- a/include/Simplex_geom.hpp
+++ b/include/Simplex_geom.hpp
@@ -79,13 +79,20 @@ class Simplex_geom : public Surface_geom
     for (Tree* child : tree.children()) recursive_nearest(nearest, *child, point, limit);
   }
 
+  // enlarges bounding balls for intersection calculation to account for `gap_tol`
+  // and so that roundoff error can't exclude lines which touch the vertices
+  math::Ball<n_dim> _extend(math::Ball<n_dim> ball)
+  {
+    return {ball.center, ball.radius_sq*math::pow(1. + 4*(gap_tol + 1e-12), 2)};
+  }
+
   void recursive_intersections(std::vector<double>& inters, Tree& tree, Mat<n_dim> point0, Mat<n_dim> point1)
   {
-    if (!math::intersects(math::Ball<n_dim>(tree.center(), math::pow(tree.nominal_size(), 2)*n_dim/4.), point0, point1)) return;
+    if (!math::intersects(_extend(math::Ball<n_dim>(tree.center(), math::pow(tree.nominal_size(), 2)*n_dim/4.)), point0, point1)) return;
     Mat<n_dim> diff = point1 - point0;
     for (int i_simplex : tree.misc_data) {
       auto sim = _simplices[i_simplex];
-      if (math::intersects<n_dim>(math::bounding_ball(sim), point0, point1)) { // if the line doesn't even intersect the bounding ball, don't bother
+      if (math::intersects<n_dim>(_extend(math::bounding_ball(sim)), point0, point1)) { // if the line doesn't even intersect the bounding ball, don't bother
         // compute intersection between line and plane of simplex
         Mat<n_dim, n_dim> lhs;
         lhs(all, 0) = -diff;
-- 
2.43.0


From 58ce191a50a6a636c5af3b6855f59e7c8b69459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 25/47] fix: History_monitor hung, crashed or ceased sampling
 with an invalid window size or sample count

---
 include/History_monitor.hpp |  4 ++--
 src/History_monitor.cpp     | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/History_monitor.hpp b/include/History_monitor.hpp
index 36384b7..d9352ad 100644
--- a/include/History_monitor.hpp
+++ b/include/History_monitor.hpp
@@ -27,8 +27,8 @@ class History_monitor
 
   public:
   /*!\param window_size Window size as a fraction of the iteration count.
-   *   E.g. if `window_size = .3`, bounds will be computed over the last 30% of the iterations.
-   * \param max_samples Maximum sample buffer size.
+   *   E.g. if `window_size = .3`, bounds will be computed over the last 30% of the iterations. Must be greater than 0 and less than 1.
+   * \param max_samples Maximum sample buffer size. Must be positive.
    */
   History_monitor(double window_size, int max_samples);
   void add_sample(int iteration, double value); //!< \brief stipulates that the value of the variable to be monitored is `value` at iteration `iteration`
diff --git a/src/History_monitor.cpp b/src/History_monitor.cpp
index 4c71625..38381a4 100644
--- a/src/History_monitor.cpp
+++ b/src/History_monitor.cpp
@@ -1,14 +1,24 @@
 #include <History_monitor.hpp>
 #include <math.hpp>
+#include <assert.hpp>
 
 namespace hexed
 {
 
+// `max_samples` must be checked before it is used to size the buffers
+static int checked_samples(int max_samples)
+{
+  HEXED_ASSERT(max_samples > 0, "`max_samples` must be positive");
+  return max_samples;
+}
+
 History_monitor::History_monitor(double window_size, int max_samples)
-: _samples{max_samples}, _start{0}, _sz{0},
+: _samples{checked_samples(max_samples)}, _start{0}, _sz{0},
   _iterations(_samples, 0), _values(_samples, 0.),
   _win_sz{window_size}, _add_threshold{1.}, _min{-huge}, _max{huge}
-{}
+{
+  HEXED_ASSERT(window_size > 0 && window_size < 1, "`window_size` must be between 0 and 1");
+}
 
 void History_monitor::add_sample(int iteration, double value)
 {
-- 
2.43.0


From 7f8934c80071fa8dd610af5c2a831a72a95cc09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 26/47] fix: work unit counter of Stopwatch_tree overflowed in
 long runs

---
 include/Stopwatch_tree.hpp | 2 +-
 src/Stopwatch_tree.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Stopwatch_tree.hpp b/include/Stopwatch_tree.hpp
index 7546d99..0403276 100644
--- a/include/Stopwatch_tree.hpp
+++ b/include/Stopwatch_tree.hpp
@@ -19,7 +19,7 @@ class Stopwatch_tree
   public:
   Stopwatch stopwatch;
   std::map<std::string, Stopwatch_tree> children;
-  int work_units_completed = 0;
+  long work_units_completed = 0;
   std::string work_unit_name;
   Stopwatch_tree(std::string work_unit_name_arg, std::map<std::string, Stopwatch_tree> init_children = {});
   //! returns a string with a human-readable summary of the timing data
diff --git a/src/Stopwatch_tree.cpp b/src/Stopwatch_tree.cpp
index 70a9c42..72f347c 100644
--- a/src/Stopwatch_tree.cpp
+++ b/src/Stopwatch_tree.cpp
@@ -9,7 +9,7 @@ std::string Stopwatch_tree::indented_report(std::string indent) const
   std::string rpt;
   if (work_unit_name.empty()) rpt = "Total:\n";
   else {
-    rpt = format_str(500, "%i %ss completed in %g s", work_units_completed, work_unit_name.c_str(), stopwatch.time());
+    rpt = format_str(500, "%li %ss completed in %g s", work_units_completed, work_unit_name.c_str(), stopwatch.time());
     if (work_units_completed) {
       rpt += format_str(500, " at %g s / %s", stopwatch.time()/work_units_completed, work_unit_name.c_str());
     }
-- 
2.43.0


From 27bbc307f07ff50c9993c844798bd1e579fb6c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 27/47] fix: unsynchronized reads of element records in
 Accessible_mesh::deform

---
 src/Accessible_mesh.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 92f9e0d..9493d96 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -841,14 +841,18 @@ void Accessible_mesh::refine_by_record(bool is_deformed, int start, int end)
   }
 }
 
+// reads the record of an element which other threads could be modifying
+int get_record(Element& elem)
+{
+  int record;
+  #pragma omp atomic read
+  record = elem.record;
+  return record;
+}
+
 bool exists(Tree* tree)
 {
-  if (tree) if (tree->elem) {
-    int record;
-    #pragma omp atomic read
-    record = tree->elem->record;
-    if (record != 2) return true;
-  }
+  if (tree) if (tree->elem) return get_record(*tree->elem) != 2;
   return false;
 }
 
@@ -887,7 +891,8 @@ bool has_existent_children(Tree* t)
 // whether an element is currently set to be deformed at the end of the `update` sweep
 bool is_def(Element& elem)
 {
-  return (elem.get_is_deformed() && elem.record == 0) || (!elem.get_is_deformed() && elem.record == 3);
+  int record = get_record(elem);
+  return (elem.get_is_deformed() && record == 0) || (!elem.get_is_deformed() && record == 3);
 }
 
 // delete elements that would create pathological extrusion topology
@@ -1024,7 +1029,7 @@ void Accessible_mesh::deform()
   #pragma omp parallel for
   for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
     auto& elem = elems[i_elem];
-    if (elem.record != 2 && elem.tree) {
+    if (get_record(elem) != 2 && elem.tree) {
       // figure out if this element has a face on the boundary
       std::vector<Tree*> neighbors [6];
       bool surface [6] {};
@@ -1032,7 +1037,7 @@ void Accessible_mesh::deform()
       for (int i_face = 0; i_face < 2*nd; ++i_face) {
         neighbors[i_face] = elem.tree->find_neighbors(math::direction(nd, i_face));
         if (!neighbors[i_face].empty()) {
-          if (neighbors[i_face][0]->elem) surface[i_face] = neighbors[i_face][0]->elem->record == 2;
+          if (neighbors[i_face][0]->elem) surface[i_face] = get_record(*neighbors[i_face][0]->elem) == 2;
           else surface[i_face] = true;
         }
         boundary = boundary || surface[i_face];
@@ -1047,7 +1052,7 @@ void Accessible_mesh::deform()
             if (j_face/2 != i_face/2 && surface[j_face]) def_face = true;
           }
           if (def_face) {
-            for (Tree* n : neighbors[i_face]) if (n->elem) if (n->elem->record != 2) {
+            for (Tree* n : neighbors[i_face]) if (exists(n)) {
               #pragma omp atomic write
               n->elem->record = 3*!n->elem->get_is_deformed();
             }
-- 
2.43.0


From 84cf7386161ff54b2e6d26458c0073402ffe2d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 28/47] fix: which elements delete_bad_extrusions deletes
 depended on the thread schedule

---
 src/Accessible_mesh.cpp | 47 +++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 9493d96..3f59e0f 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -900,16 +900,20 @@ void Accessible_mesh::delete_bad_extrusions()
 {
   int nd = params.n_dim;
   auto& elems = elements();
+  // Elements are only condemned during a sweep and not considered deleted until it is over.
+  // Otherwise, which elements get deleted would depend on the order in which the threads happen to process them.
+  const int condemned = 4;
+  auto condemn = [](Element& elem) {
+    #pragma omp atomic write
+    elem.record = condemned;
+  };
   bool changed;
   do {
     changed = false;
     #pragma omp parallel for reduction(||:changed)
     for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
       auto& elem = elems[i_elem];
-      int record;
-      #pragma omp atomic read
-      record = elem.record;
-      if (elem.tree && record != 2) {
+      if (elem.tree && get_record(elem) != 2) {
         bool exposed [6];
         for (int i_face = 0; i_face < 2*nd; ++i_face) {
           // if any hanging-node face is partially covered by fine elements, delete the fine elements
@@ -919,10 +923,7 @@ void Accessible_mesh::delete_bad_extrusions()
           if (neighbors.size() > 1) {
             if (std::any_of(neighbors.begin(), neighbors.end(), exists) && !all_exist) {
               changed = true;
-              for (Tree* n : neighbors) if (n->elem) {
-                #pragma omp atomic write
-                n->elem->record = 2;
-              }
+              for (Tree* n : neighbors) if (exists(n)) condemn(*n->elem);
             }
           }
           // for all faces that share an edge with `i_face` (but only the ones with lower index to avoid redundancy)
@@ -938,12 +939,8 @@ void Accessible_mesh::delete_bad_extrusions()
                   // If they have the same refinement level, delete both
                   if (n->refinement_level() >= elem.refinement_level()) {
                     changed = true;
-                    #pragma omp atomic write
-                    n->elem->record = 2;
-                    if (n->refinement_level() == elem.refinement_level()) {
-                      #pragma omp atomic write
-                      elem.record = 2;
-                    }
+                    condemn(*n->elem);
+                    if (n->refinement_level() == elem.refinement_level()) condemn(elem);
                   }
                 }
                 for (int k_face = 0; k_face < 2*(j_face/2); ++k_face) if (exposed[k_face]) {
@@ -953,12 +950,8 @@ void Accessible_mesh::delete_bad_extrusions()
                   for (Tree* n : neighbs) if (exists(n)) {
                     if (n->refinement_level() >= elem.refinement_level()) {
                       changed = true;
-                      #pragma omp atomic write
-                      n->elem->record = 2;
-                      if (n->refinement_level() == elem.refinement_level()) {
-                        #pragma omp atomic write
-                        elem.record = 2;
-                      }
+                      condemn(*n->elem);
+                      if (n->refinement_level() == elem.refinement_level()) condemn(elem);
                     }
                   }
                 }
@@ -967,12 +960,7 @@ void Accessible_mesh::delete_bad_extrusions()
                 if (  !std::all_of(diag_neighbs.begin(), diag_neighbs.end(), exists)
                     && std::any_of(diag_neighbs.begin(), diag_neighbs.end(), exists)) {
                   changed = true;
-                  for (Tree* n : diag_neighbs) {
-                    if (n->elem) {
-                      #pragma omp atomic write
-                      n->elem->record = 2;
-                    }
-                  }
+                  for (Tree* n : diag_neighbs) if (exists(n)) condemn(*n->elem);
                 }
               }
             }
@@ -1005,13 +993,16 @@ void Accessible_mesh::delete_bad_extrusions()
             }
             if (bad) {
               changed = true;
-              #pragma omp atomic write
-              elem.record = 2;
+              condemn(elem);
             }
           }
         }
       }
     }
+    #pragma omp parallel for
+    for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
+      if (elems[i_elem].record == condemned) elems[i_elem].record = 2;
+    }
   } while (changed);
 }
 
-- 
2.43.0


From d1bd7b30e28ea610a0bdbb056bb9a316c3835f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 29/47] fix: hanging vertices were matched in an arbitrary
 order and with data races

---
 include/Accessible_mesh.hpp        |  2 ++
 include/Hanging_vertex_matcher.hpp |  2 ++
 src/Accessible_mesh.cpp            | 20 +++++++++++++++-----
 src/Hanging_vertex_matcher.cpp     |  9 +++++++--
 src/Solver.cpp                     |  4 +---
 5 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/Accessible_mesh.hpp b/include/Accessible_mesh.hpp
index 9013031..99a692c 100644
--- a/include/Accessible_mesh.hpp
+++ b/include/Accessible_mesh.hpp
@@ -127,6 +127,8 @@ class Accessible_mesh : public Mesh
   inline Sequence<Refined_face&>& refined_faces() {return ref_face_v;}
   //! \returns a view of all Hanging_vertex_matcher objects owned by this mesh (there will be one for every hanging node connection)
   inline Sequence<Hanging_vertex_matcher&>& hanging_vertex_matchers() {return matcher_v;}
+  //! \brief calls `Hanging_vertex_matcher::match` for all hanging vertices in order of increasing refinement level
+  void match_hanging(std::function<double&(Element&, int i_vertex)>);
   inline int n_elements() override {return elements().size();}
   Connection_validity valid() override;
   //! convenience typedef for the Vector_view used to access Vertex objects
diff --git a/include/Hanging_vertex_matcher.hpp b/include/Hanging_vertex_matcher.hpp
index 0ebccc7..50bfa48 100644
--- a/include/Hanging_vertex_matcher.hpp
+++ b/include/Hanging_vertex_matcher.hpp
@@ -23,6 +23,8 @@ class Hanging_vertex_matcher
   public:
   //! \note sensitive to the order in which elements are provided
   Hanging_vertex_matcher(std::vector<Element*> fine_elements, int i_dim, bool is_positive, std::array<bool, 2> stretch = {false, false});
+  //! refinement level of the fine elements
+  inline int refinement_level() const {return elements[0]->refinement_level();}
   /*! Sets the values at the hanging vertices to the proper interpolated values.
    * \note the interpolation is based on the values at the non-hanging vertices
    * of the fine elements, not the `Vertex::shared_value`.
diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 3f59e0f..e024a08 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -114,12 +114,22 @@ void Accessible_mesh::snap_vertices()
   }
   // vertex relaxation/snapping will cause hanging vertices to drift away from hanging vertex faces they are supposed to be coincident with
   // so now we put them back where they belong
+  match_hanging(&Element::vertex_position<0>);
+  match_hanging(&Element::vertex_position<1>);
+  match_hanging(&Element::vertex_position<2>);
+}
+
+void Accessible_mesh::match_hanging(std::function<double&(Element&, int i_vertex)> access_func)
+{
   auto& matchers = hanging_vertex_matchers();
-  #pragma omp parallel for
-  for (int i_match = 0; i_match < matchers.size(); ++i_match) {
-    matchers[i_match].match(&Element::vertex_position<0>);
-    matchers[i_match].match(&Element::vertex_position<1>);
-    matchers[i_match].match(&Element::vertex_position<2>);
+  // the vertices of a coarse face can be hanging vertices of an even coarser one, so the coarsest have to be matched first
+  int max_rl = 0;
+  for (int i_match = 0; i_match < matchers.size(); ++i_match) max_rl = std::max(max_rl, matchers[i_match].refinement_level());
+  for (int rl = 0; rl <= max_rl; ++rl) {
+    #pragma omp parallel for
+    for (int i_match = 0; i_match < matchers.size(); ++i_match) {
+      if (matchers[i_match].refinement_level() == rl) matchers[i_match].match(access_func);
+    }
   }
 }
 
diff --git a/src/Hanging_vertex_matcher.cpp b/src/Hanging_vertex_matcher.cpp
index 58925c2..ea6eeb3 100644
--- a/src/Hanging_vertex_matcher.cpp
+++ b/src/Hanging_vertex_matcher.cpp
@@ -19,7 +19,9 @@ void Hanging_vertex_matcher::match(std::function<double&(Element&, int i_vertex)
   for (int i_vert = 0; i_vert < n_vert; ++i_vert) {
     int stride = math::pow(2, n_dim - 1 - id);
     inds[i_vert] = i_vert/stride*stride*2 + i_vert%stride + isp*stride;
-    values(i_vert) = access_func(*elements[math::stretched_ind(n_dim, i_vert, str)], inds[i_vert]);
+    double& value = access_func(*elements[math::stretched_ind(n_dim, i_vert, str)], inds[i_vert]);
+    #pragma omp atomic read
+    values(i_vert) = value;
   }
   // compute interpolation
   Eigen::MatrixXd interp_mat {
@@ -36,7 +38,10 @@ void Hanging_vertex_matcher::match(std::function<double&(Element&, int i_vertex)
       // compute corresponding index in interpolated array
       int interp_ind = (i_elem*!str[n_dim - 2])%2 + (i_vert%2)*(1 + str[n_dim - 2]); // account for inner stride
       if (n_dim == 3) interp_ind += ((i_elem*!str[0])/(1 + !str[1]) + i_vert/2*(1 + str[0]))*3; // account for outer stride
-      access_func(*elements[i_elem], inds[i_vert]) = interpolated(interp_ind);
+      // faces that share an edge write the same values to the vertices on that edge
+      double& value = access_func(*elements[i_elem], inds[i_vert]);
+      #pragma omp atomic write
+      value = interpolated(interp_ind);
     }
   }
 }
diff --git a/src/Solver.cpp b/src/Solver.cpp
index 996294d..c1d5e27 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -48,9 +48,7 @@ void Solver::share_vertex_data(std::function<double(Element&, int i_vertex)> get
   for (int i_elem = 0; i_elem < elements.size(); ++i_elem) {
     elements[i_elem].fetch_shareable_value(set, reduce);
   }
-  auto& matchers = acc_mesh->hanging_vertex_matchers();
-  #pragma omp parallel for
-  for (int i_match = 0; i_match < matchers.size(); ++i_match) matchers[i_match].match(set);
+  acc_mesh->match_hanging(set);
 }
 
 void Solver::apply_state_bcs()
-- 
2.43.0


From 058ef20f5abf12914f2a5b94a9bb92edb235c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:35 +0000
Subject: [PATCH 30/47] fix: GMRES used one more vector than it checked for,
 overflowing the storage of the implicit solver

---
 include/Solver.hpp | 2 +-
 src/iterative.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Solver.hpp b/include/Solver.hpp
index 23e333f..8cd523b 100644
--- a/include/Solver.hpp
+++ b/include/Solver.hpp
@@ -70,7 +70,7 @@ class Solver
     //! \brief the first `storage_start` vectors are reserved for internal use
     //! \details (0, 1, and 2 are the working data for the Spatial kernel and 3 is the linearization point)
     static const int storage_start = 4;
-    static const int n_storage = 30; //!< \brief number of vectors available for algorithms to work with
+    static const int n_storage = 31; //!< \brief number of vectors available for algorithms to work with
     double finite_diff = 1e-3; //!< \brief \f$ x \f$ vectors will be scaled by this amount to improve linearity
     Linearized(Solver&); //!< \brief sets linearization point to current working state
     int n_vecs() override;
diff --git a/src/iterative.cpp b/src/iterative.cpp
index 436cf3d..290f9f3 100644
--- a/src/iterative.cpp
+++ b/src/iterative.cpp
@@ -6,7 +6,7 @@ namespace hexed::iterative
 void gmres(Linear_equation& equation, int n_restart, int n_iters)
 {
   const int krylov_start = 3;
-  HEXED_ASSERT(equation.n_vecs() >= krylov_start + n_restart, "`Linear_equation` object has insufficient storage for the GMRES algorithm");
+  HEXED_ASSERT(equation.n_vecs() >= krylov_start + n_restart + 1, "`Linear_equation` object has insufficient storage for the GMRES algorithm");
   for (int restart = 0; restart < n_iters; ++restart) {
     equation.matvec(2, 0);
     equation.add(2, -1., 2, 1., 1);
-- 
2.43.0


From a0fe58c4ce84684b8f9e228ab46c1c38152cb4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 31/47] fix: data races in the refinement level smoothing of
 Accessible_mesh::update

---
 src/Accessible_mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index e024a08..55c1724 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1294,12 +1294,13 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
   // ref level smoothing: refine elements to satisfy solver requirements on neighbors
   do {
     changed = false;
-    #pragma omp parallel for
+    #pragma omp parallel for reduction(||:changed)
     for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
       auto& elem = elems[i_elem];
       if (elem.record != 2 && elem.tree) {
         if (needs_refine(elem.tree)) {
           changed = true;
+          #pragma omp atomic write
           elem.record = 1;
         }
       }
-- 
2.43.0


From a8c30bf0aa379ce15ef2ff517dd9604815dddd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:54 +0000
Subject: [PATCH 32/47] fix: adapting a mesh with split layers crashed because
 refinement requests were not passed down a stack of extruded elements

---
 src/Accessible_mesh.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 55c1724..b010fc1 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1160,10 +1160,10 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
     elem.set_needs_smooth(false);
   }
   // pass refinement requests of extruded elements to their extrusion parents
-  #pragma omp parallel for
-  for (auto con : extrude_cons) {
+  // (an extruded element can itself have been extruded from, so start with the outermost layers)
+  for (int i_con = int(extrude_cons.size()) - 1; i_con >= 0; --i_con) {
+    auto con = extrude_cons[i_con];
     auto& inside = con->element(1);
-    Lock::Acquire a(inside.lock);
     if (inside.record == 0) inside.record = con->element(0).record;
     else inside.record = std::max(inside.record, con->element(0).record);
     inside.unrefinement_locked = inside.unrefinement_locked || con->element(0).unrefinement_locked;
@@ -1309,8 +1309,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
   } while (changed);
   delete_bad_extrusions();
   deform();
-  // delete extruded elements
-  #pragma omp parallel for
+  // delete extruded elements (including any layers extruded from them, which come later in `extrude_cons`)
   for (auto con : extrude_cons) {
     bool del = false;
     if (con->element(1).record == 2) del = true;
-- 
2.43.0


From 398902844ee192334e0e92e7ded620d064742bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 33/47] fix: total height of Layer_sequence was not 1

---
 src/Layer_sequence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Layer_sequence.cpp b/src/Layer_sequence.cpp
index 1121d06..23f3204 100644
--- a/src/Layer_sequence.cpp
+++ b/src/Layer_sequence.cpp
@@ -18,7 +18,7 @@ int Layer_sequence::n_layers()
 double Layer_sequence::spacing(int i_layer)
 {
   double first_growth = std::pow(2., nw - n_layers());
-  return (i_layer < nw) ? ws : std::pow(2., i_layer - n_layers())*(1 - ws*nw + first_growth);
+  return (i_layer < nw) ? ws : std::pow(2., i_layer - n_layers())*(1 - ws*nw)/(1 - first_growth);
 }
 
 double Layer_sequence::cumulative_height(int i_layer)
-- 
2.43.0


From fbe8a2cd9b3e679b26ebd9f39206502949a77325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 34/47] fix: GMRES and BiCGStab destroyed an exact solution and
 turned exhausted Krylov spaces into NaN

---
 include/iterative.hpp |  2 +-
 src/iterative.cpp     | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/iterative.hpp b/include/iterative.hpp
index 09f0311..4fa67f4 100644
--- a/include/iterative.hpp
+++ b/include/iterative.hpp
@@ -11,7 +11,7 @@ namespace hexed::iterative
  * [GMRES](https://en.wikipedia.org/wiki/Generalized_minimal_residual_method)
  * \details GMRES is restarted every `n_restart` iterations.
  * A total of `n_iters` restarts are performed, requiring approximately `n_restart*n_iters` matrix-vector products.
- * Requires the `Linear_equation` object to have storage for at least `n_restart + 3` vectors.
+ * Requires the `Linear_equation` object to have storage for at least `n_restart + 4` vectors.
  */
 void gmres(Linear_equation& equation, int n_restart, int n_iters);
 
diff --git a/src/iterative.cpp b/src/iterative.cpp
index 290f9f3..be19ca9 100644
--- a/src/iterative.cpp
+++ b/src/iterative.cpp
@@ -11,8 +11,10 @@ void gmres(Linear_equation& equation, int n_restart, int n_iters)
     equation.matvec(2, 0);
     equation.add(2, -1., 2, 1., 1);
     double res_norm = equation.norm(2);
+    if (res_norm == 0) return; // already have the exact solution
     equation.scale(krylov_start, 2, 1./res_norm);
     Mat<dyn, dyn> hessenberg = Mat<dyn, dyn>::Zero(n_restart + 1, n_restart);
+    int n_krylov = n_restart;
     for (int iter = 0; iter < n_restart; ++iter) {
       int next = krylov_start + iter + 1;
       equation.matvec(next, krylov_start + iter);
@@ -21,10 +23,14 @@ void gmres(Linear_equation& equation, int n_restart, int n_iters)
         equation.add(next, 1., next, -hessenberg(col, iter), krylov_start + col);
       }
       hessenberg(iter + 1, iter) = equation.norm(next);
+      if (hessenberg(iter + 1, iter) == 0) { // Krylov space is exhausted, so it contains the exact solution
+        n_krylov = iter + 1;
+        break;
+      }
       equation.scale(next, next, 1./hessenberg(iter + 1, iter));
     }
-    Mat<> coefs = hessenberg.fullPivHouseholderQr().solve(res_norm*Mat<>::Unit(n_restart + 1, 0));
-    for (int iter = 0; iter < n_restart; ++iter) {
+    Mat<> coefs = hessenberg(Eigen::seqN(0, n_krylov + 1), Eigen::seqN(0, n_krylov)).eval().fullPivHouseholderQr().solve(res_norm*Mat<>::Unit(n_krylov + 1, 0));
+    for (int iter = 0; iter < n_krylov; ++iter) {
       equation.add(0, 1., 0, coefs(iter), krylov_start + iter);
     }
   }
@@ -46,11 +52,16 @@ void bicgstab(Linear_equation& equation, int n_iters)
   for (int iter = 0; iter < n_iters; ++iter) {
     double r_dot_ref = equation.inner(r, ref);
     equation.matvec(Ap, p);
-    double alpha = r_dot_ref/equation.inner(Ap, ref);
+    double Ap_dot_ref = equation.inner(Ap, ref);
+    if (r_dot_ref == 0 || Ap_dot_ref == 0) return; // converged or broken down
+    double alpha = r_dot_ref/Ap_dot_ref;
     equation.add(s, 1., r, -alpha, Ap);
     equation.matvec(As, s);
-    double omega = equation.inner(As, s)/equation.inner(As, As);
     equation.add(0, 1., 0, alpha, p);
+    double As_sq = equation.inner(As, As);
+    if (As_sq == 0) return; // converged
+    double omega = equation.inner(As, s)/As_sq;
+    if (omega == 0) return; // broken down
     equation.add(0, 1., 0, omega, s);
     equation.add(r, 1., s, -omega, As);
     double beta = equation.inner(r, ref)/r_dot_ref*alpha/omega;
-- 
2.43.0


From c4a20c69dd759ad3ee5c1551d7a3a273a7c8a9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:49 +0000
Subject: [PATCH 35/47] fix: read_csv hung on files without a final newline and
 misread malformed tables (ragged rows, trailing characters, blank lines)

---
 src/read_csv.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/read_csv.cpp b/src/read_csv.cpp
index 9e2218d..7d811a3 100644
--- a/src/read_csv.cpp
+++ b/src/read_csv.cpp
@@ -16,19 +16,23 @@ Eigen::Matrix<double, dyn, dyn, Eigen::RowMajor> read_csv(std::string file_name)
   int rows = 0;
   while (!line.empty()) {
     ++rows;
+    HEXED_ASSERT(std::count(line.begin(), line.end(), ',') + 1 == cols, format_str(1000, "row %i does not have %i columns like the first row", rows, cols));
     auto begin = line.begin();
     for (int i_col = 0; i_col < cols; ++i_col) {
       auto end = std::find(begin, line.end(), ',');
       std::string entry(begin, end);
       try {
-        data.push_back(std::stod(entry));
+        std::size_t n_read;
+        data.push_back(std::stod(entry, &n_read));
+        HEXED_ASSERT(entry.find_first_not_of(" \t\r", n_read) == std::string::npos, "trailing characters");
       } catch (...) {
         HEXED_ASSERT(false, format_str(1000, "could not convert `%s` to `double`", entry.c_str()))
       }
-      begin = end + 1;
+      if (end != line.end()) begin = end + 1;
     }
-    std::getline(file, line);
+    if (!std::getline(file, line)) break; // note `line` is not cleared if last row did not end with a newline
   }
+  while (std::getline(file, line)) HEXED_ASSERT(line.empty(), "blank lines are not allowed between rows");
   Eigen::Matrix<double, dyn, dyn, Eigen::RowMajor> mat(rows, cols);
   for (unsigned i = 0; i < data.size(); ++i) mat(i) = data[i];
   return mat;
-- 
2.43.0


From 11f74fd7dcaebbbe7255dd033bc25f6c9336b624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:10 +0000
Subject: [PATCH 36/47] fix: freestream variables were undefined with some ways
 of specifying the freestream, and altitude with density or pressure was
 accepted

---
 src/Case.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Case.cpp b/src/Case.cpp
index a7c4e02..4a8bb8d 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -166,10 +166,23 @@ Case::Case(std::string input_script)
                  format_str(300, "`row_size` must be between 2 and %i", config::max_row_size));
     // compute freestream
     Mat<> freestream(*n_dim + 2);
-    if (_vard("freestream0")) freestream = _get_vector("freestream", *n_dim + 2);
-    else {
+    if (_vard("freestream0")) {
+      // compute the variables that would otherwise have been used to specify the state
+      freestream = _get_vector("freestream", *n_dim + 2);
+      Mat<> veloc = freestream(Eigen::seqN(0, *n_dim))/freestream(*n_dim);
+      Mat<> full_direction = Mat<>::Zero(3);
+      if (veloc.norm() > 0) full_direction(Eigen::seqN(0, *n_dim)) = veloc.normalized();
+      double pressure = (freestream(*n_dim + 1) - .5*freestream(*n_dim)*veloc.squaredNorm())*(heat_rat - 1);
+      _inter.variables->assign<double>("freestream_density", freestream(*n_dim));
+      _inter.variables->assign<double>("freestream_pressure", pressure);
+      _inter.variables->assign<double>("freestream_temperature", pressure/(constants::specific_gas_air*freestream(*n_dim)));
+      _inter.variables->assign<double>("freestream_speed", veloc.norm());
+      _set_vector("freestream_velocity", veloc);
+      _set_vector("freestream_direction", full_direction);
+    } else {
       if (_vard("altitude")) {
         HEXED_ASSERT(!_vard("freestream_temperature"), "cannot specify both altitude and temperature (consider `temperature_offset`)");
+        HEXED_ASSERT(!_vard("freestream_density") && !_vard("freestream_pressure"), "cannot specify density or pressure in addition to altitude");
         auto dens_pres = standard_atmosphere(_vard("altitude").value(), _vard("temperature_offset").value());
         _inter.variables->assign<double>("freestream_density", dens_pres[0]);
         _inter.variables->assign<double>("freestream_pressure", dens_pres[1]);
@@ -189,6 +202,7 @@ Case::Case(std::string input_script)
       if (_vard("freestream_velocity0")) {
         veloc = _get_vector("freestream_velocity", *n_dim);
         direction = veloc.normalized();
+        _inter.variables->assign<double>("freestream_speed", veloc.norm());
       } else {
         _inter.variables->assign<double>("freestream_sound_speed", std::sqrt(heat_rat*constants::specific_gas_air**_vard("freestream_temperature")));
         if (_vard("freestream_speed")) _inter.variables->assign<double>("freestream_mach", *_vard("freestream_speed")/ *_vard("freestream_sound_speed"));
@@ -215,6 +229,8 @@ Case::Case(std::string input_script)
       freestream(Eigen::seqN(*n_dim + 2, 5 - (*n_dim + 2))).setZero();
       _set_vector("freestream", freestream);
     }
+    _inter.variables->assign<double>("freestream_sound_speed", std::sqrt(heat_rat*constants::specific_gas_air**_vard("freestream_temperature")));
+    _inter.variables->assign<double>("freestream_mach", *_vard("freestream_speed")/ *_vard("freestream_sound_speed"));
     // create solver
     Mat<dyn, dyn> mesh_extremes(*n_dim, 2);
     for (int i_dim = 0; i_dim < *n_dim; ++i_dim) {
-- 
2.43.0


From 20e95ef1b16398f4fb14ba1d58885f24c47bbc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 37/47] fix: set_uncert_surface_rep left the state on the
 mortar faces of hanging nodes corrupted, which changed the next update

---
 src/Solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index c1d5e27..8001fe4 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -805,6 +805,7 @@ void Solver::set_uncert_surface_rep(int bc_sn)
     }
   }
   compute_write_face(_kernel_mesh());
+  compute_prolong(_kernel_mesh());
 }
 
 void Solver::synch_extruded_uncert()
-- 
2.43.0


From 16f47ae56d7427980712efa7476ba9cde8c65fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 38/47] fix: continuing after read_state started from
 uninitialized face data and boundary condition caches

---
 include/Solver.hpp |  1 +
 src/Solver.cpp     | 22 ++++++++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/Solver.hpp b/include/Solver.hpp
index 8cd523b..1a098bf 100644
--- a/include/Solver.hpp
+++ b/include/Solver.hpp
@@ -49,6 +49,7 @@ class Solver
   void share_vertex_data(std::function<double&(Element&, int i_vertex)>, std::function<double(Mat<>)>);
   void share_vertex_data(std::function<double(Element&, int i_vertex)> get, std::function<double&(Element&, int i_vertex)> set, std::function<double(Mat<>)>);
   bool fix_admissibility(double stability_ratio);
+  void initialize_faces(); // computes everything that depends on the flow state when the latter has been newly set
   void apply_state_bcs();
   void apply_flux_bcs();
   void apply_avc_diff_bcs();
diff --git a/src/Solver.cpp b/src/Solver.cpp
index 8001fe4..e0cc85c 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -245,6 +245,7 @@ void Solver::read_state(std::string file_name)
     dspace.selectHyperslab(H5S_SELECT_SET, elem_dims, offset, stride, block);
     dset.read(elems[i_elem].state(), dset.getDataType(), mspace, dspace);
   }
+  initialize_faces();
 }
 
 void Solver::write_state(std::string file_name)
@@ -378,6 +379,18 @@ void Solver::calc_jacobian(bool snap)
   share_vertex_data(&Element::vertex_time_step_scale, Vertex::vector_min);
 }
 
+void Solver::initialize_faces()
+{
+  compute_write_face(_kernel_mesh());
+  compute_prolong(_kernel_mesh());
+  auto& bc_cons {acc_mesh->boundary_connections()};
+  #pragma omp parallel for
+  for (int i_con = 0; i_con < bc_cons.size(); ++i_con) {
+    int bc_sn = bc_cons[i_con].bound_cond_serial_n();
+    acc_mesh->boundary_condition(bc_sn).flow_bc->init_cache(bc_cons[i_con]);
+  }
+}
+
 void Solver::initialize(const Spacetime_func& func)
 {
   acc_mesh->valid().assert_valid();
@@ -395,14 +408,7 @@ void Solver::initialize(const Spacetime_func& func)
       }
     }
   }
-  compute_write_face(_kernel_mesh());
-  compute_prolong(_kernel_mesh());
-  auto& bc_cons {acc_mesh->boundary_connections()};
-  #pragma omp parallel for
-  for (int i_con = 0; i_con < bc_cons.size(); ++i_con) {
-    int bc_sn = bc_cons[i_con].bound_cond_serial_n();
-    acc_mesh->boundary_condition(bc_sn).flow_bc->init_cache(bc_cons[i_con]);
-  }
+  initialize_faces();
 }
 
 void Solver::set_art_visc_off()
-- 
2.43.0


From dd624924bf1ae682ac91775cc25f2a5d2839a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 39/47] fix: mesh files listed the fine elements of
 hanging-node connections in permuted order, which corrupted the mesh when it
 was read

---
 include/connection.hpp  | 5 +++++
 src/Accessible_mesh.cpp | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/connection.hpp b/include/connection.hpp
index b1ee26e..45612ea 100644
--- a/include/connection.hpp
+++ b/include/connection.hpp
@@ -196,6 +196,7 @@ class Refined_connection
   Con_dir<Deformed_element> def_dir;
   bool rev;
   std::vector<std::unique_ptr<Fine_connection>> fine_cons;
+  std::vector<element_t*> fine_elems;
   std::array<bool, 2> str;
   int n_fine;
   Eigen::VectorXd coarse_normal;
@@ -229,6 +230,7 @@ class Refined_connection
     dir{con_dir},
     def_dir{Con_dir<Deformed_element>(dir)},
     rev{reverse_order},
+    fine_elems{fine},
     str{stretch_arg},
     coarse_state_data{3*params.n_dof()/params.row_size},
     matcher{to_elementstar(fine), def_dir.i_dim[!reverse_order], def_dir.face_sign[!reverse_order], str}
@@ -278,6 +280,9 @@ class Refined_connection
   Con_dir<element_t> direction() {return dir;}
   //! fetch an object represting a connection between the face of a fine element and one of the mortar faces
   Fine_connection& connection(int i_fine) {return *fine_cons[i_fine];}
+  //! \brief fetch a fine element in the natural row-major order (the order in which they are passed to the constructor)
+  //! \details This is not necessarily the order of `connection()`, since the coarse and fine faces can have different orientations.
+  element_t& fine_element(int i_fine) {return *fine_elems[i_fine];}
   bool order_reversed() {return rev;}
   auto stretch() {return str;}
   int n_fine_elements() {return n_fine;}
diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index b010fc1..5a663cc 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1587,7 +1587,7 @@ void Accessible_mesh::write(std::string name)
       int data[11] {}; \
       data[0] = con.coarse_element().record; \
       for (int i_fine = 0; i_fine < con.n_fine_elements(); ++i_fine) { \
-        data[1 + i_fine] = con.connection(i_fine).element(!con.order_reversed()).record; \
+        data[1 + i_fine] = con.fine_element(i_fine).record; \
       } \
       for (int i_fine = con.n_fine_elements(); i_fine < 4; ++i_fine) data[1 + i_fine] = -1; \
       for (int i_dim : {0, 1}) data[5 + i_dim] = con.stretch()[i_dim]; \
-- 
2.43.0


From 4377f24af5b95f21979d1c770ac62731f32041a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 40/47] fix: reading a mesh file lost which elements form split
 layers, so that adapting the mesh after a restart crashed or broke it

---
 src/Accessible_mesh.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 5a663cc..c7fc603 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -5,6 +5,7 @@
 #include <utils.hpp>
 #include <Gauss_legendre.hpp>
 #include <H5Cpp.h>
+#include <map>
 #include <filesystem>
 #include <fstream>
 
@@ -1727,6 +1728,15 @@ void Accessible_mesh::read_file(std::string file_name)
       car.cons.emplace_back(new Element_face_connection<Element>(el_ar, {data[2]}));
     }
   }
+  // find any further layers of extruded elements, which are connected to the outer faces of extruded elements
+  std::map<std::pair<Element*, int>, Element_face_connection<Deformed_element>*> outward; // connections between elements outside the tree, by the inside face
+  for (auto& con : def.cons) {
+    if (!con->element(0).tree && !con->element(1).tree) outward[{&con->element(1), con->direction().i_face(1)}] = con.get();
+  }
+  for (unsigned i_con = 0; i_con < extrude_cons.size(); ++i_con) {
+    auto next = outward.find({&extrude_cons[i_con]->element(0), extrude_cons[i_con]->direction().i_face(1)});
+    if (next != outward.end()) extrude_cons.push_back(next->second);
+  }
   // read refined connections
   auto ref_con_dset = file.openDataSet("/connections/refined");
   ref_con_dset.getSpace().getSimpleExtentDims(dims);
-- 
2.43.0


From 57c16859b66620deb2a8d39b28cb535dbf4f4dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 41/47] fix: exporting a 1D or 2D mesh to polyMesh format
 corrupted the heap

---
 src/Accessible_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index c7fc603..403f1c0 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1848,6 +1848,7 @@ void write_polymesh_file(std::string dir_name, std::string name, std::string cls
 
 void Accessible_mesh::export_polymesh(std::string dir_name)
 {
+  HEXED_ASSERT(params.n_dim == 3, "only 3D meshes can be exported to polyMesh format");
   dir_name = dir_name + "polyMesh/";
   if (std::filesystem::exists(dir_name)) std::filesystem::remove_all(dir_name);
   std::filesystem::create_directory(dir_name);
-- 
2.43.0


From 9ac6974a418af3b8c2dc413b17c6071a928ccfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 42/47] fix: checkpoints were overwritten in place, so that a
 crash could leave no intact checkpoint, and write errors were ignored

---
 src/Accessible_mesh.cpp |  1 +
 src/Case.cpp            | 17 +++++++++++++----
 src/Solver.cpp          |  1 +
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 403f1c0..3ea1285 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1659,6 +1659,7 @@ void Accessible_mesh::write(std::string name)
     h5_write_value(ind_dset, i_elem, elem.record);
     h5_write_row(adj_dset, dims[1], i_elem, elem.node_adjustments());
   }
+  file.flush(H5F_SCOPE_GLOBAL); // raises an exception if writing fails, which closing the file in the destructor does not
 }
 
 void Accessible_mesh::read_file(std::string file_name)
diff --git a/src/Case.cpp b/src/Case.cpp
index 4a8bb8d..71a2b30 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -80,8 +80,11 @@ std::string Case::_iteration_suffix()
 
 void force_symlink(const std::filesystem::path& target, const std::filesystem::path& link)
 {
-  if (std::filesystem::exists(link)) std::filesystem::remove(link);
-  std::filesystem::create_symlink(target, link);
+  // create the new link under a temporary name and then rename it, so that the old link exists until the new one does
+  std::filesystem::path temp = link.string() + ".partial";
+  std::filesystem::remove(temp);
+  std::filesystem::create_symlink(target, temp);
+  std::filesystem::rename(temp, link);
 }
 
 std::vector<Flow_bc*> Case::_make_extremal_bcs()
@@ -340,13 +343,19 @@ Case::Case(std::string input_script)
   }));
   _inter.variables->create<int>("write_mesh", new Namespace::Heisenberg<int>([this]() {
     std::string file_name = _vars("working_dir").value() + _iteration_suffix();
-    _solver().mesh().write(file_name);
+    // don't overwrite any existing file until the new one is complete
+    std::string temp = file_name + ".partial";
+    _solver().mesh().write(temp);
+    std::filesystem::rename(temp + ".mesh.h5", file_name + ".mesh.h5");
     force_symlink(_iteration_suffix() + ".mesh.h5", _vars("working_dir").value() + "latest.mesh.h5");
     return 0;
   }));
   _inter.variables->create<int>("write_state", new Namespace::Heisenberg<int>([this]() {
     std::string file_name = _vars("working_dir").value() + _iteration_suffix();
-    _solver().write_state(file_name);
+    // don't overwrite any existing file until the new one is complete
+    std::string temp = file_name + ".partial";
+    _solver().write_state(temp);
+    std::filesystem::rename(temp + ".state.h5", file_name + ".state.h5");
     force_symlink(_iteration_suffix() + ".state.h5", _vars("working_dir").value() + "latest.state.h5");
     return 0;
   }));
diff --git a/src/Solver.cpp b/src/Solver.cpp
index e0cc85c..4570c6d 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -267,6 +267,7 @@ void Solver::write_state(std::string file_name)
     dspace.selectHyperslab(H5S_SELECT_SET, elem_dims, offset, stride, block);
     dset.write(elems[i_elem].state(), H5::PredType::NATIVE_DOUBLE, mspace, dspace);
   }
+  file.flush(H5F_SCOPE_GLOBAL); // raises an exception if writing fails, which closing the file in the destructor does not
 }
 
 void Solver::calc_jacobian(bool snap)
-- 
2.43.0


From 52fdc6e0daf30eccf7c12e54679ca2bf9e00a19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 43/47] fix: visualization aborted if a file left over from a
 crashed run was damaged

---
 src/Xdmf_wrapper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Xdmf_wrapper.cpp b/src/Xdmf_wrapper.cpp
index cf47f93..d7192a4 100644
--- a/src/Xdmf_wrapper.cpp
+++ b/src/Xdmf_wrapper.cpp
@@ -1,6 +1,7 @@
 #include <Row_index.hpp>
 #include <math.hpp>
 #if HEXED_USE_XDMF
+#include <filesystem>
 #include <XdmfDomain.hpp>
 #include <XdmfHDF5Writer.hpp>
 #include <XdmfWriter.hpp>
@@ -84,6 +85,8 @@ Xdmf_wrapper::~Xdmf_wrapper()
 {
   auto domain = XdmfDomain::New();
   auto grid = XdmfUnstructuredGrid::New();
+  // remove any file left over from a previous run, which the writer would otherwise try to append to, although it could be damaged
+  std::filesystem::remove(_file_name + ".h5");
   auto hdf5_writer = XdmfHDF5Writer::New(_file_name + ".h5");
   _topo->accept(hdf5_writer);
   _geom->accept(hdf5_writer);
-- 
2.43.0


From 18baa9e86d70bbaeef19b48273ef59d61f1b6b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 44/47] fix: coarsened cells forget whether they intersect the
 surface

If a cell had been refined before the surface was set, its flood fill status was never set.
When its children were coarsened, it hence became an element even if it intersects the surface.
---
 include/Accessible_mesh.hpp |  1 +
 src/Accessible_mesh.cpp     | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/Accessible_mesh.hpp b/include/Accessible_mesh.hpp
index 99a692c..ba71894 100644
--- a/include/Accessible_mesh.hpp
+++ b/include/Accessible_mesh.hpp
@@ -49,6 +49,7 @@ class Accessible_mesh : public Mesh
   template<typename element_t> Mesh_by_type<element_t>& mbt(); // gets either `car` or `def`
   template<typename element_t> void connect_new(int start_at); // connects new elements in `mbt<element_t>()`. helper function for `refine`
   void refine_set_status(Tree*); // refines a tree and sets the flood fill status for any children that intersect the surface
+  void unrefine_set_status(Tree*); // unrefines a tree and sets its flood fill status if it intersects the surface
   void refine_by_record(bool is_deformed, int start, int end);
   bool needs_refine(Tree*);
   void purge();
diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 3ea1285..5154e3a 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -834,6 +834,13 @@ void Accessible_mesh::refine_set_status(Tree* t)
   }
 }
 
+void Accessible_mesh::unrefine_set_status(Tree* t)
+{
+  t->unrefine();
+  // if `t` was refined before the surface was set, its status doesn't tell whether it intersects the surface
+  if (intersects_surface(t)) t->set_status(0);
+}
+
 // performs the actual refinement for all elements where the record has been set to 1
 void Accessible_mesh::refine_by_record(bool is_deformed, int start, int end)
 {
@@ -1207,7 +1214,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
                 child->elem->record = 2;
               }
             }
-            parent->unrefine();
+            unrefine_set_status(parent);
             add_elem(is_def, *parent).record = 0;
           }
         }
@@ -1250,7 +1257,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
                       child->elem->record = 2;
                     }
                   }
-                  p->unrefine();
+                  unrefine_set_status(p);
                 }
               } else if (neighbor->refinement_level() < elem.refinement_level() - 1) {
                 changed = true;
-- 
2.43.0


From e26aa3b3e5e6712693850ba92eac6eb33f184874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 45/47] fix: Cartesian elements at the edge of a deformed
 element could move

If an edge of a coarse deformed element hangs, the fine elements which touch just this edge
have to be deformed as well, like those which share a face with it.
---
 src/Accessible_mesh.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 5154e3a..63a4070 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1070,7 +1070,9 @@ void Accessible_mesh::deform()
       }
     }
   }
-  // if any refined faces have some elements cartesian and some deformed, make them all deformed
+  // If any refined faces or edges have some elements cartesian and some deformed, make them all deformed.
+  // (The elements which share just an edge with a coarse element have a hanging vertex on it
+  // and, if one of them is deformed, the ends of the edge might move.)
   bool changed;
   do {
     changed = false;
@@ -1078,25 +1080,34 @@ void Accessible_mesh::deform()
     for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
       auto& elem = elems[i_elem];
       if (elem.tree && is_def(elem)) {
-        for (int i_face = 0; i_face < 2*nd; ++i_face) {
-          auto neighbors = elem.tree->find_neighbors(math::direction(nd, i_face));
+        auto deform_all = [&](Eigen::VectorXi direction) {
+          auto neighbors = elem.tree->find_neighbors(direction);
           bool any_deformed = false;
           bool all_deformed = true;
           for (Tree* neighbor : neighbors) {
-            if (neighbor->elem) {
+            if (exists(neighbor)) {
               any_deformed = any_deformed || is_def(*neighbor->elem);
               all_deformed = all_deformed && is_def(*neighbor->elem);
             }
           }
           if (any_deformed && !all_deformed) {
             for (Tree* neighbor : neighbors) {
-              if (neighbor->elem) {
+              if (exists(neighbor)) {
                 changed = true;
                 #pragma omp atomic write
                 neighbor->elem->record = 3*!neighbor->elem->get_is_deformed();
               }
             }
           }
+        };
+        for (int i_face = 0; i_face < 2*nd; ++i_face) {
+          Eigen::VectorXi direction = math::direction(nd, i_face);
+          deform_all(direction);
+          for (int j_face = 0; j_face < 2*(i_face/2); ++j_face) {
+            Eigen::VectorXi diagonal = direction;
+            diagonal(j_face/2) = math::sign(j_face%2);
+            deform_all(diagonal);
+          }
         }
       }
     }
-- 
2.43.0


From 82ed197614147076ccc3f2f36982d4d5be90a199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 46/47] fix: face warping of neighboring elements with
 different orientation didn't match

The faces exchanged by snap_faces belong to deformed connections,
so their quadrature points have to be matched.
---
 src/Solver_snap_faces.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver_snap_faces.cpp b/src/Solver_snap_faces.cpp
index 622dd98..d6ed490 100644
--- a/src/Solver_snap_faces.cpp
+++ b/src/Solver_snap_faces.cpp
@@ -72,7 +72,7 @@ void hexed::Solver::snap_faces()
         }
       }
     }
-    (*kernel_factory<Spatial<pde::Smooth_art_visc, false>::Neighbor>(params.n_dim, params.row_size, 0, 1., 1.))(acc_mesh->deformed().kernel_connections());
+    (*kernel_factory<Spatial<pde::Smooth_art_visc, true>::Neighbor>(params.n_dim, params.row_size, 0, 1., 1.))(acc_mesh->deformed().kernel_connections());
     compute_restrict(_kernel_mesh(), false, true);
     #pragma omp parallel for
     for (int i_con = 0; i_con < bc_cons.size(); ++i_con) {
-- 
2.43.0


From 35abaf535e2d89b84cc3a6477071fb3384a3891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 47/47] fix: face warping at hanging edges didn't match

Where a fine element covers part of an edge of a coarse one the warping of the fine one has to match
that of the coarse one, which hence must not be changed by its fine neighbors.
---
 src/Solver_snap_faces.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/Solver_snap_faces.cpp b/src/Solver_snap_faces.cpp
index d6ed490..574dde2 100644
--- a/src/Solver_snap_faces.cpp
+++ b/src/Solver_snap_faces.cpp
@@ -1,3 +1,4 @@
+#include <set>
 #include <Solver.hpp>
 #include <Spatial.hpp>
 #include <pde.hpp>
@@ -27,6 +28,18 @@ void hexed::Solver::snap_faces()
     double* rk_ref = elems[i_elem].residual_cache();
     for (int i_dof = 0; i_dof < params.n_dof(); ++i_dof) rk_ref[i_dof] = state[i_dof];
   }
+  // The first sweep makes the face warping of elements which share a whole edge match by averaging.
+  // Where the edge of a fine element covers only part of the edge of a coarse one, the coarse one stays as it is
+  // and the second sweep makes the fine one match it.
+  auto& ref_cons = acc_mesh->deformed().refined_connections();
+  std::set<double*> coarse_faces;
+  std::set<double*> fine_faces;
+  for (int i_con = 0; i_con < ref_cons.size(); ++i_con) {
+    coarse_faces.insert(ref_cons[i_con].coarse_state());
+    for (int i_fine = 0; i_fine < ref_cons[i_con].n_fine_elements(); ++i_fine) {
+      fine_faces.insert(ref_cons[i_con].connection(i_fine).state(1, false));
+    }
+  }
   for (int sweep = 0; sweep < nd - 1; ++sweep) {
     #pragma omp parallel for
     for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
@@ -61,19 +74,17 @@ void hexed::Solver::snap_faces()
       fake_bc.apply_state(con);
     }
     if (sweep) {
-      auto& ref_cons = acc_mesh->deformed().refined_connections();
       #pragma omp parallel for
       for (int i_con = 0; i_con < ref_cons.size(); ++i_con) {
         for (int i_fine = 0; i_fine < ref_cons[i_con].n_fine_elements(); ++i_fine) {
           double* state = ref_cons[i_con].connection(i_fine).state(0, false);
           for (int i_qpoint = 0; i_qpoint < nfq; ++i_qpoint) state[i_qpoint] *= 2;
           state = ref_cons[i_con].connection(i_fine).state(1, false);
-          for (int i_qpoint = 0; i_qpoint < nfq; ++i_qpoint) state[nfq*params.n_var + i_qpoint] = 0;
+          for (int i_qpoint = 0; i_qpoint < nfq; ++i_qpoint) state[i_qpoint] = 0;
         }
       }
     }
     (*kernel_factory<Spatial<pde::Smooth_art_visc, true>::Neighbor>(params.n_dim, params.row_size, 0, 1., 1.))(acc_mesh->deformed().kernel_connections());
-    compute_restrict(_kernel_mesh(), false, true);
     #pragma omp parallel for
     for (int i_con = 0; i_con < bc_cons.size(); ++i_con) {
       auto& con = bc_cons[i_con];
@@ -86,13 +97,20 @@ void hexed::Solver::snap_faces()
           node_adj += (2*con.i_dim() + con.inside_face_sign())*params.n_qpoint()/params.row_size;
           for (int j_dim = 0; j_dim < params.n_dim; ++j_dim) if (j_dim != con.i_dim()) {
             for (Row_index ind(params.n_dim, params.row_size, j_dim); ind; ++ind) {
+              bool adjust [2];
+              for (int i_sign = 0; i_sign < 2; ++i_sign) {
+                double* face = con.element().face(2*j_dim + i_sign, false);
+                bool fine = fine_faces.count(face);
+                adjust[i_sign] = sweep ? fine : !fine && !coarse_faces.count(face);
+              }
+              if (!adjust[0] && !adjust[1]) continue;
               Mat<> row(params.row_size);
               for (int i_node = 0; i_node < params.row_size; ++i_node) {
                 row(i_node) = state[ind.i_qpoint(i_node)];
               }
               Mat<> lrow = to_lob*row;
               for (int i_sign = 0; i_sign < 2; ++i_sign) {
-                lrow(i_sign*(lob.row_size - 1)) = con.element().face(2*j_dim + i_sign, true)[ind.i_face_qpoint()];
+                if (adjust[i_sign]) lrow(i_sign*(lob.row_size - 1)) = con.element().face(2*j_dim + i_sign, true)[ind.i_face_qpoint()];
               }
               row = from_lob*lrow;
               for (int i_node = 0; i_node < params.row_size; ++i_node) {
-- 
2.43.0

