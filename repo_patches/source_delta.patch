From 598d2b0c24a255deec3e67a31cbc3b1bf9e2285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 01/64] fix: print negative integer literals as SMT-LIB terms

SMT-LIB numerals are non-negative: cvc5 rejects the text -5 as an undeclared
symbol, so every VC that mentions a negative constant failed to parse.
---
 metalift/ir.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 5d91056..0bebc95 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1910,6 +1910,9 @@ class Lit(Expr):
     def toSMT(self) -> str:
         if self.type == Bool:
             return "true" if self.args[0] else "false"
+        elif isinstance(self.args[0], int) and self.args[0] < 0:
+            # SMT-LIB numerals are non-negative, -5 is written (- 5)
+            return f"(- {-self.args[0]})"
         else:
             return str(self.args[0])
 
-- 
2.43.0


From b82a2ec54780229dd74b57f12fc420fd398b460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 02/64] fix: take the tuple arity of tupleGet from the
 operand's type

Only variables used the static type; a tupleGet of a call or an ite fell into
the mangled-name hack and printed a wrong arity or raised.
---
 metalift/ir.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 0bebc95..bca5f34 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2535,10 +2535,7 @@ class Call(Expr):
                     )
                 elif isinstance(self.args[idx + 1], Tuple):
                     retVal.append(f"tuple{self.args[idx + 1].length}_get{index}")
-                elif (
-                    isinstance(self.args[idx + 1], Var)
-                    and get_origin(self.args[idx + 1].type) == Tuple
-                ):
+                elif get_origin(self.args[idx + 1].type) == Tuple:
                     length = len(get_args(get_args(self.args[idx + 1].type)[0]))
                     retVal.append(f"tuple{length}_get{index}")
                 else:
-- 
2.43.0


From 7b701980cc07ea471ae8359b1877f7fcce4463e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 03/64] fix: drop the call to the missing toSMT of types in
 FnDecl.toSMT

---
 metalift/ir.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index bca5f34..2b8fee1 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -3229,8 +3229,6 @@ class FnDecl(Expr):
                 else:
                     declarations.append((a.args[0], a.type))
 
-            args = " ".join("(%s %s)" % (d[0], d[1].toSMT()) for d in declarations)  # type: ignore
-
             args = " ".join(
                 "(%s %s)" % (d[0], d[1].toSMTType(get_args(d[1]))) for d in declarations  # type: ignore
             )
-- 
2.43.0


From fe6c21eb9395319d824b278eb56178200a2c6fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 04/64] fix: parenthesise operators in the emitted Python so
 nesting is kept

---
 metalift/ir.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 2b8fee1..6f05a4f 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1951,7 +1951,7 @@ class Add(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{' + '.join([arg.to_python() for arg in self.args])}"
+        return f"({' + '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Add(self)
@@ -2007,7 +2007,7 @@ class Mul(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{' * '.join([arg.to_python() for arg in self.args])}"
+        return f"({' * '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Mul(self)
@@ -2102,7 +2102,7 @@ class Eq(Expr):
 
     def to_python(self) -> str:
         # TODO: might need more handling for lists
-        return f"{self.e1().to_python()} == {self.e2().to_python()}"
+        return f"({self.e1().to_python()} == {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Eq(self)
@@ -2133,7 +2133,7 @@ class Lt(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} < {self.e2().to_python()}"
+        return f"({self.e1().to_python()} < {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Lt(self)
@@ -2164,7 +2164,7 @@ class Le(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} <= {self.e2().to_python()}"
+        return f"({self.e1().to_python()} <= {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Le(self)
@@ -2195,7 +2195,7 @@ class Gt(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} > {self.e2().to_python()}"
+        return f"({self.e1().to_python()} > {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Gt(self)
@@ -2226,7 +2226,7 @@ class Ge(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} >= {self.e2().to_python()}"
+        return f"({self.e1().to_python()} >= {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Ge(self)
@@ -2253,7 +2253,7 @@ class And(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return " and ".join([arg.to_python() for arg in self.args])
+        return f"({' and '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_And(self)
@@ -2281,7 +2281,7 @@ class Or(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return " or ".join([arg.to_python() for arg in self.args])
+        return f"({' or '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Or(self)
@@ -2305,7 +2305,7 @@ class Not(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"not {self.args[0].to_python()}"
+        return f"(not {self.args[0].to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Not(self)
-- 
2.43.0


From 7c151246fb28437e7057820d3e3dc67b4acc4c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 05/64] fix: emit tuple construction and access as Python
 tuples

---
 metalift/ir.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 6f05a4f..93df296 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2579,6 +2579,10 @@ class Call(Expr):
             return f"{processed_args[0]}[{processed_args[1]}:{processed_args[2]}]"
         elif self.name() in {"vec_slice_with_length", "matrix_row_slice_with_length"}:
             return f"{processed_args[0]}[{processed_args[1]}:{processed_args[1]}+{processed_args[2]}]"
+        elif self.name() == "make-tuple":
+            return f"({', '.join(processed_args)},)"
+        elif self.name() == "tupleGet":
+            return f"{processed_args[0]}[{processed_args[1]}]"
         else:
             return f"{self.name()}({', '.join(processed_args)})"
 
@@ -2770,7 +2774,7 @@ class TupleExpr(Expr):
         return "(tuple%d %s)" % (len(self.args), args)
 
     def to_python(self) -> str:
-        return f"({', '.join([arg.to_python() for arg in self.args])})"
+        return f"({', '.join([arg.to_python() for arg in self.args])},)"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_TupleExpr(self)
-- 
2.43.0


From 4fe716efdebf85671b9457b01d3f8bef620b33e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:51 +0000
Subject: [PATCH 06/64] fix: do not fail on a third equality about the same
 variable in collectKnowledge

---
 metalift/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 93df296..35c7683 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -512,7 +512,7 @@ class Expr:
             ):
                 if self.args[0].args[0] in into or self.args[0].args[0] in conflicts:
                     conflicts[self.args[0].args[0]] = True
-                    del into[self.args[0].args[0]]
+                    into.pop(self.args[0].args[0], None)
                 else:
                     into[self.args[0].args[0]] = self.args[1]
             elif isinstance(self.args[1], Var) and (
@@ -520,7 +520,7 @@ class Expr:
             ):
                 if self.args[1].args[0] in into or self.args[1].args[0] in conflicts:
                     conflicts[self.args[1].args[0]] = True
-                    del into[self.args[1].args[0]]
+                    into.pop(self.args[1].args[0], None)
                 else:
                     into[self.args[1].args[0]] = self.args[0]
         elif isinstance(self, And):
-- 
2.43.0


From 399f28a7432254594a9829ac4b6868ca6d1277e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:54 +0000
Subject: [PATCH 07/64] fix: an integer and a boolean literal are different
 expressions

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 35c7683..58011af 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -317,7 +317,7 @@ class Expr:
                         if not Expr.__eq__(a1, a2):
                             return False
                         continue
-                    elif a1 != a2:
+                    elif type(a1) != type(a2) or a1 != a2:
                         return False
                 return True
         return NotImplemented
-- 
2.43.0


From 664b2413b5490c6e349baa7907f7fbaff1a9fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 08/64] fix: create_object passes Tuple its component types
 instead of the tuple alias

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 58011af..81cfa72 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -660,7 +660,7 @@ def create_object(
         if len(contained_types) != 1:
             raise Exception("NYI: multiple contained types")
 
-        if object_cls is Fn:
+        if object_cls is Fn or object_cls is Tuple:
             return object_cls(get_args(contained_types[0]), value)  # type: ignore
         else:
             return object_cls(*contained_types, value)  # type: ignore
-- 
2.43.0


From 24e1498210f740f93d83d9f2e7e230a65f4566bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 09/64] fix: membership in a Set object calls set-member with
 the element first

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 81cfa72..61854f7 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1663,7 +1663,7 @@ class Set(Generic[T], Object):
     def __contains__(self, value: Object) -> Bool:
         if value.type != self.containedT:
             return Bool(False)
-        return cast(Bool, call("set-pointer_varsber", Bool, self, value))
+        return cast(Bool, call("set-member", Bool, value, self))
 
     def __eq__(self, s: "Set") -> Bool:  # type: ignore
         return Bool(Eq(self.src, s.src))
-- 
2.43.0


From 438111a652824067493a9e3b3e991306c2bc70aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 10/64] fix: Set.remove and Set.singleton use the metalift type
 of the element

---
 metalift/ir.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 61854f7..f9bf223 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1634,16 +1634,16 @@ class Set(Generic[T], Object):
         return call("set-insert", self.type, value, self)  # type: ignore
 
     def remove(self, item: Object) -> "Set":  # type: ignore
-        if type(item) != self.containedT:
+        if item.type != self.containedT:
             raise TypeError(
-                f"Trying to remove element of type: {type(item)} from set containing: {self.containedT}"
+                f"Trying to remove element of type: {item.type} from set containing: {self.containedT}"
             )
         singleton_s = Set.singleton(item)
         return call("set-minus", self.type, self, singleton_s)  # type: ignore
 
     @staticmethod
     def singleton(item: Object) -> "Set":  # type: ignore
-        return call("set-singleton", Set[type(item)], item)  # type: ignore
+        return call("set-singleton", Set[item.type], item)  # type: ignore
 
     def union(self, s: "Set") -> "Set":  # type: ignore
         if self.type != s.type:
-- 
2.43.0


From 3b138ba5b5dca2302fce46da7b91fc860a05250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 11/64] fix: arithmetic between an Int and a List or Matrix

---
 metalift/ir.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index f9bf223..a852bd9 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -950,13 +950,13 @@ class Int(Object):
             return Int(op(self.src, other.src))
         if isinstance(other, Matrix) or isinstance(other, List):
             if op == Add:
-                return other.__radd__(self)
+                return type(other).add(self, other)
             elif op == Sub:
-                return other.__rsub__(self)
+                return type(other).sub(self, other)
             elif op == Mul:
-                return other.__rmul__(self)
+                return type(other).mul(self, other)
             elif op == Div:
-                return other.__rfloordiv__(self)
+                return type(other).div(self, other)
         raise TypeError(f"Cannot call {op} on Int {self} and {other}")
 
     # arithmetic operators
-- 
2.43.0


From ca7b2709b45c3a9fe92536052f8bed4db5d26c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 12/64] fix: Int(True) holds the integer 1, not a boolean

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index a852bd9..6374d70 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -914,7 +914,7 @@ class Int(Object):
         if value is None:
             src = Var("v", Int)
         elif isinstance(value, int):
-            src = IntLit(value)
+            src = IntLit(int(value))
         elif isinstance(value, Expr):
             if value.type != Int:
                 raise TypeError(f"Cannot create Int from {value.type}")
-- 
2.43.0


From 720465422437973074e68a802c1d8d203ae87c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 13/64] fix: length, append and prepend of a nested list use
 the matrix functions

---
 metalift/ir.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 6374d70..53d9893 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1102,7 +1102,8 @@ class List(Generic[T], Object):
         raise NotImplementedError("len must return an int, call len() instead")
 
     def len(self) -> Int:
-        return Int(Call("list_length", Int, self.src))
+        fn_name = "matrix_length" if self.is_matrix else "list_length"
+        return Int(Call(fn_name, Int, self.src))
 
     def __getitem__(self, index: Union[Int, int, slice]) -> Object:
         if isinstance(index, int):
@@ -1168,7 +1169,8 @@ class List(Generic[T], Object):
             raise TypeError(
                 f"Trying to append element of type: {value.type} to list containing: {self.containedT}"
             )
-        self.src = call("list_append", self.type, self, value).src
+        fn_name = "matrix_append" if self.is_matrix else "list_append"
+        self.src = call(fn_name, self.type, self, value).src
         return self
 
     # in place prepend
@@ -1177,7 +1179,8 @@ class List(Generic[T], Object):
             raise TypeError(
                 f"Trying to append element of type: {value.type} to list containing: {self.containedT}"
             )
-        self.src = call("list_prepend", self.type, value, self).src
+        fn_name = "matrix_prepend" if self.is_matrix else "list_prepend"
+        self.src = call(fn_name, self.type, value, self).src
         return self
 
     def slice_with_length(
-- 
2.43.0


From 3338acf3ecba438693ee2243715cca59911accbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:11 +0000
Subject: [PATCH 14/64] fix: != on List and Set objects builds an expression

---
 metalift/ir.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 53d9893..5ac9083 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1214,6 +1214,9 @@ class List(Generic[T], Object):
         else:
             return cast(Bool, call("list_eq", Bool, self, other))
 
+    def __ne__(self, other: "List") -> Bool:  # type: ignore
+        return (self == other).Not()
+
     def __repr__(self) -> str:
         return f"{self.src}"
 
@@ -1672,6 +1675,9 @@ class Set(Generic[T], Object):
         return Bool(Eq(self.src, s.src))
         # return cast(Bool, call("set-eq", Bool, self, s))
 
+    def __ne__(self, s: "Set") -> Bool:  # type: ignore
+        return (self == s).Not()
+
     @staticmethod
     def empty(containedT: ObjectContainedT) -> "Set":  # type: ignore
         return Set(containedT, Call("set-create", Set[containedT]))  # type: ignore
-- 
2.43.0


From 376db2a181ffa514068097c443a529b3690e8df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:20 +0000
Subject: [PATCH 15/64] fix: the sort and type name of a 3D tensor are those of
 a list of matrices

---
 metalift/ir.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 5ac9083..dfb70f3 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1604,6 +1604,18 @@ class Tensor3D(List[T], Generic[T], Object):
         self.src = call("tensor3d_append", self.type, self, value).src
         return self
 
+    @staticmethod
+    def to_python_type_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:
+        return f"List[{Matrix.to_python_type_str(type_args)}]"
+
+    @staticmethod
+    def toSMTType(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
+        return f"(MLList {Matrix.toSMTType(type_args)})"
+
+    @staticmethod
+    def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
+        return f"List {Matrix.cls_str(type_args)}"
+
 
 class Set(Generic[T], Object):
     def __init__(
-- 
2.43.0


From 02926d22d0477abf0df1a0719a040a12f7f7114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:20 +0000
Subject: [PATCH 16/64] fix: the type name of a matrix is that of a list of
 lists

---
 metalift/ir.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index dfb70f3..ec27bfc 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1542,11 +1542,7 @@ class Matrix(List[T], Generic[T], Object):
 
     @staticmethod
     def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
-        contained_type = type_args[0]
-        if isinstance(contained_type, _GenericAlias):
-            return f"List {get_origin(contained_type).cls_str(get_args(contained_type))}"  # type: ignore
-        else:
-            return f"List {contained_type.cls_str()}"
+        return f"List {List.cls_str(type_args)}"
 
 
 class Tensor3D(List[T], Generic[T], Object):
-- 
2.43.0


From b50bfd19ab06df46238097d30bc1281c2b5af2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:20 +0000
Subject: [PATCH 17/64] fix: the type name of a function shows its result and
 parameter types

---
 metalift/ir.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index ec27bfc..434755f 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1851,9 +1851,11 @@ class Fn(Generic[FnContainedT], Object):
     @staticmethod
     def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
         contained_type_strs: list[str] = []
-        contained_types = get_args(get_args(type_args[0]))
+        contained_types = get_args(type_args[0])
         for contained_type in contained_types:
-            if isinstance(contained_type, _GenericAlias):
+            if is_fn_decl_type(contained_type):
+                contained_type_str = f"({get_type_str(contained_type)})"
+            elif isinstance(contained_type, _GenericAlias):
                 contained_type_str = get_origin(contained_type).toSMTType(  # type: ignore
                     get_args(contained_type)
                 )
-- 
2.43.0


From 11575e40339f1a96a4fecd4dc5df80159d5ea15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:05 +0000
Subject: [PATCH 18/64] fix: Python types of sets and tuples, so functions over
 them can be emitted

---
 metalift/ir.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 434755f..0d43815 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1690,6 +1690,14 @@ class Set(Generic[T], Object):
     def empty(containedT: ObjectContainedT) -> "Set":  # type: ignore
         return Set(containedT, Call("set-create", Set[containedT]))  # type: ignore
 
+    @staticmethod
+    def to_python_type(type_args: pyTuple[ObjectContainedT] = ()) -> PythonT:
+        return set[type_args[0].to_python_type(get_args(type_args[0]))]  # type: ignore
+
+    @staticmethod
+    def to_python_type_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:
+        return f"Set[{type_args[0].to_python_type_str(get_args(type_args[0]))}]"  # type: ignore
+
     @staticmethod
     def toSMTType(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
         return Set.cls_str(type_args)
@@ -1767,6 +1775,17 @@ class Tuple(Generic[TupleContainedT], Object):
     def type(self) -> Type["Tuple"]:  # type: ignore
         return Tuple[tuple[self.containedT]]  # type: ignore
 
+    @staticmethod
+    def to_python_type(type_args: pyTuple[ObjectContainedT] = ()) -> PythonT:
+        contained_types = get_args(type_args[0])
+        return tuple[tuple(t.to_python_type(get_args(t)) for t in contained_types)]
+
+    @staticmethod
+    def to_python_type_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:
+        contained_types = get_args(type_args[0])
+        contained_strs = [t.to_python_type_str(get_args(t)) for t in contained_types]
+        return f"Tuple[{', '.join(contained_strs)}]"
+
     # TODO: handle contained type
     @staticmethod
     def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
-- 
2.43.0


From e24ec5690511300f475502fb0865a8633eb48c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:05 +0000
Subject: [PATCH 19/64] fix: to_python_type of nested lists, matrices and
 functions

---
 metalift/ir.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 0d43815..8884243 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1301,7 +1301,7 @@ class List(Generic[T], Object):
         contained_type = type_args[0]
         if isinstance(contained_type, _GenericAlias):
             return list[
-                {get_origin(contained_type).to_python_type(get_args(contained_type))}
+                get_origin(contained_type).to_python_type(get_args(contained_type))
             ]
         else:
             return list[contained_type.to_python_type()]
@@ -1513,14 +1513,7 @@ class Matrix(List[T], Generic[T], Object):
 
     @staticmethod
     def to_python_type(type_args: pyTuple[ObjectContainedT] = ()) -> PythonT:
-        elem_type = type_args[0]
-        contained_type = list[elem_type]
-        if isinstance(contained_type, _GenericAlias):
-            return list[
-                {get_origin(contained_type).to_python_type(get_args(contained_type))}
-            ]
-        else:
-            return list[{contained_type.to_python_type()}]
+        return list[List.to_python_type(type_args)]
 
     @staticmethod
     def to_python_type_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:
@@ -1600,6 +1593,10 @@ class Tensor3D(List[T], Generic[T], Object):
         self.src = call("tensor3d_append", self.type, self, value).src
         return self
 
+    @staticmethod
+    def to_python_type(type_args: pyTuple[ObjectContainedT] = ()) -> PythonT:
+        return list[Matrix.to_python_type(type_args)]
+
     @staticmethod
     def to_python_type_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:
         return f"List[{Matrix.to_python_type_str(type_args)}]"
@@ -1849,10 +1846,10 @@ class Fn(Generic[FnContainedT], Object):
         ret_and_arg_types = get_args(type_args[0])
         ret_type, argument_types = ret_and_arg_types[0], ret_and_arg_types[1:]
         ret_type = ret_type.to_python_type(get_args(ret_type))
-        argument_types = ", ".join(
-            [arg_type.to_python_type(get_args(arg_type)) for arg_type in argument_types]
-        )
-        return Callable[[argument_types], ret_type]
+        argument_types = [
+            arg_type.to_python_type(get_args(arg_type)) for arg_type in argument_types
+        ]
+        return Callable[argument_types, ret_type]
 
     @staticmethod
     def to_python_type_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:
-- 
2.43.0


From f399cfb0142fba95053ca4156df97eac9ae88843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:39 +0000
Subject: [PATCH 20/64] fix: the tuple type of an LLVM struct.tup.N reference

---
 metalift/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 8884243..bafcd3c 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -645,8 +645,8 @@ def parse_type_ref_to_obj(t: TypeRef) -> ObjectT:
     elif ty_str in {"%struct.tup*"}:
         return Tuple[tuple[Int, Int]]
     elif ty_str.startswith("%struct.tup."):
-        contained_types = [Int for i in range(int(t[-2]) + 1)]
-        return Tuple[tuple[contained_types]]  # type: ignore
+        contained_types = [Int for i in range(int(ty_str[-2]) + 1)]
+        return Tuple[tuple[tuple(contained_types)]]  # type: ignore
     else:
         raise Exception(f"no type defined for {ty_str}")
 
-- 
2.43.0


From 4ea802b13b7d024fa1265e7f9ff607a3f323f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 21/64] fix: read back list-append in a synthesized function

---
 metalift/synthesize_rosette.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 475f9cb..90397c9 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -170,7 +170,7 @@ def to_expr(
             return Call(
                 "list_append",
                 mlList[elem.type],  # type: ignore
-                toExpr(ast[1], fnsType, varType, choices),
+                list_expr,
                 elem,
             )
         elif ast[0] == "matrix-append":
-- 
2.43.0


From e159b0d446e73fc59ddbc56914048e385322f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 22/64] fix: read back tupleGet in a synthesized function

---
 metalift/synthesize_rosette.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 90397c9..93d6803 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -41,7 +41,6 @@ from metalift.ir import (
     Synth,
     Target,
     TupleExpr,
-    TupleGet,
     Var,
     get_fn_return_type,
     get_list_element_type,
@@ -365,9 +364,11 @@ def to_expr(
                 arg_eval.append(to_expr(ast[alen], fnsType, varType, choices))
             return TupleExpr(*arg_eval)
         elif ast[0] == "tupleGet":
-            return TupleGet(
-                to_expr(ast[1], fnsType, varType, choices),
-                to_expr(ast[2], fnsType, varType, choices),
+            tuple_expr = to_expr(ast[1], fnsType, varType, choices)
+            index = to_expr(ast[2], fnsType, varType, choices)
+            component_types = typing.get_args(typing.get_args(tuple_expr.type)[0])
+            return Call(
+                "tupleGet", component_types[index.args[0]], tuple_expr, index
             )
         elif ast[0] == "set-create":
             return Call(ast[0], mlSet[Int])
-- 
2.43.0


From 7a244cd6ecbf69bea14372c44c4202a81015d62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 23/64] fix: read back slices of 3D tensors in a synthesized
 function

---
 metalift/synthesize_rosette.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 93d6803..d12bde3 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -331,6 +331,24 @@ def to_expr(
                 to_expr(ast[2], fnsType, varType, choices),
                 to_expr(ast[3], fnsType, varType, choices),
             )
+        elif ast[0] == "tensor3d-slice-noerr":
+            tensor_expr = to_expr(ast[1], fnsType, varType, choices)
+            return Call(
+                "tensor3d_slice",
+                tensor_expr.type,
+                tensor_expr,
+                to_expr(ast[2], fnsType, varType, choices),
+                to_expr(ast[3], fnsType, varType, choices),
+            )
+        elif ast[0] == "tensor3d-slice-with-length-noerr":
+            tensor_expr = to_expr(ast[1], fnsType, varType, choices)
+            return Call(
+                "tensor3d_slice_with_length",
+                tensor_expr.type,
+                tensor_expr,
+                to_expr(ast[2], fnsType, varType, choices),
+                to_expr(ast[3], fnsType, varType, choices),
+            )
         elif ast[0] == "matrix-col-slice-noerr":
             list_expr = to_expr(ast[1], fnsType, varType, choices)
             return Call(
-- 
2.43.0


From ec631a4ac2c5354e41ad104ce855dcf05f97fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 24/64] fix: a row of a matrix read back from a synthesized
 function is a list

---
 metalift/synthesize_rosette.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index d12bde3..f899f3f 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -44,6 +44,7 @@ from metalift.ir import (
     Var,
     get_fn_return_type,
     get_list_element_type,
+    is_matrix_type,
 )
 from metalift.rosette_translator import to_rosette
 from metalift.synthesis_common import (
@@ -227,9 +228,10 @@ def to_expr(
             )
         elif ast[0] == "matrix-ref-noerr":
             list_expr = to_expr(ast[1], fnsType, varType, choices)
+            elem_type = get_list_element_type(list_expr.type)
             return Call(
                 "matrix_get",
-                get_list_element_type(list_expr.type),
+                mlList[elem_type] if is_matrix_type(list_expr.type) else elem_type,  # type: ignore
                 list_expr,
                 to_expr(ast[2], fnsType, varType, choices),
             )
-- 
2.43.0


From 82f20b980ca38bf0c18c87daef1b0cdb7335bb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 25/64] fix: resolve grammar rules nested in a resolved grammar
 rule

---
 metalift/synthesize_rosette.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index f899f3f..612bca6 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -516,7 +516,7 @@ def to_expr(
 
                 if isinstance(expr, Var):
                     if expr.name().startswith("(") and expr.name()[1:-1] in choices:
-                        return choices[expr.name()[1:-1]].args[0]
+                        return replace_choices(choices[expr.name()[1:-1]].args[0])
                     return expr
                 return expr.map_args(replace_choices)
 
-- 
2.43.0


From 7564db9ec893965be7b7fa6851d26238211b2586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 26/64] fix: analyzed Python functions no longer share the
 state of earlier ones

---
 metalift/frontend/python.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 3f75076..4027f57 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -106,14 +106,14 @@ class State:
 
     def __init__(
         self,
-        precond: List[Bool] = list(),
-        vars: Dict[str, Object] = dict(),
-        asserts: List[Bool] = list(),
+        precond: Optional[List[Bool]] = None,
+        vars: Optional[Dict[str, Object]] = None,
+        asserts: Optional[List[Bool]] = None,
         has_returned: bool = False,
     ) -> None:
-        self.precond = precond
-        self.vars = vars
-        self.asserts = asserts
+        self.precond = precond if precond is not None else []
+        self.vars = vars if vars is not None else {}
+        self.asserts = asserts if asserts is not None else []
         self.has_returned = has_returned if not has_returned else has_returned
 
     def read(self, var: str) -> Object:
-- 
2.43.0


From b5f387e427e00227d5d7995550623ee1e031db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 27/64] fix: a chained comparison in Python holds only if all
 its parts hold

---
 metalift/frontend/python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 4027f57..41eb9a8 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -686,8 +686,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         operands = [e.accept(self) for e in o.operands]
         e = self.process_comparison(o.operators[0], operands[0], operands[1])
         for i in range(1, len(o.operators)):
-            e = e and self.process_comparison(
-                o.operators[i], operands[i], operands[i + 1]
+            e = and_objects(
+                e,
+                self.process_comparison(o.operators[i], operands[i], operands[i + 1]),
             )
         return e
 
-- 
2.43.0


From 3c51e9ccdc9e1bab811c2a53cd523227bec4b529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 28/64] fix: keep the assertions of both branches of a Python
 if statement

---
 metalift/frontend/python.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 41eb9a8..a99bb86 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -626,9 +626,10 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         c_state = consequent.state
         a_state = alternate.state
 
-        for e in c_state.asserts + a_state.asserts:
-            if e not in self.state.asserts:
-                self.state.asserts.append(e)
+        # both branches start from (copies of) the assertions made so far
+        num_asserts = len(self.state.asserts)
+        self.state.asserts += c_state.asserts[num_asserts:]
+        self.state.asserts += a_state.asserts[num_asserts:]
 
         if c_state.has_returned and a_state.has_returned:
             return
-- 
2.43.0


From c0ff14366d9fffe2ce2dc8170361584e618ac64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:43 +0000
Subject: [PATCH 29/64] fix: keep the assertions made inside the body of a
 Python while loop

---
 metalift/frontend/python.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index a99bb86..e6e5b35 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -507,6 +507,11 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.driver.add_var_object(new_value)
             self.state.write(var[0], new_value)
 
+        # the condition and the inv hold at the start of the body
+        cond = o.expr.accept(self)
+        body_state = copy.deepcopy(self.state)
+        body_state.precond += [cast(Bool, cond), inv.call(self.state)]
+
         body_visitor = VCVisitor(  # type: ignore  # ignore the abstract expr visit methods that aren't implemented for now in VCVisitor
             self.driver,
             self.fn_name,
@@ -514,7 +519,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.ast,
             self.args,
             self.ret_val,
-            copy.deepcopy(self.state),
+            body_state,
             self.invariants,
             self.var_tracker,
             self.pred_tracker,
@@ -525,19 +530,14 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         )
         o.body.accept(body_visitor)
 
-        # inv is preserved
-        cond = o.expr.accept(self)
-        # if not isinstance(cond, Bool):
-        #     raise Exception(
-        #         "The condition of a while loop must evaluate to a boolean object!"
-        #     )
-        c = (
-            and_objects(*self.state.precond, cast(Bool, cond), inv.call(self.state))
-            if self.state.precond
-            else and_objects(cast(Bool, cond), inv.call(self.state))
-        )
-        self.state.asserts.append(implies(c, inv.call(body_visitor.state)))
-        print(f"inv is preserved: {self.state.asserts[-1]}")
+        # inv is preserved unless the body returns; the body starts from (copies of)
+        # the assertions made so far
+        num_asserts = len(self.state.asserts)
+        self.state.asserts += body_visitor.state.asserts[num_asserts:]
+        if not body_visitor.state.has_returned:
+            c = and_objects(*body_visitor.state.precond)
+            self.state.asserts.append(implies(c, inv.call(body_visitor.state)))
+            print(f"inv is preserved: {self.state.asserts[-1]}")
 
         # the invariant is true from this point on
         self.state.precond.append(
-- 
2.43.0


From df82192a4f4a8662c914c5070f11316771740cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:43 +0000
Subject: [PATCH 30/64] fix: what is known after a Python if statement, and
 code after a return

---
 metalift/frontend/python.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index e6e5b35..8402ddf 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -435,6 +435,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
 
     def visit_block(self, o: Block) -> None:
         for s in o.body:
+            if self.state.has_returned:
+                break  # the rest of the block is never reached
             s.accept(self)
 
     def visit_expression_stmt(self, o: ExpressionStmt) -> None:
@@ -631,13 +633,23 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         self.state.asserts += c_state.asserts[num_asserts:]
         self.state.asserts += a_state.asserts[num_asserts:]
 
+        num_precond = len(self.state.precond)
         if c_state.has_returned and a_state.has_returned:
+            self.state.has_returned = True
             return
         elif c_state.has_returned and not a_state.has_returned:
             self.state.vars = a_state.vars
+            self.state.precond = a_state.precond
         elif not c_state.has_returned and a_state.has_returned:
             self.state.vars = c_state.vars
+            self.state.precond = c_state.precond
         else:  # both have not returned, need to merge
+            # what is known after each branch, after its condition
+            for e in c_state.precond[num_precond + 1 :]:
+                self.state.precond.append(implies(cond, e))
+            for e in a_state.precond[num_precond + 1 :]:
+                self.state.precond.append(implies(cond.Not(), e))
+
             for v in set().union(c_state.vars, a_state.vars):
                 if v not in self.state.vars and (
                     (v not in c_state.vars and v in a_state.vars)
-- 
2.43.0


From aa68c2cb470ea4f990b76c3ec2f07e2a38ecebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:43 +0000
Subject: [PATCH 31/64] fix: a variable modified in a Python while loop is not
 the one it had before the loop

---
 metalift/frontend/python.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 8402ddf..4a36124 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -504,8 +504,10 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         print(f"inv is init true: {self.state.asserts[-1]}")
 
         # havoc the modified vars
-        for var in v.writes:
-            new_value = create_object(to_object_type(var[1]), var[0])
+        for var in writes:
+            new_value = create_object(
+                to_object_type(var[1]), self.driver.fresh_name(var[0])
+            )
             self.driver.add_var_object(new_value)
             self.state.write(var[0], new_value)
 
@@ -791,12 +793,15 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             return arg.len()
         elif is_method_call_with_name(o, "append"):
             # list append
-            callee_expr = o.callee.expr.accept(self)  # type: ignore
+            callee_name_expr = o.callee.expr  # type: ignore
+            if not isinstance(callee_name_expr, NameExpr):
+                raise Exception(".append only supported on variables!")
+            callee_expr = callee_name_expr.accept(self)
             if not isinstance(callee_expr, mlList):
                 raise Exception(".append only supported on lists!")
             assert len(o.args) == 1
             elem_to_append = o.args[0].accept(self)
-            var_name = callee_expr.var_name()
+            var_name = callee_name_expr.name
             list_after_append = callee_expr.append(elem_to_append)
             self.state.write(var_name, list_after_append)
             return list_after_append
@@ -809,7 +814,10 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             else:
                 method_name, func_call_name = ".remove", "set-minus"
 
-            callee_expr = o.callee.expr.accept(self)  # type: ignore
+            callee_name_expr = o.callee.expr  # type: ignore
+            if not isinstance(callee_name_expr, NameExpr):
+                raise Exception(f"{method_name} only supported on variables!")
+            callee_expr = callee_name_expr.accept(self)
             if not isinstance(callee_expr, mlSet):
                 raise Exception(f"{method_name} only supported on sets!")
             assert len(o.args) == 1
@@ -818,7 +826,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             set_after_modification = call(
                 func_call_name, callee_expr.type, callee_expr, singleton_set
             )
-            self.state.write(callee_expr.var_name(), set_after_modification)
+            self.state.write(callee_name_expr.name, set_after_modification)
             return set_after_modification
         elif is_func_call(o) and get_fn_name(o) in self.uninterp_fns:
             # Uninterpreted functions
@@ -850,6 +858,15 @@ class Driver:
     def variable(self, name: str, type: ObjectT) -> Var:
         return self.var_tracker.variable(name, type)
 
+    def fresh_name(self, name: str) -> str:
+        """The given name, followed by a number if there is such a variable already."""
+        existing = {v.name() for v in self.var_tracker.all()}
+        fresh, num = name, 0
+        while fresh in existing:
+            num += 1
+            fresh = f"{name}_{num}"
+        return fresh
+
     def add_var_object(self, var_object: Object) -> None:
         # TODO: extract this check to a more generic function
         if not isinstance(var_object.src, Var):
-- 
2.43.0


From 895acf7a3946855d739915bb48fa8e451709ec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:05 +0000
Subject: [PATCH 32/64] fix: appending to a list argument of a Python function
 does not change the argument

---
 metalift/frontend/python.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 4a36124..cbae52e 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -384,7 +384,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                     f"expect {len(fn_type.arg_names)} args passed to {self.fn_name} got {len(self.args)} instead"
                 )
 
-            for actual, formal in zip(self.args, formals):
+            # copied as the body can modify them in place
+            actuals = copy.deepcopy(self.args)
+            for actual, formal in zip(actuals, formals):
                 if to_object_type(formal[1]) != actual.type:
                     raise RuntimeError(
                         f"expect {actual} to have type {to_object_type(formal[1])} rather than {actual.type}"
-- 
2.43.0


From 685a85a93d8a10287121bcaccb522c9e506486c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:05 +0000
Subject: [PATCH 33/64] fix: the arguments of an analyzed Python function are
 variables of the verification condition

---
 metalift/frontend/python.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index cbae52e..b6dbf03 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -386,6 +386,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
 
             # copied as the body can modify them in place
             actuals = copy.deepcopy(self.args)
+            self.driver.add_var_objects([a for a in actuals if isinstance(a.src, Var)])
             for actual, formal in zip(actuals, formals):
                 if to_object_type(formal[1]) != actual.type:
                     raise RuntimeError(
-- 
2.43.0


From 0ae348572243687e2eaf32c82bc89fe96bc365b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:05 +0000
Subject: [PATCH 34/64] fix: the postcondition assumed after a call of an
 analyzed Python function

---
 metalift/frontend/python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index b6dbf03..5cf2bd7 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -1013,10 +1013,10 @@ class MetaliftFunc:
         self.driver.asserts += v.state.asserts
 
         object_type = to_object_type(cast(CallableType, self.ast.type).ret_type)
-        ret_val = create_object(object_type, f"{self.name}_rv")
+        ret_val = create_object(object_type, self.driver.fresh_name(f"{self.name}_rv"))
         self.driver.add_var_object(ret_val)
 
-        ps = call(f"{self.name}_ps", Bool, ret_val, *args)
+        ps = call(f"{self.name}_ps", Bool, *args, ret_val)
 
         self.driver.postconditions.append(cast(Bool, ps))
 
-- 
2.43.0


From 6ad6454ae2f9cda8268ad24fa7c664a99078677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:05 +0000
Subject: [PATCH 35/64] fix: the else block of a Python while loop

---
 metalift/frontend/python.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 5cf2bd7..7a9b0ec 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -551,6 +551,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             and_objects(cast(Bool, cond).Not(), inv.call(self.state))
         )
 
+        if o.else_body:
+            o.else_body.accept(self)
+
     def visit_return_stmt(self, o: ReturnStmt) -> None:
         assert o.expr is not None
         # precond -> ps(...)
-- 
2.43.0


From 9be2bde58804f9fc9403971f11501cf914792c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:46 +0000
Subject: [PATCH 36/64] fix: variables in scope of a Python loop have the type
 they have in the function

---
 metalift/frontend/python.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 7a9b0ec..3775651 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -450,13 +450,10 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
 
     def in_scope_vars(
         self, vars: Dict[str, Object], types: Dict[MypyExpr, MypyType]
-    ) -> Set[MypyVar]:
-        r = set()
-        for v in vars.keys():
-            for k, t in types.items():
-                if isinstance(k, NameExpr) and k.name == v:
-                    r.add((v, t))
-        return r
+    ) -> List[Tuple[str, ObjectT]]:
+        # types has the names of other functions and modules as well
+        names = {k.name for k in types.keys() if isinstance(k, NameExpr)}
+        return [(v, obj.type) for v, obj in vars.items() if v in names]
 
     def visit_while_stmt(self, o: WhileStmt) -> None:
         v = RWVarsVisitor(self.types)
@@ -468,8 +465,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         reads = list(v.reads)
         reads.sort()
 
-        in_scope = list(self.in_scope_vars(self.state.vars, self.types))
-        in_scope.sort()
+        in_scope = self.in_scope_vars(self.state.vars, self.types)
+        in_scope.sort(key=lambda var: var[0])
 
         print(f"loop writes: {writes}, reads: {reads}, scope: {in_scope}")
 
@@ -485,7 +482,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             create_object(to_object_type(type), name) for name, type in reads
         ]
         in_scope_objects = [
-            create_object(to_object_type(type), name) for name, type in in_scope
+            create_object(type, name) for name, type in in_scope
         ]
         inv = self.pred_tracker.invariant(
             fn_name=self.fn_name,
-- 
2.43.0


From 6d5104b7f07b5e53414e1b0546318b08d96fbd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:00 +0000
Subject: [PATCH 37/64] fix: matrix_transpose in the SMT library stops when no
 columns are left

Transposing a matrix whose rows are empty recursed on itself, so the
definition required a list equal to its own tail: the library theory was
inconsistent and cvc5 answered unsat for any verification condition.
---
 metalift/utils/list-axioms.smt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/utils/list-axioms.smt b/metalift/utils/list-axioms.smt
index dccd1be..4c35d4e 100644
--- a/metalift/utils/list-axioms.smt
+++ b/metalift/utils/list-axioms.smt
@@ -199,4 +199,4 @@
 (ite (< (matrix_length matrix) 1) matrix_empty (matrix_col_slice matrix 1 (list_length (matrix_get matrix 0)))))
 
 (define-fun-rec matrix_transpose ((matrix (MLList (MLList Int)))) (MLList (MLList Int))
-(ite (< (matrix_length matrix) 1) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
+(ite (or (< (matrix_length matrix) 1) (< (list_length (matrix_get matrix 0)) 1)) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
-- 
2.43.0


From 8c6764cc0474299675d4e15069ab21241a43914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 38/64] fix: slice axioms of the tensor functions need a
 non-empty slice

---
 metalift/utils/tenspiler/axioms.py | 38 +++++++++++++++---------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/metalift/utils/tenspiler/axioms.py b/metalift/utils/tenspiler/axioms.py
index aa2324e..df74a3a 100644
--- a/metalift/utils/tenspiler/axioms.py
+++ b/metalift/utils/tenspiler/axioms.py
@@ -40,7 +40,7 @@ rand = Int("rand")
 
 def vec_elemwise_add_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_add(a[:index], b[:index])
         == call_vec_elemwise_add(a[1:index], b[1:index]).prepend(a[0] + b[0]),
     )
@@ -48,7 +48,7 @@ def vec_elemwise_add_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def vec_elemwise_mul_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_mul(a[:index], b[:index])
         == call_vec_elemwise_mul(a[1:index], b[1:index]).prepend(a[0] * b[0]),
     )
@@ -56,7 +56,7 @@ def vec_elemwise_mul_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def scalar_vec_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_scalar_vec_sub(i, a[:index])
         == call_scalar_vec_sub(i, a[1:index]).prepend(i - a[0]),
     )
@@ -64,7 +64,7 @@ def scalar_vec_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_scalar_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_sub(i, a[:index])
         == call_vec_scalar_sub(i, a[1:index]).prepend(a[0] - i),
     )
@@ -72,7 +72,7 @@ def vec_scalar_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_scalar_add_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_add(i, a[:index])
         == call_vec_scalar_add(i, a[1:index]).prepend(i + a[0]),
     )
@@ -80,7 +80,7 @@ def vec_scalar_add_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def scalar_vec_div_axiom(i: int, a: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_scalar_vec_div(i, a[:index])
         == call_scalar_vec_div(i, a[1:index]).prepend(i // a[0]),
     )
@@ -88,7 +88,7 @@ def scalar_vec_div_axiom(i: int, a: mlList[int], index: int) -> Bool:
 
 def vec_scalar_mul_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_mul(i, a[:index])
         == call_vec_scalar_mul(i, a[1:index]).prepend(i * a[0]),
     )
@@ -96,7 +96,7 @@ def vec_scalar_mul_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_elemwise_sub_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_sub(a[:index], b[:index])
         == call_vec_elemwise_sub(a[1:index], b[1:index]).prepend(a[0] - b[0]),
     )
@@ -124,7 +124,7 @@ def reduce_max_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
 
 def vec_scalar_div_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_div(i, a[:index])
         == call_vec_scalar_div(i, a[1:index]).prepend(a[0] // i),
     )
@@ -132,7 +132,7 @@ def vec_scalar_div_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_elemwise_div_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_div(a[:index], b[:index])
         == call_vec_elemwise_div(a[1:index], b[1:index]).prepend(a[0] // b[0]),
     )
@@ -140,7 +140,7 @@ def vec_elemwise_div_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_add(x[:index], y[:index])
         == call_matrix_elemwise_add(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_add(x[0], y[0])
@@ -150,7 +150,7 @@ def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_sub(x[:index], y[:index])
         == call_matrix_elemwise_sub(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_sub(x[0], y[0])
@@ -160,7 +160,7 @@ def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_mul(i, x[:index])
         == call_matrix_scalar_mul(i, x[1:index]).prepend(call_vec_scalar_mul(i, x[0])),
     )
@@ -168,7 +168,7 @@ def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_vec_mul(x[:index], b)
         == call_matrix_vec_mul(x[1:index], b).prepend(
             call_reduce_sum(call_vec_elemwise_mul(x[0], b))
@@ -178,7 +178,7 @@ def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
 
 def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_mul(x[:index], y[:index])
         == call_matrix_elemwise_mul(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_mul(x[0], y[0])
@@ -188,7 +188,7 @@ def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_scalar_div_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_div(i, x[:index])
         == call_matrix_scalar_div(i, x[1:index]).prepend(call_vec_scalar_div(i, x[0])),
     )
@@ -196,7 +196,7 @@ def matrix_scalar_div_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_scalar_sub_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_sub(i, x[:index])
         == call_matrix_scalar_sub(i, x[1:index]).prepend(call_vec_scalar_sub(i, x[0])),
     )
@@ -204,7 +204,7 @@ def matrix_scalar_sub_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_selection_two_args_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_selection(x[:index], y[:index])
         == call_matrix_selection(x[1:index], y[1:index]).prepend(
             call_selection(x[0], y[0])
@@ -216,7 +216,7 @@ def dissolve_matrix_selection_two_args_axiom(
     x: Matrix[int], y: Matrix[int], opacity: int, rand: int, index: int
 ) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_dissolve_matrix_selection(x[:index], y[:index], opacity, rand)
         == call_dissolve_matrix_selection(
             x[1:index], y[1:index], opacity, rand
-- 
2.43.0


From e26b9fbd951cf130944ade8bda66799d8dece4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 39/64] fix: reduction axioms hold for elements of the list, a
 maximum needs one before

---
 metalift/utils/tenspiler/axioms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metalift/utils/tenspiler/axioms.py b/metalift/utils/tenspiler/axioms.py
index df74a3a..a5b6c4f 100644
--- a/metalift/utils/tenspiler/axioms.py
+++ b/metalift/utils/tenspiler/axioms.py
@@ -104,7 +104,9 @@ def vec_elemwise_sub_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def reduce_sum_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index <= max_pos, max_pos >= 0),
+        and_objects(
+            index >= 0, index < data.len(), index <= max_pos, max_pos >= 0
+        ),
         call_reduce_sum(data[: index + 1])
         == call_reduce_sum(data[:index]) + data[index],
     )
@@ -112,7 +114,7 @@ def reduce_sum_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
 
 def reduce_max_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index <= max_pos, max_pos >= 0),
+        and_objects(index > 0, index < data.len(), index <= max_pos, max_pos >= 0),
         call_reduce_max(data[: index + 1])
         == ite(
             data[index] > (call_reduce_max(data[:index])),
-- 
2.43.0


From 43c5a410dee770142db7c2224f53fd7fb09e00cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 40/64] fix: the matrix-vector product axiom needs a row as
 long as the vector

---
 metalift/utils/tenspiler/axioms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metalift/utils/tenspiler/axioms.py b/metalift/utils/tenspiler/axioms.py
index a5b6c4f..ed4594d 100644
--- a/metalift/utils/tenspiler/axioms.py
+++ b/metalift/utils/tenspiler/axioms.py
@@ -170,7 +170,9 @@ def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index > 0, index < x.len()),
+        and_objects(
+            index > 0, index < x.len(), x[0].len() > 0, x[0].len() == b.len()
+        ),
         call_matrix_vec_mul(x[:index], b)
         == call_matrix_vec_mul(x[1:index], b).prepend(
             call_reduce_sum(call_vec_elemwise_mul(x[0], b))
-- 
2.43.0


From 8ccb275a200746ba5a683400a66356507a9cd531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:23 +0000
Subject: [PATCH 41/64] fix: transpose of a tensor stops when no columns are
 left

---
 metalift/utils/tenspiler/tenspiler_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index f3a18e9..41eac5c 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -2232,7 +2232,7 @@ rests_body = ite(
 )
 rests_fn_decl = fn_decl_recursive("rests", Matrix[Int], rests_body, matrix)
 matrix_transpose_body = ite(
-    matrix.len() < 1,
+    or_objects(matrix.len() < 1, matrix[0].len() < 1),
     Matrix.empty(Int),
     call("rests", Matrix[Int], matrix)
     .transpose()
-- 
2.43.0


From 5bbe7ded47c740869c465b380bac49237054a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 42/64] fix: LLMLift accepts a solution only when cvc5 answers
 unsat

---
 llmlift_scripts/synthesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index a08cf27..8acaebe 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -296,7 +296,7 @@ def verify_benchmark_smt(
     dsl_fns: list[FnDecl | FnDeclRecursive],
     vc: Expr,
     dsl_fn_name_to_axioms: dict[str, list[Axiom]],
-) -> None:
+) -> bool:
     """Verify the benchmark using SMT."""
     SYNTHESIS_LOGS_DIR.mkdir(exist_ok=True)
     verify_file = SYNTHESIS_LOGS_DIR / f"verify_{benchmark_name}.smt"
@@ -341,7 +341,7 @@ def verify_benchmark_smt(
         proc_output = verify_proc.stdout
         result_verify = proc_output.decode("utf-8").split("\n")[0]
         print(result_verify)
-        return True
+        return result_verify == "unsat"
 
 
 def run_llm_synthesis_algorithm(
-- 
2.43.0


From 143679c56376a7cec1ff00fd1289af5d5d615a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 43/64] fix: map_args of a function to synthesize, so SyGuS
 queries can be written

---
 metalift/ir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index bafcd3c..2217310 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -180,6 +180,8 @@ class Expr:
             )
         elif isinstance(self, Axiom):
             return Axiom(f(self.e()), *[f(var) for var in self.vars()])
+        elif isinstance(self, Synth):
+            return Synth(self.name(), f(self.body()), *[f(a) for a in self.arguments()])
         else:
             raise Exception("NYI: %s" % self)
 
-- 
2.43.0


From a96e35be7e6156073377a4810d6a9baa21a1ad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 44/64] fix: toSMT rewrites every caller of a specialised
 function to call that function

---
 metalift/smt_util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 56ddef2..60fc14f 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -423,27 +423,29 @@ def toSMT(
                         in_call=None,
                     )
 
-                    new_fn_name = f"{t.name()}_{new_fn_name}"
+                    new_caller_name = f"{t.name()}_{new_fn_name}"
                     new_body = filter_body(
                         fun_def=new_body,
-                        new_fn_call=new_fn_name,
+                        new_fn_call=new_caller_name,
                         fn_call=t.name(),
                         in_call=None,
                     )
                     new_args = filter_args(t.arguments())
 
-                    new_in_calls_to_renamed_fn_name[(t.name(), in_call)] = new_fn_name
+                    new_in_calls_to_renamed_fn_name[
+                        (t.name(), in_call)
+                    ] = new_caller_name
                     rewritten_fn_decls.add(t)
                     fn_decls.append(
                         FnDeclRecursive(
-                            new_fn_name,
+                            new_caller_name,
                             t.return_type(),
                             new_body,
                             *new_args,
                         )
                         if isinstance(t, FnDeclRecursive)
                         else FnDecl(
-                            new_fn_name,
+                            new_caller_name,
                             t.return_type(),
                             new_body,
                             *new_args,
-- 
2.43.0


From 5f3e6218820dd1132c3b295e73ff0d2d82b84114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:34 +0000
Subject: [PATCH 45/64] fix: toSMT leaves the functions it is given as they are

---
 metalift/smt_util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 60fc14f..549e124 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -340,6 +340,8 @@ def toSMT(
 
         rewritten_fn_decls: set[Expr] = set()
         in_calls_to_renamed_fn_name: dict[tuple[str, str], str] = {}
+        # The candidates are rewritten below; the ones we were given stay as they are.
+        inv_and_ps = [cand.map_args(lambda x: x) for cand in inv_and_ps]
         # First, we want to replace all the direct in calls.
         for t in target_lang:
             if (
-- 
2.43.0


From d3b2d0316a348671df9dfd222751b280108664cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 46/64] fix: a function that calls its parameter more than once
 is specialised once

---
 metalift/smt_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 549e124..a32f65f 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -68,7 +68,8 @@ def get_direct_in_calls(
                     )
                 )
         elif isinstance(expr, CallValue):
-            direct_in_calls.append((fn_call, in_call))
+            if (fn_call, in_call) not in direct_in_calls:
+                direct_in_calls.append((fn_call, in_call))
         return expr.map_args(
             lambda expr: get_fn_direct_in_calls(
                 expr=expr,
-- 
2.43.0


From 747467d3839b07b0507ed0c3c32fd5cf1cf24711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 47/64] fix: read SyGuS solutions with operators of more than
 two operands

---
 metalift/synthesize_cvc5.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 7aaeb2a..b8e0f7e 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -125,7 +125,14 @@ def toExpr(
     expr_uni = {"not": Not}
     if isinstance(ast, list):
         if ast[0] in expr_bi.keys():
-            if len(ast) == 3:
+            if ast[0] in ("+", "*", "and", "or"):
+                return expr_bi[ast[0]](
+                    *[
+                        toExpr(arg, funName, returnType, varType, letVars)
+                        for arg in ast[1:]
+                    ]
+                )
+            elif len(ast) == 3:
                 return expr_bi[ast[0]](
                     toExpr(ast[1], funName, returnType, varType, letVars),
                     toExpr(ast[2], funName, returnType, varType, letVars),
-- 
2.43.0


From f7b3f01338ba0799dd2757ad8950bf974e68a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 48/64] fix: read SyGuS solutions with div and mod

---
 metalift/synthesize_cvc5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index b8e0f7e..1724862 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -14,6 +14,7 @@ from metalift.ir import (
     Bool,
     BoolLit,
     Call,
+    Div,
     Eq,
     Expr,
     FnDecl,
@@ -26,6 +27,7 @@ from metalift.ir import (
     Ite,
     Le,
     Lt,
+    Mod,
     Mul,
     Not,
     ObjectT,
@@ -114,6 +116,8 @@ def toExpr(
         "+": Add,
         "-": Sub,
         "*": Mul,
+        "div": Div,
+        "mod": Mod,
         "<": Lt,
         "<=": Le,
         ">": Gt,
-- 
2.43.0


From d3722df83307f2ff110aafc2c273711378065634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 49/64] fix: read the tuples of SyGuS solutions

---
 metalift/synthesize_cvc5.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 1724862..a8dc20a 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -34,7 +34,7 @@ from metalift.ir import (
     Or,
 )
 from metalift.ir import Set as mlSet
-from metalift.ir import Sub, Synth, TupleGet, Var, get_fn_return_type, make_tuple_type
+from metalift.ir import Sub, Synth, TupleExpr, Var, get_fn_return_type, make_fn_type
 from metalift.smt_util import toSMT
 from metalift.synthesis_common import (
     SynthesisFailed,
@@ -177,25 +177,16 @@ def toExpr(
         elif ast[0].startswith("tuple"):
             if "_get" in ast[0]:
                 n = int(ast[0].split("_get")[1])
-                return TupleGet(
-                    toExpr(ast[1], funName, returnType, varType, letVars),
-                    IntLit(n),
-                )
+                tuple_expr = toExpr(ast[1], funName, returnType, varType, letVars)
+                component_types = typing.get_args(typing.get_args(tuple_expr.type)[0])
+                return Call("tupleGet", component_types[n], tuple_expr, IntLit(n))
             else:
                 arg_eval = []
                 for alen in range(1, len(ast)):
                     arg_eval.append(
                         toExpr(ast[alen], funName, returnType, varType, letVars)
                     )
-                return Call(
-                    "tuple%d" % (len(ast) - 1),
-                    make_tuple_type(
-                        arg_eval[0].type,
-                        arg_eval[1].type,
-                        *[e.type for e in arg_eval[2:]],
-                    ),
-                    *arg_eval,
-                )
+                return TupleExpr(*arg_eval)
         elif ast[0] == "as" and ast[1] == "set.empty":
             return Call("set-create", mlSet[Int])  # TODO: parse the type
         elif ast[0] == "set.insert":
-- 
2.43.0


From 343c326ebc7700aa5f2b4cec80b5f919964110a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 50/64] fix: SyGuS solutions in which synthesized functions
 call each other

---
 metalift/synthesize_cvc5.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index a8dc20a..ff79c9d 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -84,6 +84,15 @@ def generateCandidates(
 ) -> tuple[typing.List[FnDeclRecursive], Dict[str, Expr]]:
     candidates, candidatesExpr = [], {}
     ast = generateAST(line)
+    # The functions that are synthesized may call each other.
+    funName = [*funName, *[ce.name() for ce in invAndPs]]
+    returnType = [
+        *returnType,
+        *[
+            make_fn_type(ce.type, *[arg.type for arg in ce.arguments()])
+            for ce in invAndPs
+        ],
+    ]
     for ce in invAndPs:
         name = ce.name()
         for a in ast[0]:
-- 
2.43.0


From 5f7907697377e6422483209923c05b1cbff10e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 51/64] fix: a synthesized function whose name is part of the
 word sygus-candidate

---
 metalift/synthesize_cvc5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index ff79c9d..82f67ff 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -96,7 +96,7 @@ def generateCandidates(
     for ce in invAndPs:
         name = ce.name()
         for a in ast[0]:
-            if name in a:
+            if isinstance(a, list) and a[0] == name:
                 args = {}
                 for v in ce.arguments():
                     args[v.args[0]] = v.type
-- 
2.43.0


From 84bc60442fccc4b8bf6c8aa5a8304c3c751b7808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 52/64] fix: stop when cvc5 ends without a solution

---
 metalift/synthesize_cvc5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 82f67ff..96a04b9 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -309,7 +309,8 @@ def synthesize(
         logfileVerif = typing.cast(IO[bytes], proc.stdout)
         while True:
             line = logfileVerif.readline().decode("utf-8")
-            if "fail" in line:
+            if "fail" in line or line == "":
+                # no (more) solutions, e.g. because there is none
                 break
             elif "sygus-candidate" in line:
                 print("Current PS and INV Guess:", line.strip())
-- 
2.43.0


From a0b40ab1f71d733e0876800adfdb317e8bf57ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 53/64] fix: SyGuS synthesis with axioms in the target language

---
 metalift/synthesize_cvc5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 96a04b9..7ee2886 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -71,6 +71,8 @@ def extractFuns(
         [],
     )
     for t in targetLang:
+        if isinstance(t, Axiom):
+            continue
         funName.append(t.args[0])
         returnType.append(t.type)
     return funName, returnType
@@ -291,7 +293,7 @@ def synthesize(
         vc,
         sygusFile,
         [],
-        [f.name() for f in targetLang],
+        [f.name() for f in targetLang if not isinstance(f, Axiom)],
         True,
     )
 
-- 
2.43.0


From 3bd02e39707e84efc31f72c4c1750d996f1b94e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 54/64] fix: a variable modified in a loop of an LLVM function
 is not the one it had before the loop

---
 metalift/frontend/llvm.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 6cdb40b..0d767be 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1016,6 +1016,12 @@ class VCVisitor:
         pointer_havocs.sort(key=lambda obj: obj.var_name())
         return primitive_havocs, pointer_havocs
 
+    def new_value(self, havoc: Object) -> Object:
+        """A new variable of the verification condition, for a value the given variable may have."""
+        value = create_object(havoc.type, self.driver.fresh_name(havoc.var_name()))
+        self.driver.add_var_object(value)
+        return value
+
     # Functions to step through the blocks
     def preprocess(self, block: ValueRef) -> None:
         """Preprocess the entry block of the entire function. This includes setting up the postcondition, as well as writing all the arguments to the state of the entry block."""
@@ -1182,11 +1188,14 @@ class VCVisitor:
         for loop in header_loops:
             primitive_havocs, pointer_havocs = self.get_havocs(block.name, loop)
             for havoc in primitive_havocs:
-                self.write_var_to_block(block.name, havoc.var_name(), havoc)
+                self.write_var_to_block(
+                    block.name, havoc.var_name(), self.new_value(havoc)
+                )
             for havoc in pointer_havocs:
-                self.store_var_to_block(block.name, havoc.var_name(), havoc)
+                self.store_var_to_block(
+                    block.name, havoc.var_name(), self.new_value(havoc)
+                )
             havocs = primitive_havocs + pointer_havocs
-            self.driver.add_var_objects(havocs)
             inv_name = f"{self.fn_name}_inv{self.loops.index(loop)}"
 
             # TODO: extract this logic to be better
@@ -1528,6 +1537,15 @@ class Driver:
     def variable(self, name: str, type: ObjectT) -> Var:
         return self.var_tracker.variable(name, type)
 
+    def fresh_name(self, name: str) -> str:
+        """The given name, followed by a number if there is such a variable already."""
+        existing = {v.name() for v in self.var_tracker.all()}
+        fresh, num = name, 0
+        while fresh in existing:
+            num += 1
+            fresh = f"{name}_{num}"
+        return fresh
+
     def add_var_object(self, var_object: Object) -> None:
         # TODO: extract this check to a more generic function
         if not isinstance(var_object.src, Var):
-- 
2.43.0


From 1cc77c0edc8cbe42b0331a770d7555459394ace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 55/64] fix: listAppend returns a new list, the list it is
 given stays as it is

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 0d767be..98185ff 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -154,7 +154,7 @@ def list_append(
     lst = state.read_or_load_operand(args[0])
     value = state.read_or_load_operand(args[1])
     return ReturnValue(
-        lst.append(value),  # type: ignore
+        copy.copy(lst).append(value),  # type: ignore
         None,
     )
 
-- 
2.43.0


From 676cb0d226c1e6e0fcb3cbf3fe90346a4bfd7082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 56/64] fix: the postcondition of an LLVM function is not
 assumed in the functions analyzed after it

---
 metalift/frontend/llvm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 98185ff..c16b629 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1453,7 +1453,6 @@ class VCVisitor:
             blk_state.asserts.append(implies(and_objects(*blk_state.precond), ps))
         else:
             blk_state.asserts.append(ps)
-        self.driver.postconditions.append(ps)
         print(f"ps: {blk_state.asserts[-1]}")
         blk_state.has_returned = True
 
-- 
2.43.0


From 024d4428c4f69bc8efab78878fc5b2cab174e329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 57/64] fix: a vector returned by an LLVM function has the
 value it has at the return

---
 metalift/frontend/llvm.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index c16b629..8c28682 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1413,14 +1413,9 @@ class VCVisitor:
         ret_void = len(ops) == 0
         ret_val: Optional[Object] = None
         if ret_void and self.fn_sret_arg is not None:
-            # We have to fetch the current type because the return type might have changed from the
-            # beginning.
-            # This is because for list type, at first we assume it's an int list. We only infer the
-            # corret type later on after we parse the functions.
-            ret_val_type = self.load_var_from_block(
+            ret_val = self.load_var_from_block(
                 block_name, self.fn_sret_arg.var_name()
-            ).type
-            ret_val = create_object(ret_val_type, self.fn_sret_arg.var_name())
+            )
         elif not ret_void:
             if not ops[0].type.is_pointer:
                 ret_val = self.read_operand_from_block(block_name, ops[0])
-- 
2.43.0


From d13bb457dca4b2481fbf01aa54c3ea39ce3d1257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 58/64] fix: push_back keeps the type of the vector

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 8c28682..2ea9d59 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -226,7 +226,7 @@ def vector_append(
 
     assign_val = call(
         fn_name,
-        parse_type_ref_to_obj(args[0].type),
+        lst.type,
         lst,
         value,
     )
-- 
2.43.0


From 02bbcf6b7fc91f3b66ec27951e7bea6dd973d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 59/64] fix: a loop block whose name contains latch is part of
 the loop body

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 2ea9d59..6a17dcf 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -531,7 +531,7 @@ def parse_loops(loops_filepath: str, raw_fn_name: str) -> List[RawLoopInfo]:
                     exit_names.append(name)
                 if "<latch>" in b:
                     latch_names.append(name)
-                if "<header>" not in b and "<exiting>" not in b and "latch" not in b:
+                if "<header>" not in b and "<exiting>" not in b and "<latch>" not in b:
                     body_names.append(name)
             if len(header_names) > 1:
                 raise Exception(f"Detected more than one header block! {header_names}")
-- 
2.43.0


From d6aae78bddd7b0f2e29d0c5146b6c99f666973e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 60/64] fix: LLVM loop invariants use the default grammar of
 the driver

---
 metalift/frontend/llvm.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 6a17dcf..ae635a6 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -997,6 +997,13 @@ class VCVisitor:
                 relevant_loops.append(loop)
         return relevant_loops
 
+    def get_inv_grammar(self, inv_name: str) -> Optional[InvGrammar]:
+        try:
+            # not .get: the grammars may be a defaultdict
+            return self.inv_grammars[inv_name]
+        except KeyError:
+            return None
+
     def get_havocs(
         self, block_name: str, loop_info: LoopInfo
     ) -> Tuple[List[Object], List[Object]]:
@@ -1204,7 +1211,7 @@ class VCVisitor:
                 in_scope_objs.append(create_object(var_obj.type, var_name))
             for var_name, var_obj in blk_state.pointer_vars.items():
                 in_scope_objs.append(create_object(var_obj.type, var_name))
-            inv_grammar = self.inv_grammars.get(inv_name)
+            inv_grammar = self.get_inv_grammar(inv_name)
             if inv_grammar is not None:
                 in_scope_objs = [
                     obj
@@ -1241,7 +1248,7 @@ class VCVisitor:
                 in_scope_objs.append(create_object(var_obj.type, var_name))
             for var_name, var_obj in blk_state.pointer_vars.items():
                 in_scope_objs.append(create_object(var_obj.type, var_name))
-            inv_grammar = self.inv_grammars.get(inv_name)
+            inv_grammar = self.get_inv_grammar(inv_name)
             if inv_grammar is not None:
                 in_scope_objs = [
                     obj
-- 
2.43.0


From c8568556f9141780847111f67d7b9d076e6cde47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 61/64] fix: set_contains gives whether the element is in the
 set, not always true

---
 metalift/frontend/llvm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index ae635a6..f5aa4d5 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -35,6 +35,7 @@ from metalift.ir import (
     get_object_exprs,
     implies,
     is_pointer_type,
+    ite,
     make_tuple_type,
     parse_type_ref_to_obj,
 )
@@ -101,7 +102,8 @@ def set_contains(
     assert len(args) == 2
     s = state.read_or_load_operand(args[0])
     item = state.read_or_load_operand(args[1])
-    return ReturnValue(item in s, None)  # type: ignore
+    # set_contains returns an int, and the operator "in" would give a Python bool
+    return ReturnValue(ite(s.__contains__(item), Int(1), Int(0)), None)  # type: ignore
 
 
 def new_list(
-- 
2.43.0


From 2c28920a99ec78502842125131e89b9ca406c4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:45 +0000
Subject: [PATCH 62/64] fix: symbolic tuple variables in the Rosette problem

---
 metalift/rosette_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index 8d41724..fc009fa 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -98,7 +98,7 @@ def gen_var(v: Expr, decls: List[str], vars_all: List[str], list_bound: int) ->
             )
     elif is_tuple_type(v.type):
         elem_names = []
-        for i, t in enumerate(typing.get_args(v.type)):
+        for i, t in enumerate(typing.get_args(typing.get_args(v.type)[0])):
             elem_name = v.args[0] + "_TUPLE-" + str(i)
             gen_var(Var(elem_name, t), decls, vars_all, list_bound)
             elem_names.append(elem_name)
-- 
2.43.0


From 854c303a5e5bb959569b1c06e5872f6719e94551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:45 +0000
Subject: [PATCH 63/64] fix: symbolic matrices with a list bound of one

---
 metalift/rosette_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index fc009fa..f926362 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -51,7 +51,7 @@ def gen_var(v: Expr, decls: List[str], vars_all: List[str], list_bound: int) ->
             gen_var(Var(t, element_type), decls, vars_all, list_bound)
         lsts: List[str] = [
             f"(list {' '.join(tmp[i : i + list_bound])})"
-            for i in range(0, len(tmp) - 1, list_bound)
+            for i in range(0, len(tmp), list_bound)
         ]
         decl = f"(define {v.args[0]} (take (list {' '.join(lsts)}) {len_name}))"
         decls.append(decl)
-- 
2.43.0


From 2ab0f910a94c38f2a3429270585decc4629d8e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:45 +0000
Subject: [PATCH 64/64] fix: axioms without variables in the Rosette problem

---
 metalift/rosette_translator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index f926362..7347119 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -289,7 +289,11 @@ def to_rosette(
         is_uninterp_fn = (
             isinstance(t, FnDecl) or isinstance(t, FnDeclRecursive)
         ) and t.name() in uninterp_fns
-        if t.args[1] is None and not is_uninterp_fn:
+        if (
+            not isinstance(t, ir.Axiom)
+            and t.args[1] is None
+            and not is_uninterp_fn
+        ):
             continue
         print("\n", t.to_rosette(is_uninterp=is_uninterp_fn), "\n", file=f)
     # print(generateInter(targetLang),file=f)
-- 
2.43.0

