From 362c1f9a2822287ee6ac77057678732abc466c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 01/29] fix: reflected operators raised NameError instead of
 InconsistentSizeError/TypeError

---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index a733582..82ad5b7 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -165,7 +165,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index dc4acfb..8b4b5d4 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -211,7 +211,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
-- 
2.43.0


From 016af3315e949c753a6aca736c3b24b59a9b878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 02/29] fix: reflected right shift swapped its operands

---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 82ad5b7..ff0a38e 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -414,7 +414,7 @@ class BitVector(AbstractBitVector):
     __rlshift__ = dispatch_roper(__lshift__)
 
     __rshift__ = dispatch_oper(bvlshr)
-    __rrshift__ = dispatch_oper(__rshift__)
+    __rrshift__ = dispatch_roper(__rshift__)
 
     def __neg__(self): return self.bvneg()
 
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 8b4b5d4..228495a 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -532,7 +532,7 @@ class SMTBitVector(AbstractBitVector):
     __rlshift__ = dispatch_roper(__lshift__)
 
     __rshift__ = dispatch_oper(bvlshr)
-    __rrshift__ = dispatch_oper(__rshift__)
+    __rrshift__ = dispatch_roper(__rshift__)
 
     def __neg__(self): return self.bvneg()
 
-- 
2.43.0


From cbb48ed3a460a52539ec49aaa3243ab0bdfb7dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 03/29] fix: SMTBit had no reflected xor

---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 228495a..5b0c5cc 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -148,7 +148,7 @@ class SMTBit(AbstractBit):
         return type(self)(smt.Xor(self.value, other.value))
 
     @bit_cast
-    def __xor__(self, other : 'SMTBit') -> 'SMTBit':
+    def __rxor__(self, other : 'SMTBit') -> 'SMTBit':
         return type(self)(smt.Xor(other.value, self.value))
 
     def ite(self, t_branch, f_branch):
-- 
2.43.0


From 7e668df8ea612ecad1a2abceef44bd915df4d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 04/29] fix: assigning a Tuple/Product field made the value
 unhashable and unequal

---
 hwtypes/adt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 918c530..12ca702 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -49,7 +49,7 @@ class Tuple(metaclass=TupleMeta):
         if isinstance(value, type(self)[idx]):
             v = list(self._value_)
             v[idx] = value
-            self._value_ = v
+            self._value_ = tuple(v)
         else:
             raise TypeError(f'Value {value} is not of type {type(self)[idx]}')
 
-- 
2.43.0


From a0cda3ee5011606b8a1cc8a45d1b4dd6ce23be6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 05/29] fix: BitVector.sext(0) raised ValueError

---
 hwtypes/bit_vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index ff0a38e..5bfe676 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -482,6 +482,8 @@ class BitVector(AbstractBitVector):
             raise ValueError()
 
         T = type(self).unsized_t
+        if ext == 0:
+            return self.concat(T[0](0))
         return self.concat(T[1](self[-1]).repeat(ext))
 
     def ext(self, ext):
-- 
2.43.0


From 4917331182f50e717900bf5f7a0ebb2da6aaf906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 06/29] fix: symbolic repeat built a result of the wrong size
 and raised

---
 hwtypes/smt_bit_vector.py | 5 ++++-
 hwtypes/z3_bit_vector.py  | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 5b0c5cc..2982208 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -560,7 +560,10 @@ class SMTBitVector(AbstractBitVector):
 
     @int_cast
     def repeat(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRepeat(self.value, other))
+        if other <= 0:
+            raise ValueError()
+        return type(self).unsized_t[other * self.size](
+            smt.get_env().formula_manager.BVRepeat(self.value, other))
 
     @int_cast
     def sext(self, ext):
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 582d6a8..efc665f 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -494,7 +494,9 @@ class z3BitVector(AbstractBitVector):
 
     @int_cast
     def repeat(self, n):
-        return type(self)(z3.RepeatBitVec(n, self.value))
+        if n <= 0:
+            raise ValueError()
+        return type(self).unsized_t[n * self.size](z3.RepeatBitVec(n, self.value))
 
     @int_cast
     def sext(self, ext):
-- 
2.43.0


From 6d6e4d7b5f7a82d5ee1c1e075e7681a580262faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 07/29] fix: SMTFPVector.to_sbv raised KeyError

---
 hwtypes/smt_fp_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 4b7acd2..8437c33 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -180,7 +180,7 @@ class SMTFPVector(AbstractFPVector):
 
     def to_sbv(self, size : int) -> SMTBitVector:
         cls = type(self)
-        ufs = _uf_table[cls]['to_usbv']
+        ufs = _uf_table[cls]['to_sbv']
         if size not in ufs:
             name = '.'.join((cls.__name__, f'to_sbv[{size}]'))
             ufs[size] = shortcuts.Symbol(
-- 
2.43.0


From 0be20a8fc773f946b7175d85d97f16d76a78879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 08/29] fix: ADT visitors without visit_leaf raised
 AttributeError on leaves

---
 hwtypes/adt_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 223750a..2f74dbb 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -32,7 +32,7 @@ class _ADTVisitor(metaclass=ABCMeta):
     @abstractmethod
     def generic_visit(self, adt_t): pass
 
-    def visit_Leaf(self, adt_t):  pass
+    def visit_leaf(self, adt_t):  pass
 
     def visit_Enum(self, adt_t): pass
 
-- 
2.43.0


From 9c768168bb071e7384aecbe390feeaaecef45808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 09/29] fix: rebind_type raised NameError on modified types

---
 hwtypes/adt_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 2f74dbb..880523c 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -4,6 +4,7 @@ from .bit_vector_abc import AbstractBitVectorMeta, AbstractBitVector, AbstractBi
 
 from .util import _issubclass
 from hwtypes.modifiers import unwrap_modifier, wrap_modifier, is_modified
+from hwtypes.modifiers import get_modifier, get_unmodified
 from .adt import Product, Sum, Tuple, Enum, TaggedUnion
 from inspect import isclass
 
@@ -126,7 +127,7 @@ def rebind_type(T, family):
     if not isclass(T):
         return T
     elif is_modified(T):
-        return get_modifier(T)(rebind_type(get_unmodified(T), family, dont_rebind, do_rebind, is_magma))
+        return get_modifier(T)(rebind_type(get_unmodified(T), family))
     elif issubclass(T, AbstractBitVector):
         return rebind_bitvector(T, AbstractBitVector, family.BitVector)
     elif issubclass(T, AbstractBit):
-- 
2.43.0


From 2685792e8f18dd36b6a253e22f4b4f5df5ca6c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 10/29] fix: polymorphic dispatch ignored NotImplemented from
 the second branch

---
 hwtypes/bit_vector_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector_util.py b/hwtypes/bit_vector_util.py
index 2545270..84a5339 100644
--- a/hwtypes/bit_vector_util.py
+++ b/hwtypes/bit_vector_util.py
@@ -170,7 +170,7 @@ def build_VCall(select, m0, m1):
         def VCall(*args, **kwargs):
             v0 = m0(*args, **kwargs)
             v1 = m1(*args, **kwargs)
-            if v0 is NotImplemented or v0 is NotImplemented:
+            if v0 is NotImplemented or v1 is NotImplemented:
                 return NotImplemented
             return select.ite(v0, v1)
         return Method(VCall)
-- 
2.43.0


From a784a5b4f4555856adaab2bc99d6e91987a444bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 11/29] fix: z3SIntVector.ext zero extended

---
 hwtypes/z3_bit_vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index efc665f..81a376b 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -560,6 +560,9 @@ class z3SIntVector(z3NumVector):
     def __le__(self, other):
         return self.bvsle(other)
 
+    def ext(self, other):
+        return self.sext(other)
+
 _Family_ = ht.TypeFamily(z3Bit, z3BitVector, z3UIntVector, z3SIntVector)
 
 
-- 
2.43.0


From bba80e527683fe6da23346eb12db4440924d4582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 12/29] fix: SMTBitVector rejected out of range int-convertible
 values it wraps as ints

---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 2982208..9c74339 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -285,7 +285,7 @@ class SMTBitVector(AbstractBitVector):
 
         elif hasattr(value, '__int__'):
             value = int(value)
-            self._value = smt.BV(value, self.size)
+            self._value = smt.BV(value % (1 << self.size), self.size)
         else:
             raise TypeError("Can't coerce {} to SMTBitVector".format(type(value)))
 
-- 
2.43.0


From 3bc3c9b9779502e97bb79a518cd95234d7de31fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 13/29] fix: z3 vectors of different sizes did not raise
 InconsistentSizeError

---
 hwtypes/z3_bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 81a376b..40be425 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -2,7 +2,7 @@ import hwtypes as ht
 import typing as tp
 import itertools as it
 import functools as ft
-from .bit_vector_abc import AbstractBitVector, AbstractBit, TypeFamily
+from .bit_vector_abc import AbstractBitVector, AbstractBit, TypeFamily, InconsistentSizeError
 
 from abc import abstractmethod
 
@@ -157,7 +157,7 @@ def _coerce(T : tp.Type['z3BitVector'], val : tp.Any) -> 'z3BitVector':
     if not isinstance(val, z3BitVector):
         return T(val)
     elif val.size != T.size:
-        raise TypeError('Inconsistent size')
+        raise InconsistentSizeError('Inconsistent size')
     else:
         return val
 
-- 
2.43.0


From 3fa5083ca987263551c76456a6be4a6265246fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 14/29] fix: a TaggedUnion and the Sum it equals had different
 hashes

---
 hwtypes/adt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 12ca702..05d63fa 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -230,7 +230,8 @@ class TaggedUnion(Sum, metaclass=TaggedUnionMeta):
             return NotImplemented
 
     def __hash__(self):
-        return hash(self._tag_) + hash(self._value_)
+        # must agree with Sum.__hash__ because a TaggedUnion can equal a Sum
+        return hash(self._value_)
 
     def __repr__(self):
         return f'{type(self).__name__}({", ".join(f"{k}={v}" for k,v in self.value_dict.items())})'
-- 
2.43.0


From ff41a6699ce5aa867cd54b660324552537fb51c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:03 +0000
Subject: [PATCH 15/29] fix: rebind, strip_modifiers and push_modifiers raised
 TypeError on anonymous products

---
 hwtypes/adt_meta.py  | 11 +++++++++++
 hwtypes/modifiers.py |  8 +++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index e0911c8..4704884 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -462,6 +462,17 @@ def __init__(self, {type_sig}):
     def field_dict(cls):
         return MappingProxyType(cls._field_table_)
 
+    def rebind(cls, A: type, B: type, rebind_sub_types: bool = False, rebind_recursive: bool = True):
+        new_fields = OrderedDict()
+        for field, T in cls.field_dict.items():
+            if T == A or (rebind_sub_types and _issubclass(T,A)):
+                new_fields[field] = B
+            elif rebind_recursive and isinstance(T, BoundMeta):
+                new_fields[field] = T.rebind(A, B, rebind_sub_types)
+            else:
+                new_fields[field] = T
+        return cls.unbound_t[new_fields]
+
 
 class ProductMeta(_AttrSyntax, AnonymousProductMeta):
     FIELDS_T = type
diff --git a/hwtypes/modifiers.py b/hwtypes/modifiers.py
index f26e514..e5f6aac 100644
--- a/hwtypes/modifiers.py
+++ b/hwtypes/modifiers.py
@@ -1,6 +1,6 @@
 import types
 import weakref
-from .adt_meta import GetitemSyntax, AttrSyntax, EnumMeta
+from .adt_meta import GetitemSyntax, AttrSyntax, EnumMeta, AnonymousProductMeta
 
 
 __ALL__ = ['new', 'make_modifier', 'is_modified', 'is_modifier', 'get_modifier', 'get_unmodified', 'strip_modifiers', 'push_modifiers']
@@ -142,6 +142,9 @@ def strip_modifiers(adt_t):
     elif isinstance(adt_t, AttrSyntax) and not isinstance(adt_t, EnumMeta):
         new_fields = {n:strip_modifiers(sub_adt_t) for n, sub_adt_t in adt_t.field_dict.items()}
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
+    elif isinstance(adt_t, AnonymousProductMeta):
+        new_fields = {n:strip_modifiers(sub_adt_t) for n, sub_adt_t in adt_t.field_dict.items()}
+        return adt_t.unbound_t[new_fields]
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [strip_modifiers(sub_adt_t) for sub_adt_t in adt_t.fields]
         return adt_t.unbound_t[new_fields]
@@ -156,6 +159,9 @@ def push_modifiers(adt_t, mods=[]):
     if isinstance(adt_t, AttrSyntax) and not isinstance(adt_t, EnumMeta):
         new_fields = {n:push_modifiers(sub_adt_t, mods) for n, sub_adt_t in adt_t.field_dict.items()}
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
+    elif isinstance(adt_t, AnonymousProductMeta):
+        new_fields = {n:push_modifiers(sub_adt_t, mods) for n, sub_adt_t in adt_t.field_dict.items()}
+        return adt_t.unbound_t[new_fields]
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [push_modifiers(sub_adt_t, mods) for sub_adt_t in adt_t.fields]
         return adt_t.unbound_t[new_fields]
-- 
2.43.0


From 05f3233e1f237347850ee0098b9dbde3ff8b7968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:03 +0000
Subject: [PATCH 16/29] fix: SMTBitVector rotations did not wrap amounts of at
 least the width

---
 hwtypes/smt_bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 9c74339..f1edc63 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -415,11 +415,11 @@ class SMTBitVector(AbstractBitVector):
 
     @int_cast
     def bvrol(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other))
+        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other % self.size))
 
     @int_cast
     def bvror(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other))
+        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other % self.size))
 
     @bv_cast
     def bvcomp(self, other):
-- 
2.43.0


From 70987e988eb2e8b22dfa0874081186fab43a7b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:03 +0000
Subject: [PATCH 17/29] fix: fp_abs of negative zero was negative zero

---
 hwtypes/fp_vector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index ff294a3..9ccabc9 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -139,8 +139,7 @@ class FPVector(AbstractFPVector):
 
     @set_context
     def fp_abs(self) -> 'FPVector':
-        v = self._value
-        return type(self)(v if v >= 0 else -v)
+        return type(self)(abs(self._value))
 
     @set_context
     def fp_neg(self) -> 'FPVector':
-- 
2.43.0


From 650973d59a225e6157f58caee541dd8f3d64ec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:03 +0000
Subject: [PATCH 18/29] fix: SMTBitVector[1].as_sint raised AssertionError

---
 hwtypes/smt_bit_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index f1edc63..e4073cd 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -602,7 +602,8 @@ class SMTBitVector(AbstractBitVector):
     def as_sint(self):
         #Avoids circular import
         from . import SMTInt
-        return SMTInt(self[:-1]) - SMTInt(self & (1<<(self.size-1)))
+        msb = self & (1<<(self.size-1))
+        return SMTInt(self & ~msb) - SMTInt(msb)
 #
 #    @classmethod
 #    def random(cls, width):
-- 
2.43.0


From 94e6b30927dda65de759d9f2f97443c4cc14edf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:03 +0000
Subject: [PATCH 19/29] fix: equal FrozenDict and OrderedFrozenDict had
 different hashes

---
 hwtypes/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/util.py b/hwtypes/util.py
index cf52ebc..fee6316 100644
--- a/hwtypes/util.py
+++ b/hwtypes/util.py
@@ -37,7 +37,9 @@ class OrderedFrozenDict(FrozenDict):
 
     def __init__(self, *args, **kwargs):
         self._d = OrderedDict(*args, **kwargs)
-        self._hash = hash(tuple(self.items()))
+        # must not depend on order because an OrderedFrozenDict can equal a
+        # FrozenDict (or a FrozenDict of different order)
+        self._hash = hash(frozenset(self.items()))
 
 
 class TypedProperty:
-- 
2.43.0


From 010c808dab706d2a3b887b3e79e58107e3eb9b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:33 +0000
Subject: [PATCH 20/29] fix: SMTFPVector fp_min and fp_max were declared unary
 and always raised

---
 hwtypes/smt_fp_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 8437c33..7b94261 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -19,8 +19,8 @@ _SIGS = [
     ('fp_sqrt', None, None,),
     ('fp_rem', None, None,None),
     ('fp_round_to_integral', None, None,),
-    ('fp_min', None, None,),
-    ('fp_max', None, None,),
+    ('fp_min', None, None, None,),
+    ('fp_max', None, None, None,),
     ('fp_leq', None, None, BOOL,),
     ('fp_lt', None, None, BOOL,),
     ('fp_geq', None, None, BOOL,),
-- 
2.43.0


From 95fcdec544e3cfd1904be6b71354b92a660474c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 21/29] fix: SMTFPVector variables could share a name with
 other SMT variables

---
 hwtypes/smt_fp_vector.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 7b94261..52acf9f 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -5,6 +5,7 @@ import pysmt.shortcuts as shortcuts
 from pysmt.typing import  BVType, BOOL, FunctionType
 
 from .smt_bit_vector import SMTBit, SMTBitVector, SMTSIntVector, SMYBOLIC, AUTOMATIC
+from .smt_bit_vector import _gen_name, _name_table
 from .fp_vector_abc import AbstractFPVector, RoundingMode
 
 # using None to represent cls
@@ -35,7 +36,6 @@ _SIGS = [
     ('fp_is_positive', None, BOOL,),
 ]
 
-_name_table = weakref.WeakValueDictionary()
 _uf_table = weakref.WeakKeyDictionary()
 
 
@@ -49,14 +49,14 @@ class SMTFPVector(AbstractFPVector):
             elif name in _name_table:
                 raise ValueError(f'Name {name} already in use')
             _name_table[name] = self
+        elif value is SMYBOLIC:
+            name = _gen_name()
+            _name_table[name] = self
 
         T = BVType(self.size)
 
         if value is SMYBOLIC:
-            if name is AUTOMATIC:
-                value = shortcuts.FreshSymbol(T)
-            else:
-                value = shortcuts.Symbol(name, T)
+            value = shortcuts.Symbol(name, T)
         elif isinstance(value, pysmt.fnode.FNode):
             t = value.get_type()
             if t is not T:
-- 
2.43.0


From 723791aed99632bdd3f70cf6674bd9d37dc7f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 22/29] fix: make_constant of the SMT and z3 bit vectors was
 not a class method

---
 hwtypes/smt_bit_vector.py | 7 ++++---
 hwtypes/z3_bit_vector.py  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index e4073cd..c5a8144 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -292,10 +292,11 @@ class SMTBitVector(AbstractBitVector):
         self._value = smt.simplify(self._value)
         assert self._value.get_type() is T
 
-    def make_constant(self, value, size:tp.Optional[int]=None):
+    @classmethod
+    def make_constant(cls, value, size:tp.Optional[int]=None):
         if size is None:
-            size = self.size
-        return type(self).unsized_t[size](value)
+            size = cls.size
+        return cls.unsized_t[size](value)
 
     @property
     def value(self):
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 40be425..9936a01 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -243,10 +243,11 @@ class z3BitVector(AbstractBitVector):
         self._value = z3.simplify(self._value)
         assert self._value.sort() == T
 
-    def make_constant(self, value, size:tp.Optional[int]=None):
+    @classmethod
+    def make_constant(cls, value, size:tp.Optional[int]=None):
         if size is None:
-            size = self.size
-        return type(self).unsized_t[size](value)
+            size = cls.size
+        return cls.unsized_t[size](value)
 
     @property
     def value(self):
-- 
2.43.0


From 58ba706618392cfcea183431fad73d80b5caeedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 23/29] fix: validity of a bit vector or FP type's parameters
 depended on earlier constructions

---
 hwtypes/bit_vector_abc.py |  8 ++++++--
 hwtypes/fp_vector_abc.py  | 12 +++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/hwtypes/bit_vector_abc.py b/hwtypes/bit_vector_abc.py
index 44d22a9..70802a7 100644
--- a/hwtypes/bit_vector_abc.py
+++ b/hwtypes/bit_vector_abc.py
@@ -74,13 +74,17 @@ class AbstractBitVectorMeta(type): #:(ABCMeta):
 
     def __getitem__(cls, idx : int) -> 'AbstractBitVectorMeta':
         mcs = type(cls)
+        # must precede the cache lookup because e.g. 8.0 and True are equal to
+        # (and hash as) valid sizes
+        if not isinstance(idx, int):
+            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
+        idx = int(idx)
+
         try:
             return mcs._class_cache[cls, idx]
         except KeyError:
             pass
 
-        if not isinstance(idx, int):
-            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
         if idx < 0:
             raise ValueError('Size of BitVectors must be positive')
 
diff --git a/hwtypes/fp_vector_abc.py b/hwtypes/fp_vector_abc.py
index 6b6a6e8..f47d227 100644
--- a/hwtypes/fp_vector_abc.py
+++ b/hwtypes/fp_vector_abc.py
@@ -43,18 +43,20 @@ class AbstractFPVectorMeta(ABCMeta):
 
     def __getitem__(cls, idx : tp.Tuple[int, int, RoundingMode, bool]):
         mcs = type(cls)
-        try:
-            return mcs._class_cache[cls, idx]
-        except KeyError:
-            pass
-
         if cls.is_bound:
             raise TypeError(f'{cls} is already bound')
 
+        # must precede the cache lookup because e.g. 8.0 and True are equal to
+        # (and hash as) valid arguments
         if len(idx) != 4 or tuple(map(type,idx)) != (int, int, RoundingMode, bool):
             raise IndexError(f'Constructing a floating point type requires:\n'
                     'exponent bits : int, mantisa bits : int, RoundingMode, ieee_compliance : bool')
 
+        try:
+            return mcs._class_cache[cls, idx]
+        except KeyError:
+            pass
+
         eb, mb, mode, ieee_compliance = idx
 
         if eb <= 0 or mb <= 0:
-- 
2.43.0


From 890234995bd599f2960eb99f17f6cba5bc032627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 24/29] fix: slice assignment to a Tuple stored values of the
 wrong types

---
 hwtypes/adt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 05d63fa..d6f91d4 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -46,7 +46,9 @@ class Tuple(metaclass=TupleMeta):
         return self._value_[idx]
 
     def __setitem__(self, idx, value):
-        if isinstance(value, type(self)[idx]):
+        if isinstance(idx, slice):
+            raise TypeError('slice assignment is not supported')
+        elif isinstance(value, type(self)[idx]):
             v = list(self._value_)
             v[idx] = value
             self._value_ = tuple(v)
-- 
2.43.0


From d14572d72b4d8ba86bbb5df7292caac64792e178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 25/29] fix: z3BitVector.bvsrem computed bvsmod

---
 hwtypes/z3_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 9936a01..2bf2e6e 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -467,7 +467,7 @@ class z3BitVector(AbstractBitVector):
 
     @bv_cast
     def bvsrem(self, other):
-        return type(self)(self.value % other.value)
+        return type(self)(z3.SRem(self.value, other.value))
 
     __invert__ = bvnot
     __and__ = bvand
-- 
2.43.0


From cdbab4b710b1de46a09245b77ac59d9f24301830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:49 +0000
Subject: [PATCH 26/29] fix: allow unbound subclasses of SMTFPVector

---
 hwtypes/smt_fp_vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 52acf9f..8546486 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -72,6 +72,8 @@ class SMTFPVector(AbstractFPVector):
         self._value = value
 
     def __init_subclass__(cls):
+        if not cls.is_bound:
+            return
         _uf_table[cls] = ufs = dict()
         T = BVType(cls.size)
         for method_name, *args in _SIGS:
-- 
2.43.0


From 78c67d7137a1379129c83b1e319a3153dfa751e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:49 +0000
Subject: [PATCH 27/29] fix: subclasses of bound FPVector types with current
 gmpy2

---
 hwtypes/fp_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index 9ccabc9..b7a2228 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -123,7 +123,8 @@ class FPVector(AbstractFPVector):
                         or c_ctx.trap_inexact != ctx.trap_inexact
                         or c_ctx.trap_erange != ctx.trap_erange
                         or c_ctx.trap_divzero != ctx.trap_divzero
-                        or c_ctx.trap_expbound != ctx.trap_expbound
+                        # not an attribute of every version of gmpy2
+                        or getattr(c_ctx, 'trap_expbound', None) != getattr(ctx, 'trap_expbound', None)
                         or c_ctx.allow_complex != ctx.allow_complex):
                     # this basically should never happen unless some one does
                     # class Foo(FPVector):
-- 
2.43.0


From a6d7021d2f8568dd54df1be8d5e75b88cb117645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:49 +0000
Subject: [PATCH 28/29] fix: FPVector.random drew the same mantissa every time

---
 hwtypes/fp_vector.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index b7a2228..6ebfdc7 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -383,13 +383,9 @@ class FPVector(AbstractFPVector):
     @set_context
     def random(cls, allow_inf=True) -> 'FPVector':
         bias = (1 << (cls.exponent_size - 1)) - 1
-        if allow_inf:
-            sign = random.choice([-1, 1])
-            mantissa = gmpy2.mpfr_random(gmpy2.random_state()) + 1
-            exp = random.randint(1-bias, bias+1)
-            return cls(mantissa*sign*(gmpy2.mpfr(2)**gmpy2.mpfr(exp)))
-        else:
-            sign = random.choice([-1, 1])
-            mantissa = gmpy2.mpfr_random(gmpy2.random_state()) + 1
-            exp = random.randint(1-bias, bias)
-            return cls(mantissa*sign*(gmpy2.mpfr(2)**gmpy2.mpfr(exp)))
+        ms = cls.mantissa_size
+        sign = random.choice([-1, 1])
+        mantissa = (1 << ms) + random.getrandbits(ms)
+        exp = random.randint(1-bias, bias+1 if allow_inf else bias)
+        # exact rational, so that the value is rounded only once
+        return cls(sign*mantissa*gmpy2.mpq(2)**(exp - ms))
-- 
2.43.0


From b2de53937c5f731650c849bd7b1ae0f5503e4f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:07 +0000
Subject: [PATCH 29/29] fix: remainder by zero returned the dividend object
 itself, so assigning to the result changed the operand

---
 hwtypes/bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 5bfe676..61b78c1 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -382,7 +382,7 @@ class BitVector(AbstractBitVector):
     def bvurem(self, other):
         other = other.as_uint()
         if other == 0:
-            return self
+            return type(self)(self)
         return type(self)(self.as_uint() % other)
 
     @bv_cast
@@ -396,7 +396,7 @@ class BitVector(AbstractBitVector):
     def bvsrem(self, other):
         other = other.as_sint()
         if other == 0:
-            return self
+            return type(self)(self)
         return type(self)(self.as_sint() % other)
 
     def __invert__(self): return self.bvnot()
-- 
2.43.0

