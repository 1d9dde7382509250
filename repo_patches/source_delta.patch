From b9bbcabca5e07ce0badc2780ba00bec2121cdf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:03 +0000
Subject: [PATCH 01/41] fix: key the opcode validator cache on the width too

The validator for opcodes (0,) at width 0 (or (0, 1) at width 1) accepts
everything and was reused for the same opcodes at larger widths.
---
 peak/assembler/assembler_util.py  | 10 ++++++----
 peak/assembler2/assembler_util.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 779cb9f..b2ac015 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -20,8 +20,10 @@ def _gen_is_valid(
     Generates an is_valid function from a set of opcodes.
     '''
     opcodes = tuple(sorted(opcodes))
+    # The same opcodes need different validators at different widths
+    cache_key = (opcodes, width)
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[cache_key]
     except KeyError:
         pass
 
@@ -36,7 +38,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(cache_key, is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +48,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(cache_key, is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +122,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(1))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault(cache_key, is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 779cb9f..b2ac015 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -20,8 +20,10 @@ def _gen_is_valid(
     Generates an is_valid function from a set of opcodes.
     '''
     opcodes = tuple(sorted(opcodes))
+    # The same opcodes need different validators at different widths
+    cache_key = (opcodes, width)
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[cache_key]
     except KeyError:
         pass
 
@@ -36,7 +38,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(cache_key, is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +48,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(cache_key, is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +122,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(1))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault(cache_key, is_valid)
-- 
2.43.0


From b4acc7b1265bc67ec11b2d95e4821c2d2327fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:03 +0000
Subject: [PATCH 02/41] fix: multi-range opcode validation accepted every
 opcode

---
 peak/assembler/assembler_util.py  | 2 +-
 peak/assembler2/assembler_util.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index b2ac015..2b59457 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -120,6 +120,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(cache_key, is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index b2ac015..2b59457 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -120,6 +120,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(cache_key, is_valid)
-- 
2.43.0


From 4e3a5a18f6bd4a78ab889fd455cff48a2eec5e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 03/41] fix: build assembled values that have zero-width fields

from_fields rejected the layout of any type with a single-member enum whose
encoding needs no bits, though assemble accepts the same value.
---
 peak/assembler/assembled_adt.py | 5 ++++-
 peak/assembler2/assembler.py    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 817d3f6..0c23b0e 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -38,12 +38,15 @@ def _create_from_layout(width, layout, field_bvs, bv_type: AbstractBitVector, de
             type(r0) == type(r1) == tuple
             and len(r0) == len(r1) == 2
             # ranges are not overlapping and are bounded by (0, width)
-            and 0 <= r0[0] < r0[1] <= r1[0] < r1[1] <= width
+            and 0 <= r0[0] <= r0[1] <= r1[0] <= r1[1] <= width
             for r0, r1 in zip(ranges, ranges[1:])):
         raise ValueError('invalid layout')
 
     slots = [bv_type[1](default_value) for i in range(width)]
     for field_name, (low, hi) in layout.items():
+        if low == hi:
+            # zero width fields occupy no slots
+            continue
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
     bv = reduce(bv_type.concat, (_as_bv(s) for s in slots if s is not None))
diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 2d0ed00..cb55471 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -73,7 +73,7 @@ def _create_from_layout(width, layout, field_bvs):
             type(r0) == type(r1) == tuple
             and len(r0) == len(r1) == 2
             # ranges are not overlapping and are bounded by (0, width)
-            and 0 <= r0[0] < r0[1] <= r1[0] < r1[1] <= width
+            and 0 <= r0[0] <= r0[1] <= r1[0] <= r1[1] <= width
             for r0, r1 in zip(ranges, ranges[1:])):
         raise ValueError('invalid layout')
 
@@ -88,6 +88,9 @@ def _create_from_layout(width, layout, field_bvs):
 
     slots = [T[1]() for _ in range(width)]
     for field_name, (low, hi) in layout.items():
+        if low == hi:
+            # zero width fields occupy no slots
+            continue
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
     bv = ft.reduce(T.concat, (s for s in slots if s is not None))
-- 
2.43.0


From 09a269a562d85e2addef3494282bc10999108633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 04/41] fix: make Sum tags independent of set order when field
 types share a name

---
 peak/assembler/assembler.py       |  4 +--
 peak/assembler/assembler_util.py  | 48 +++++++++++++++++++++++++++++++
 peak/assembler2/assembler.py      |  4 +--
 peak/assembler2/assembler_util.py | 48 +++++++++++++++++++++++++++++++
 4 files changed, 100 insertions(+), 4 deletions(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 088d2ee..df87c32 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -11,7 +11,7 @@ from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
 from hwtypes.adt_meta import BoundMeta, EnumMeta
 
 
-from .assembler_util import _issubclass, _gen_is_valid
+from .assembler_util import _issubclass, _gen_is_valid, _field_sort_key
 
 class Assembler(AbstractAssembler):
     _asm : tp.Callable[['isa'], int]
@@ -190,7 +190,7 @@ def _sum(isa: tp.Type[Sum]):
 
     sorted_fields = list(sorted(
         isa.field_dict.items(),
-        key=repr
+        key=_field_sort_key
     ))
 
     payload_width = 0
diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 2b59457..7f7f03c 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -3,6 +3,7 @@ import operator
 import typing as tp
 
 from hwtypes import AbstractBitVector, AbstractBit
+from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
 
 def _issubclass(sub , parent : type) -> bool:
     try:
@@ -11,6 +12,53 @@ def _issubclass(sub , parent : type) -> bool:
         return False
 
 
+def _stable_repr(T) -> str:
+    '''
+    repr(T), except that the fields of a Sum are sorted.
+    repr lists them in the (arbitrary) order of a set.
+    '''
+    def name(T):
+        if not _issubclass(T, (Tuple, Sum)) or '[' not in T.__name__:
+            return T.__name__
+        fields = [name(field) for field in T.field_dict.values()]
+        if _issubclass(T, Sum):
+            fields.sort()
+        return f'{T.unbound_t.__name__}[{", ".join(fields)}]'
+
+    return name(T) if _issubclass(T, (Tuple, Sum)) else repr(T)
+
+
+def _declaration(T) -> str:
+    '''
+    Describes how T was declared, tells apart types with the same name.
+    '''
+    if _issubclass(T, Enum):
+        fields = [f'{k}={v._value_}' for k, v in T.field_dict.items()]
+    elif _issubclass(T, Sum) and not _issubclass(T, TaggedUnion):
+        fields = sorted(_declaration(v) for v in T.field_dict.values())
+    elif _issubclass(T, (Tuple, Sum)):
+        fields = [f'{k}={_declaration(v)}' for k, v in T.field_dict.items()]
+    else:
+        return _stable_repr(T)
+
+    kinds = Enum, TaggedUnion, Sum, Product, Tuple
+    kind = next(K for K in kinds if _issubclass(T, K))
+    return f'{kind.__name__} {_stable_repr(T)}({", ".join(fields)})'
+
+
+def _field_sort_key(item):
+    '''
+    Orders the (name, type) pairs of a Sum by their repr, whatever the
+    (arbitrary) order of the fields of the Sum.
+    '''
+    name, field = item
+    return (
+        f'({_stable_repr(name)}, {_stable_repr(field)})',
+        _declaration(field),
+        field.__module__,
+    )
+
+
 _RANGE_COST = 1.1
 _validator_cache = {}
 def _gen_is_valid(
diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index cb55471..fbaa979 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -12,7 +12,7 @@ from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
 from hwtypes.adt_meta import BoundMeta, EnumMeta
 
 
-from .assembler_util import _issubclass, _gen_is_valid
+from .assembler_util import _issubclass, _gen_is_valid, _field_sort_key
 
 
 class Assembler(AbstractAssembler):
@@ -256,7 +256,7 @@ def _sum(isa: tp.Type[Sum]):
 
     sorted_fields = list(sorted(
         isa.field_dict.items(),
-        key=repr
+        key=_field_sort_key
     ))
 
     payload_width = 0
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 2b59457..7f7f03c 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -3,6 +3,7 @@ import operator
 import typing as tp
 
 from hwtypes import AbstractBitVector, AbstractBit
+from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
 
 def _issubclass(sub , parent : type) -> bool:
     try:
@@ -11,6 +12,53 @@ def _issubclass(sub , parent : type) -> bool:
         return False
 
 
+def _stable_repr(T) -> str:
+    '''
+    repr(T), except that the fields of a Sum are sorted.
+    repr lists them in the (arbitrary) order of a set.
+    '''
+    def name(T):
+        if not _issubclass(T, (Tuple, Sum)) or '[' not in T.__name__:
+            return T.__name__
+        fields = [name(field) for field in T.field_dict.values()]
+        if _issubclass(T, Sum):
+            fields.sort()
+        return f'{T.unbound_t.__name__}[{", ".join(fields)}]'
+
+    return name(T) if _issubclass(T, (Tuple, Sum)) else repr(T)
+
+
+def _declaration(T) -> str:
+    '''
+    Describes how T was declared, tells apart types with the same name.
+    '''
+    if _issubclass(T, Enum):
+        fields = [f'{k}={v._value_}' for k, v in T.field_dict.items()]
+    elif _issubclass(T, Sum) and not _issubclass(T, TaggedUnion):
+        fields = sorted(_declaration(v) for v in T.field_dict.values())
+    elif _issubclass(T, (Tuple, Sum)):
+        fields = [f'{k}={_declaration(v)}' for k, v in T.field_dict.items()]
+    else:
+        return _stable_repr(T)
+
+    kinds = Enum, TaggedUnion, Sum, Product, Tuple
+    kind = next(K for K in kinds if _issubclass(T, K))
+    return f'{kind.__name__} {_stable_repr(T)}({", ".join(fields)})'
+
+
+def _field_sort_key(item):
+    '''
+    Orders the (name, type) pairs of a Sum by their repr, whatever the
+    (arbitrary) order of the fields of the Sum.
+    '''
+    name, field = item
+    return (
+        f'({_stable_repr(name)}, {_stable_repr(field)})',
+        _declaration(field),
+        field.__module__,
+    )
+
+
 _RANGE_COST = 1.1
 _validator_cache = {}
 def _gen_is_valid(
-- 
2.43.0


From 68f2550a053d82cc325b5899831655427899e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:02 +0000
Subject: [PATCH 05/41] fix: disassemble_tag failed for every tag

---
 peak/assembler/assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index df87c32..43e8189 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -74,8 +74,8 @@ class Assembler(AbstractAssembler):
         if not _issubclass(self.isa, Sum):
             raise TypeError('can only disassemble tag for Sum')
         if not self.is_valid_tag(tag):
-            raise ValueError(f'invalid tag: {opcode}')
-        return self._tag_dsm(tag)
+            raise ValueError(f'invalid tag: {tag}')
+        return self._tag_dsm(tag.as_uint())
 
     def is_valid_tag(self, tag: AbstractBitVector) -> AbstractBit:
         if not _issubclass(self.isa, Sum):
-- 
2.43.0


From 0e2bb5e080fca8fec4027af67c24da0c29310638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 06/41] fix: record black box keyword arguments in declared
 order

---
 peak/black_box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/black_box.py b/peak/black_box.py
index c67f0f7..f78c232 100644
--- a/peak/black_box.py
+++ b/peak/black_box.py
@@ -54,7 +54,7 @@ class BlackBox:
             else:
                 if kwargs.keys() != input_t.field_dict.keys():
                     raise ValueError(f"{self} need to call with input_t {list(input_t.field_dict.items())}")
-                self._input_vals = tuple(kwargs.values())
+                self._input_vals = tuple(kwargs[name] for name in input_t.field_dict)
             return self._output_vals
         if hasattr(old_call, "_input_t"):
             assert hasattr(old_call, "_output_t")
-- 
2.43.0


From e057ad77e8a5f868c0a8ddee6f83e71b43226f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 07/41] fix: build the forms of a given tagged union value

---
 peak/mapper/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index fb6dffa..ca88ece 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -130,7 +130,7 @@ class SMTForms(AssembledADTRecursor):
             if value is None:
                 sub_value = None
             else:
-                sub_value = value[field].value
+                sub_value = getattr(value, field_name).value
 
             sub_forms, sub_varmap, _sub_value = self(sub_aadt_t, path=path + (field_name,), value=sub_value)
             _value = aadt_t.from_fields(tag_bv=tag, **{field_name: _sub_value})
-- 
2.43.0


From 81e54c57650fee872015a2fb14e55adb4a40b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 08/41] fix: reject rewrite rules that leave a Const input
 unbound

The types in arch_path_types are classes, so isinstance(T, Const) was never
true and the check never fired.
---
 peak/mapper/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index bf6147e..4f0a111 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -220,7 +220,7 @@ class RewriteRule:
         arch_path_types = _create_path_to_adt(arch_fc.Py.input_t)
         self.ibinding = []
         for ir_path, arch_path in ibinding:
-            if ir_path is Unbound and isinstance(arch_path_types[arch_path], Const):
+            if ir_path is Unbound and issubclass(arch_path_types[arch_path], Const):
                 raise ValueError(f"Arch path {arch_path} needs to have a value")
             elif ir_path is not Unbound and not isinstance(ir_path, tuple):
                 #Build the python bitvector and verify it is valid
@@ -245,7 +245,7 @@ class RewriteRule:
         for ir_path, arch_path in self.ibinding:
             if isinstance(ir_path, tuple):
                 ir_paths.add(ir_path)
-            elif ir_path is Unbound and not isinstance(arch_path_types[arch_path], Const):
+            elif ir_path is Unbound and not issubclass(arch_path_types[arch_path], Const):
                 arch_paths.add(arch_path)
         return ir_paths, arch_paths
 
-- 
2.43.0


From 5b8c2c7df0b870784dcef0dd7b7a50e00a90e020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 09/41] fix: rebind constant symbolic values

---
 peak/mapper/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index ca88ece..76c5412 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -343,13 +343,13 @@ def rebind_value(val, _family):
     elif isinstance(val, family.PyFamily().Bit):
         return _family.Bit(val)
     elif isinstance(val, family.SMTFamily().BitVector):
-        if not val._value_.is_constant():
+        if not val.value.is_constant():
             raise ValueError("Cannot convert non-const SMT var to Py")
-        return _family.BitVector[val.size](val._value_.constant_value())
+        return _family.BitVector[val.size](val.value.constant_value())
     elif isinstance(val, family.SMTFamily().Bit):
-        if not val._value_.is_constant():
+        if not val.value.is_constant():
             raise ValueError("Cannot convert non-const SMT var to Py")
-        return _family.Bit(val._value_.constant_value())
+        return _family.Bit(val.value.constant_value())
     else:
         raise ValueError(f"Cannot rebind value: {val}")
 
-- 
2.43.0


From dd0474ba4d45880d1074ba971545536cfefc8592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 10/41] fix: rules bind a path-constrained input to one of its
 allowed values

A path constraint on a non-Const input quantifies over the allowed values, so
the solver's model has no value for the input and rules were returned with an
arbitrary (often disallowed) constant.
---
 peak/mapper/mapper.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 4f0a111..e7a8f0a 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -843,16 +843,19 @@ def rr_from_solver(solver, irmapper):
     #extract, simplify, and convert constants to BV in the input binding
     bv_ibinding = []
     for ir_path, arch_path in ibinding:
-        if (ir_path is Unbound) and (arch_path in am.const_paths or arch_path in am.path_constraints):
+        if (ir_path is Unbound) and arch_path in am.path_constraints and arch_path not in am.const_paths:
+            # The formula holds for each of the allowed values, and the solver
+            # has no say in which one is used
+            ir_path = am.path_constraints[arch_path][0]
+        elif (ir_path is Unbound) and arch_path in am.const_paths:
             var = am.input_varmap[arch_path]
             bv_val = solved_to_bv(var, solver)
             ir_path = bv_val
         bv_ibinding.append((ir_path, arch_path))
 
     fam = am.peak_fc._family_.PyFamily()
-    bv_ibinding = rebind_binding(bv_ibinding, fam)
-
     bv_ibinding = strip_aadt(bv_ibinding)
+    bv_ibinding = rebind_binding(bv_ibinding, fam)
     return RewriteRule(bv_ibinding, obinding, im.peak_fc, am.peak_fc)
 
 
-- 
2.43.0


From 392ef2ed00006f8dc1772c7406b0e2f454c9a5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:15 +0000
Subject: [PATCH 11/41] fix: return the value solved for a Const input that
 other bindings bind

When a Const input is bound to the IR in some bindings and free in others the
simple formula splits its variable, but the rule was built from the original
variable, which no longer occurs in the formula.
---
 peak/mapper/mapper.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index e7a8f0a..5fc93ac 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -480,6 +480,9 @@ class IRMapper(SMTMapper):
         # Create input bindings
         # binding = [input_form_idx][bidx]
         input_bindings = []
+        # arch_path -> variable holding the value of an unbound Const input,
+        # if that is not the variable in archmapper.input_varmap
+        self.exists_vars = {}
         arch_input_path_to_adt = archmapper.path_to_adt(input=True)
 
         #Removes any invalid bindings
@@ -595,6 +598,9 @@ class IRMapper(SMTMapper):
             #name -> var
             name_to_var = {}
 
+            #name -> arch path
+            name_to_path = {}
+
             fb_conditions = {} #form/binding conditions in a list
             for fi, ibindings in enumerate(input_bindings):
                 fi_conditions = [form_var.match_index(fi)]
@@ -605,6 +611,7 @@ class IRMapper(SMTMapper):
                         arch_name = ".".join(["A"] + [str(p) for p in arch_path])
                         arch_var = archmapper.input_varmap[arch_path]
                         name_to_var[arch_name] = arch_var
+                        name_to_path[arch_name] = arch_path
                         is_unbound = ir_path is Unbound
                         is_constrained = arch_path in self.archmapper.path_constraints
                         is_const = issubclass(arch_input_path_to_adt[arch_path], Const)
@@ -642,6 +649,7 @@ class IRMapper(SMTMapper):
                 e_conds = Or([(form_var.match_index(fi) & ib_var.match_index(bi)) for fi,bi in exists_fbs]).to_hwtypes()
                 sub_var = e_conds.ite(var_e, var_a)
                 overlap_subs.append((var, sub_var))
+                self.exists_vars[name_to_path[name]] = var_e
                 pysmt_forall_vars.remove(var.value)
                 pysmt_forall_vars.add(var_a.value)
                 #Will need to do an input transformation
@@ -848,7 +856,7 @@ def rr_from_solver(solver, irmapper):
             # has no say in which one is used
             ir_path = am.path_constraints[arch_path][0]
         elif (ir_path is Unbound) and arch_path in am.const_paths:
-            var = am.input_varmap[arch_path]
+            var = im.exists_vars.get(arch_path, am.input_varmap[arch_path])
             bv_val = solved_to_bv(var, solver)
             ir_path = bv_val
         bv_ibinding.append((ir_path, arch_path))
-- 
2.43.0


From 7a48e1e05662d389b53b1a47c6e4cfac823f280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 12/41] fix: constrain every Const leaf of a mapping to a valid
 value

Const leaves nested in an input were not constrained at all, so solve could
raise on an enum value that does not exist. The simple formula instead
constrained top level Const inputs even where they are bound to the IR, where
the condition is universally quantified and cannot hold.
---
 peak/mapper/mapper.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 5fc93ac..1f66c1b 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -109,6 +109,14 @@ def get_bb_inputs(peak_obj):
 
 
 
+# Validity of a leaf of the input, where value is the bits of the leaf
+def _leaf_is_valid(adt_t, value, family):
+    adt_t = strip_modifiers(adt_t)
+    if is_adt_type(adt_t):
+        return family.SMTFamily().get_adt_t(adt_t)._is_valid_(value)
+    return value.get_family().Bit(1)
+
+
 class SMTMapper:
     def __init__(self, peak_fc: tp.Callable, family: TypeFamily=peak_family, IVar: IndexVar=OneHot):
         self.family = family
@@ -142,9 +150,18 @@ class SMTMapper:
         self.const_valid_conditions = []
         const_fields = [field for field, T in input_t.field_dict.items() if issubclass(T, Const)]
 
+        const_leaves = {path: T for path, T in _create_path_to_adt(input_t).items() if issubclass(T, Const)}
+
         for input_form in input_forms:
             inputs = aadt_product_to_dict(input_form.value)
-            self.const_valid_conditions.append([is_valid(inputs[field]) for field in const_fields])
+            valid_conditions = [is_valid(inputs[field]) for field in const_fields]
+            # Const may also modify a field nested in an input
+            valid_conditions += [
+                _leaf_is_valid(T, input_form.varmap[path], family)
+                for path, T in const_leaves.items()
+                if path[0] not in const_fields and path in input_form.varmap
+            ]
+            self.const_valid_conditions.append(valid_conditions)
             #Construct output_aadt value
             outputs = self.peak_obj(**inputs)
 
@@ -569,10 +586,9 @@ class IRMapper(SMTMapper):
                 ir_in = self.input_value
 
             #TODO these are wrong once the Exists intersect FOrall issue shows up
-            const_fields = [field for field, T in archmapper.peak_fc.Py.input_t.field_dict.items() if issubclass(T, Const)]
-            inputs = aadt_product_to_dict(arch_in)
-            const_valid_conditions = [is_valid(inputs[field]) for field in const_fields]
-            preconditions = [And(const_valid_conditions)]
+            # The values of the Const leaves that a binding leaves unbound must be
+            # valid, those conditions are added to preconditions below.
+            preconditions = []
 
             #Alternative correct (but slower) precondition
             #preconditions = [is_valid(archmapper.input_value), is_valid(self.input_value)]
@@ -607,6 +623,7 @@ class IRMapper(SMTMapper):
                 for bi, ibinding in enumerate(ibindings):
                     conditions = fi_conditions + [ib_var.match_index(bi)]
                     fb = (fi, bi)
+                    valid_conditions = []
                     for ir_path, arch_path in ibinding:
                         arch_name = ".".join(["A"] + [str(p) for p in arch_path])
                         arch_var = archmapper.input_varmap[arch_path]
@@ -622,6 +639,8 @@ class IRMapper(SMTMapper):
                             forall_to_fbs[arch_name].append(fb)
                         elif is_unbound and is_const:
                             exists_to_fbs[arch_name].append(fb)
+                            valid_conditions.append(
+                                _leaf_is_valid(arch_input_path_to_adt[arch_path], arch_var, self.family))
                         elif not is_unbound:
                             assert not is_unbound
                             ir_name = ".".join(["I"] + [str(p) for p in ir_path])
@@ -630,6 +649,10 @@ class IRMapper(SMTMapper):
                             forall_to_fbs[arch_name].append(fb)
                             forall_to_fbs[ir_name].append(fb)
                             conditions.append(arch_var==ir_var)
+                    if valid_conditions:
+                        preconditions.append(Implies(
+                            form_var.match_index(fi) & ib_var.match_index(bi),
+                            And(valid_conditions)))
                     fb_conditions[(fi, bi)] = conditions
 
 
-- 
2.43.0


From f7dbe68f7af9d5ae43e01b0b4d0866418028bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 13/41] fix: float ops use the rounding modes hwtypes has

RDN, RUP and RMM named rounding modes that do not exist in hwtypes (it has RTN,
RTP and RNA), so every op raised AttributeError in those modes.
---
 peak/float.py | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index e6b74a7..6548a01 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -136,19 +136,19 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)(in1_rtz)
                         out = out_rtz.reinterpret_as_bv()
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                        in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup.reinterpret_as_bv()
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
                         out = out_rmm.reinterpret_as_bv()
                     return out
@@ -174,19 +174,19 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)(in1_rtz)
                         out = out_rtz
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                        in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
                         out = out_rmm
                     return out
@@ -210,16 +210,16 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)()
                         out = out_rtz.reinterpret_as_bv()
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
                         out_rdn = getattr(in0_rdn, op_name)()
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
                         out_rup = getattr(in0_rup, op_name)()
                         out = out_rup.reinterpret_as_bv()
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         out_rmm = getattr(in0_rmm, op_name)()
                         out = out_rmm.reinterpret_as_bv()
                     return out
@@ -255,22 +255,22 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                     out_rtz = in0_rtz.fp_fma(in1_rtz, in2_rtz)
                     out = out_rtz.reinterpret_as_bv()
                 elif rm == RoundingMode.RDN:
-                    in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                    in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
-                    in2_rdn = cast(RoundingMode_hwtypes.RDN, in2)
+                    in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                    in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
+                    in2_rdn = cast(RoundingMode_hwtypes.RTN, in2)
                     out_rdn = in0_rdn.fp_fma(in1_rdn, in2_rdn)
                     out = out_rdn.reinterpret_as_bv()
                 elif rm == RoundingMode.RUP:
-                    in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                    in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
-                    in2_rup = cast(RoundingMode_hwtypes.RUP, in2)
+                    in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                    in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
+                    in2_rup = cast(RoundingMode_hwtypes.RTP, in2)
                     out_rup = in0_rup.fp_fma(in1_rup, in2_rup)
                     out = out_rup.reinterpret_as_bv()
                 else:
                     assert  rm == RoundingMode.RMM
-                    in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                    in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
-                    in2_rmm = cast(RoundingMode_hwtypes.RUP, in2)
+                    in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                    in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
+                    in2_rmm = cast(RoundingMode_hwtypes.RNA, in2)
                     out_rmm = in0_rmm.fp_fma(in1_rmm, in2_rmm)
                     out = out_rmm.reinterpret_as_bv()
                 return out
-- 
2.43.0


From dead936a71c707f4a4da6b7e768e9a54256b767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 14/41] fix: const_rm Fma referred to an undefined name

---
 peak/float.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/float.py b/peak/float.py
index 6548a01..55034eb 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -352,7 +352,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
         @family_closure
         def _fp_fma(family):
             rm_ = family.get_constructor(RoundingMode)(rm)
-            FMA = fp_fma_fc(family)
+            FMA = fp_fma(family)
             @family.assemble(locals(), globals())
             class _FMA(Peak):
                 def __init__(self):
-- 
2.43.0


From 64bca8607dc5f8fd4814f00edfdb32e8a1af4071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 15/41] fix: float classification ops return a Bit

The fp_is_* ops were built as ops returning data and raised AttributeError.
---
 peak/float.py | 57 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index 55034eb..bf49896 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -226,10 +226,45 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
             return Op
         return fc
 
+    @lru_cache(None)
+    def gen_unary_bit(op_name):
+        @family_closure
+        def fc(family: TypeFamily):
+            cast = _get_cast(family)
+            @family.assemble(locals(), globals())
+            class Op(Peak, BlackBox):
+                def __call__(self, rm: RoundingMode, in0: Data) -> Bit:
+                    if rm == RoundingMode.RNE:
+                        in0_rne = cast(RoundingMode_hwtypes.RNE, in0)
+                        out_rne = getattr(in0_rne, op_name)()
+                        out = out_rne
+                    elif rm == RoundingMode.RTZ:
+                        in0_rtz = cast(RoundingMode_hwtypes.RTZ, in0)
+                        out_rtz = getattr(in0_rtz, op_name)()
+                        out = out_rtz
+                    elif rm == RoundingMode.RDN:
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        out_rdn = getattr(in0_rdn, op_name)()
+                        out = out_rdn
+                    elif rm == RoundingMode.RUP:
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        out_rup = getattr(in0_rup, op_name)()
+                        out = out_rup
+                    else:
+                        assert  rm == RoundingMode.RMM
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        out_rmm = getattr(in0_rmm, op_name)()
+                        out = out_rmm
+                    return out
+            return Op
+        return fc
+
     closures = {}
     for k, f in AbstractFPVector.__dict__.items():
         if k.startswith('fp_'):
-            if len(inspect.signature(f).parameters) == 1:
+            if k.startswith('fp_is_'):
+                closures[_format_name(k)] = gen_unary_bit(k)
+            elif len(inspect.signature(f).parameters) == 1:
                 closures[_format_name(k)] = gen_unary(k)
             elif k in ("fp_leq", "fp_lt", "fp_geq", "fp_gt", "fp_eq"):
                 closures[_format_name(k)] = gen_binary_bit(k)
@@ -304,6 +339,22 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
 
             return fc
 
+        def gen_const_rm_unary_bit(op_name):
+            @family_closure
+            def fc(family):
+                cast = _get_cast_const_rm(rm, family)
+
+                @family.assemble(locals(), globals())
+                class Op(Peak, BlackBox):
+                    def __call__(self, in_: Data) -> Bit:
+                        in_float = cast(in_)
+                        out_bit = getattr(in_float, op_name)()
+                        return out_bit
+
+                return Op
+
+            return fc
+
         def gen_const_rm_binary(op_name):
             @family_closure
             def fc(family):
@@ -342,7 +393,9 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
         closures_ = {}
         for k, f in AbstractFPVector.__dict__.items():
             if k.startswith('fp_'):
-                if len(inspect.signature(f).parameters) == 1:
+                if k.startswith('fp_is_'):
+                    closures_[_format_name(k)] = gen_const_rm_unary_bit(k)
+                elif len(inspect.signature(f).parameters) == 1:
                     closures_[_format_name(k)] = gen_const_rm_unary(k)
                 elif k in ("fp_leq", "fp_lt", "fp_geq", "fp_gt", "fp_eq"):
                     closures_[_format_name(k)] = gen_const_rm_binary_bit(k)
-- 
2.43.0


From 71632f3bb3be70f40e51e20843387ec7d927af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 16/41] fix: PyFamily compared equal to every PyXFamily

which made equality of families intransitive and inconsistent with hash.
---
 peak/family.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/peak/family.py b/peak/family.py
index 692ba2e..ec6daa6 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -35,8 +35,9 @@ class AbstractFamily(metaclass=ABCMeta):
             logger.debug('\n'.join(msg))
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
-            return True
+        if isinstance(other, AbstractFamily):
+            # A subclass is another family, eg. PyXFamily is not PyFamily
+            return type(other) is type(self)
         else:
             return NotImplemented
 
-- 
2.43.0


From 127c284465c5b99325b56d66824681b2feb9d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 17/41] fix: negative values of signed fields corrupted the
 other fields of an opcode

---
 peak/assembler/assembler.py  | 3 ++-
 peak/assembler2/assembler.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 43e8189..40e2c92 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -269,7 +269,8 @@ def _field(isa : tp.Type[AbstractBitVector]):
     layout = {}
 
     def assembler(inst):
-        return int(inst)
+        # int() of a signed value may be negative
+        return int(inst) & ((1 << width) - 1)
 
     def disassembler(opcode):
         return isa(opcode)
diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index fbaa979..ceaf30f 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -372,6 +372,9 @@ def _field(isa : tp.Type[AbstractBitVector]):
         raise TypeError()
 
     def asm(inst: 'isa', bv_type: tp.Type[AbstractBitVector]) -> AbstractBitVector:
+        if isinstance(inst, BitVector):
+            # int() of a signed value may be negative
+            inst = inst.as_uint()
         return bv_type[width](inst)
 
     def from_fields(v):
-- 
2.43.0


From 8c91f091d52d6f33f636344fe253b0d3695104a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 18/41] fix: values could not be built from both signed and
 other fields

---
 peak/assembler/assembled_adt.py  | 7 ++++---
 peak/assembler2/assembled_adt.py | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 0c23b0e..3e1a183 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -49,15 +49,16 @@ def _create_from_layout(width, layout, field_bvs, bv_type: AbstractBitVector, de
             continue
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
-    bv = reduce(bv_type.concat, (_as_bv(s) for s in slots if s is not None))
+    bv = reduce(bv_type.concat, (_as_bv(s, bv_type) for s in slots if s is not None))
     assert bv.size == width
     #Need to cast to bv_type since magma's concats do not return bv_type
     return bv_type[width](bv)
 
 
-def _as_bv(v):
+def _as_bv(v, bv_type):
     if isinstance(v, AbstractBitVector):
-        bv_value = v
+        # Signed and Unsigned fields are stored as a bv_type
+        bv_value = bv_type[v.size](v)
     elif isinstance(v, AbstractBit):
         bv_value = v.get_family().BitVector[1](v)
     elif isinstance(v, AssembledADT):
diff --git a/peak/assembler2/assembled_adt.py b/peak/assembler2/assembled_adt.py
index ef850d3..c3fb428 100644
--- a/peak/assembler2/assembled_adt.py
+++ b/peak/assembler2/assembled_adt.py
@@ -176,7 +176,8 @@ class AssembledADT(metaclass=AssembledADTMeta):
     def from_fields(cls, *args, **kwargs):
         def _as_bv(v):
             if isinstance(v, AbstractBitVector):
-                bv_value = v
+                # Signed and Unsigned fields are stored as a bv_type
+                bv_value = cls.bv_type[v.size](v)
             elif isinstance(v, AbstractBit):
                 bv_value = v.get_family().BitVector[1](v)
             elif isinstance(v, AssembledADT):
-- 
2.43.0


From b6e5463c63c1e72b82fc7a3171460ece69366cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 19/41] fix: assembler2 left the unused bits of a value built
 from fields free

---
 peak/assembler2/assembler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index ceaf30f..6b3fa86 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -86,7 +86,8 @@ def _create_from_layout(width, layout, field_bvs):
     assert T is not None
 
 
-    slots = [T[1]() for _ in range(width)]
+    # unused bits are 0, as they are in an assembled instruction
+    slots = [T[1](0) for _ in range(width)]
     for field_name, (low, hi) in layout.items():
         if low == hi:
             # zero width fields occupy no slots
-- 
2.43.0


From 6817b7255863eff4e9eddf296afb594ad7a8ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 20/41] fix: assembler2 accepted fields of the wrong size when
 the sizes added up

---
 peak/assembler2/assembler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 6b3fa86..218f90b 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -85,6 +85,9 @@ def _create_from_layout(width, layout, field_bvs):
             assert T == type(v).unsized_t
     assert T is not None
 
+    for field_name, (low, hi) in layout.items():
+        if field_bvs[field_name].size != hi - low:
+            raise TypeError(f'field {field_name} must have size {hi - low}')
 
     # unused bits are 0, as they are in an assembled instruction
     slots = [T[1](0) for _ in range(width)]
-- 
2.43.0


From 2265cc4baa481834fbcbf05a2ef498cd380ee88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 21/41] fix: build assembled values that have no bits at all

---
 peak/assembler/assembled_adt.py | 3 +++
 peak/assembler2/assembler.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 3e1a183..0380871 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -42,6 +42,9 @@ def _create_from_layout(width, layout, field_bvs, bv_type: AbstractBitVector, de
             for r0, r1 in zip(ranges, ranges[1:])):
         raise ValueError('invalid layout')
 
+    if width == 0:
+        return bv_type[0](0)
+
     slots = [bv_type[1](default_value) for i in range(width)]
     for field_name, (low, hi) in layout.items():
         if low == hi:
diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 218f90b..07ee39c 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -89,6 +89,9 @@ def _create_from_layout(width, layout, field_bvs):
         if field_bvs[field_name].size != hi - low:
             raise TypeError(f'field {field_name} must have size {hi - low}')
 
+    if width == 0:
+        return T[0](0)
+
     # unused bits are 0, as they are in an assembled instruction
     slots = [T[1](0) for _ in range(width)]
     for field_name, (low, hi) in layout.items():
-- 
2.43.0


From c9fa0b92ff03e8f889e0fa86a045e9dc5fa6901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 22/41] fix: typecheck accepted extra results and failed on
 calls without outputs

---
 peak/features.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/peak/features.py b/peak/features.py
index 8e9562d..d01e79d 100644
--- a/peak/features.py
+++ b/peak/features.py
@@ -82,9 +82,15 @@ def typecheck(call_fn):
     @functools.wraps(call_fn)
     def call_wrapper(*args, **kwargs):
         results = call_fn(*args, **kwargs)
+        if output_t is None:
+            if results is not None:
+                raise TypeError(f"result {type(results)} of a call without declared outputs in {call_fn}")
+            return results
         single_output = not isinstance(results, tuple)
         if single_output:
             results = (results,)
+        if len(results) != len(output_t.field_dict):
+            raise TypeError(f"{len(results)} results did not match the {len(output_t.field_dict)} declared outputs in {call_fn}")
         for i, (oname, otype) in enumerate(output_t.field_dict.items()):
             if not isinstance(results[i], otype):
                 raise TypeError(f"result type for output {oname} : {type(results[i])} did not match expected type {otype} in {call_fn}")
-- 
2.43.0


From 15fd3c27a1e1831d9854bc5734b325d777333948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 23/41] fix: a family compared equal to the families of its
 subclasses

---
 peak/family.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/family.py b/peak/family.py
index ec6daa6..da537ba 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -114,7 +114,7 @@ class _AsmFamily(AbstractFamily):
         return self.get_adt_t(adt_t).from_fields
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return (self._assembler == other._assembler
                     and self._aadt_t == other._aadt_t
                     and self._asm_extras == other._asm_extras)
@@ -147,7 +147,7 @@ class _RewriterFamily(AbstractFamily):
         return _compose(deco, s_deco)
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return self._passes == other._passes
         else:
             return NotImplemented
-- 
2.43.0


From a83b50e7da17d77353d14d750fe3efcf95c63610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 24/41] fix: family closures specialised again when options
 came in another order

---
 peak/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/features.py b/peak/features.py
index d01e79d..c86488e 100644
--- a/peak/features.py
+++ b/peak/features.py
@@ -141,7 +141,7 @@ class family_closure:
         if not self.is_bound:
             self._bind(*args, **kwargs)
             return self
-        key = (tuple(args), tuple(kwargs.items()))
+        key = (tuple(args), frozenset(kwargs.items()))
         if key in self.cache:
             return self.cache[key]
         res = self.fc(*args, **kwargs)
-- 
2.43.0


From 54367bed3d6994b276eb485139604005770af456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 25/41] fix: black boxes added after a first enumeration were
 never found

---
 peak/black_box.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/peak/black_box.py b/peak/black_box.py
index f78c232..b59c011 100644
--- a/peak/black_box.py
+++ b/peak/black_box.py
@@ -1,6 +1,3 @@
-from functools import lru_cache
-
-@lru_cache(None)
 def get_black_boxes(obj, path=()):
     """Gets references to all the black boxes in the hierarchical circuit"""
 
@@ -17,7 +14,6 @@ def get_black_boxes(obj, path=()):
             ret = {**ret, **get_black_boxes(obj, path + (field,))}
     return ret
 
-@lru_cache(None)
 def get_black_box(obj, path):
     """Gets a specific black box given a path"""
     # Hack to avoid circular import
-- 
2.43.0


From 3b22a41e06e6b9c12dcce546d9ca91117521eef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 26/41] fix: rules that bind a Bit or BitVector alternative of
 a Sum could not build inputs or be verified

---
 peak/mapper/mapper.py |  4 ++--
 peak/mapper/utils.py  | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 1f66c1b..73b19db 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -273,7 +273,7 @@ class RewriteRule:
         if set(arch_inputs.keys()) != set(arch_paths):
             raise ValueError("arch_inputs are wrong")
 
-        ibinding = rebind_binding(self.ibinding, family)
+        ibinding = rebind_binding(self.ibinding, family, strip_modifiers(self.arch_fc(family).input_t))
         ir_binding = []
         arch_binding = []
         for ir_path, arch_path in ibinding:
@@ -886,7 +886,7 @@ def rr_from_solver(solver, irmapper):
 
     fam = am.peak_fc._family_.PyFamily()
     bv_ibinding = strip_aadt(bv_ibinding)
-    bv_ibinding = rebind_binding(bv_ibinding, fam)
+    bv_ibinding = rebind_binding(bv_ibinding, fam, strip_modifiers(am.peak_fc(fam).input_t))
     return RewriteRule(bv_ibinding, obinding, im.peak_fc, am.peak_fc)
 
 
diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index 76c5412..8e68e73 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -353,11 +353,22 @@ def rebind_value(val, _family):
     else:
         raise ValueError(f"Cannot rebind value: {val}")
 
+#returns path with the alternatives of sums named as they are in adt_t
+def rebind_path(path, adt_t, _family):
+    ret = ()
+    for name in path:
+        if name not in adt_t.field_dict:
+            name = rebind_type(name, _family)
+        adt_t = adt_t.field_dict[name]
+        ret += (name,)
+    return ret
+
 #returns a binding where all aadt values are changed to family
-def rebind_binding(binding, _family):
+#adt_t is the (stripped) type in that family that the arch paths lead through
+def rebind_binding(binding, _family, adt_t):
     ret_binding = []
     for ir_path, arch_path in binding:
-        arch_path = arch_path[:-1] + (rebind_type(arch_path[-1], _family),)
+        arch_path = rebind_path(arch_path, adt_t, _family)
         if not (isinstance(ir_path, tuple) or ir_path is Unbound):
             ir_path = rebind_value(ir_path, _family)
         ret_binding.append((ir_path, arch_path))
-- 
2.43.0


From 5e4c461d5df3172f0c38fd12fa6385bf7daa1f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 27/41] fix: a constraint on an input outside the chosen form
 made any rule hold

---
 peak/mapper/mapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 73b19db..4ecdfed 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -637,6 +637,9 @@ class IRMapper(SMTMapper):
                                 raise NotImplementedError()
                         if is_unbound and not is_const:
                             forall_to_fbs[arch_name].append(fb)
+                            if is_constrained:
+                                constraints = self.archmapper.path_constraints[arch_path]
+                                conditions.append(Or(arch_var == c for c in constraints))
                         elif is_unbound and is_const:
                             exists_to_fbs[arch_name].append(fb)
                             valid_conditions.append(
@@ -715,17 +718,14 @@ class IRMapper(SMTMapper):
                 impl_conds.append(fb_cond)
 
             exist_constraints = []
-            forall_constraints = []
             for path, constraints in archmapper.path_constraints.items():
                 is_const = issubclass(arch_input_path_to_adt[path], Const)
                 arch_var = archmapper.input_varmap[path]
                 if is_const:
                     exist_constraints.append(Or(arch_var == c for c in constraints))
-                else:
-                    forall_constraints.append(Or(arch_var == c for c in constraints))
             preconditions += exist_constraints
             preconditions.append(Or(fb_conds))
-            F_cond = And(forall_constraints + [Or(impl_conds)])
+            F_cond = Or(impl_conds)
             valid_conditions = And(preconditions)
             formula = And([valid_conditions, Implies(F_cond, F)])
 
-- 
2.43.0


From 32021d9ba838705cf1f69edeae213595f456170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 28/41] fix: constraints on an enum input failed without
 simple_formula

---
 peak/mapper/mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 4ecdfed..7504acb 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -814,7 +814,8 @@ class IRMapper(SMTMapper):
                 if is_const:
                     continue
                 arch_var = archmapper.input_varmap[path]
-                formula = and_reduce((formula.substitute((arch_var, c)) for c in constraints))
+                values = [c._value_ if isinstance(c, AssembledADT) else c for c in constraints]
+                formula = and_reduce((formula.substitute((arch_var, v)) for v in values))
 
             # Then deal with the const constraints.
             # This is saying only allow a set of values for the existential quantifier
-- 
2.43.0


From f611b231b8c5f1e63eb10523dfc3d76d61c5d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 29/41] fix: reporting a multi-instruction mapping read from a
 closed solver

---
 peak/mapper/multi.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index d4b1451..7655b49 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -275,21 +275,23 @@ def RR(solver, info):
     if solver is None:
         return None
 
+    #The solver is closed once the solve finishes, so read everything from it now
+    bind_var = info.bind_var
+    bind_val = bind_var.decode(int(solved_to_bv(bind_var.var, solver)))
+    instr_vals = []
+    for block in info.block_info[:info.N]:
+        instrs = [block.arch_inputs[field] for field in info.arch_info.const_dict]
+        instr_vals.append([solved_to_bv(instr._value_, solver) for instr in instrs])
+
     def get_info():
-        N = info.N
         block_info = info.block_info
-        arch_info = info.arch_info
-        bind_var = info.bind_var
-        bind_val = bind_var.decode(int(solved_to_bv(bind_var.var, solver)))
         print(bind_var.var.value, bind_val)
         binding_indices = info.valid_bindings[bind_val]
-        for i in range(N):
+        for i in range(info.N):
             print("*"*100)
             print(f"Instruction {i}")
             binding = block_info[i].bindings[binding_indices[i]]
             pretty_print_binding(binding)
-            instrs = [block_info[i].arch_inputs[field] for field in arch_info.const_dict]
-            ivals = [solved_to_bv(instr._value_,solver) for instr in instrs]
-            print(ivals)
+            print(instr_vals[i])
         return info
     return get_info
-- 
2.43.0


From 50c422a7ee524b460767b2ed1de9926a2e1fe14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 30/41] fix: a multi-instruction mapping could not report a Bit
 or BitVector instruction

---
 peak/mapper/multi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index 7655b49..f8483f7 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -3,6 +3,7 @@ from functools import reduce
 from types import SimpleNamespace
 from hwtypes import strip_modifiers
 from peak import family as peak_family, family_closure, Peak, Const
+from peak.assembler.assembled_adt import AssembledADT
 from .mapper import aadt_product_to_dict, external_loop_solve
 from .index_var import IndexVar, OneHot, Binary
 from .mapper import _get_peak_cls, _create_free_var, create_and_set_bb_outputs, wrap_outputs, is_valid, get_bb_inputs
@@ -281,7 +282,7 @@ def RR(solver, info):
     instr_vals = []
     for block in info.block_info[:info.N]:
         instrs = [block.arch_inputs[field] for field in info.arch_info.const_dict]
-        instr_vals.append([solved_to_bv(instr._value_, solver) for instr in instrs])
+        instr_vals.append([solved_to_bv(instr._value_ if isinstance(instr, AssembledADT) else instr, solver) for instr in instrs])
 
     def get_info():
         block_info = info.block_info
-- 
2.43.0


From 344af1230fb603bf48b479b25f0551be1eb1c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 31/41] fix: bit-field encoding of a negative signed field
 overwrote the fields after it

---
 peak/bitfield.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index 2ca967b..a363b64 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -60,7 +60,12 @@ def encode(inst, reverse=False):
     bitfield = getattr(inst, 'bitfield', 0)
     if isinstance(inst, (AbstractBit, AbstractBitVector, Enum)):
         # depreciated
-        word = inst._value_ if isinstance(inst,Enum) else int(inst)
+        if isinstance(inst, Enum):
+            word = inst._value_
+        elif isinstance(inst, AbstractBitVector):
+            word = inst.as_uint() # int of a negative signed vector is no word
+        else:
+            word = int(inst)
     else:
         typeinst = type(inst)
         if isinstance(inst,Product):
-- 
2.43.0


From a65c4e442249338d001ef9101ffa8992cd0208eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 32/41] fix: bit-field size of an enum ignored the values of
 its members

---
 peak/bitfield.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index a363b64..f58a406 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -25,7 +25,10 @@ def size(type):
     elif issubclass(type, AbstractBitVector):
         s = type.size
     elif issubclass(type, Enum):
-        return clog2(len(list(type.enumerate())))
+        members = list(type.enumerate())
+        # the values need not be contiguous
+        values = [m._value_ for m in members if isinstance(m._value_, int)]
+        return clog2(max([len(members) - 1, *values]) + 1)
     elif issubclass(type, Product):
         s = sum([size(getattr(type,key)) for key in type.field_dict])
     elif issubclass(type, Sum):
-- 
2.43.0


From 0aaeddf007953f4d0ec0b1458940c8fce666f8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 33/41] fix: default tags of bit-field encodings differed from
 run to run

---
 peak/bitfield.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index f58a406..74ad955 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -5,6 +5,8 @@ from magma.bitutils import clog2
 from hwtypes.adt import Enum, Sum, Product
 from hwtypes import AbstractBit, AbstractBitVector
 
+from .assembler.assembler_util import _field_sort_key
+
 def tag(tags: tp.Mapping[type, int]):
     def wrapper(sum: Sum):
         if not issubclass(sum, Sum):
@@ -49,7 +51,9 @@ def instkey(inst):
         # depreciated
         i = t.tags[type(inst._value_)]
     else:
-        i = list(t.fields).index(type(inst._value_))
+        # fields is a set, its order differs from run to run
+        fields = sorted(t.field_dict.items(), key=_field_sort_key)
+        i = [field for _, field in fields].index(type(inst._value_))
     return i
 
 def bitfield(i):
-- 
2.43.0


From ed580bbbff845e498844dbd726c93c8838cd17c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 34/41] fix: the legacy assembler could not encode a Bit
 alternative of a Sum

---
 peak/auto_assembler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peak/auto_assembler.py b/peak/auto_assembler.py
index d5a7b16..2a60eb2 100644
--- a/peak/auto_assembler.py
+++ b/peak/auto_assembler.py
@@ -134,6 +134,8 @@ def _sum(isa : Sum):
         assert tag.size == tag_width, (tag, tag.size, tag_width)
         tag = tag.zext(width - tag_width)
         pay_load = e(inst.value)
+        if isinstance(pay_load, AbstractBit):
+            pay_load = BitVector[1](pay_load)
         pay_load = pay_load.zext(width - pay_load.size)
         opcode |= tag
         opcode |= pay_load << tag_width
-- 
2.43.0


From c2795bebed22e75c39cd833d1ad6733e723f0ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 35/41] fix: the legacy assembler returned ValueError instead
 of raising it for a wrong constant

---
 peak/auto_assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/auto_assembler.py b/peak/auto_assembler.py
index 2a60eb2..8715b09 100644
--- a/peak/auto_assembler.py
+++ b/peak/auto_assembler.py
@@ -159,11 +159,11 @@ def _bv_const(isa : AbstractBitVector):
     T = type(isa)
     def assembler(inst):
         if inst != isa:
-            return ValueError()
+            raise ValueError()
         return inst
     def disassembler(opcode):
         if opcode != isa:
-            return ValueError()
+            raise ValueError()
         return T(opcode)
     return assembler, disassembler, get_width(isa), None
 
-- 
2.43.0


From 7da226e8fa4a9866ed73185a6da9a4a2f9778b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 36/41] fix: simple-formula mapping failed on outputs nested in
 a Product or Tuple

---
 peak/mapper/mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 7504acb..7ef3a9c 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -687,7 +687,8 @@ class IRMapper(SMTMapper):
                 input_dict = aadt_product_to_dict(input_value)
                 outputs = obj(**input_dict)
                 output = wrap_outputs(outputs, mapper.output_aadt_t)
-                output_dict = {(k,): v for k, v in aadt_product_to_dict(output).items()}
+                forms, _, _ = SMTForms()(mapper.output_aadt_t, value=output)
+                output_dict = forms[0].varmap
                 bb_inputs = get_bb_inputs(obj)
                 return output_dict, bb_inputs
 
-- 
2.43.0


From ae24b82099c39b83f85f67990b5e7176145e148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 37/41] fix: wrap_with_disassembler left nested instruction
 fields unconnected

---
 peak/rtl_utils.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/peak/rtl_utils.py b/peak/rtl_utils.py
index c5b56cd..4c82d82 100644
--- a/peak/rtl_utils.py
+++ b/peak/rtl_utils.py
@@ -12,19 +12,14 @@ def wrap_with_disassembler(PE, disassembler, width, layout, inst_type, wrapped_n
         WrappedIO[key] = vtype
 
     def wire_inst_fields(wrapper_inst, pe_inst, layout):
-        if isinstance(wrapper_inst, m.Product):
-            for key, value in layout.items():
-                begin = value[0]
-                end = value[1]
-                wire_inst_fields(wrapper_inst[begin:end], getattr(pe_inst,
-                                                                  key),
-                                 value[2])
-        else:
-            for key, value in layout.items():
-                begin = value[0]
-                end = value[1]
-                region = wrapper_inst[begin:end]
-                field = getattr(pe_inst, key)
+        for key, value in layout.items():
+            begin = value[0]
+            end = value[1]
+            region = wrapper_inst[begin:end]
+            field = getattr(pe_inst, key)
+            if isinstance(field, m.Product):
+                wire_inst_fields(region, field, value[2])
+            else:
                 if issubclass(type(field), m.Digital):
                     region = m.bit(region)
                 m.wire(region, field)
-- 
2.43.0


From 45ab9fb50cc9aecc2b6d3c657c91412ec7e0684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 38/41] fix: simple-formula mapping confused alternatives of a
 Sum that have the same name

---
 peak/mapper/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 7ef3a9c..595d0c4 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -625,7 +625,7 @@ class IRMapper(SMTMapper):
                     fb = (fi, bi)
                     valid_conditions = []
                     for ir_path, arch_path in ibinding:
-                        arch_name = ".".join(["A"] + [str(p) for p in arch_path])
+                        arch_name = ("A", *arch_path)
                         arch_var = archmapper.input_varmap[arch_path]
                         name_to_var[arch_name] = arch_var
                         name_to_path[arch_name] = arch_path
@@ -646,7 +646,7 @@ class IRMapper(SMTMapper):
                                 _leaf_is_valid(arch_input_path_to_adt[arch_path], arch_var, self.family))
                         elif not is_unbound:
                             assert not is_unbound
-                            ir_name = ".".join(["I"] + [str(p) for p in ir_path])
+                            ir_name = ("I", *ir_path)
                             ir_var = self.input_varmap[ir_path]
                             name_to_var[ir_name] = ir_var
                             forall_to_fbs[arch_name].append(fb)
-- 
2.43.0


From bc708d0900dab31f8b1f3a07e11b387c8a302a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:03 +0000
Subject: [PATCH 39/41] fix: validate opcode sets with large codes without
 listing every number below them

---
 peak/assembler/assembler_util.py  | 2 +-
 peak/assembler2/assembler_util.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 7f7f03c..976510e 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -78,7 +78,7 @@ def _gen_is_valid(
     min_op = opcodes[0]
     max_op = opcodes[-1]
 
-    is_range = opcodes == tuple(range(min_op, max_op + 1))
+    is_range = all(j == i + 1 for i, j in zip(opcodes, opcodes[1:]))
     implicit_lb = (min_op == 0)
     implicit_ub = (max_op == ((1 <<  width) - 1))
 
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 7f7f03c..976510e 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -78,7 +78,7 @@ def _gen_is_valid(
     min_op = opcodes[0]
     max_op = opcodes[-1]
 
-    is_range = opcodes == tuple(range(min_op, max_op + 1))
+    is_range = all(j == i + 1 for i, j in zip(opcodes, opcodes[1:]))
     implicit_lb = (min_op == 0)
     implicit_ub = (max_op == ((1 <<  width) - 1))
 
-- 
2.43.0


From b99a5950d94a576f2b9e648fa91ab6f5f8aa4a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:03 +0000
Subject: [PATCH 40/41] fix: rounding mode assertion failed in the rewriting
 family

---
 peak/float.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index bf49896..c196f70 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -145,8 +145,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup.reinterpret_as_bv()
-                    else:
-                        assert  rm == RoundingMode.RMM
+                    else: # RoundingMode.RMM
                         in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
@@ -183,8 +182,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup
-                    else:
-                        assert  rm == RoundingMode.RMM
+                    else: # RoundingMode.RMM
                         in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
@@ -217,8 +215,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
                         out_rup = getattr(in0_rup, op_name)()
                         out = out_rup.reinterpret_as_bv()
-                    else:
-                        assert  rm == RoundingMode.RMM
+                    else: # RoundingMode.RMM
                         in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         out_rmm = getattr(in0_rmm, op_name)()
                         out = out_rmm.reinterpret_as_bv()
@@ -250,8 +247,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
                         out_rup = getattr(in0_rup, op_name)()
                         out = out_rup
-                    else:
-                        assert  rm == RoundingMode.RMM
+                    else: # RoundingMode.RMM
                         in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         out_rmm = getattr(in0_rmm, op_name)()
                         out = out_rmm
@@ -301,8 +297,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                     in2_rup = cast(RoundingMode_hwtypes.RTP, in2)
                     out_rup = in0_rup.fp_fma(in1_rup, in2_rup)
                     out = out_rup.reinterpret_as_bv()
-                else:
-                    assert  rm == RoundingMode.RMM
+                else: # RoundingMode.RMM
                     in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                     in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                     in2_rmm = cast(RoundingMode_hwtypes.RNA, in2)
-- 
2.43.0


From 33ef182008ee5e6fcdbba439e4a3ee189f439898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:03 +0000
Subject: [PATCH 41/41] fix: size bitfields whose codes or tags need more than
 32 bits

---
 peak/bitfield.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index 74ad955..94c4edf 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -1,12 +1,14 @@
 import typing as tp
 
-from magma.bitutils import clog2
-
 from hwtypes.adt import Enum, Sum, Product
 from hwtypes import AbstractBit, AbstractBitVector
 
 from .assembler.assembler_util import _field_sort_key
 
+def clog2(x: int) -> int:
+    # of any size, unlike magma.bitutils.clog2
+    return (x - 1).bit_length()
+
 def tag(tags: tp.Mapping[type, int]):
     def wrapper(sum: Sum):
         if not issubclass(sum, Sum):
-- 
2.43.0

