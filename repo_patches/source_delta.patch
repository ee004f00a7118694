From 3c98da4bed5fb6e6b924972d8290bdbca8455606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 01/37] fix: every coercer of a filler gets the original
 argument, not the rejected result of an earlier coercer

---
 records/fillers/filler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index b58e816..c9051c4 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -191,15 +191,16 @@ class AnnotatedFiller(Filler, Generic[T]):
                     raise TypeError(f'failed type checking for value of type {type(arg)}')
                 for i, coercer in enumerate(self.coercers):
                     try:
-                        arg = coercer(arg)
-                        tc = self.type_check(arg)
+                        coerced = coercer(arg)
+                        tc = self.type_check(coerced)
                         if tc is None \
                                 or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
-                            raise TypeError(f'coercer returned value of wrong type: {type(arg)}')
+                            raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                     except Exception:
                         if i == len(self.coercers) - 1:
                             raise
                     else:
+                        arg = coerced
                         break
                 tpk = TypePassKind.coerce
 
-- 
2.43.0


From 931cba96ba0144452c1e0df9ae5c211e09c2a20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 02/37] fix: reject coerced values whose type check reports a
 falsish mismatch (None, Ellipsis, callable, Literal)

---
 records/fillers/filler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index c9051c4..d5172d7 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -193,7 +193,7 @@ class AnnotatedFiller(Filler, Generic[T]):
                     try:
                         coerced = coercer(arg)
                         tc = self.type_check(coerced)
-                        if tc is None \
+                        if not tc \
                                 or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
                             raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                     except Exception:
-- 
2.43.0


From 8ee88a027ef3882976c9656fb0236989b378468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:56 +0000
Subject: [PATCH 03/37] fix: a rejected literal value no longer registers its
 type as acceptable

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index a745b51..c599917 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -108,7 +108,7 @@ class LiteralFiller(AnnotatedFiller):
         if not self.is_hollow():
             @self.validators.append
             def inner_validator(v):
-                if v not in self.possible_values[type(v)]:
+                if v not in self.possible_values.get(type(v), ()):
                     raise ValueError
                 return v
 
-- 
2.43.0


From 963bd16a649fc51b6714cef0189ddff75ccd61e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:58 +0000
Subject: [PATCH 04/37] fix: a falsish parsing result is still used when
 post_new rejects the trivial interpretation

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 75703a0..4868b20 100644
--- a/records/record.py
+++ b/records/record.py
@@ -240,7 +240,7 @@ class RecordBase:
             self = self.post_new() or self
         except Exception:
             # post_new may perform validations and if it fails, we want to return the parsing
-            if parsing:
+            if parsing is not None:
                 return parsing
             raise
 
-- 
2.43.0


From 77af2f326526218bce9a923b2bde0cd9db10f374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:01 +0000
Subject: [PATCH 05/37] fix: post_new may replace the instance with a falsish
 one

---
 records/record.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 4868b20..a0ff20f 100644
--- a/records/record.py
+++ b/records/record.py
@@ -237,7 +237,9 @@ class RecordBase:
             self._hash = None
 
         try:
-            self = self.post_new() or self
+            replacement = self.post_new()
+            if replacement is not None:
+                self = replacement
         except Exception:
             # post_new may perform validations and if it fails, we want to return the parsing
             if parsing is not None:
-- 
2.43.0


From 9ba59dd256b937e5495972725b554dc977dbe9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 06/37] fix: attributes of a frozen record cannot be deleted

---
 records/record.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index a0ff20f..530674b 100644
--- a/records/record.py
+++ b/records/record.py
@@ -47,7 +47,7 @@ class ParseFailure(TypeError):
 
 
 T = TypeVar('T')
-FORBIDDEN_CLASS_ATTRS = ('__init__', '__setattr__', '__hash__')
+FORBIDDEN_CLASS_ATTRS = ('__init__', '__setattr__', '__delattr__', '__hash__')
 
 
 # noinspection PyNestedDecorators
@@ -138,9 +138,11 @@ class RecordBase:
         cls._unary_parse = unary_parse
         if frozen:
             cls.__setattr__ = RecordBase.__setattr__
+            cls.__delattr__ = RecordBase.__delattr__
             cls.__hash__ = RecordBase.__hash__
         else:
             cls.__setattr__ = object.__setattr__
+            cls.__delattr__ = object.__delattr__
             cls.__hash__ = None
 
         # all validator tokens go here
@@ -427,6 +429,10 @@ class RecordBase:
             return super().__setattr__(a, value)
         raise TypeError(f'{type(self).__qualname__} is frozen')
 
+    def __delattr__(self, a):
+        # note: if the class is non-frozen, this function will be overridden
+        raise TypeError(f'{type(self).__qualname__} is frozen')
+
     def __getnewargs_ex__(self):
         return (), self.to_dict()
 
-- 
2.43.0


From c953018fa502a5401f0daaf8e061cf70098d8efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:05 +0000
Subject: [PATCH 07/37] fix: comparing frozen records does not require their
 values to be hashable

---
 records/record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 530674b..353e7c9 100644
--- a/records/record.py
+++ b/records/record.py
@@ -285,7 +285,8 @@ class RecordBase:
     def __eq__(self, other):
         if type(self) != type(other):
             return False
-        if type(self).is_frozen() and hash(self) != hash(other):
+        if type(self).is_frozen() and None not in (self._hash, other._hash) and self._hash != other._hash:
+            # both hashes are already known, and differ
             return False
         for name in self._fields:
             if getattr(self, name) != getattr(other, name):
-- 
2.43.0


From ba38b1966caf8d6e9ad0b67ef6042be26000f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 08/37] fix: the cached hash of a frozen record is not carried
 over by pickling

---
 records/record.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/records/record.py b/records/record.py
index 353e7c9..f87817c 100644
--- a/records/record.py
+++ b/records/record.py
@@ -437,6 +437,10 @@ class RecordBase:
     def __getnewargs_ex__(self):
         return (), self.to_dict()
 
+    def __getstate__(self):
+        # the cached hash is only valid in the current process, so it must never be pickled
+        return self.__dict__, {'_hash': None}
+
     @parser
     @SelectableFactory
     @classmethod
-- 
2.43.0


From f7a9d12272df84a3fbc5fb5cb566be48bd0c688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 09/37] fix: the fields of a record class with inherited fields
 are a FieldDict

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index f87817c..6df7cee 100644
--- a/records/record.py
+++ b/records/record.py
@@ -122,7 +122,7 @@ class RecordBase:
                     raise ValueError(f'cannot override inherited field {k}')
                 parent_fields[k] = field
         if parent_fields:
-            cls._fields = {**parent_fields, **cls._fields}
+            cls._fields = FieldDict({**parent_fields, **cls._fields})
 
         if any(b for b in cls.__bases__ if b.__init__ not in (RecordBase.__init__, object.__init__)):
             warn(f'class {cls} has parents that implement __init__, the initializer will not be called!')
-- 
2.43.0


From e6f2c6125b4459a5f506ff093460e8da1c4d4718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 10/37] fix: a Select keeps its own copy of the keys it was
 created with

---
 records/select.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/records/select.py b/records/select.py
index 4b3678d..744adea 100644
--- a/records/select.py
+++ b/records/select.py
@@ -44,12 +44,13 @@ class Select:
             keys_to_remove = (keys_to_remove,)
         if isinstance(keys_to_maybe_remove, str):
             keys_to_maybe_remove = (keys_to_maybe_remove,)
-        self.keys_to_add = keys_to_add
-        self.keys_to_maybe_add = keys_to_maybe_add
-        self.keys_to_remove = keys_to_remove
-        self.keys_to_maybe_remove = keys_to_maybe_remove
-        self.keys_to_rename = keys_to_rename
-        self.keys_to_maybe_rename = keys_to_maybe_rename
+        # a Select is immutable and reusable, so it must not hold on to a caller's one-shot or mutable iterables
+        self.keys_to_add = tuple(keys_to_add)
+        self.keys_to_maybe_add = tuple(keys_to_maybe_add)
+        self.keys_to_remove = tuple(keys_to_remove)
+        self.keys_to_maybe_remove = tuple(keys_to_maybe_remove)
+        self.keys_to_rename = tuple(keys_to_rename)
+        self.keys_to_maybe_rename = tuple(keys_to_maybe_rename)
 
         # the Select's truthiness is cached
         self._bool = None
-- 
2.43.0


From 09791c715c612ff7bc65201b5d0d1e7b300bf34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 11/37] fix: from_instance accepts more than one additional
 mapping

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 6df7cee..37d82b6 100644
--- a/records/record.py
+++ b/records/record.py
@@ -486,7 +486,7 @@ class RecordBase:
             This class method is a registered parser that will be attempted when calling ``cls.parse``.
         """
         d = cls._to_dict(v, _rev_select=_select)
-        d.update(*maps, **kwargs)
+        d.update(ChainMap(*maps), **kwargs)
         return d
 
     @parser
-- 
2.43.0


From 2ef6e70797b46e9e266cf8166319bddd8bcaca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 12/37] fix: tokens annotating a Final hint are applied to the
 field's filler

---
 records/field.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/records/field.py b/records/field.py
index 31bd34c..33608bc 100644
--- a/records/field.py
+++ b/records/field.py
@@ -7,7 +7,7 @@ from records.fillers.filler import Filler
 from records.fillers.get_filler import get_filler
 from records.tags import Tag
 from records.utils.decorators import decorator_kw_method
-from records.utils.typing_compatible import get_args, get_origin, split_annotation
+from records.utils.typing_compatible import Annotated, get_args, get_origin, split_annotation
 
 try:
     from typing import Final
@@ -117,7 +117,12 @@ class RecordField:
         if meta_org is Final:
             if not owner.is_frozen():
                 raise TypeError('cannot declare Final field in non-frozen Record')
-            ret = cls.from_type_hint(get_args(origin)[0], owner=owner, **kwargs)
+            inner = get_args(origin)[0]
+            if args:
+                # tokens outside of the Final apply just like tokens inside of it
+                inner, inner_args = split_annotation(inner)
+                inner = Annotated[(inner, *inner_args, *args)]
+            ret = cls.from_type_hint(inner, owner=owner, **kwargs)
         else:
             filler = get_filler(th)
             ret = cls(filler=filler, owner=owner, **kwargs)
-- 
2.43.0


From b00aa92108bcb095303beaaf418a7afb0f3cbc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 13/37] fix: from_instance tolerates a missing attribute that
 the select may add

---
 records/record.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/records/record.py b/records/record.py
index 37d82b6..d6ffded 100644
--- a/records/record.py
+++ b/records/record.py
@@ -366,6 +366,8 @@ class RecordBase:
                 extraction_dict[old] = cls._MockField(name=old)
             for key, _ in _rev_select.keys_to_add:
                 extraction_dict.pop(key, _)
+            for key, _ in _rev_select.keys_to_maybe_add:
+                missing_ok.add(key)
         fields_to_extract = extraction_dict.values()
 
         def tuples():
-- 
2.43.0


From 010af341dad73b01f5de4b22668a55009fc055a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 14/37] fix: from_instance extracts keys that the select
 removes or renames before adding them anew

---
 records/record.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index d6ffded..4d1a8a4 100644
--- a/records/record.py
+++ b/records/record.py
@@ -353,6 +353,8 @@ class RecordBase:
         if _rev_select:
             missing_ok = set(missing_ok)
             extraction_dict = dict(extraction_dict)
+            for key, _ in _rev_select.keys_to_add:
+                extraction_dict.pop(key, _)
             for to_remove in _rev_select.keys_to_remove:
                 if to_remove in cls._fields:
                     continue
@@ -364,8 +366,6 @@ class RecordBase:
                 missing_ok.add(new)
                 missing_ok.add(old)
                 extraction_dict[old] = cls._MockField(name=old)
-            for key, _ in _rev_select.keys_to_add:
-                extraction_dict.pop(key, _)
             for key, _ in _rev_select.keys_to_maybe_add:
                 missing_ok.add(key)
         fields_to_extract = extraction_dict.values()
-- 
2.43.0


From 10868ca4bbdab8eb0dbc37456741208c2656c142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 15/37] fix: from_instance can remove an optional field whose
 value equals its default

---
 records/record.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 4d1a8a4..0fa9c31 100644
--- a/records/record.py
+++ b/records/record.py
@@ -356,8 +356,6 @@ class RecordBase:
             for key, _ in _rev_select.keys_to_add:
                 extraction_dict.pop(key, _)
             for to_remove in _rev_select.keys_to_remove:
-                if to_remove in cls._fields:
-                    continue
                 extraction_dict[to_remove] = cls._MockField(name=to_remove)
             for old, new in _rev_select.keys_to_rename:
                 missing_ok.add(new)
-- 
2.43.0


From 068506689608c78f21aaa94cc92116959aecf57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 16/37] fix: a filling error names its field even if the
 error's class cannot be constructed from a message

---
 records/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 0fa9c31..5b6d2ed 100644
--- a/records/record.py
+++ b/records/record.py
@@ -222,7 +222,7 @@ class RecordBase:
                 # try to create a parent error of the same type as the original error
                 try:
                     parent_error = type(e)(msg)
-                except TypeError:
+                except Exception:
                     parent_error = ValueError(msg)
 
                 raise parent_error from e
-- 
2.43.0


From 4bc15b0c51ad0382eade6762876af9c7963c7d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 17/37] fix: Whole rounds a value that is approximately whole
 instead of truncating it

---
 records/fillers/builtin_fillers/std_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index c90ce6a..ad6eb65 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -265,7 +265,7 @@ class Whole(OriginDependant):
         elif isinstance(v, Real):
             mod = v % 1
             if isclose(mod, 0) or isclose(mod, 1):
-                return origin(v, *self.args, **self.kwargs)
+                return origin(round(v), *self.args, **self.kwargs)
         elif isinstance(v, Complex):
             if v.imag == 0:
                 return self.func_args(origin, v.real)
-- 
2.43.0


From cce44bfdfa245b6ee136e0c7bf49a26d9b99d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 18/37] fix: LiteralEval raises a TypeError for any string that
 is not a literal

---
 records/fillers/builtin_fillers/std_fillers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index ad6eb65..237bbb5 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -67,8 +67,8 @@ class LiteralEval(GlobalCoercionToken):
             while isinstance(v, str):
                 try:
                     v = literal_eval(v)
-                except ValueError:
-                    raise TypeError
+                except Exception as e:
+                    raise TypeError from e
             return v
 
         return ret
-- 
2.43.0


From 415ee63a7d40eed04c871128d4e0910effe1fbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 19/37] fix: a string whose elements were changed by an inner
 filler is rebuilt from its elements

---
 records/fillers/builtin_fillers/typing_fillers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index c599917..b5751ae 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -264,6 +264,9 @@ class GenericIterableFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `elements` as its elements.
         """
+        if isinstance(initial, str):
+            # a string cannot be constructed from an iterable of its elements
+            return type(initial)(''.join(elements))
         return type(initial)(elements)
 
     def bind(self, owner_cls):
-- 
2.43.0


From 292af405486c2cae15f81e5761b757ae0bb362c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:43 +0000
Subject: [PATCH 20/37] fix: a bounded deque in a generic sequence field keeps
 its maxlen when rebuilt

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index b5751ae..43e5c1a 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -267,6 +267,8 @@ class GenericIterableFiller(WrapperFiller):
         if isinstance(initial, str):
             # a string cannot be constructed from an iterable of its elements
             return type(initial)(''.join(elements))
+        if isinstance(initial, deque):
+            return type(initial)(elements, initial.maxlen)
         return type(initial)(elements)
 
     def bind(self, owner_cls):
-- 
2.43.0


From d155c4120bb45b36f57959277f43649757b6ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 21/37] fix: a defaultdict in a generic mapping field keeps its
 default factory when rebuilt

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index 43e5c1a..d253c3b 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -329,6 +329,8 @@ class GenericMappingFiller(WrapperFiller):
         :param initial: The original filled argument. Must not be mutated.
         :return: A new instance of `initial`'s type, with `tuples` as its tuples.
         """
+        if isinstance(initial, defaultdict):
+            return type(initial)(initial.default_factory, tuples)
         return type(initial)(tuples)
 
     def bind(self, owner_cls):
-- 
2.43.0


From f76ebe2e7746c72ab6f53c0f1e57f94ff00a3058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 22/37] fix: deepcopy of a record uses the memo it is given
 even if it is empty

---
 records/record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/record.py b/records/record.py
index 5b6d2ed..753c2a8 100644
--- a/records/record.py
+++ b/records/record.py
@@ -660,7 +660,8 @@ class RecordBase:
         return type(self).from_instance(self)
 
     def __deepcopy__(self, memo=None):
-        memo = memo or {}
+        if memo is None:
+            memo = {}
         d = self.to_dict()
         d = deepcopy(d, memo)
         return self.from_mapping(d)
-- 
2.43.0


From 7a3db6f38c452229755cf53f0af6852a74ea4a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 23/37] fix: initializers of a record class or its mixins are
 never run, as the warning says

---
 records/record.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/records/record.py b/records/record.py
index 753c2a8..0ffe373 100644
--- a/records/record.py
+++ b/records/record.py
@@ -136,6 +136,8 @@ class RecordBase:
             # be default, unary parse is only enabled if that is the only way to treat a positional parameter
             unary_parse = len(cls._required_keys) != 1
         cls._unary_parse = unary_parse
+        # no other initializer may run, neither the class's own nor one inherited from a mixin
+        cls.__init__ = RecordBase.__init__
         if frozen:
             cls.__setattr__ = RecordBase.__setattr__
             cls.__delattr__ = RecordBase.__delattr__
-- 
2.43.0


From 822b0af2d387cb7f7a77c5e896249816e0f2a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 24/37] fix: from_instance does not replace a value that equals
 its default by a select's optional addition

---
 records/record.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/records/record.py b/records/record.py
index 0ffe373..535de63 100644
--- a/records/record.py
+++ b/records/record.py
@@ -368,6 +368,9 @@ class RecordBase:
                 extraction_dict[old] = cls._MockField(name=old)
             for key, _ in _rev_select.keys_to_maybe_add:
                 missing_ok.add(key)
+                if key in extraction_dict:
+                    # the value must not be replaced, even if it is the default
+                    extraction_dict[key] = cls._MockField(name=key)
         fields_to_extract = extraction_dict.values()
 
         def tuples():
-- 
2.43.0


From 1a39fb2f83239961b5beeac0cfb33226fdef3c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:43 +0000
Subject: [PATCH 25/37] fix: copies keep field values that equal the default
 without being it

---
 records/record.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/records/record.py b/records/record.py
index 535de63..32eb2df 100644
--- a/records/record.py
+++ b/records/record.py
@@ -659,15 +659,20 @@ class RecordBase:
             return extras.pickle.dumps(self, *args, **kwargs)
         extras.pickle.dump(self, io, *args, **kwargs)
 
+    def __copy_values(self):
+        # a value that merely equals the default of its field must not be replaced by the default
+        own = {k for k, f in type(self)._fields.items() if getattr(self, k, f.default) is not f.default}
+        return self.to_dict(whitelist_keys=own)
+
     def __copy__(self):
         if self.is_frozen():
             return self
-        return type(self).from_instance(self)
+        return type(self).from_mapping(self.__copy_values())
 
     def __deepcopy__(self, memo=None):
         if memo is None:
             memo = {}
-        d = self.to_dict()
+        d = self.__copy_values()
         d = deepcopy(d, memo)
         return self.from_mapping(d)
 
-- 
2.43.0


From d3d92abb62f195ed7d73d1157552c3d40d2b1bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:21 +0000
Subject: [PATCH 26/37] fix: validators of hollow sub-fillers are no longer
 silently skipped

---
 .../fillers/builtin_fillers/typing_fillers.py  | 18 ++++++++++++------
 records/fillers/filler.py                      |  9 +++++++++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index d253c3b..fba677a 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -47,7 +47,7 @@ class UnionFiller(Filler):
         * Then, all the successful sub-fillers are put through validation.
         * Validation succeeds only if exactly one sub-filler succeeded.
         """
-        if self.is_hollow():
+        if self.is_inert():
             return FillingSuccess(arg, TypePassKind.hollow)
         best_results = []
         best_key = float('inf')
@@ -80,6 +80,9 @@ class UnionFiller(Filler):
     def is_hollow(self) -> bool:
         return all(sf.is_hollow() for sf in self.sub_fillers)
 
+    def is_inert(self) -> bool:
+        return all(sf.is_inert() for sf in self.sub_fillers)
+
     def sub_filler(self, key):
         if isinstance(key, int):
             return self.sub_fillers[key]
@@ -132,6 +135,9 @@ class WrapperFiller(Filler):
     def is_hollow(self) -> bool:
         return self.inner_filler.is_hollow()
 
+    def is_inert(self) -> bool:
+        return self.inner_filler.is_inert()
+
     def apply(self, token):
         self.inner_filler.apply(token)
 
@@ -175,7 +181,7 @@ class TupleFiller(WrapperFiller):
         if len(self.inner_args) == 2 and self.inner_args[-1] is ...:
             inner_filler = self.sub_fillers[0]
             inner_filler.bind(owner_cls)
-            if not inner_filler.is_hollow():
+            if not inner_filler.is_inert():
                 if self.is_hollow():
                     raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -204,7 +210,7 @@ class TupleFiller(WrapperFiller):
 
             for f in self.sub_fillers:
                 f.bind(owner_cls)
-            if not all(inner_filler.is_hollow() for inner_filler in self.sub_fillers):
+            if not all(inner_filler.is_inert() for inner_filler in self.sub_fillers):
                 if self.is_hollow():
                     raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -275,7 +281,7 @@ class GenericIterableFiller(WrapperFiller):
         super().bind(owner_cls)
 
         self.element_filler.bind(owner_cls)
-        if not self.element_filler.is_hollow():
+        if not self.element_filler.is_inert():
             if self.is_hollow():
                 raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -337,7 +343,7 @@ class GenericMappingFiller(WrapperFiller):
         super().bind(owner_cls)
         self.key_filler.bind(owner_cls)
         self.value_filler.bind(owner_cls)
-        if not self.key_filler.is_hollow() or not self.value_filler.is_hollow():
+        if not self.key_filler.is_inert() or not self.value_filler.is_inert():
             if self.is_hollow():
                 raise TypeError('cannot use non-hollow inner fillers in a hollow filler')
 
@@ -389,7 +395,7 @@ class GenericFillerN(WrapperFiller):
         fillers = [get_filler(it) for it in self.inner_types]
         for f in fillers:
             f.bind(owner_cls)
-            if not f.is_hollow():
+            if not f.is_inert():
                 raise TypeError('A non-specialized filler cannot have non-hollow inner types')
 
 
diff --git a/records/fillers/filler.py b/records/fillers/filler.py
index d5172d7..dc5ddf9 100644
--- a/records/fillers/filler.py
+++ b/records/fillers/filler.py
@@ -121,6 +121,12 @@ class Filler(Generic[T]):
         """
         pass
 
+    def is_inert(self) -> bool:
+        """
+        :return: Whether or not the filler returns any input as is. A hollow filler that has validators is not inert.
+        """
+        return self.is_hollow()
+
     @abstractmethod
     def apply(self, token):
         """
@@ -271,3 +277,6 @@ class AnnotatedFiller(Filler, Generic[T]):
 
     def is_hollow(self) -> bool:
         return self.type_checking_style == TypeCheckStyle.hollow
+
+    def is_inert(self) -> bool:
+        return self.is_hollow() and not self.validators
-- 
2.43.0


From d2154a96b64793c1c7cabe7e67e75a9e18511157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:25 +0000
Subject: [PATCH 27/37] fix: rebuild counters and other mappings from a mapping
 of their filled items

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index fba677a..d92f8a7 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -337,7 +337,7 @@ class GenericMappingFiller(WrapperFiller):
         """
         if isinstance(initial, defaultdict):
             return type(initial)(initial.default_factory, tuples)
-        return type(initial)(tuples)
+        return type(initial)(dict(tuples))
 
     def bind(self, owner_cls):
         super().bind(owner_cls)
-- 
2.43.0


From efceedbcff7109d61a641e2eae307f60e3d772f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:19 +0000
Subject: [PATCH 28/37] fix: accept every class for Type[Any]

---
 records/fillers/builtin_fillers/typing_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index d92f8a7..f0853b6 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -444,7 +444,7 @@ def _typing(stored_type):
     if origin_cls == Literal:
         return LiteralFiller
     if origin_cls == type:
-        if has_args(stored_type):
+        if has_args(stored_type) and Any not in get_args(stored_type):
             return TypeFiller
         return GetFiller(type)
     if origin_cls == CallableBase:
-- 
2.43.0


From cc2b3084ddf945ed4bb402dab927c85da23d23d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:20 +0000
Subject: [PATCH 29/37] fix: a field of the empty tuple type accepts only the
 empty tuple

---
 records/fillers/builtin_fillers/typing_fillers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index f0853b6..a6b4998 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -5,7 +5,7 @@ import contextlib
 from collections import defaultdict, deque
 from collections.abc import Callable as CallableBase
 from itertools import chain, islice
-from typing import Any, Sequence, TypeVar, Union
+from typing import Any, Sequence, Tuple, TypeVar, Union
 
 from records.fillers.builtin_fillers.recurse import GetFiller
 from records.fillers.filler import (AnnotatedFiller, Filler, TypeMatch, FillingSuccess, TypePassKind)
@@ -449,6 +449,9 @@ def _typing(stored_type):
         return GetFiller(type)
     if origin_cls == CallableBase:
         return GetFiller(callable)
+    if origin_cls is tuple and stored_type is not Tuple and not get_args(stored_type):
+        # the empty tuple type
+        return TupleFiller
     if has_args(stored_type):
         t = genric_origin_map.get(origin_cls)
         if t:
-- 
2.43.0


From 6ccf41106b78502a375e62d11b3d13670467624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 30/37] fix: Loose constrained to no types accepted every input

---
 records/fillers/builtin_fillers/std_fillers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index 237bbb5..14ed586 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -124,7 +124,7 @@ class Loose(LooseMixin):
         self._type_constraint: Union[None, type, Tuple[type, ...]] = None
 
     def func_args(self, origin, v):
-        if self._type_constraint and not isinstance(v, self._type_constraint):
+        if self._type_constraint is not None and not isinstance(v, self._type_constraint):
             raise TypeError(f'must be of type {self._type_constraint}')
         return origin(v, *self.args, **self.kwargs)
 
-- 
2.43.0


From f61d1f73f25ef14e0457f97f1f3e229dd741f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:41 +0000
Subject: [PATCH 31/37] fix: a wrapped factory of a validator token was
 registered as a coercer

---
 records/fillers/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/records/fillers/util.py b/records/fillers/util.py
index edf8f1a..732871a 100644
--- a/records/fillers/util.py
+++ b/records/fillers/util.py
@@ -1,3 +1,4 @@
+from inspect import unwrap
 from typing import Optional, Type, TypeVar
 
 T = TypeVar('T')
@@ -14,7 +15,7 @@ def _as_instance(obj, cls: Type[T]) -> Optional[T]:
         return obj
     elif isinstance(obj, type) and issubclass(obj, cls):
         return obj()
-    wrapped = getattr(obj, '__wrapped__', None)
-    if wrapped is not None:
+    wrapped = unwrap(obj)
+    if isinstance(wrapped, type) and issubclass(wrapped, cls):
         return obj()
     return None
-- 
2.43.0


From 3013d9697489da56b2bb2154bda1ba455f15d1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 32/37] fix: the tokens of a NewType's annotated supertype were
 dropped

---
 records/fillers/get_filler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/records/fillers/get_filler.py b/records/fillers/get_filler.py
index d440fe3..7f181d8 100644
--- a/records/fillers/get_filler.py
+++ b/records/fillers/get_filler.py
@@ -56,7 +56,9 @@ def get_annotated_filler(origin, args: tuple):
         # builtin functions to create a filler class
         ret = checker(origin)
         if isinstance(ret, GetFiller):
-            return get_annotated_filler(ret.new_origin, args)
+            # the new origin can be annotated in its own right (a NewType of an Annotated)
+            new_origin, new_args = split_annotation(ret.new_origin)
+            return get_annotated_filler(new_origin, (*new_args, *args))
         elif ret:
             return ret(origin, args)
     if isinstance(origin, type):
-- 
2.43.0


From 441958367b1b0c4e626797e44229642350c48da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 33/37] fix: annotations with unhashable metadata could not be
 used in a class

---
 records/fillers/get_filler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/records/fillers/get_filler.py b/records/fillers/get_filler.py
index 7f181d8..e0ae643 100644
--- a/records/fillers/get_filler.py
+++ b/records/fillers/get_filler.py
@@ -48,7 +48,11 @@ def get_annotated_filler(origin, args: tuple):
         usually it's preferable to call `get_filler` with `Annotated`.
     """
     # there are 4 ways a filler is made:
-    blt = builtin_filler_map.get(origin)
+    try:
+        blt = builtin_filler_map.get(origin)
+    except TypeError:
+        # unhashable annotations (for example, a generic with unhashable metadata) are never in the mapping
+        blt = None
     if blt:
         # a mapping of types to filler classes (for shourtcuts)
         return blt(origin, args)
-- 
2.43.0


From 3d570909f09414c7383310ae2cab546ca5b35863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:21 +0000
Subject: [PATCH 34/37] fix: tokens inside a generic type without a filler of
 its own were silently ignored

---
 records/fillers/get_filler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/records/fillers/get_filler.py b/records/fillers/get_filler.py
index e0ae643..5483b5d 100644
--- a/records/fillers/get_filler.py
+++ b/records/fillers/get_filler.py
@@ -1,7 +1,7 @@
 from records.fillers.builtin_fillers.recurse import GetFiller
 from records.fillers.builtin_fillers.repo import builtin_filler_checkers, builtin_filler_map
 from records.fillers.filler import Filler, TypeCheckStyle, TypePassKind, FillingSuccess
-from records.utils.typing_compatible import split_annotation
+from records.utils.typing_compatible import get_args, split_annotation
 
 
 class DumbFiller(Filler):
@@ -20,6 +20,11 @@ class DumbFiller(Filler):
         super().bind(owner_cls)
         if owner_cls.default_type_check_style() is not TypeCheckStyle.hollow:
             raise TypeError(f'cannot have type checking for origin type {self.origin}')
+        for inner_type in get_args(self.origin) or ():
+            inner_filler = get_filler(inner_type)
+            inner_filler.bind(owner_cls)
+            if not inner_filler.is_inert():
+                raise TypeError(f'cannot have non-hollow inner types for origin type {self.origin}')
 
     def apply(self, token):
         raise TypeError(f'cannot have tokens for origin type {self.origin}')
-- 
2.43.0


From e1bb652359c2ebe891743ac433faeba198b59031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 35/37] fix: a NewType over None was not recognized as a type

---
 records/fillers/builtin_fillers/typing_fillers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/records/fillers/builtin_fillers/typing_fillers.py b/records/fillers/builtin_fillers/typing_fillers.py
index a6b4998..b7aa0f9 100644
--- a/records/fillers/builtin_fillers/typing_fillers.py
+++ b/records/fillers/builtin_fillers/typing_fillers.py
@@ -431,9 +431,8 @@ def has_args(v):
 
 @typing_checkers.append
 def _typing(stored_type):
-    supertype = getattr(stored_type, '__supertype__', None)  # handle newtype
-    if supertype:
-        return GetFiller(supertype)
+    if hasattr(stored_type, '__supertype__'):  # handle newtype
+        return GetFiller(stored_type.__supertype__)
 
     if stored_type is Any:
         return GetFiller(object)
-- 
2.43.0


From ec3b1a77cbf12466e1727c8bb5c44bbe2fc08edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:31 +0000
Subject: [PATCH 36/37] fix: a select modified the mapping returned by the
 factory, which may be the caller's own

---
 records/select.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/records/select.py b/records/select.py
index 744adea..1d7ee9f 100644
--- a/records/select.py
+++ b/records/select.py
@@ -104,16 +104,13 @@ class Select:
     def __call__(self, mapping: Mapping[str, Any]) -> Mapping[str, Any]:
         """
         :param mapping: The mapping to use as input
-        :return: A modified ``Mapping`` as specified by ``self``
-
-        .. warning::
-            This function may modify ``mapping``.
+        :return: A modified ``Mapping`` as specified by ``self``. ``mapping`` itself is never modified, but is returned
+         as-is if ``self`` is empty.
         """
-        # this function may well alter the source mapping
         if not self:
             return mapping
-        if not isinstance(mapping, dict):
-            mapping = dict(mapping)
+        # the mapping may belong to the caller
+        mapping = dict(mapping)
 
         for kti in self.keys_to_remove:
             mapping.pop(kti)
-- 
2.43.0


From 4035ce7eb66b216ac689769b93ca8e97bb0eff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 37/37] fix: an evaluated expression could change the names
 seen by later evaluations

---
 records/fillers/builtin_fillers/std_fillers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/records/fillers/builtin_fillers/std_fillers.py b/records/fillers/builtin_fillers/std_fillers.py
index 14ed586..e0246ff 100644
--- a/records/fillers/builtin_fillers/std_fillers.py
+++ b/records/fillers/builtin_fillers/std_fillers.py
@@ -45,7 +45,8 @@ class Eval(GlobalCoercionToken):
             if not isinstance(v, str):
                 raise TypeError
             try:
-                ret = eval(v, {'__builtins__': ns})
+                # an evaluated expression can reach its builtins, they must not be shared with later evaluations
+                ret = eval(v, {'__builtins__': dict(ns)})
             except Exception as e:
                 raise TypeError from e
 
-- 
2.43.0

