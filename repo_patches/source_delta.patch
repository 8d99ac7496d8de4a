From 15c0b2bebe9333f1d9db171103b8fdf5f6a5f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:26 +0000
Subject: [PATCH 01/38] fix: hasprefix on lists compares with a prefix, not the
 whole list

---
 jsonclasses/modifiers/hasprefix_modifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/hasprefix_modifier.py b/jsonclasses/modifiers/hasprefix_modifier.py
index bc2ed94..22ff304 100644
--- a/jsonclasses/modifiers/hasprefix_modifier.py
+++ b/jsonclasses/modifiers/hasprefix_modifier.py
@@ -15,7 +15,8 @@ class HasPrefixModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         if isinstance(ctx.val, list):
-            if not ctx.val[:len(ctx.val)] == self.resolve_param(self.prefix, ctx):
+            prefix = self.resolve_param(self.prefix, ctx)
+            if not ctx.val[:len(prefix)] == prefix:
                 ctx.raise_vexc('prefix is not found')
         elif type(ctx.val) is str:
             if not ctx.val.startswith(self.resolve_param(self.prefix, ctx)):
-- 
2.43.0


From 4c289c860256dd8ed87bf13636848a634bb0e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:26 +0000
Subject: [PATCH 02/38] fix: the empty list is a suffix of every list in
 hassuffix and issuffixof

---
 jsonclasses/modifiers/hassuffix_modifier.py  | 3 ++-
 jsonclasses/modifiers/issuffixof_modifier.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/hassuffix_modifier.py b/jsonclasses/modifiers/hassuffix_modifier.py
index db23f28..c3d0d25 100644
--- a/jsonclasses/modifiers/hassuffix_modifier.py
+++ b/jsonclasses/modifiers/hassuffix_modifier.py
@@ -15,7 +15,8 @@ class HasSuffixModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         if isinstance(ctx.val, list):
-            if not ctx.val[-len(self.resolve_param(self.suffix, ctx)):] == self.resolve_param(self.suffix, ctx):
+            suffix = self.resolve_param(self.suffix, ctx)
+            if len(suffix) > 0 and not ctx.val[-len(suffix):] == suffix:
                 ctx.raise_vexc('suffix is not found')
         elif type(ctx.val) is str:
             if not ctx.val.endswith(self.resolve_param(self.suffix, ctx)):
diff --git a/jsonclasses/modifiers/issuffixof_modifier.py b/jsonclasses/modifiers/issuffixof_modifier.py
index d496d41..f9328ae 100644
--- a/jsonclasses/modifiers/issuffixof_modifier.py
+++ b/jsonclasses/modifiers/issuffixof_modifier.py
@@ -15,7 +15,8 @@ class IsSuffixOfModifier(Modifier):
 
     def validate(self, ctx: Ctx) -> None:
         if isinstance(ctx.val, list):
-            if not self.resolve_param(self.suffix, ctx)[-len(ctx.val):] == ctx.val:
+            suffix = self.resolve_param(self.suffix, ctx)
+            if len(ctx.val) > 0 and not suffix[-len(ctx.val):] == ctx.val:
                 ctx.raise_vexc('suffix is not found')
         elif type(ctx.val) is str:
             if not self.resolve_param(self.suffix, ctx).endswith(ctx.val):
-- 
2.43.0


From 1da9d5419e3d2124b49f676b50bdbaaae8a34e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:46 +0000
Subject: [PATCH 03/38] fix: a hex color is exactly six hex digits, with
 nothing after them

---
 jsonclasses/modifiers/hexcolor_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/hexcolor_modifier.py b/jsonclasses/modifiers/hexcolor_modifier.py
index 8751d34..fe95ec4 100644
--- a/jsonclasses/modifiers/hexcolor_modifier.py
+++ b/jsonclasses/modifiers/hexcolor_modifier.py
@@ -1,7 +1,7 @@
 """module for hexcolor modifier."""
 from __future__ import annotations
 from typing import Any, cast, TYPE_CHECKING
-from re import compile, match
+from re import compile, fullmatch
 from .modifier import Modifier
 if TYPE_CHECKING:
     from ..ctx import Ctx
@@ -20,5 +20,5 @@ class HexColorModifier(Modifier):
         return ctx.val
 
     def validate(self, ctx: Ctx) -> None:
-        if isinstance(ctx.val, str) and match(hex_color_regex, ctx.val) is None:
+        if isinstance(ctx.val, str) and fullmatch(hex_color_regex, ctx.val) is None:
             ctx.raise_vexc('value is not hex color string')
\ No newline at end of file
-- 
2.43.0


From 6b8f98a72bc2a8799b52b3713dda74fa8f0dffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:14 +0000
Subject: [PATCH 04/38] fix: oneisvalid calls the given validator functions

---
 jsonclasses/modifiers/oneisvalid_modifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/oneisvalid_modifier.py b/jsonclasses/modifiers/oneisvalid_modifier.py
index fc55979..8fbf1cf 100644
--- a/jsonclasses/modifiers/oneisvalid_modifier.py
+++ b/jsonclasses/modifiers/oneisvalid_modifier.py
@@ -34,9 +34,9 @@ class OneIsValidModifier(Modifier):
             else:
                 params_len = len(signature(item).parameters)
                 if params_len == 1:
-                    result = callable(ctx.val)
+                    result = item(ctx.val)
                 elif params_len == 2:
-                    result = callable(ctx.val, ctx)
+                    result = item(ctx.val, ctx)
                 if result is None:
                     return
                 if result is True:
-- 
2.43.0


From 8355da5369bb5d9f284999272ec0b0c76f42f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:14 +0000
Subject: [PATCH 05/38] fix: unknown enum input values are reported and input
 by value does not rule out input by name

---
 jsonclasses/modifiers/enum_modifier.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/modifiers/enum_modifier.py b/jsonclasses/modifiers/enum_modifier.py
index 2e35866..5e30041 100644
--- a/jsonclasses/modifiers/enum_modifier.py
+++ b/jsonclasses/modifiers/enum_modifier.py
@@ -41,7 +41,7 @@ class EnumModifier(Modifier):
                 return enum_class(ctx.val)
             except ValueError:
                 pass
-        elif isinstance(ctx.val, str):
+        if isinstance(ctx.val, str):
             if enum_input.__contains__(EnumInput.NAME):
                 try:
                     return enum_class[ctx.val]
@@ -52,9 +52,7 @@ class EnumModifier(Modifier):
                     return enum_class[ctx.val.upper()]
                 except KeyError:
                     pass
-            ctx.raise_vexc('unknown enum value')
-        else:
-            ctx.raise_vexc('unknown enum value')
+        ctx.raise_vexc('unknown enum value')
 
     def validate(self, ctx: Ctx) -> None:
         if ctx.val is None:
-- 
2.43.0


From da02f57f9075fb00927d3c42a54c45d2427a1fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:33 +0000
Subject: [PATCH 06/38] fix: tojson writes aware datetimes in UTC and without
 cutting into the UTC offset

---
 jsonclasses/modifiers/datetime_modifier.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/datetime_modifier.py b/jsonclasses/modifiers/datetime_modifier.py
index 6752e62..277f1d3 100644
--- a/jsonclasses/modifiers/datetime_modifier.py
+++ b/jsonclasses/modifiers/datetime_modifier.py
@@ -34,4 +34,9 @@ class DatetimeModifier(TypeModifier):
             return ctx.val
 
     def tojson(self, ctx: Ctx) -> Any:
-        return None if ctx.val is None else ctx.val.isoformat()[:23] + 'Z'
+        if ctx.val is None:
+            return None
+        val = ctx.val
+        if val.tzinfo is not None:
+            val = val.astimezone(timezone.utc).replace(tzinfo=None)
+        return val.isoformat()[:23] + 'Z'
-- 
2.43.0


From f42bc0043b8d3d3a1b02b93c433f7958b0a98af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:33 +0000
Subject: [PATCH 07/38] fix: a UTC offset in datetime input is not discarded

---
 jsonclasses/modifiers/datetime_modifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/datetime_modifier.py b/jsonclasses/modifiers/datetime_modifier.py
index 277f1d3..df384fd 100644
--- a/jsonclasses/modifiers/datetime_modifier.py
+++ b/jsonclasses/modifiers/datetime_modifier.py
@@ -22,8 +22,10 @@ class DatetimeModifier(TypeModifier):
         elif isinstance(ctx.val, str):
             try:
                 retval = datetime.fromisoformat(ctx.val.replace('Z', ''))
+                if retval.tzinfo is not None:
+                    return retval.astimezone(timezone.utc)
                 return retval.replace(tzinfo=timezone.utc)
-            except ValueError:
+            except (ValueError, OverflowError):
                 ctx.raise_vexc('wrong datetime format')
         elif type(ctx.val) is date:
             retval = datetime(ctx.val.year,
-- 
2.43.0


From f7efbed653c043886fe20882b0e1b555661386fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:07 +0000
Subject: [PATCH 08/38] fix: field permission modifiers call the given checker

---
 jsonclasses/modifiers/cancu_modifier.py | 10 +++++-----
 jsonclasses/modifiers/canr_modifier.py  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/jsonclasses/modifiers/cancu_modifier.py b/jsonclasses/modifiers/cancu_modifier.py
index 9c336ae..71745c0 100644
--- a/jsonclasses/modifiers/cancu_modifier.py
+++ b/jsonclasses/modifiers/cancu_modifier.py
@@ -21,15 +21,15 @@ class CanCUModifier(Modifier):
         if ctx.operator is None:
             ctx.raise_vexc('operator not present')
         if callable(self.checker):
-            params_len = len(signature(self.op_callable).parameters)
+            params_len = len(signature(self.checker).parameters)
             if params_len == 1:
-                result = self.op_callable(ctx.operator)
+                result = self.checker(ctx.operator)
             elif params_len == 2:
-                result = self.op_callable(ctx.operator, ctx.owner)
+                result = self.checker(ctx.operator, ctx.owner)
             elif params_len == 3:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val)
             elif params_len == 4:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val, ctx)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val, ctx)
             if result is None:
                 return
             if result is True:
diff --git a/jsonclasses/modifiers/canr_modifier.py b/jsonclasses/modifiers/canr_modifier.py
index 77dc639..44b4c38 100644
--- a/jsonclasses/modifiers/canr_modifier.py
+++ b/jsonclasses/modifiers/canr_modifier.py
@@ -22,15 +22,15 @@ class CanRModifier(Modifier):
         if ctx.operator is None:
             return None
         if callable(self.checker):
-            params_len = len(signature(self.op_callable).parameters)
+            params_len = len(signature(self.checker).parameters)
             if params_len == 1:
-                result = self.op_callable(ctx.operator)
+                result = self.checker(ctx.operator)
             elif params_len == 2:
-                result = self.op_callable(ctx.operator, ctx.owner)
+                result = self.checker(ctx.operator, ctx.owner)
             elif params_len == 3:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val)
             elif params_len == 4:
-                result = self.op_callable(ctx.operator, ctx.owner, ctx.val, ctx)
+                result = self.checker(ctx.operator, ctx.owner, ctx.val, ctx)
             if result is None:
                 return ctx.val
             if result is True:
-- 
2.43.0


From 28d76147c028719902ea79ec327fc12ba09e4a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 09/38] fix: owned lists report the true index of inserted
 items and accept any iterable

---
 jsonclasses/olist.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 456e1b3..7c3f744 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -52,6 +52,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         self.owner.__olist_add__(self, len(self) - 1, value)
 
     def extend(self, values: Iterable[_T]) -> None:
+        values = list(values)
         curlen = len(self)
         if len(values) > 0:
             self.owner.__olist_will_change__(self)
@@ -64,7 +65,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         curlen = len(self)
         self.owner.__olist_will_change__(self)
         super().insert(index, value)
-        idx = min(curlen, index)
+        idx = max(0, curlen + index) if index < 0 else min(curlen, index)
         self.owner.__olist_add__(self, idx, value)
 
     def remove(self, value: _T) -> None:
@@ -99,6 +100,7 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         return super().__add__(x)
 
     def __iadd__(self, x: Iterable[_T]) -> OwnedList[_T]:
+        x = list(x)
         if len(x) > 0:
             self.owner.__olist_will_change__(self)
         curlen = len(self)
@@ -148,16 +150,13 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         elif isinstance(args[0], slice):
             slc: slice = args[0]
             remove_list = self[slc]
-            start = slc.start or 0
-            step = slc.step or 1
-            if start < 0:
-                start = len_self + start
-            start = min(max(0, start), len_self)
+            add_list = list(args[1])
+            start, _, step = slc.indices(len_self)
             self.owner.__olist_will_change__(self)
-            super().__setitem__(*args)
+            super().__setitem__(slc, add_list)
             for item in remove_list:
                 self.owner.__olist_del__(self, item)
-            for item in args[1]:
+            for item in add_list:
                 self.owner.__olist_add__(self, start, item)
                 start += step
         else:
-- 
2.43.0


From 58c6e82ca310fdfe41eb40df77f68daadbbeae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:36 +0000
Subject: [PATCH 10/38] fix: owned dicts keep items given by iterators and
 report setdefault without a default

---
 jsonclasses/odict.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/jsonclasses/odict.py b/jsonclasses/odict.py
index aa941bc..80abf36 100644
--- a/jsonclasses/odict.py
+++ b/jsonclasses/odict.py
@@ -57,7 +57,7 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
     def pop(self, *args) -> Union[_VT, _T]:
         len_args = len(args)
         if not (1 <= len_args <= 2):
-            super().pop(*args)
+            return super().pop(*args)
         try:
             self.owner.__odict_will_change__(self)
             retval = super().pop(args[0])
@@ -77,7 +77,7 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
     def setdefault(self, *args) -> _VT:
         will_set = False
         len_args = len(args)
-        if len_args == 2:
+        if 1 <= len_args <= 2:
             try:
                 self[args[0]]
             except KeyError:
@@ -86,7 +86,8 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
             self.owner.__odict_will_change__(self)
         retval = super().setdefault(*args)
         if will_set:
-            self.owner.__odict_add__(self, args[0], args[1])
+            self.owner.__odict_add__(self, args[0], retval)
+            return self[args[0]]
         return retval
 
     def update(self, *args, **kwargs: _VT) -> None:
@@ -100,10 +101,10 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
         elif isinstance(args[0], Iterable):
             new_dict = dict(args[0], **kwargs)
         else:
-            new_dict = {}
+            return super().update(*args, **kwargs)
         items_to_del = [i[1] for i in self.items() if i[0] in new_dict.keys()]
         self.owner.__odict_will_change__(self)
-        super().update(*args, **kwargs)
+        super().update(new_dict)
         for v in items_to_del:
             self.owner.__odict_del__(self, v)
         for k, v in new_dict.items():
@@ -136,7 +137,7 @@ class OwnedDict(dict, MutableMapping[_KT, _VT], Generic[_KT, _VT]):
         new_dict = dict(rhs)
         items_to_del = [i[1] for i in self.items() if i[0] in new_dict.keys()]
         self.owner.__odict_will_change__(self)
-        retval = super().__ior__(rhs)
+        retval = super().__ior__(new_dict)
         for v in items_to_del:
             self.owner.__odict_del__(self, v)
         for k, v in new_dict.items():
-- 
2.43.0


From ba56fb3f84d34666d31a0eae4e21d8c48355af44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:42 +0000
Subject: [PATCH 11/38] fix: adding a list or dict to an owned collection does
 not recurse forever

---
 jsonclasses/jsonclassify.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index e226dc8..a128967 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -803,11 +803,11 @@ def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
 
 def __odict_add__(self, odict: OwnedDict, key: str, val: Any) -> None:
     if isinstance(val, dict):
-        odict[key] = to_owned_dict(self, val,
-                                   concat_keypath(odict.keypath, key))
+        dict.__setitem__(odict, key, to_owned_dict(
+            self, val, concat_keypath(odict.keypath, key)))
     if isinstance(val, list):
-        odict[key] = to_owned_list(self, val,
-                                   concat_keypath(odict.keypath, key))
+        dict.__setitem__(odict, key, to_owned_list(
+            self, val, concat_keypath(odict.keypath, key)))
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
@@ -866,11 +866,11 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
                     raise ValueError('a referenced object must have a valid primary key')
                 rlist.insert(idx, val._id)
     if isinstance(val, dict):
-        olist[idx] = to_owned_dict(self, val,
-                                   concat_keypath(olist.keypath, idx))
+        list.__setitem__(olist, idx, to_owned_dict(
+            self, val, concat_keypath(olist.keypath, idx)))
     if isinstance(val, list):
-        olist[idx] = to_owned_list(self, val,
-                                   concat_keypath(olist.keypath, idx))
+        list.__setitem__(olist, idx, to_owned_list(
+            self, val, concat_keypath(olist.keypath, idx)))
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
-- 
2.43.0


From 4e995af7789483b82468bdbe991ecab8f416a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:19 +0000
Subject: [PATCH 12/38] fix: removing from an owned list reports the item that
 was removed

---
 jsonclasses/olist.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/olist.py b/jsonclasses/olist.py
index 7c3f744..fb7a377 100644
--- a/jsonclasses/olist.py
+++ b/jsonclasses/olist.py
@@ -69,9 +69,10 @@ class OwnedList(list, MutableSequence[_T], Generic[_T]):
         self.owner.__olist_add__(self, idx, value)
 
     def remove(self, value: _T) -> None:
+        removed = self[self.index(value)] if value in self else value
         self.owner.__olist_will_change__(self)
         super().remove(value)
-        self.owner.__olist_del__(self, value)
+        self.owner.__olist_del__(self, removed)
 
     def sort(self, **kwargs) -> None:  # TODO: fix argument type hint
         self.owner.__olist_will_change__(self)
-- 
2.43.0


From fb08cdb6756218d4234b5e0090beb43a18c82e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:13 +0000
Subject: [PATCH 13/38] fix: the passed-in value reaches the types of a union

---
 jsonclasses/ctx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/ctx.py b/jsonclasses/ctx.py
index f418242..4a1f916 100644
--- a/jsonclasses/ctx.py
+++ b/jsonclasses/ctx.py
@@ -149,7 +149,8 @@ class Ctx(NamedTuple):
                    original=self.original, ctxcfg=self.ctxcfg, keypatho=self.keypatho, fkeypatho=self.fkeypatho,
                    keypathr=self.keypathr, fkeypathr=self.fkeypathr, keypathp=self.keypathp, fkeypathp=self.fkeypathp,
                    keypathh=self.keypathh, fkeypathh=self.fkeypathh, fdef=fdef,
-                   operator=self.operator, mgraph=self.mgraph, idchain=self.idchain)
+                   operator=self.operator, mgraph=self.mgraph, idchain=self.idchain,
+                   passin=self.passin)
 
     def nval(self: Ctx, newval: Any) -> Ctx:
         return Ctx(root=self.root, owner=self.owner, parent=self.parent,
-- 
2.43.0


From 6c01effd74358289c81f91df51ceb3fd27ae3d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:23 +0000
Subject: [PATCH 14/38] fix: objects of same-named classes are not taken for
 each other in object graphs and marks

---
 jsonclasses/mgraph.py |  8 ++++----
 jsonclasses/ograph.py | 16 +++++++---------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/jsonclasses/mgraph.py b/jsonclasses/mgraph.py
index ecbd0c9..70049aa 100644
--- a/jsonclasses/mgraph.py
+++ b/jsonclasses/mgraph.py
@@ -58,12 +58,12 @@ class MGraph:
     """
 
     def __init__(self):
-        self._class_tables: dict[str, MarkClassTable] = {}
+        self._class_tables: dict[type, MarkClassTable] = {}
 
     def class_table(self, cls: type) -> MarkClassTable[JObject]:
-        if self._class_tables.get(cls.__name__) is None:
-            self._class_tables[cls.__name__] = MarkClassTable()
-        return self._class_tables[cls.__name__]
+        if self._class_tables.get(cls) is None:
+            self._class_tables[cls] = MarkClassTable()
+        return self._class_tables[cls]
 
     def put(self, object: JObject) -> None:
         self.class_table(object.__class__).put(object)
diff --git a/jsonclasses/ograph.py b/jsonclasses/ograph.py
index 216b215..210f9f5 100644
--- a/jsonclasses/ograph.py
+++ b/jsonclasses/ograph.py
@@ -18,7 +18,7 @@ class OGraph:
     def __init__(self: OGraph,
                  objects: Union[list[JObject],
                                 JObject, None] = None) -> None:
-        self._maps: dict[str, dict[str, JObject]] = {}
+        self._maps: dict[type, dict[str, JObject]] = {}
         try:
             if isinstance(objects, list):
                 for object in objects:
@@ -36,10 +36,10 @@ class OGraph:
         return lst.__iter__()
 
     def _object_map(self: OGraph,
-                    name: str) -> dict[str, JObject]:
-        if self._maps.get(name) is None:
-            self._maps[name] = {}
-        return self._maps[name]
+                    cls: type) -> dict[str, JObject]:
+        if self._maps.get(cls) is None:
+            self._maps[cls] = {}
+        return self._maps[cls]
 
     def _check_get_str_id(self: OGraph, object: JObject) -> str:
         primary_value = object._id
@@ -56,8 +56,7 @@ class OGraph:
         overrides the existing one on the graph.
         """
         primary_value = self._check_get_str_id(object)
-        class_name = object.__class__.__name__
-        object_map = self._object_map(class_name)
+        object_map = self._object_map(object.__class__)
         object_map[primary_value] = object
 
     def has(self: OGraph, object: JObject) -> bool:
@@ -69,8 +68,7 @@ class OGraph:
         """Get an object from the graph which matches the provided object.
         """
         primary_value = self._check_get_str_id(object)
-        class_name = object.__class__.__name__
-        object_map = self._object_map(class_name)
+        object_map = self._object_map(object.__class__)
         return object_map.get(primary_value)
 
     def copy(self: OGraph) -> OGraph:
-- 
2.43.0


From c55992545a011c31757f145c68a1209edafa9e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:00 +0000
Subject: [PATCH 15/38] fix: a value that is no object in an object field is
 reported, not a crash

---
 jsonclasses/modifiers/instanceof_modifier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index b5526ba..ee5aa56 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -29,16 +29,16 @@ class InstanceOfModifier(Modifier):
         # only validate if there is a value
         if ctx.val is None:
             return
+        cls = cast(type, ctx.fdef.inst_cls)
+        if not isinstance(ctx.val, cls):
+            ctx.raise_vexc(f'value is not instance of {cls.__name__}')
         # only validate an instance once in the circular referenced map
         if ctx.mgraph.has(ctx.val):
             return
         ctx.mgraph.put(ctx.val)
-        cls = cast(type, ctx.fdef.inst_cls)
         all_fields = ctx.ctxcfg.all_fields
         if all_fields is None:
             all_fields = cls.cdef.jconf.validate_all_fields
-        if not isinstance(ctx.val, cls):
-            ctx.raise_vexc(f'value is not instance of {cls.__name__}')
         only_validate_modified = not ctx.val.is_new
         modified_fields = []
         if only_validate_modified:
-- 
2.43.0


From b0c33d65d46e12538ee0598d990819740dd7943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:32 +0000
Subject: [PATCH 16/38] fix: repeated input of one object does not reset its
 write-protected fields

---
 jsonclasses/modifiers/instanceof_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index ee5aa56..26d7859 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -168,7 +168,7 @@ class InstanceOfModifier(Modifier):
                 if field_value is None:
                     allow_write_field = False
             if not allow_write_field:
-                if ctx.ctxcfg.fill_dest_blanks:
+                if ctx.ctxcfg.fill_dest_blanks and not soft_apply_mode:
                     if field.fdef.fstore != FStore.CALCULATED:
                         self._fill_default_value(field, dest, ctx)
                 continue
-- 
2.43.0


From f2f3e441625ee9e45b56f36fff773903e2bcedd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:09 +0000
Subject: [PATCH 17/38] fix: write rules of a reference field hold for its
 reference key

---
 jsonclasses/modifiers/instanceof_modifier.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 26d7859..6c934be 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -146,11 +146,18 @@ class InstanceOfModifier(Modifier):
                     if fdef.fstore == FStore.LOCAL_KEY:
                         tsfm = dest.__class__.cdef.jconf.ref_name_strategy
                         refname = tsfm(field)
-                        if ctx.val.get(refname) is not None:
-                            setattr(dest, refname, ctx.val.get(refname))
-                        crefname = dest.__class__.cdef.jconf.output_key_strategy(refname)
-                        if ctx.val.get(crefname) is not None:
-                            setattr(dest, refname, ctx.val.get(crefname))
+                        allow_write_ref = True
+                        if fdef.write_rule == WriteRule.NO_WRITE:
+                            allow_write_ref = False
+                        if fdef.write_rule == WriteRule.WRITE_ONCE:
+                            if getattr(dest, refname) not in (None, []):
+                                allow_write_ref = False
+                        if allow_write_ref:
+                            if ctx.val.get(refname) is not None:
+                                setattr(dest, refname, ctx.val.get(refname))
+                            crefname = dest.__class__.cdef.jconf.output_key_strategy(refname)
+                            if ctx.val.get(crefname) is not None:
+                                setattr(dest, refname, ctx.val.get(crefname))
                     pass
                 elif ctx.ctxcfg.fill_dest_blanks and not soft_apply_mode:
                     if field.fdef.fstore != FStore.CALCULATED:
-- 
2.43.0


From 68477e8a41b7b930a499b5243ab975fb2f1c7e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:14 +0000
Subject: [PATCH 18/38] fix: the reference key of a writeonly field is not
 output

---
 jsonclasses/modifiers/instanceof_modifier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/modifiers/instanceof_modifier.py b/jsonclasses/modifiers/instanceof_modifier.py
index 6c934be..8f3b034 100644
--- a/jsonclasses/modifiers/instanceof_modifier.py
+++ b/jsonclasses/modifiers/instanceof_modifier.py
@@ -214,7 +214,8 @@ class InstanceOfModifier(Modifier):
                         if len(ctx.keypathr) > 1:
                             key = ctx.keypathr[-2]
                             isrf = field.foreign_field.name == key
-            if fd.fstore == FStore.LOCAL_KEY:
+            hidden = fd.read_rule == ReadRule.NO_READ and not ignore_writeonly
+            if fd.fstore == FStore.LOCAL_KEY and not hidden:
                 if val.is_partial:
                     if field.name not in val._partial_picks:
                         continue
@@ -227,7 +228,7 @@ class InstanceOfModifier(Modifier):
                 continue
             if fd.fstore == FStore.FOREIGN_KEY and (isrf or no_key_refs):
                 continue
-            if fd.read_rule == ReadRule.NO_READ and not ignore_writeonly:
+            if hidden:
                 continue
             if fd.fstore == FStore.TEMP:
                 continue
-- 
2.43.0


From f516460850735d746fef1f5c32cbc084bd932af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:29 +0000
Subject: [PATCH 19/38] fix: pick and omit work and do not change the class
 definition

---
 jsonclasses/jsonclassify.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index a128967..c24c35a 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -171,8 +171,8 @@ def pick(self: JObject, picks: list[str]) -> None:
     Partial picks some items that from JSON Class to return, it will work when
     convert this JSON Class object to JSON dict.
     """
-    self.is_partial = True
-    self._partial_picks = picks
+    self._is_partial = True
+    self._partial_picks = list(picks)
 
 
 def omit(self: JObject, omits: list[str]) -> None:
@@ -180,11 +180,11 @@ def omit(self: JObject, omits: list[str]) -> None:
     Partial omits some items that from JSON Class to return, it will work when
     convert this JSON Class object to JSON dict.
     """
-    self.is_partial = True
+    self._is_partial = True
     if hasattr(self, '_partial_picks'):
-        picks = self._partial_picks
+        picks = list(self._partial_picks)
     else:
-        picks = self.cdef._field_names
+        picks = list(self.cdef._field_names)
     for o in omits:
         picks.remove(o)
     self._partial_picks = picks
-- 
2.43.0


From c52fa3773d0c755843f7c663b109bbc8a5bd8a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:29 +0000
Subject: [PATCH 20/38] fix: write rules hold for input by key path

---
 jsonclasses/jsonclassify.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index c24c35a..8991967 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -4,7 +4,7 @@ from typing import Any, Callable, Optional, Union, cast
 from inspect import signature, getmro
 from .jobject import JObject
 from .ctx import Ctx, CtxCfg
-from .fdef import FDef, FStore, FType
+from .fdef import FDef, FStore, FType, WriteRule
 from .types import Types
 from .modifiers.instanceof_modifier import InstanceOfModifier
 from .jfield import JField
@@ -82,6 +82,10 @@ def _keypath_set(self: JObject, kwargs: dict[str, Any]) -> None:
         items = keypath_split(key)
         dest = getattr(self, items[0])
         fdef = self.__class__.cdef.field_named(items[0]).types.fdef
+        if fdef.write_rule == WriteRule.NO_WRITE:
+            continue
+        if fdef.write_rule == WriteRule.WRITE_ONCE and dest is not None:
+            continue
         used_items = [items[0]]
         self._set_to_container(dest, items[1:], value, fdef, used_items)
 
-- 
2.43.0


From f45bb4daac26633d4b675650be0b5565583c8829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:41 +0000
Subject: [PATCH 21/38] fix: relationship links tell objects apart by identity,
 not by value

---
 jsonclasses/jsonclassify.py | 39 ++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 8991967..fb270a8 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -527,7 +527,7 @@ def _add_unlinked_object(self: JObject,
     """Add an object into unlinked objects pool."""
     if not self._unlinked_objects.get(field_name):
         self._unlinked_objects[field_name] = []
-    if obj not in self._unlinked_objects[field_name]:
+    if __position__(self._unlinked_objects[field_name], obj) is None:
         self._unlinked_objects[field_name].append(obj)
 
 
@@ -537,8 +537,9 @@ def _del_unlinked_object(self: JObject,
     """Remove an object from unlinked objects pool."""
     if not self._unlinked_objects.get(field_name):
         self._unlinked_objects[field_name] = []
-    if obj in self._unlinked_objects[field_name]:
-        self._unlinked_objects[field_name].remove(obj)
+    pos = __position__(self._unlinked_objects[field_name], obj)
+    if pos is not None:
+        del self._unlinked_objects[field_name][pos]
 
 
 def _clear_unlinked_object(self: JObject) -> None:
@@ -672,6 +673,21 @@ def __is_private_attr__(name: str) -> bool:
     return name.startswith('_')
 
 
+def __position__(items: list[JObject], obj: JObject) -> Optional[int]:
+    """Returns the position of this very object in the list. JSON class
+    objects are equal by value, thus two objects can be equal.
+    """
+    return next((i for i, item in enumerate(items) if item is obj), None)
+
+
+def __same_refs__(value: Any, current: Any) -> bool:
+    """Returns true if these reference field values are the same objects."""
+    if isinstance(value, list) and isinstance(current, list):
+        return len(value) == len(current) and all(
+            v is c for v, c in zip(value, current))
+    return value is current
+
+
 def __setattr__(self: JObject, name: str, value: Any) -> None:
     # use original setattr for private fields
     if __is_private_attr__(name):
@@ -727,8 +743,12 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                 ctx = Ctx.rootctxp(self, name, None, value)
                 field.fdef.setter.modifier.transform(ctx)
             return
-    if hasattr(self, name) and value == getattr(self, name):
-        return
+    if hasattr(self, name):
+        if field.fdef.is_ref:
+            if __same_refs__(value, getattr(self, name)):
+                return
+        elif value == getattr(self, name):
+            return
     # track modified and previous value
     if not self.is_new:
         setattr(self, '_is_modified', True)
@@ -952,8 +972,9 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
         elif other_field.fdef.ftype == FType.LIST:
             other_list = getattr(item, other_field.name)
             if isinstance(other_list, list):
-                if self in other_list:
-                    other_list.remove(self)
+                pos = __position__(other_list, self)
+                if pos is not None:
+                    del other_list[pos]
                     item._add_unlinked_object(other_field.name, self)
 
 
@@ -973,7 +994,7 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
         if other_field is None:
             return
         if other_field.fdef.ftype == FType.INSTANCE:
-            if getattr(item, other_field.name) != self:
+            if getattr(item, other_field.name) is not self:
                 setattr(item, other_field.name, self)
                 item._del_unlinked_object(other_field.name, self)
         elif other_field.fdef.ftype == FType.LIST:
@@ -981,7 +1002,7 @@ def __link_field__(self: JObject, field: JField, value: Any) -> None:
                 setattr(item, other_field.name, [self])
                 item._del_unlinked_object(other_field.name, self)
             else:
-                if self not in getattr(item, other_field.name):
+                if __position__(getattr(item, other_field.name), self) is None:
                     getattr(item, other_field.name).append(self)
                     item._del_unlinked_object(other_field.name, self)
         self.__link_graph__(item)
-- 
2.43.0


From 7e72730a34862739a8fdca00cc2adac3326d3742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:59 +0000
Subject: [PATCH 22/38] fix: reference key lists follow every change of their
 object lists and back

---
 jsonclasses/jsonclassify.py | 41 ++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index fb270a8..ce2df76 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -680,6 +680,11 @@ def __position__(items: list[JObject], obj: JObject) -> Optional[int]:
     return next((i for i, item in enumerate(items) if item is obj), None)
 
 
+def __count_id__(items: list[JObject], id: Any) -> int:
+    """Returns the number of objects with this id in the list."""
+    return sum(1 for v in items if v is not None and v._id == id)
+
+
 def __same_refs__(value: Any, current: Any) -> bool:
     """Returns true if these reference field values are the same objects."""
     if isinstance(value, list) and isinstance(current, list):
@@ -723,6 +728,7 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
                     if existitem is not None:
                         new_list.append(existitem)
                 setattr(self, field_name, new_list)
+            value = to_owned_list(self, list(value or []), name)
         if not self.is_new:
             setattr(self, '_is_modified', True)
             self._modified_fields.add(field_name)
@@ -885,7 +891,7 @@ def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if len(rlist) != len(olist):
+            if rlist.count(val._id) < __count_id__(olist, val._id):
                 if val._id is None:
                     raise ValueError('a referenced object must have a valid primary key')
                 rlist.insert(idx, val._id)
@@ -910,12 +916,9 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
             self._is_modified = True
         flist = getattr(self, fname)
         if isinstance(flist, list):
-            if len(flist) != len(olist):
-                # TODO: reorder flist here
-                # TODO: replace the underneath implementation
-                match = next((v for v in flist if v._id == val), "PLACEHOLDER")
-                if match != "PLACEHOLDER":
-                    flist.remove(match)
+            if __count_id__(flist, val) > olist.count(val):
+                del flist[next(i for i, v in enumerate(flist)
+                               if v is not None and v._id == val)]
         return
     try:
         field = cdef.field_named(olist.keypath)
@@ -924,12 +927,11 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
     if field and field.fdef.is_ref:
         self.__unlink_field__(field, [val])
         if field.fdef.fstore == FStore.LOCAL_KEY:
-            ## TODO: replace the underneath implementation
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
             rlist = getattr(self, rk)
-            if len(rlist) != len(olist):
-                if val is not None and val._id in rlist:
+            if val is not None:
+                if rlist.count(val._id) > __count_id__(olist, val._id):
                     rlist.remove(val._id)
     # record modified
     if not self.is_new:
@@ -938,11 +940,26 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
 
 
 def __olist_sor__(self, olist: OwnedList) -> None:
-    # TODO: sort local keys here
+    cdef = self.__class__.cdef
+    name = self._local_key_map.get(olist.keypath, olist.keypath)
+    # objects and their local keys keep the same order
+    if olist.keypath in self._local_keys:
+        flist = getattr(self, name)
+        if isinstance(flist, list):
+            list.sort(flist, key=lambda v: olist.index(v._id)
+                      if v is not None and v._id in olist else len(olist))
+    elif name in cdef._field_names:
+        field = cdef.field_named(name)
+        if field.fdef.is_ref and field.fdef.fstore == FStore.LOCAL_KEY:
+            rlist = getattr(self, cdef.jconf.ref_name_strategy(field))
+            keys = [v._id for v in olist if v is not None]
+            slots = [i for i, key in enumerate(rlist) if key in keys]
+            for i, key in zip(slots, keys):
+                list.__setitem__(rlist, i, key)
     # record modified
     if not self.is_new:
         setattr(self, '_is_modified', True)
-        self._modified_fields.add(olist.keypath)
+        self._modified_fields.add(name)
 
 
 def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
-- 
2.43.0


From ebdfad28070cd696b882345269ef2e710d3762a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:59 +0000
Subject: [PATCH 23/38] fix: persisted_modified_fields accepts changes inside
 lists and dicts

---
 jsonclasses/jsonclassify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index ce2df76..c3c6bf6 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -304,7 +304,8 @@ def persisted_modified_fields(self: JObject) -> tuple[str]:
     retval: list[str] = []
     cdef = self.__class__.cdef
     for name in self._modified_fields:
-        if cdef.field_named(name).fdef.fstore != FStore.TEMP:
+        field = cdef.field_named(initial_keypath(name))
+        if field.fdef.fstore != FStore.TEMP:
             retval.append(name)
     return tuple(retval)
 
-- 
2.43.0


From 6e07846ed7510591ecebd56b7eac9a68537e4886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:59 +0000
Subject: [PATCH 24/38] fix: save saves every unlinked object, not every other

---
 jsonclasses/jsonclassify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index c3c6bf6..5550905 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -356,8 +356,8 @@ def save(self: JObject,
     self._set_on_save()
     self._database_write()
     for _, lst in self.unlinked_objects.items():
-        for item in lst:
-            lst.remove(item)
+        while lst:
+            item = lst.pop(0)
             item.save(validate_all_fields=validate_all_fields,
                       skip_validation=skip_validation)
     return self
-- 
2.43.0


From 32bffaec97e0212b102da0d0b0f2d468fe32904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:59 +0000
Subject: [PATCH 25/38] fix: an object keeps tracking changes after complete

---
 jsonclasses/jsonclassify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 5550905..583cc2a 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -385,7 +385,7 @@ def complete(self: JObject) -> JObject:
     """Fetch missing field values from the underlying ORM.
     """
     if self.is_partial:
-        saved_modified_fields = list(self._modified_fields)
+        saved_modified_fields = set(self._modified_fields)
         saved_is_modified = self._is_modified
         self._orm_complete()
         self._is_modified = saved_is_modified
-- 
2.43.0


From 7cb41bab69b6825cff76065413cd314ebe1fcfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:38 +0000
Subject: [PATCH 26/38] fix: reset clears the modified marks even without
 previous values

---
 jsonclasses/jsonclassify.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 583cc2a..72ef472 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -333,11 +333,11 @@ def reset(self: JObject) -> None:
         raise JSONClassResetNotEnabledError()
     if self.is_new:
         raise JSONClassResetError()
-    for k, v in self.previous_values.items():
+    for k, v in list(self.previous_values.items()):
         setattr(self, k, v)
-        self._modified_fields = set()
-        self._is_modified = False
-        self._previous_values = {}
+    self._modified_fields = set()
+    self._is_modified = False
+    self._previous_values = {}
 
 
 def save(self: JObject,
-- 
2.43.0


From 96baec74359cc9415eba1f62a8811cb86e6604b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:54 +0000
Subject: [PATCH 27/38] fix: previous values are copies, of persisted objects
 only, for fields of any type

---
 jsonclasses/jsonclassify.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 72ef472..691ce0d 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -674,6 +674,15 @@ def __is_private_attr__(name: str) -> bool:
     return name.startswith('_')
 
 
+def __value_copy__(value: Any) -> Any:
+    """Returns the value, collections are copied."""
+    if isinstance(value, dict):
+        return unowned_copy_dict(value)
+    if isinstance(value, list):
+        return unowned_copy_list(value)
+    return value
+
+
 def __position__(items: list[JObject], obj: JObject) -> Optional[int]:
     """Returns the position of this very object in the list. JSON class
     objects are equal by value, thus two objects can be equal.
@@ -763,7 +772,8 @@ def __setattr__(self: JObject, name: str, value: Any) -> None:
         if self.__class__.cdef.jconf.reset_all_fields or \
                 field.fdef.has_reset_modifier:
             if name not in self.previous_values:
-                self.previous_values[name] = getattr(self, name)
+                self.previous_values[name] = __value_copy__(
+                    getattr(self, name))
     # make list and dict assignments owned and monitored
     if isinstance(value, list):
         value = to_owned_list(self, value, name)
@@ -817,6 +827,8 @@ def __getattribute__(self: JObject, name: str, default: Any = None) -> Any:
 
 def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
     # record previous value
+    if self.is_new:
+        return
     name = initial_keypath(odict.keypath)
     field = self.__class__.cdef.field_named(name)
     if self.__class__.cdef.jconf.reset_all_fields or \
@@ -824,12 +836,8 @@ def __odict_will_change__(self: JObject, odict: OwnedDict) -> None:
         if field.fdef.has_linked:
             return
         if name not in self.previous_values:
-            if field.fdef.ftype == FType.DICT:
-                self.previous_values[name] = unowned_copy_dict(
-                    getattr(self, name))
-            if field.fdef.ftype == FType.LIST:
-                self.previous_values[name] = unowned_copy_list(
-                    getattr(self, name))
+            self.previous_values[name] = __value_copy__(
+                getattr(self, name))
 
 
 def __odict_add__(self, odict: OwnedDict, key: str, val: Any) -> None:
@@ -854,6 +862,8 @@ def __odict_del__(self, odict: OwnedDict, val: Any) -> None:
 
 def __olist_will_change__(self, olist: OwnedList) -> None:
     # record previous value
+    if self.is_new:
+        return
     name = initial_keypath(olist.keypath)
     try:
         field = self.__class__.cdef.field_named(name)
@@ -866,12 +876,8 @@ def __olist_will_change__(self, olist: OwnedList) -> None:
         if field.fdef.has_linked:
             return
         if name not in self.previous_values:
-            if field.fdef.ftype == FType.DICT:
-                self.previous_values[name] = unowned_copy_dict(
-                    getattr(self, name))
-            if field.fdef.ftype == FType.LIST:
-                self.previous_values[name] = unowned_copy_list(
-                    getattr(self, name))
+            self.previous_values[name] = __value_copy__(
+                getattr(self, name))
 
 
 def __olist_add__(self: JObject, olist: OwnedList, idx: int, val: Any) -> None:
-- 
2.43.0


From 6a33b8871805d56d45ac29d4c2ff38cef09a8510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:02 +0000
Subject: [PATCH 28/38] fix: unlinking marks the other object modified, and
 only if it is not new

---
 jsonclasses/jsonclassify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 691ce0d..3882505 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -991,7 +991,9 @@ def __unlink_field__(self: JObject, field: JField, value: Any) -> None:
                 if of.fdef.fstore == FStore.LOCAL_KEY:
                     tsfm = item.__class__.cdef.jconf.ref_name_strategy
                     item.__original_setattr__(tsfm(other_field), None)
-                    item._modified_fields.add(other_field.name)
+                    if not item.is_new:
+                        setattr(item, '_is_modified', True)
+                        item._modified_fields.add(other_field.name)
                 item._add_unlinked_object(other_field.name, self)
         elif other_field.fdef.ftype == FType.LIST:
             other_list = getattr(item, other_field.name)
-- 
2.43.0


From 79235daefe642ac3083065851f1e4d30c7bba111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:38 +0000
Subject: [PATCH 29/38] fix: replacing an item of a relationship list with
 itself keeps it linked in place

---
 jsonclasses/jsonclassify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/jsonclassify.py b/jsonclasses/jsonclassify.py
index 3882505..b0cacf0 100644
--- a/jsonclasses/jsonclassify.py
+++ b/jsonclasses/jsonclassify.py
@@ -932,7 +932,9 @@ def __olist_del__(self: JObject, olist: OwnedList, val: Any) -> None:
     except ValueError:
         field = None
     if field and field.fdef.is_ref:
-        self.__unlink_field__(field, [val])
+        # an item replaced with itself is still linked
+        if __position__(olist, val) is None:
+            self.__unlink_field__(field, [val])
         if field.fdef.fstore == FStore.LOCAL_KEY:
             rkes = cdef.jconf.ref_name_strategy
             rk = rkes(field)
-- 
2.43.0


From 79626e62d60ccbda54b13aed9f95a7f1d11d9d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:50 +0000
Subject: [PATCH 30/38] fix: a second enum of one name is reported as a
 redefinition

---
 jsonclasses/cgraph.py | 3 ++-
 jsonclasses/excs.py   | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsonclasses/cgraph.py b/jsonclasses/cgraph.py
index a261cab..5a2a7b1 100644
--- a/jsonclasses/cgraph.py
+++ b/jsonclasses/cgraph.py
@@ -144,7 +144,8 @@ class CGraph:
         exist_def = self._enum_map.get(enum_class.__name__)
         if exist_def:
             raise JSONClassTypedDictRedefinitionException(enum_class,
-                                                          exist_def.cls)
+                                                          exist_def,
+                                                          self.name)
         self._enum_map[enum_class.__name__] = enum_class
 
     def fetch_enum(self: CGraph, ec_or_name: type[Enum] | str) -> type[Enum]:
diff --git a/jsonclasses/excs.py b/jsonclasses/excs.py
index b6f4415..62fc234 100644
--- a/jsonclasses/excs.py
+++ b/jsonclasses/excs.py
@@ -74,13 +74,17 @@ class JSONClassTypedDictRedefinitionException(Exception):
     exists before in the same graph.
     """
 
-    def __init__(self, new_class: type, exist_class: type[JObject]) -> None:
+    def __init__(self,
+                 new_class: type,
+                 exist_class: type,
+                 graph: str) -> None:
         """Create an exception that notifies the user that a typed dict class
         with duplicated name is defined twice.
 
         Args:
             new_class (type): The new class which is putting on the graph.
             exist_class(type): The existing class which the user defined.
+            graph (str): The name of the graph.
         """
         name = new_class.__name__
         original_module = getmodule(exist_class)
@@ -91,7 +95,6 @@ class JSONClassTypedDictRedefinitionException(Exception):
         assert new_module is not None
         new_file = new_module.__file__
         new_line = getsourcelines(new_class)[1]
-        graph = exist_class.cdef.jconf.cgraph
         message = (f'jsonclass typed dict name conflict in graph `{graph}`: '
                    f'exist `{name}` defined at '
                    f'`{original_file}:{original_line}`, '
-- 
2.43.0


From 6472eb7252ba502f1fc5b35457cf7c96da49f668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:28 +0000
Subject: [PATCH 31/38] fix: tsupdated starts as an aware UTC time, like
 tscreated

---
 jsonclasses/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/types.py b/jsonclasses/types.py
index c80d2ac..96447ef 100644
--- a/jsonclasses/types.py
+++ b/jsonclasses/types.py
@@ -1305,7 +1305,7 @@ class Types:
         """This modifier adds a default current time and a set on save.
         """
         return Types(self,
-                     DefaultModifier(datetime.now),
+                     DefaultModifier(lambda: datetime.now(timezone.utc)),
                      PreserializeModifier(),
                      SetOnSaveModifier(lambda: datetime.now(timezone.utc)))
 
-- 
2.43.0


From 2efd68f99c20df0f5cfd85d27388a104311f88d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:56 +0000
Subject: [PATCH 32/38] fix: text annotations of nested dicts and unions are
 split at their own commas

---
 jsonclasses/rtypes.py | 44 +++++++++++--------------------------------
 1 file changed, 11 insertions(+), 33 deletions(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index d23e43e..10232cd 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -7,7 +7,7 @@ from typing import (
 )
 from datetime import date, datetime
 from enum import Enum
-from re import match, split
+from re import match
 from .excs import UnresolvedTypeNameException
 if TYPE_CHECKING:
     from .types import Types
@@ -45,7 +45,9 @@ def apply_link_specifier(types: Types, specifier: str) -> Types:
     else:
         raise TypeError(f"wrong format of link specifier '{specifier}'")
 
-def union_split(arg: str) -> list[str]:
+def bracket_split(arg: str, sep: str) -> list[str]:
+    """Split text at separators which are not inside of brackets.
+    """
     result = ['']
     depth = 0
     for c in arg:
@@ -56,38 +58,15 @@ def union_split(arg: str) -> list[str]:
             case ']':
                 depth -= 1
                 result[-1] += c
-            case '|':
-                if depth < 1:
+            case _:
+                if c == sep and depth < 1:
                     result.append('')
                 else:
                     result[-1] += c
-            case _:
-                result[-1] += c
     return [r.strip() for r in result]
 
-def merge_back_dicts(args: list[str]) -> list[str]:
-    """This method is used for union arguments parsing. When union contains
-    dict, dict is separated wrongly by split method. This function merge
-    dicts back.
-
-    Args:
-        args (list[str]): A list of string tokens.
-
-    Returns:
-        list[str]: The renovated string tokens.
-    """
-    retval = []
-    do_not_push_next = False
-    for idx, arg in enumerate(args):
-        if do_not_push_next:
-            do_not_push_next = False
-            continue
-        if match('^[Dd]ict\\[', arg):
-            retval.append(arg + ', ' + args[idx + 1])
-            do_not_push_next = True
-        else:
-            retval.append(arg)
-    return retval
+def union_split(arg: str) -> list[str]:
+    return bracket_split(arg, '|')
 
 def str_to_types(anytypes: str, opt: bool = False) -> Types:
     """
@@ -123,8 +102,7 @@ def str_to_types(anytypes: str, opt: bool = False) -> Types:
                 match_data = match('^Union\\[(.*)\\]', anytypes)
                 assert match_data is not None
                 all_item_types = match_data.group(1)
-                types_to_build_union = split(", *", all_item_types)
-                types_to_build_union = merge_back_dicts(types_to_build_union)
+                types_to_build_union = bracket_split(all_item_types, ',')
                 results = []
                 for t in types_to_build_union:
                     results.append(str_to_types(t, True))
@@ -142,9 +120,9 @@ def str_to_types(anytypes: str, opt: bool = False) -> Types:
                 list_type = types.listof(str_to_types(item_type))
                 return list_type if opt else list_type.required
             elif match('^[Dd]ict\\[', anytypes):
-                match_data = match('[Dd]ict\\[.+, *(.*)\\]', anytypes)
+                match_data = match('[Dd]ict\\[(.*)\\]', anytypes)
                 assert match_data is not None
-                item_type = match_data.group(1)
+                item_type = bracket_split(match_data.group(1), ',')[1]
                 dict_type = types.dictof(str_to_types(item_type))
                 return dict_type if opt else dict_type.required
             elif anytypes.startswith('Annotated['):
-- 
2.43.0


From b30bb0ab845e79906f5a3a9545214f867de40fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:03 +0000
Subject: [PATCH 33/38] fix: None in a text annotation Union makes the field
 optional

---
 jsonclasses/rtypes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index 10232cd..6ef201a 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -103,8 +103,13 @@ def str_to_types(anytypes: str, opt: bool = False) -> Types:
                 assert match_data is not None
                 all_item_types = match_data.group(1)
                 types_to_build_union = bracket_split(all_item_types, ',')
+                union_results = [t for t in types_to_build_union if t != 'None']
+                if len(union_results) != len(types_to_build_union):
+                    opt = True
+                if len(union_results) == 1:
+                    return str_to_types(union_results[0], opt)
                 results = []
-                for t in types_to_build_union:
+                for t in union_results:
                     results.append(str_to_types(t, True))
                 union = types.union(results)
                 return union if opt else union.required
-- 
2.43.0


From c610dff6fe6e41d0d7dd62824c859e8fb6d5e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:09 +0000
Subject: [PATCH 34/38] fix: an optional forward reference stays optional

---
 jsonclasses/rtypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index 6ef201a..6bead6f 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -167,7 +167,7 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
     """
     from .types import types
     if isinstance(anytypes, str):
-        return str_to_types(anytypes)
+        return str_to_types(anytypes, opt)
     elif anytypes is str:
         return types.str if opt else types.str.required
     elif anytypes is int:
@@ -220,7 +220,7 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
         instance_type = types.objof(anytypes)
         return instance_type if opt else instance_type.required
     elif isinstance(anytypes, ForwardRef):
-        return str_to_types(anytypes.__forward_arg__)
+        return str_to_types(anytypes.__forward_arg__, opt)
     else:
         raise ValueError(f'{anytypes} is not a valid JSON Class type.')
 
-- 
2.43.0


From 2e7562739b52f8bd4fa4884cb412cc3474631ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:15 +0000
Subject: [PATCH 35/38] fix: unions written with | are accepted as type objects

---
 jsonclasses/rtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index 6bead6f..734759d 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -8,6 +8,7 @@ from typing import (
 from datetime import date, datetime
 from enum import Enum
 from re import match
+from types import UnionType
 from .excs import UnresolvedTypeNameException
 if TYPE_CHECKING:
     from .types import Types
@@ -188,7 +189,7 @@ def to_types(anytypes: Any, opt: bool = False) -> Types:
     elif get_origin(anytypes) is dict:
         dict_type = types.dictof(get_args(anytypes)[1])
         return dict_type if opt else dict_type.required
-    elif get_origin(anytypes) == Union:
+    elif get_origin(anytypes) in (Union, UnionType):
         required: bool = True
         types_to_build_union: list[Any] = []
         args = get_args(anytypes)
-- 
2.43.0


From ebc3e2f67ffa95208e0c27e02051bfaf226cf5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:55 +0000
Subject: [PATCH 36/38] fix: a field whose type is a name answers with the
 resolved type from the first question on

---
 jsonclasses/rtypes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/rtypes.py b/jsonclasses/rtypes.py
index 734759d..785e3eb 100644
--- a/jsonclasses/rtypes.py
+++ b/jsonclasses/rtypes.py
@@ -259,6 +259,8 @@ def rnamedtypes(types: Types, cgraph: CGraph, cname: str) -> Types:
     if not types.fdef._unresolved_name:
         return types
     name = types.fdef._unresolved_name
+    fdef = types.fdef
+    owner = fdef._cdef
     if cgraph.has(name):
         cdef = cgraph.fetch(name)
         types = types.objof(cdef.cls)
@@ -268,6 +270,11 @@ def rnamedtypes(types: Types, cgraph: CGraph, cname: str) -> Types:
     else:
         raise UnresolvedTypeNameException(
             f"Unfound type named '{name}' in class '{cname}'.")
-    types.fdef._unresolved = False
-    types.fdef._unresolved_name = None
+    # Whoever asks the unresolved field definition gets the resolved answer.
+    for key, value in vars(types.fdef).items():
+        setattr(fdef, key, value)
+    fdef._cdef = owner
+    fdef._unresolved = False
+    fdef._unresolved_name = None
+    types.fdef = fdef
     return types
-- 
2.43.0


From c8f50f9f99234e34b9f178824d8d85bba767d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:02 +0000
Subject: [PATCH 37/38] fix: a context names the class definition of its holder

---
 jsonclasses/ctx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonclasses/ctx.py b/jsonclasses/ctx.py
index 4a1f916..e0cf76c 100644
--- a/jsonclasses/ctx.py
+++ b/jsonclasses/ctx.py
@@ -66,7 +66,7 @@ class Ctx(NamedTuple):
 
     @property
     def cdefholder(self: Ctx) -> CDef:
-        return cast(JObject, self.holder).__class__.cdef
+        return cast('JObject', self.holder).__class__.cdef
 
     @property
     def jconfroot(self: Ctx) -> JConf:
-- 
2.43.0


From 86df82740f3e7627d5dc1d191b7588d9be8ae512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:03 +0000
Subject: [PATCH 38/38] fix: mark graphs iterate over objects that are equal by
 value

---
 jsonclasses/mgraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonclasses/mgraph.py b/jsonclasses/mgraph.py
index 70049aa..ae6e731 100644
--- a/jsonclasses/mgraph.py
+++ b/jsonclasses/mgraph.py
@@ -89,9 +89,9 @@ class MGraph:
         lst = []
         for ct in self._class_tables.values():
             for obj in ct._primary_key_table.values():
-                if obj not in lst:
+                if not any(o is obj for o in lst):
                     lst.append(obj)
             for obj in ct._memory_id_table.values():
-                if obj not in lst:
+                if not any(o is obj for o in lst):
                     lst.append(obj)
         return lst.__iter__()
-- 
2.43.0

