From 54a11381befb408aec6b3594e6bbf5cba9102bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 01/82] fix: compare single-value ranges and lengths exactly,
 not through float()

---
 pyangbind/lib/yangtypes.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 7e67e27..9010af6 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -191,6 +191,12 @@ def RestrictedClassType(*args, **kwargs):
     else:
         restricted_class_hint = [current_restricted_class_type]
 
+    def to_base_type(v):
+        # A float stands for the decimal number that it is written as
+        if isinstance(v, float) and issubclass(base_type, Decimal):
+            v = str(v)
+        return base_type(v)
+
     class RestrictedClass(base_type):
         """
         A class that restricts the base_type class with a new function that the
@@ -285,7 +291,7 @@ def RestrictedClassType(*args, **kwargs):
                             if check_tuple[1] is not None and value > check_tuple[1]:
                                 chk = False
                         elif len(check_tuple) == 1:
-                            if value != float(check_tuple[0]):
+                            if value != check_tuple[0]:
                                 chk = False
                         else:
                             raise AttributeError("Invalid check tuple length specified")
@@ -326,7 +332,7 @@ def RestrictedClassType(*args, **kwargs):
                     self._restriction_tests.append(in_range_check(ranges))
                     if val:
                         try:
-                            val = base_type(val)
+                            val = to_base_type(val)
                         except Exception:
                             raise TypeError("must specify a numeric type for a range " + "argument")
                 elif rtype == "length":
@@ -366,6 +372,8 @@ def RestrictedClassType(*args, **kwargs):
                 if not passed:
                     raise ValueError("%s does not match a restricted type" % val)
 
+            if len(args) and isinstance(args[0], float):
+                args = (to_base_type(args[0]),) + args[1:]
             try:
                 obj = base_type.__new__(self, *args, **kwargs)
             except TypeError:
@@ -377,7 +385,7 @@ def RestrictedClassType(*args, **kwargs):
             Run the _restriction_test static method against the argument v,
             returning an error if the value does not validate.
             """
-            v = base_type(v)
+            v = to_base_type(v)
             for chkfn in self._restriction_tests:
                 if not chkfn(v):
                     raise ValueError("did not match restricted type")
-- 
2.43.0


From 6d9ea93b5ed3e226e89b8e70e6df8003a9be501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 02/82] fix: match the whole value against a pattern, including
 alternations and a trailing newline

---
 pyangbind/lib/yangtypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 9010af6..68ead95 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -241,7 +241,7 @@ def RestrictedClassType(*args, **kwargs):
                 # is not escaped. Do some logic to escape them, whilst leaving one at the
                 # end of the string if it's there.
                 trimmed = False
-                if pattern[-1] == "$":
+                if pattern.endswith("$"):
                     tmp_pattern = pattern[:-1]
                     trimmed = True
                 else:
@@ -251,9 +251,9 @@ def RestrictedClassType(*args, **kwargs):
                 if trimmed:
                     pattern += "$"
 
-                if not pattern[0] == "^":
+                if not pattern.startswith("^"):
                     pattern = "^%s" % pattern
-                if not pattern[len(pattern) - 1] == "$":
+                if not pattern.endswith("$"):
                     pattern = "%s$" % pattern
 
                 return pattern
@@ -302,7 +302,7 @@ def RestrictedClassType(*args, **kwargs):
 
             def match_pattern_check(regexp):
                 def mp_check(value):
-                    if regex.match(convert_regexp(regexp), str(value)):
+                    if regex.fullmatch(convert_regexp(regexp), str(value)):
                         return True
                     return False
 
-- 
2.43.0


From 98be2269f04a6cfa4988e136795c3ba219d590e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 03/82] fix: test every restriction of a type against the value
 that will be stored

---
 pyangbind/lib/yangtypes.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 68ead95..8294c3a 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -311,11 +311,6 @@ def RestrictedClassType(*args, **kwargs):
             def in_dictionary_check(dictionary):
                 return lambda i: str(i) in dictionary
 
-            val = False
-            try:
-                val = args[0]
-            except IndexError:
-                pass
             if self._restriction_dict is None:
                 if restriction_type is not None and restriction_arg is not None:
                     self._restriction_dict = {restriction_type: restriction_arg}
@@ -330,11 +325,6 @@ def RestrictedClassType(*args, **kwargs):
                     for range_spec in rarg:
                         ranges.append(build_length_range_tuples(range_spec))
                     self._restriction_tests.append(in_range_check(ranges))
-                    if val:
-                        try:
-                            val = to_base_type(val)
-                        except Exception:
-                            raise TypeError("must specify a numeric type for a range " + "argument")
                 elif rtype == "length":
                     multiplier = 1
                     lengths = []
@@ -363,14 +353,15 @@ def RestrictedClassType(*args, **kwargs):
                 else:
                     raise TypeError("unsupported restriction type")
 
-            if val is not False:
+            if len(args):
+                # All of the restrictions apply, to the value that will be stored
+                try:
+                    val = to_base_type(args[0])
+                except Exception:
+                    raise ValueError("%s is not a valid value for the restricted type" % str(args[0]))
                 for test in self._restriction_tests:
-                    passed = False
-                    if test(val) is not False:
-                        passed = True
-                        break
-                if not passed:
-                    raise ValueError("%s does not match a restricted type" % val)
+                    if not test(val):
+                        raise ValueError("%s does not match a restricted type" % val)
 
             if len(args) and isinstance(args[0], float):
                 args = (to_base_type(args[0]),) + args[1:]
-- 
2.43.0


From 72a8b00bf67feec1ddb9cd2de006eaecd5e63acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 04/82] fix: reject a leaf value its type cannot be built from
 instead of storing the type's zero value

---
 pyangbind/lib/yangtypes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 8294c3a..40ae794 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1020,10 +1020,10 @@ def YANGDynClass(*args, **kwargs):
         _pybind_base_class = regex.sub("<(type|class) '(?P<class>.*)'>", r"\g<class>", str(base_type))
 
         def __new__(self, *args, **kwargs):
-            try:
-                obj = base_type.__new__(self, *args, **kwargs)
-            except TypeError:
+            if base_type.__new__ is object.__new__:
                 obj = base_type.__new__(self)
+            else:
+                obj = base_type.__new__(self, *args, **kwargs)
             return obj
 
         def __init__(self, *args, **kwargs):
-- 
2.43.0


From 47c885dbfa4b87e00b5704f9d74348e1c1ce1702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 05/82] fix: enforce a choice whose case holds a container that
 has a choice of its own

---
 pyangbind/lib/yangtypes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 40ae794..5695e21 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1120,16 +1120,15 @@ def YANGDynClass(*args, **kwargs):
                                     x = getattr(self, method)
                                     x()
 
-            if self._choice and not choice:
-                choice = self._choice
-
             self._mchanged = True
 
             if self._presence:
                 self._cpresent = True
 
             if self._parent and hasattr(self._parent, "_set"):
-                self._parent._set(choice=choice)
+                # the parent has to clear the other cases of the choice that this
+                # element - rather than one of its descendants - is a member of
+                self._parent._set(choice=self._choice)
 
         def _add_metadata(self, k, v):
             self._metadata[k] = v
-- 
2.43.0


From 82dbf5f92d62344eb4905391154dbb493b3f5502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 06/82] fix: mark elements as changed, and clear other cases,
 only when the new value was accepted

---
 pyangbind/lib/yangtypes.py | 47 ++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 5695e21..23aee92 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1063,9 +1063,30 @@ def YANGDynClass(*args, **kwargs):
 
             if default:
                 self._default = default
+            # a container must be registered before its children are, any other
+            # element is registered once its value is known to be valid
+            if self._is_container == "container":
+                self.__register()
+
+            if self._is_container == "list" or self._is_container == "container":
+                kwargs["path_helper"] = self._path_helper
+                if load is not None:
+                    kwargs["load"] = load
+
+            try:
+                super(YANGBaseClass, self).__init__(*args, **kwargs)
+            except TypeError:
+                super(YANGBaseClass, self).__init__()
+            except Exception:
+                raise
+
+            if not self._is_container == "container":
+                self.__register()
+
             if len(args):
                 self._set()
 
+        def __register(self):
             # lists themselves do not register, only elements within them
             # are actually created in the tree.
             if not self._is_container == "list":
@@ -1077,18 +1098,6 @@ def YANGDynClass(*args, **kwargs):
                         if self._register_paths:
                             self._path_helper.register(self._supplied_register_path, self)
 
-            if self._is_container == "list" or self._is_container == "container":
-                kwargs["path_helper"] = self._path_helper
-                if load is not None:
-                    kwargs["load"] = load
-
-            try:
-                super(YANGBaseClass, self).__init__(*args, **kwargs)
-            except TypeError:
-                super(YANGBaseClass, self).__init__()
-            except Exception:
-                raise
-
         def _changed(self):
             return self._mchanged
 
@@ -1141,42 +1150,42 @@ def YANGDynClass(*args, **kwargs):
 
         # we need to overload the set methods
         def __setitem__(self, *args, **kwargs):
-            self._set()
             super(YANGBaseClass, self).__setitem__(*args, **kwargs)
+            self._set()
 
         def append(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "append"):
                 raise AttributeError("%s object has no attribute append" % base_type)
-            self._set()
             super(YANGBaseClass, self).append(*args, **kwargs)
+            self._set()
 
         def pop(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "pop"):
                 raise AttributeError("%s object has no attribute pop" % base_type)
-            self._set()
             item = super(YANGBaseClass, self).pop(*args, **kwargs)
+            self._set()
             return item
 
         def remove(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "remove"):
                 raise AttributeError("%s object has no attribute remove" % base_type)
-            self._set()
             if self._path_helper:
                 elem_index = super(YANGBaseClass, self).index(*args, **kwargs)
                 super(YANGBaseClass, self).__getitem__(elem_index)
             super(YANGBaseClass, self).remove(*args, **kwargs)
+            self._set()
 
         def extend(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "extend"):
                 raise AttributeError("%s object has no attribute extend" % base_type)
-            self._set()
             super(YANGBaseClass, self).extend(*args, **kwargs)
+            self._set()
 
         def insert(self, *args, **kwargs):
             if not hasattr(super(YANGBaseClass, self), "insert"):
                 raise AttributeError("%s object has no attribute insert" % base_type)
-            self._set()
             super(YANGBaseClass, self).insert(*args, **kwargs)
+            self._set()
 
         def _register_path(self):
             if self._supplied_register_path is not None:
@@ -1254,8 +1263,6 @@ def ReferenceType(*args, **kwargs):
 
             if len(args):
                 value = args[0]
-                if hasattr(self, "_set"):
-                    self._set()
             else:
                 value = None
 
-- 
2.43.0


From c98a36797b91ffacdf99e848111b0590d88cdb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 07/82] fix: compare the values of a leaf-list for uniqueness
 after they are converted to its type

---
 pyangbind/lib/yangtypes.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 23aee92..4cabb17 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -415,21 +415,22 @@ def TypedListType(*args, **kwargs):
             self._allowed_type = allowed_type
             self._list = list()
             if len(args):
-                if isinstance(args[0], list):
-                    tmp = []
+                if isinstance(args[0], list) or is_yang_leaflist(args[0]):
                     for i in args[0]:
-                        if not self._unique or i not in tmp:
-                            tmp.append(self.check(i))
-                    self._list.extend(tmp)
+                        TypedList.append(self, i)
                 else:
                     tmp = self.check(args[0])
                     self._list.append(tmp)
 
         def check(self, v):
-            # Short circuit uniqueness check
-            if self._unique and v in self._list:
+            tmp = self._convert(v)
+            # The values that are stored have to be unique, rather than the
+            # different forms that they can be supplied in
+            if self._unique and tmp in self._list:
                 raise ValueError("Values in this list must be unique.")
+            return tmp
 
+        def _convert(self, v):
             passed = False
             count = 0
             for i in self._allowed_type:
@@ -492,8 +493,8 @@ def TypedListType(*args, **kwargs):
             self._list.insert(i, val)
 
         def append(self, v):
-            if not self._unique or v not in self._list:
-                val = self.check(v)
+            val = self._convert(v)
+            if not self._unique or val not in self._list:
                 self._list.append(val)
 
         def __str__(self):
-- 
2.43.0


From 87a9b62d65ac1f1cafd9cf2b936b8c0940aa9530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 08/82] fix: return the bit that pop() removes from a bits
 value

---
 pyangbind/lib/yangtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 4cabb17..2c3e538 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1438,8 +1438,9 @@ def YANGBitsType(allowed_bits):
             self._mchanged = True
 
         def pop(self):
-            super().pop()
+            bit = super().pop()
             self._mchanged = True
+            return bit
 
         def remove(self, bit):
             super().remove(bit)
-- 
2.43.0


From e3341cfffc54535d9083b00165fd02d0fd390590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 09/82] fix: order the bits of a bits type by numeric position,
 and assign positions that are not specified

---
 pyangbind/plugin/pybind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index f4606e7..18babc3 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1357,9 +1357,9 @@ def build_elemtype(ctx, et, prefix=False):
             for bit in et.search("bit"):
                 position = bit.search_one("position")
                 if position is not None:
-                    pos = position.arg
+                    pos = int(position.arg)
                 else:
-                    pos = 1 + max(allowed_bits)
+                    pos = 1 + max(allowed_bits.values(), default=-1)
                 allowed_bits[bit.arg] = pos
             cls = "restricted-bits"
             elemtype = {
-- 
2.43.0


From 3c09f3daf18de1bb5122f1ee761cd8d3cabf108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 10/82] fix: assign the values of enums that do not specify one
 as RFC6020 requires

---
 pyangbind/lib/yangtypes.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 2c3e538..7da03e8 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -337,17 +337,13 @@ def RestrictedClassType(*args, **kwargs):
                         if k.startswith("@"):
                             new_rarg.pop(k, None)
                     # populate enum values
+                    # (RFC6020 s9.6.4.2: zero for the first one, otherwise one
+                    # greater than the highest value assigned so far)
                     used_values = []
                     for k in new_rarg:
-                        if "value" in new_rarg[k]:
-                            used_values.append(int(new_rarg[k]["value"]))
-                    c = 0
-                    for k in new_rarg:
-                        while c in used_values:
-                            c += 1
                         if "value" not in new_rarg[k]:
-                            new_rarg[k]["value"] = c
-                        c += 1
+                            new_rarg[k]["value"] = max(used_values, default=-1) + 1
+                        used_values.append(int(new_rarg[k]["value"]))
                     self._restriction_tests.append(in_dictionary_check(new_rarg))
                     self._enumeration_dict = new_rarg
                 else:
-- 
2.43.0


From d44548bd55e166ae907c94ecdef39f952cdfe285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 11/82] fix: enforce every pattern of a type that has more than
 one

---
 pyangbind/lib/yangtypes.py | 3 ++-
 pyangbind/plugin/pybind.py | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 7da03e8..21f1e67 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -319,7 +319,8 @@ def RestrictedClassType(*args, **kwargs):
 
             for rtype, rarg in self._restriction_dict.items():
                 if rtype == "pattern":
-                    self._restriction_tests.append(match_pattern_check(rarg))
+                    for regexp in rarg if isinstance(rarg, list) else [rarg]:
+                        self._restriction_tests.append(match_pattern_check(regexp))
                 elif rtype == "range":
                     ranges = []
                     for range_spec in rarg:
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 18babc3..0cf9571 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1223,7 +1223,7 @@ def build_elemtype(ctx, et, prefix=False):
     # both in the case that a typedef needs to be built, as well as on per-list
     # basis.
     cls = None
-    pattern_stmt = et.search_one("pattern") if not et.search_one("pattern") is None else False
+    pattern_stmts = et.search("pattern")
     range_stmt = et.search_one("range") if not et.search_one("range") is None else False
     length_stmt = et.search_one("length") if not et.search_one("length") is None else False
 
@@ -1231,8 +1231,10 @@ def build_elemtype(ctx, et, prefix=False):
     # and build a dictionary of the different restrictions to be placed on the
     # type.
     restrictions = {}
-    if pattern_stmt:
-        restrictions["pattern"] = pattern_stmt.arg
+    if len(pattern_stmts) == 1:
+        restrictions["pattern"] = pattern_stmts[0].arg
+    elif pattern_stmts:
+        restrictions["pattern"] = [i.arg for i in pattern_stmts]
 
     if length_stmt:
         if "|" in length_stmt.arg:
-- 
2.43.0


From 9322d956aad43c9257d00f9fbd625f7292a29620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 12/82] fix: let the default of a leaf take precedence over the
 default of its type

---
 pyangbind/plugin/pybind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 0cf9571..b4cf9b8 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1579,12 +1579,12 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             # this is a union, we should check whether any of the types
             # immediately has a default
             for i in elemtype:
-                if "default" in i[1]:
+                if "default" in i[1] and elemdefault is None:
                     elemdefault = i[1]["default"]
                     default_type = i[1]
                     # default_type = i[1]
                     # mapped_elemtype = i[1]
-        elif "default" in elemtype:
+        elif "default" in elemtype and elemdefault is None:
             # if the actual type defines the default, then we need to maintain
             # this
             elemdefault = elemtype["default"]
-- 
2.43.0


From d3cabf5c6371c2e2a1b2350d135911ad3a322d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 13/82] fix: generate valid code for string defaults that
 contain quotes or backslashes

---
 pyangbind/plugin/pybind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index b4cf9b8..eed9f04 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -881,7 +881,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             # extension that were provided with the leaf, etc.).
             class_str = {}
             if "default" in i and not i["default"] is None:
-                default_arg = '"%s"' % (i["default"]) if i["quote_arg"] else "%s" % i["default"]
+                default_arg = repr(i["default"]) if i["quote_arg"] else "%s" % i["default"]
 
             if i["class"] == "leaf-list":
                 # Map a leaf-list to the type specified in the class map. This is a
-- 
2.43.0


From d431d480d56f1b1dd8f056020637a28ff8dc42b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 14/82] fix: rename elements whose names are Python keywords or
 methods of the generated classes

---
 pyangbind/lib/yangtypes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 21f1e67..107b1d3 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -86,6 +86,14 @@ reserved_name = [
     "min",
     "max",
     "async",
+    "await",
+    "nonlocal",
+    "None",
+    "True",
+    "False",
+    "append",
+    "extend",
+    "elements",
 ]
 
 
-- 
2.43.0


From 276be033b593a6eb235474c2b4f39a4f04c2ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 15/82] fix: replace the entries of a list, and skip unknown
 lists, when asked to while loading JSON

---
 pyangbind/lib/serialise.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index f1d4d78..f1f42de 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -669,7 +669,7 @@ class pybindJSONDecoder(object):
                     )
                     set_via_stdmethod = False
                 if overwrite:
-                    for child_key in chobj:
+                    for child_key in list(chobj):
                         if child_key not in d[key]:
                             chobj.delete(child_key)
             elif pybind_attr in ["TypedListType"]:
@@ -790,17 +790,19 @@ class pybindJSONDecoder(object):
                     skip_unknown=skip_unknown,
                 )
             elif isinstance(d[key], list):
+                # if this is a list, then this is a YANG list
+                this_attr = getattr(obj, "_get_%s" % safe_name(ykey), None)
+                if this_attr is None and skip_unknown is False:
+                    raise AttributeError("List specified that did not exist")
+                elif this_attr is None:
+                    # Skip unknown JSON keys
+                    continue
+                this_attr = this_attr()
+                if hasattr(this_attr, "_keyval") and overwrite:
+                    for i in list(this_attr.keys()):
+                        this_attr.delete(i)
                 for elem in d[key]:
-                    # if this is a list, then this is a YANG list
-                    this_attr = getattr(obj, "_get_%s" % safe_name(ykey), None)
-                    if this_attr is None:
-                        raise AttributeError("List specified that did not exist")
-                    this_attr = this_attr()
                     if hasattr(this_attr, "_keyval"):
-                        if overwrite:
-                            existing_keys = this_attr.keys()
-                            for i in existing_keys:
-                                this_attr.delete(i)
                         #  this handles YANGLists
                         if this_attr._keyval is False:
                             # Keyless list, generate a key
-- 
2.43.0


From f7b30e1725a8bad79ac12083fdfd0093ba6571e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 16/82] fix: enforce the choice that encloses a choice, and
 only the choices of the element's own parent

---
 pyangbind/lib/yangtypes.py |  4 +++-
 pyangbind/plugin/pybind.py | 17 +++++++++--------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 107b1d3..c418868 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1123,7 +1123,7 @@ def YANGDynClass(*args, **kwargs):
             return super(YANGBaseClass, self).__repr__()
 
         def _set(self, choice=False):
-            if hasattr(self, "__choices__") and choice:
+            while hasattr(self, "__choices__") and choice:
                 for ch in self.__choices__:
                     if ch == choice[0]:
                         for case in self.__choices__[ch]:
@@ -1134,6 +1134,8 @@ def YANGDynClass(*args, **kwargs):
                                         raise AttributeError("unmapped choice!")
                                     x = getattr(self, method)
                                     x()
+                # a choice within a case of another choice is followed by the latter
+                choice = choice[2] if len(choice) > 2 else False
 
             self._mchanged = True
 
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index eed9f04..bfdd552 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -665,8 +665,10 @@ def get_children_elements(
 
     for ch in i_children:
         if ch.keyword == "choice":
-            # These are cases
+            # These are cases - where the choice is within a case of another choice
+            # its elements are also members of the enclosing case
             for sub_choice_ch in ch.i_children:
+                case = (ch.arg, sub_choice_ch.arg)
                 get_children_elements(
                     ctx,
                     fd,
@@ -677,7 +679,7 @@ def get_children_elements(
                     imports,
                     path=path,
                     parent_cfg=parent_cfg,
-                    choice=(ch.arg, sub_choice_ch.arg),
+                    choice=case + (choice,) if choice else case,
                     register_paths=register_paths,
                 )
         else:
@@ -985,11 +987,11 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 if i["choice"]:
                     class_str["arg"] += ", choice=%s" % repr(i["choice"])
                     choice_attrs.append(i["name"])
-                    if not i["choice"][0] in choices:
-                        choices[i["choice"][0]] = {}
-                    if not i["choice"][1] in choices[i["choice"][0]]:
-                        choices[i["choice"][0]][i["choice"][1]] = []
-                    choices[i["choice"][0]][i["choice"][1]].append(i["name"])
+                    member_of = i["choice"]
+                    while member_of:
+                        cases = choices.setdefault(member_of[0], {})
+                        cases.setdefault(member_of[1], []).append(i["name"])
+                        member_of = member_of[2] if len(member_of) > 2 else None
                 class_str["arg"] += ", path_helper=self._path_helper"
                 class_str["arg"] += ", extmethods=self._extmethods"
                 class_str["arg"] += ", register_paths=%s" % i["register_paths"]
@@ -1494,7 +1496,6 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                 element,
                 npath,
                 parent_cfg=parent_cfg,
-                choice=choice,
                 register_paths=register_paths,
             )
 
-- 
2.43.0


From 5ab7f6c064078e3aa2969f805389843d5dfa6ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 17/82] fix: treat the elements of a choice that is config
 false as read-only

---
 pyangbind/plugin/pybind.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index bfdd552..007fa90 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1501,6 +1501,8 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
 
             elemconfigdef = element.search_one("config")
             elemconfig = class_bool_map[elemconfigdef.arg] if elemconfigdef else True
+            # config false is also inherited from a choice
+            elemconfig = elemconfig and getattr(element, "i_config", None) is not False
 
             elemdict = {
                 "name": safe_name(element.arg),
@@ -1670,6 +1672,8 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
 
         elemconfigdef = element.search_one("config")
         elemconfig = class_bool_map[elemconfigdef.arg] if elemconfigdef else True
+        # config false is also inherited from a choice
+        elemconfig = elemconfig and getattr(element, "i_config", None) is not False
 
         elemname = safe_name(element.arg)
 
-- 
2.43.0


From 1585b7cc8ea5adc46fbba1cdb7692400e6cf5aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 18/82] fix: mark a list as changed, and clear other cases,
 when an entry is added to it

---
 pyangbind/lib/yangtypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index c418868..bd0514e 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -809,6 +809,7 @@ def YANGListType(*args, **kwargs):
                 if k is None:
                     raise KeyError("a list with a key value must have a key specified")
                 self.__set(_k=k)
+                self._set()
                 return self._members[k]
             elif self._keyval and keyargs is not None:
                 keyargs["_python_key"] = k
@@ -816,9 +817,11 @@ def YANGListType(*args, **kwargs):
                 if value is not None:
                     keyargs["_v"] = value
                 self.__set(**keyargs)
+                self._set()
                 return self._members[k]
             else:
                 k = self.__set()
+                self._set()
                 return k
 
         def delete(self, *args, **kwargs):
-- 
2.43.0


From ee4d05e71195661f17f87cc9e4ae5f291007f8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 19/82] fix: encode the boolean and binary values of a
 leaf-list as those of a leaf

---
 pyangbind/lib/serialise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index f1f42de..391236a 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -160,10 +160,12 @@ class YangDataSerialiser(object):
             return ndict
         elif isinstance(obj, (str,)):
             return str(obj)
-        elif isinstance(obj, (int,)):
-            return int(obj)
         elif isinstance(obj, (YANGBool, bool)):
             return bool(obj)
+        elif isinstance(obj, (int,)):
+            return int(obj)
+        elif isinstance(obj, bytes):
+            return str(base64.b64encode(obj), "ascii")
         elif isinstance(obj, Decimal):
             return self.yangt_decimal(obj)
 
-- 
2.43.0


From 56f60a2f404635b611393fd13a8f041d304c6a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 20/82] fix: keep the members of a leaf-list that differ from
 their JSON representation while loading JSON

---
 pyangbind/lib/serialise.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 391236a..e4265fd 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -677,14 +677,21 @@ class pybindJSONDecoder(object):
             elif pybind_attr in ["TypedListType"]:
                 if not overwrite:
                     list_obj = getattr(obj, "_get_%s" % safe_name(key))()
-                    for item in d[key]:
-                        if item not in list_obj:
+
+                    def native(elem):
+                        return elem._get() if hasattr(elem, "_get") else elem
+
+                    # Compare the values as they are stored, rather than as they
+                    # are represented in JSON
+                    loaded = [native(list_obj._convert(item)) for item in d[key]]
+                    for item, value in zip(d[key], loaded):
+                        if value not in [native(elem) for elem in list_obj]:
                             list_obj.append(item)
                     list_copy = []
                     for elem in list_obj:
                         list_copy.append(elem)
                     for e in list_copy:
-                        if e not in d[key]:
+                        if native(e) not in loaded:
                             list_obj.remove(e)
                     set_via_stdmethod = False
                 else:
-- 
2.43.0


From a5334570bcc04f8c9cbd3705cdd1fb66f249c5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 21/82] fix: decode XML leaf-lists from the text of their
 elements, and encode leaf-lists of identities

---
 pyangbind/lib/serialise.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index e4265fd..fca9ee1 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -369,7 +369,7 @@ class pybindIETFXMLEncoder(object):
     def yname_ns_func(parent_namespace, element, yname):
         # to keeps things simple, we augment every key with a complete namespace map
         ns_map = [(None, element._namespace)]
-        if element._yang_type == "identityref" and element._changed():
+        if element._yang_type == "identityref" and element._changed() and hasattr(element, "_enumeration_dict"):
             # configured identityref (i.e. points to a valid identity)
             ns_map.append(
                 (element._enumeration_dict[element]["@module"], element._enumeration_dict[element]["@namespace"])
@@ -533,19 +533,10 @@ class pybindIETFXMLDecoder(object):
                 )
 
             elif hasattr(chobj, "_pybind_generated_by") and chobj._pybind_generated_by == "TypedListType":
-                # NOTE: this is a little curious, because we are relying on the coercion of types
-                #   i.e. lxml will "identify" the type based on its own internal model of Python
-                #   types, see: https://lxml.de/2.0/objectify.html#how-data-types-are-matched
-                # There are limitations which need to be addressed, e.g. hexadecimal strings.
-                # Already, we have a stringify-fallback: if we fail on the first attempt then
-                # try again as a pure string (if its allowed).
-                try:
-                    chobj.append(child.pyval)
-                except ValueError:
-                    if str in chobj._allowed_type:
-                        chobj.append(str(child.pyval))
-                    else:
-                        raise
+                # the text of the element is what is converted to the type of the leaf-list,
+                # since the types that lxml identifies are based on its own internal model,
+                # which does not preserve the value (e.g., of the string "007").
+                chobj.append(child.text or "")
 
             else:
                 if chobj._is_keyval is True:
-- 
2.43.0


From 529d55b38362ff25f46f7987c1e34d9997439b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 22/82] fix: preserve empty strings and key values, and load
 keyless lists, while decoding XML

---
 pyangbind/lib/serialise.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index fca9ee1..0eab574 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -513,19 +513,20 @@ class pybindIETFXMLDecoder(object):
 
             elif chobj._yang_type == "list":
                 if not chobj._keyval:
-                    raise NotImplementedError("keyless list?")
-
-                # we just need to find the key value to add it to the list
-                key_parts = []
-                add_kwargs = {}
-                for pkv, ykv in zip(chobj._keyval.split(" "), chobj._yang_keys.split(" ")):
-                    add_kwargs[pkv] = child[ykv]
-                    key_parts.append(str(child[ykv]))
-                key_str = " ".join(map(str, key_parts))
-                if key_str not in chobj:
-                    nobj = chobj.add(**add_kwargs)
+                    # Keyless list, generate a key
+                    nobj = chobj[chobj.add()]
                 else:
-                    nobj = chobj[key_str]
+                    # we just need to find the key value to add it to the list
+                    key_parts = []
+                    add_kwargs = {}
+                    for pkv, ykv in zip(chobj._keyval.split(" "), chobj._yang_keys.split(" ")):
+                        add_kwargs[pkv] = child[ykv].text or ""
+                        key_parts.append(add_kwargs[pkv])
+                    key_str = " ".join(map(str, key_parts))
+                    if key_str not in chobj:
+                        nobj = chobj.add(**add_kwargs)
+                    else:
+                        nobj = chobj[key_str]
 
                 # now we have created the nested object element, we add other members
                 pybindIETFXMLDecoder.load_xml(
@@ -543,7 +544,7 @@ class pybindIETFXMLDecoder(object):
                     # we've already added the key
                     continue
 
-                val = child.text
+                val = child.text or ""
                 if chobj._yang_type == "empty":
                     if child.text is None:
                         val = True
-- 
2.43.0


From 6d16245762863807dea0a8d290ef53f703130166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 23/82] fix: load keyless lists, and keys that contain a space,
 from JSON

---
 pyangbind/lib/serialise.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 0eab574..48e93d5 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -649,10 +649,23 @@ class pybindJSONDecoder(object):
                 else:
                     key_order = d[key].keys()
 
+                if overwrite:
+                    for child_key in list(chobj):
+                        if child_key not in d[key]:
+                            chobj.delete(child_key)
+
                 for child_key in key_order:
-                    if child_key not in chobj:
-                        chobj.add(child_key)
-                    parent = chobj[child_key]
+                    if child_key in chobj:
+                        parent = chobj[child_key]
+                    elif chobj._keyval is False:
+                        # Keyless list, generate a key
+                        parent = chobj[chobj.add()]
+                    elif " " in chobj._keyval and all(k in d[key][child_key] for k in chobj._yang_keys.split(" ")):
+                        # A key value may itself contain a space
+                        keys = zip(chobj._keyval.split(" "), chobj._yang_keys.split(" "))
+                        parent = chobj.add(**{pkv: d[key][child_key][ykv] for pkv, ykv in keys})
+                    else:
+                        parent = chobj.add(child_key)
                     pybindJSONDecoder.load_json(
                         d[key][child_key],
                         parent,
@@ -662,10 +675,6 @@ class pybindJSONDecoder(object):
                         skip_unknown=skip_unknown,
                     )
                     set_via_stdmethod = False
-                if overwrite:
-                    for child_key in list(chobj):
-                        if child_key not in d[key]:
-                            chobj.delete(child_key)
             elif pybind_attr in ["TypedListType"]:
                 if not overwrite:
                     list_obj = getattr(obj, "_get_%s" % safe_name(key))()
-- 
2.43.0


From 3257d3a6beaffb4e70329c07b0603faa25319d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 24/82] fix: keep the entries of a list when it, or a container
 that holds it, is copied

---
 pyangbind/lib/yangtypes.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index bd0514e..f5dcce9 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -565,6 +565,16 @@ def YANGListType(*args, **kwargs):
             self._path_helper = path_helper
             self._yang_keys = yang_keys
 
+            if len(args) == 1:
+                if not getattr(args[0], "_pybind_generated_by", None) == "YANGListType":
+                    raise ValueError("a list can only be set to another list")
+                for k, v in args[0].items():
+                    keys = {}
+                    if self._keyval:
+                        keys = {kn: getattr(v, "_get_%s" % safe_name(kn))() for kn in self._keyval.split(" ")}
+                        keys.update({"_python_key": k, "_named_set": True})
+                    self.__set(_k=k, _v=v, **keys)
+
         def __str__(self):
             return str(self._members)
 
@@ -728,6 +738,7 @@ def YANGListType(*args, **kwargs):
                     raise KeyError("key value %s must be valid, %s" % (self._keyval, m))
             else:
                 self._members[k] = YANGDynClass(
+                    *([] if v is None else [v]),
                     base=self._contained_class,
                     parent=parent,
                     yang_name=yang_name,
-- 
2.43.0


From badd955600d38a397f061ffdcc2e2fd76c9a51cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 25/82] fix: add entries to, and delete entries from, keyless
 lists when there is a path helper

---
 pyangbind/lib/yangtypes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index f5dcce9..25f6456 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -743,7 +743,8 @@ def YANGListType(*args, **kwargs):
                     parent=parent,
                     yang_name=yang_name,
                     is_container=is_container,
-                    path_helper=path_helper,
+                    # there is no path that identifies an entry of a keyless list
+                    path_helper=False,
                     extmethods=self._parent._extmethods,
                     extensions=extensions,
                 )
@@ -838,7 +839,7 @@ def YANGListType(*args, **kwargs):
         def delete(self, *args, **kwargs):
             (k, _) = self._generate_key(*args, **kwargs)
 
-            if self._path_helper:
+            if self._path_helper and self._keyval:
                 current_item = self._members[k]
                 if " " in self._keyval:
                     keyparts = self._keyval.split(" ")
@@ -857,7 +858,7 @@ def YANGListType(*args, **kwargs):
 
             try:
                 del self._members[k]
-                if self._path_helper:
+                if self._path_helper and self._keyval:
                     self._path_helper.unregister(obj_path)
             except KeyError as m:
                 raise KeyError("key %s was not in list (%s)" % (k, m))
-- 
2.43.0


From 55c78ca63650436843260405f88e0ee4ac2efd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 26/82] fix: support list keys that contain spaces in the path
 helper

---
 pyangbind/lib/xpathhelper.py | 2 +-
 pyangbind/lib/yangtypes.py   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index 02a5635..0fb3734 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -108,7 +108,7 @@ class YANGPathHelper(PybindXpathHelper):
     _attr_re = regex.compile(r"^(?P<tagname>[^\[]+)(?P<args>(\[[^\]]+\])+)$")
     _arg_re = regex.compile(
         r"^((and|or) )?[@]?(?P<cmd>[a-zA-Z0-9\-\_:]+)([ ]+)?"
-        + r"=([ ]+)?['\"]?(?P<arg>[^ ^'^\"]+)(['\"])?([ ]+)?"
+        + r"=([ ]+)?((?P<quote>['\"])(?P<arg>.*?)(?P=quote)|(?P<arg>[^ ^'^\"]+))([ ]+)?"
         + "(?P<remainder>.*)"
     )
     _relative_path_re = regex.compile(r"^(\.|\.\.)")
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 25f6456..b57f233 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -844,15 +844,18 @@ def YANGListType(*args, **kwargs):
                 if " " in self._keyval:
                     keyparts = self._keyval.split(" ")
                     keyargs = k.split(" ")
+                    if not len(keyargs) == len(keyparts):
+                        # A key value may itself contain a space
+                        keyargs = [getattr(current_item, key) for key in keyparts]
                     key_string = "["
                     for key, val in zip(keyparts, keyargs):
                         kv_o = getattr(current_item, key)
-                        key_string += "%s=%s " % (kv_o.yang_name(), val)
+                        key_string += "%s='%s' " % (kv_o.yang_name(), val)
                     key_string = key_string.rstrip(" ")
                     key_string += "]"
                 else:
                     kv_o = getattr(current_item, self._keyval)
-                    key_string = "[@%s=%s]" % (kv_o.yang_name(), k)
+                    key_string = "[@%s='%s']" % (kv_o.yang_name(), k)
 
                 obj_path = self._parent._path() + [self._yang_name + key_string]
 
-- 
2.43.0


From 5b689d33262cafa750723ee33bfc77992253378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 27/82] fix: do not encode a leaf of type empty that is not set

---
 pyangbind/lib/serialise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 48e93d5..688ddcf 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -441,6 +441,9 @@ def make_generate_ietf_tree(yname_ns_func):
                 ]
                 if not len(d[yname]):
                     del d[yname]
+            elif getattr(element, "_yang_type", None) == "empty" and not element:
+                # A leaf of type empty conveys its value by its presence
+                continue
             else:
                 if with_defaults is None:
                     if flt and element._changed():
-- 
2.43.0


From 7ca6bc6627710bdcf0f97bd2520ac98da5852ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 28/82] fix: report a decimal64 value that is not a decimal
 number as ValueError

---
 pyangbind/lib/yangtypes.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index b57f233..d5f7671 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -27,7 +27,7 @@ import collections
 from collections import abc
 import copy
 import uuid
-from decimal import Decimal
+from decimal import Decimal, InvalidOperation
 
 import regex
 
@@ -163,7 +163,12 @@ def RestrictedPrecisionDecimalType(*args, **kwargs):
             """
             if self._precision is not None:
                 if len(args):
-                    value = Decimal(args[0]).quantize(Decimal(str(self._precision)))
+                    try:
+                        value = Decimal(args[0]).quantize(Decimal(str(self._precision)))
+                    except InvalidOperation:
+                        raise ValueError("%s is not a valid decimal number" % args[0])
+                    if not value.is_finite():
+                        raise ValueError("%s is not a valid decimal number" % args[0])
                 else:
                     value = Decimal(0)
             elif len(args):
@@ -362,11 +367,11 @@ def RestrictedClassType(*args, **kwargs):
                 # All of the restrictions apply, to the value that will be stored
                 try:
                     val = to_base_type(args[0])
+                    valid = all([test(val) for test in self._restriction_tests])
                 except Exception:
                     raise ValueError("%s is not a valid value for the restricted type" % str(args[0]))
-                for test in self._restriction_tests:
-                    if not test(val):
-                        raise ValueError("%s does not match a restricted type" % val)
+                if not valid:
+                    raise ValueError("%s does not match a restricted type" % val)
 
             if len(args) and isinstance(args[0], float):
                 args = (to_base_type(args[0]),) + args[1:]
-- 
2.43.0


From d7cdf4d684253b1c7a9be1492c1ba42edce461f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:19 +0000
Subject: [PATCH 29/82] fix: resolve typedefs and identities in the module that
 refers to them

---
 pyangbind/plugin/pybind.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 007fa90..a83b838 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -591,7 +591,7 @@ def build_typedefs(ctx, defnd):
             if "parent_type" in elemtype:
                 class_map[type_name]["parent_type"] = elemtype["parent_type"]
             else:
-                yang_type = item.search_one("type").arg
+                yang_type = class_map_name(item.search_one("type"), getattr(item.search_one("type"), "i_typedef", None))
                 if yang_type not in known_types:
                     raise TypeError("typedef specified a native type that was not " + "supported")
                 class_map[type_name]["parent_type"] = yang_type
@@ -1220,11 +1220,27 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     return None
 
 
+def class_map_name(stmt, definition):
+    # The name in the class_map of the typedef or identity that a statement refers
+    # to. A name without a prefix, or with one that is specific to the module that
+    # uses it, can stand for different definitions in different modules - hence the
+    # prefix of the module that has the definition is used where it is known.
+    if definition is not None:
+        prefix = definition.i_module.search_one("prefix")
+        if prefix is None:
+            prefix = definition.i_module.search_one("belongs-to").search_one("prefix")
+        name = "%s:%s" % (prefix.arg, definition.arg)
+        if name in class_map:
+            return name
+    return stmt.arg
+
+
 def build_elemtype(ctx, et, prefix=False):
     # Build a dictionary which defines the type for the element. This is used
     # both in the case that a typedef needs to be built, as well as on per-list
     # basis.
     cls = None
+    type_name = class_map_name(et, getattr(et, "i_typedef", None))
     pattern_stmts = et.search("pattern")
     range_stmt = et.search_one("range") if not et.search_one("range") is None else False
     length_stmt = et.search_one("length") if not et.search_one("length") is None else False
@@ -1258,18 +1274,18 @@ def build_elemtype(ctx, et, prefix=False):
             cls = "restricted-%s" % (et.arg)
             elemtype = {
                 "native_type": """RestrictedClassType(base_type=%s, restriction_dict=%s)"""
-                % (class_map[et.arg]["native_type"], repr(restrictions)),
+                % (class_map[type_name]["native_type"], repr(restrictions)),
                 "restriction_dict": restrictions,
-                "parent_type": et.arg,
+                "parent_type": type_name,
                 "base_type": False,
             }
         elif "range" in restrictions:
             cls = "restricted-%s" % et.arg
             elemtype = {
                 "native_type": """RestrictedClassType(base_type=%s, restriction_dict=%s)"""
-                % (class_map[et.arg]["native_type"], repr(restrictions)),
+                % (class_map[type_name]["native_type"], repr(restrictions)),
                 "restriction_dict": restrictions,
-                "parent_type": et.arg,
+                "parent_type": type_name,
                 "base_type": False,
             }
 
@@ -1315,7 +1331,7 @@ def build_elemtype(ctx, et, prefix=False):
             elemtype = []
             for uniontype in et.search("type"):
                 elemtype_s = copy.deepcopy(build_elemtype(ctx, uniontype))
-                elemtype_s[1]["yang_type"] = uniontype.arg
+                elemtype_s[1]["yang_type"] = class_map_name(uniontype, getattr(uniontype, "i_typedef", None))
                 elemtype.append(elemtype_s)
             cls = "union"
         # Map leafrefs to a ReferenceType, handling the referenced path, and
@@ -1348,7 +1364,7 @@ def build_elemtype(ctx, et, prefix=False):
             if base_stmt is None:
                 raise ValueError("identityref specified with no base statement")
             try:
-                elemtype = class_map[base_stmt.arg]
+                elemtype = class_map[class_map_name(base_stmt, getattr(base_stmt, "i_identity", None))]
             except KeyError:
                 sys.stderr.write("FATAL: identityref with an unknown base\n")
                 if DEBUG:
@@ -1378,7 +1394,7 @@ def build_elemtype(ctx, et, prefix=False):
             # at this point. In the case that we are referencing a type that is a
             # typedef, then this has been added to the class_map.
             try:
-                elemtype = class_map[et.arg]
+                elemtype = class_map[type_name]
             except KeyError:
                 passed = False
                 if prefix:
-- 
2.43.0


From e41e34c0bbd237c5adaced573d935b786a1d15f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 30/82] fix: reject a number that has a fraction as the value
 of an integer type, rather than truncating it

---
 pyangbind/lib/yangtypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index d5f7671..ad23500 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -208,6 +208,9 @@ def RestrictedClassType(*args, **kwargs):
         # A float stands for the decimal number that it is written as
         if isinstance(v, float) and issubclass(base_type, Decimal):
             v = str(v)
+        # An integer type does not include numbers that have a fraction
+        if isinstance(v, (float, Decimal)) and issubclass(base_type, int) and v != int(v):
+            raise ValueError("%s is not an integer" % v)
         return base_type(v)
 
     class RestrictedClass(base_type):
-- 
2.43.0


From 97b5778931b0e049b57ce92531a1ef9138c2bd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:30 +0000
Subject: [PATCH 31/82] fix: encode small decimal64 values without an exponent
 in IETF JSON and XML

---
 pyangbind/lib/serialise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 688ddcf..8b7b8d8 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -246,7 +246,8 @@ class IETFYangDataSerialiser(YangDataSerialiser):
         return str(obj)
 
     def yangt_decimal(self, obj):
-        return str(obj)
+        # decimal64 does not have a form that has an exponent
+        return format(obj, "f")
 
     def yangt_empty(self, obj):
         return [None] if obj else False
-- 
2.43.0


From 9523919d317a05e16c0d025fa0c6ea15a10aaf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:58 +0000
Subject: [PATCH 32/82] fix: support list keys that are renamed, or separated
 by whitespace other than one space

---
 pyangbind/plugin/pybind.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index a83b838..02245c1 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -812,11 +812,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         # is and store this such that we can give a hint.
         keyval = False
         if parent.keyword == "list":
-            keyval = parent.search_one("key").arg if parent.search_one("key") is not None else False
-            if keyval and " " in keyval:
-                keyval = keyval.split(" ")
-            else:
-                keyval = [keyval]
+            keyval = parent.search_one("key").arg.split() if parent.search_one("key") is not None else [False]
 
         # Auto-generate a docstring based on the description that is provided in
         # the YANG module. This aims to provide readability to someone perusing the
@@ -1559,12 +1555,11 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             # Deal with specific cases for list - such as the key and how it is
             # ordered.
             if element.keyword == "list":
-                elemdict["key"] = (
-                    safe_name(element.search_one("key").arg) if element.search_one("key") is not None else False
-                )
-                elemdict["yang_keys"] = (
-                    element.search_one("key").arg if element.search_one("key") is not None else False
-                )
+                # the names of the keys may be separated by any whitespace, and each
+                # of them is subject to the same renaming as any other element
+                keys = element.search_one("key").arg.split() if element.search_one("key") is not None else []
+                elemdict["key"] = " ".join(safe_name(k) for k in keys) if keys else False
+                elemdict["yang_keys"] = " ".join(keys) if keys else False
                 user_ordered = element.search_one("ordered-by")
                 elemdict["user_ordered"] = (
                     True if user_ordered is not None and user_ordered.arg.upper() == "USER" else False
-- 
2.43.0


From 943809b08156ff10449d8f9811d807aa26621b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 33/82] fix: allow a leaf, or a typedef, that is of a bits
 typedef to have a default

---
 pyangbind/plugin/pybind.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 02245c1..078eff0 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -586,7 +586,9 @@ def build_typedefs(ctx, defnd):
             # that may be specified, for example, a new default, a pattern that must
             # be matched, or a length (stored in the restriction_argument, and
             # restriction_type class_map variables).
-            class_map[type_name] = {"base_type": False}
+            # a bits type cannot be replaced with the type that it is derived from,
+            # since it is the latter that specifies which bits exist
+            class_map[type_name] = {"base_type": elemtype.get("parent_type") == "bits"}
             class_map[type_name]["native_type"] = elemtype["native_type"]
             if "parent_type" in elemtype:
                 class_map[type_name]["parent_type"] = elemtype["parent_type"]
-- 
2.43.0


From 9cc83dbc5553770c33491694cabefd59db983fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 34/82] fix: encode the module of an identity wherever its name
 is not that of the element, whatever the form of the value or the type

---
 pyangbind/lib/serialise.py | 52 ++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 8b7b8d8..2270aef 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -66,6 +66,17 @@ class SerialisedTypedList(list):
     pass
 
 
+def identity_of(obj):
+    """
+    The details of the identity that obj is a reference to, or None if it isn't one -
+    the type of an element that is an identityref may be, e.g., a typedef or a union.
+    """
+    if not hasattr(obj, "_enumeration_dict"):
+        return None
+    identity = obj._enumeration_dict.get(str(obj), {})
+    return identity if "@module" in identity else None
+
+
 class YangDataSerialiser(object):
     """
     This class encapsulates the logic to parse the object tree and generate appropriate
@@ -120,7 +131,7 @@ class YangDataSerialiser(object):
             return self.default(obj._get()) if hasattr(obj, "_get") else str(obj)
         elif orig_yangt in ["int64", "uint64"]:
             return self.yangt_long(obj)
-        elif orig_yangt in ["identityref"]:
+        elif orig_yangt in ["identityref"] or identity_of(obj):
             try:
                 return self.yangt_identityref(obj)
             except UnmappedItem:
@@ -234,16 +245,24 @@ class IETFYangDataSerialiser(YangDataSerialiser):
     def yangt_long(self, obj):
         return str(obj)
 
+    # the module that defines the leaf-list whose values are being encoded
+    leaflist_module = None
+
     def yangt_identityref(self, obj):
-        try:
-            emod = obj._enumeration_dict[obj]["@module"]
-            if emod != obj._defining_module:
-                # if not already prefixed with the type namespace
-                if not obj.startswith("%s" % emod):
-                    return "%s:%s" % (emod, obj)
-        except KeyError:
-            pass
-        return str(obj)
+        identity = identity_of(obj)
+        if identity is None:
+            return str(obj)
+        # the value that is stored may be prefixed, but not necessarily with the name
+        # of the module
+        name = str(obj).split(":")[-1]
+        emod = identity["@module"]
+        if emod != getattr(obj, "_defining_module", self.leaflist_module):
+            return "%s:%s" % (emod, name)
+        return name
+
+    def yangt_typed_list(self, obj):
+        self.leaflist_module = getattr(obj, "_defining_module", None)
+        return super(IETFYangDataSerialiser, self).yangt_typed_list(obj)
 
     def yangt_decimal(self, obj):
         # decimal64 does not have a form that has an exponent
@@ -261,7 +280,7 @@ class XmlYangDataSerialiser(IETFYangDataSerialiser):
     def yangt_typed_list(self, obj):
         # We have already used a standard list to denote a container, so we instead we use a custom list
         # type here in the serialised model
-        return SerialisedTypedList([self.default(i) for i in obj])
+        return SerialisedTypedList(super(XmlYangDataSerialiser, self).yangt_typed_list(obj))
 
     def yangt_empty(self, obj):
         return None
@@ -370,11 +389,12 @@ class pybindIETFXMLEncoder(object):
     def yname_ns_func(parent_namespace, element, yname):
         # to keeps things simple, we augment every key with a complete namespace map
         ns_map = [(None, element._namespace)]
-        if element._yang_type == "identityref" and element._changed() and hasattr(element, "_enumeration_dict"):
-            # configured identityref (i.e. points to a valid identity)
-            ns_map.append(
-                (element._enumeration_dict[element]["@module"], element._enumeration_dict[element]["@namespace"])
-            )
+        if element._changed():
+            values = element if getattr(element, "_pybind_generated_by", None) == "TypedListType" else [element]
+            for identity in [identity_of(value) for value in values]:
+                # configured identityref (i.e. points to a valid identity)
+                if identity is not None and (identity["@module"], identity["@namespace"]) not in ns_map:
+                    ns_map.append((identity["@module"], identity["@namespace"]))
         return yname, tuple(ns_map)
 
     @classmethod
-- 
2.43.0


From cc449b291436bc7d4c1498ece4a63ef7ca68299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 35/82] fix: encode 64-bit integers of restricted types as
 strings in IETF JSON

---
 pyangbind/lib/yangtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index ad23500..e3788ba 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -192,7 +192,8 @@ def RestrictedClassType(*args, **kwargs):
     restriction_type = kwargs.pop("restriction_type", None)
     restriction_arg = kwargs.pop("restriction_arg", None)
     restriction_dict = kwargs.pop("restriction_dict", None)
-    int_size = kwargs.pop("int_size", None)
+    # a type that restricts an integer type is of the same size
+    int_size = kwargs.pop("int_size", getattr(base_type, "_restricted_int_size", None))
 
     # this gives deserialisers some hints as to how to encode/decode this value
     # it must be a list since a restricted class can encapsulate a restricted
-- 
2.43.0


From c3d6c973df6cf9f5dada18df9b868a96b55eebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 36/82] fix: the default of a union is that of the first member
 that accepts it; accept bits in leaf-lists and unions within unions

---
 pyangbind/lib/yangtypes.py | 12 ++++++++++++
 pyangbind/plugin/pybind.py | 34 ++++++++++------------------------
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index e3788ba..e7ae21a 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -463,6 +463,10 @@ def TypedListType(*args, **kwargs):
                             tmp = i(v)
                             passed = True
                             break
+                        elif attr == "YANGBits":
+                            tmp = i(v)
+                            passed = True
+                            break
                         elif attr == "RestrictedPrecisionDecimal":
                             tmp = i(v)
                             passed = True
@@ -984,6 +988,14 @@ def YANGDynClass(*args, **kwargs):
 
     if isinstance(base_type, list):
         # this is a union, we must infer type
+        if default is not False:
+            # the default is the one of the first member that accepts it
+            for candidate_type in base_type:
+                try:
+                    default = candidate_type(default)
+                    break
+                except Exception:
+                    pass
         if not len(args):
             # there is no argument to infer the type from
             # so use the first type (default)
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 078eff0..66d3624 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1329,6 +1329,10 @@ def build_elemtype(ctx, et, prefix=False):
             elemtype = []
             for uniontype in et.search("type"):
                 elemtype_s = copy.deepcopy(build_elemtype(ctx, uniontype))
+                if isinstance(elemtype_s[1], list):
+                    # the members of a union within the union
+                    elemtype.extend(elemtype_s[1])
+                    continue
                 elemtype_s[1]["yang_type"] = class_map_name(uniontype, getattr(uniontype, "i_typedef", None))
                 elemtype.append(elemtype_s)
             cls = "union"
@@ -1419,24 +1423,6 @@ def build_elemtype(ctx, et, prefix=False):
     return (cls, elemtype)
 
 
-def find_absolute_default_type(default_type, default_value, elemname):
-    if not isinstance(default_type, list):
-        return default_type
-
-    for i in default_type:
-        if not i[1]["base_type"]:
-            test_type = class_map[i[1]["parent_type"]]
-        else:
-            test_type = i[1]
-        try:
-            test_type["pytype"](default_value)
-            default_type = test_type
-            break
-        except (ValueError, TypeError):
-            pass
-    return find_absolute_default_type(default_type, default_value, elemname)
-
-
 def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=False, register_paths=True):
     # Handle mapping of an invidual element within the model. This function
     # produces a dictionary that can then be mapped into the relevant code that
@@ -1650,12 +1636,12 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             # find out what the base type is for this type
             # we really expect a linear chain here.
 
-            # if we have a tuple as the type here, this means that
-            # the default was set at a level where there was not
-            # a single option for the type. check the default
-            # against each option, to get a to a single default_type
-            if isinstance(default_type, list):
-                default_type = find_absolute_default_type(default_type, elemdefault, element.arg)
+            # if we have a list as the type here, or a typedef of a union, this
+            # means that the default was set at a level where there was not
+            # a single option for the type. the default is given as it is
+            # specified, such that it becomes the member that accepts it
+            if isinstance(default_type, list) or isinstance(default_type["native_type"], list):
+                default_type = class_map["string"]
 
             if not default_type["base_type"]:
                 if "parent_type" in default_type:
-- 
2.43.0


From edf8cd91a565a956ed73c5c91c7d9aa5dd0c4aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 37/82] fix: inherit the default of a typedef through typedefs
 derived from it, including one that is zero or empty

---
 pyangbind/lib/base.py      | 2 +-
 pyangbind/lib/serialise.py | 2 +-
 pyangbind/lib/yangtypes.py | 2 +-
 pyangbind/plugin/pybind.py | 3 +++
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/base.py b/pyangbind/lib/base.py
index 5853f33..e62b3bb 100644
--- a/pyangbind/lib/base.py
+++ b/pyangbind/lib/base.py
@@ -86,7 +86,7 @@ class PybindBase(object):
                 # this is an attribute that does not have get()
                 # method
                 if filter is False and not element._changed() and not element._present() is True:
-                    if element._default is not False and element._default:
+                    if element._default is not False:
                         d[element_id] = element._default
                     else:
                         d[element_id] = element
diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 2270aef..af65e88 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -472,7 +472,7 @@ def make_generate_ietf_tree(yname_ns_func):
                     elif not flt:
                         d[yname] = element
                 elif with_defaults == WithDefaults.IF_SET:
-                    if element._changed() or element._default == element:
+                    if element._changed() or (element._default is not False and element._default == element):
                         d[yname] = element
         return d
 
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index e7ae21a..ee6eaa5 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1106,7 +1106,7 @@ def YANGDynClass(*args, **kwargs):
                             if not hasattr(self, "_method"):
                                 setattr(self, "_" + method, self.__generate_extmethod(member))
 
-            if default:
+            if default is not False:
                 self._default = default
             # a container must be registered before its children are, any other
             # element is registered once its value is known to be valid
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 66d3624..3f5b9d5 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -599,6 +599,9 @@ def build_typedefs(ctx, defnd):
                 class_map[type_name]["parent_type"] = yang_type
             if default_stmt is not None:
                 class_map[type_name]["default"] = default_stmt.arg
+            elif "default" in elemtype:
+                # the default of the type that this one is derived from
+                class_map[type_name]["default"] = elemtype["default"]
             if "referenced_path" in elemtype:
                 class_map[type_name]["referenced_path"] = elemtype["referenced_path"]
                 class_map[type_name]["class_override"] = "leafref"
-- 
2.43.0


From 69c20379b7293cec01a8ba48d28638cbf51068ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 38/82] fix: a choice at the top-level of a module clears its
 other cases

---
 pyangbind/lib/yangtypes.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index ee6eaa5..bd0fc4a 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -935,6 +935,26 @@ class YANGBool(int):
         return str(self.__repr__())
 
 
+def unset_other_cases(obj, choice):
+    """
+    Unset the elements of obj that are members of the choice that is specified
+    (as the name of the choice, and of the case), but of another of its cases.
+    """
+    while hasattr(obj, "__choices__") and choice:
+        for ch in obj.__choices__:
+            if ch == choice[0]:
+                for case in obj.__choices__[ch]:
+                    if not case == choice[1]:
+                        for elem in obj.__choices__[ch][case]:
+                            method = "_unset_%s" % elem
+                            if not hasattr(obj, method):
+                                raise AttributeError("unmapped choice!")
+                            x = getattr(obj, method)
+                            x()
+        # a choice within a case of another choice is followed by the latter
+        choice = choice[2] if len(choice) > 2 else False
+
+
 def YANGDynClass(*args, **kwargs):
     """
     Wrap an type - specified in the base_type arugment - with
@@ -1162,19 +1182,7 @@ def YANGDynClass(*args, **kwargs):
             return super(YANGBaseClass, self).__repr__()
 
         def _set(self, choice=False):
-            while hasattr(self, "__choices__") and choice:
-                for ch in self.__choices__:
-                    if ch == choice[0]:
-                        for case in self.__choices__[ch]:
-                            if not case == choice[1]:
-                                for elem in self.__choices__[ch][case]:
-                                    method = "_unset_%s" % elem
-                                    if not hasattr(self, method):
-                                        raise AttributeError("unmapped choice!")
-                                    x = getattr(self, method)
-                                    x()
-                # a choice within a case of another choice is followed by the latter
-                choice = choice[2] if len(choice) > 2 else False
+            unset_other_cases(self, choice)
 
             self._mchanged = True
 
@@ -1185,6 +1193,9 @@ def YANGDynClass(*args, **kwargs):
                 # the parent has to clear the other cases of the choice that this
                 # element - rather than one of its descendants - is a member of
                 self._parent._set(choice=self._choice)
+            elif self._parent:
+                # a choice at the top-level of a module
+                unset_other_cases(self._parent, self._choice)
 
         def _add_metadata(self, k, v):
             self._metadata[k] = v
-- 
2.43.0


From 7851960b47fd89605f9f40744ebdf80f488a4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 39/82] fix: distinguish choices and cases of the same name
 that different modules define

---
 pyangbind/plugin/pybind.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 3f5b9d5..80a3214 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -668,12 +668,21 @@ def get_children_elements(
     # It treats 'choice' children, which have elements in its cases.
     # It extends the list of elements and imports as childs are inspected.
 
+    if parent.keyword == "submodule":
+        parent_module = ctx.get_module(parent.i_including_modulename)
+    else:
+        parent_module = parent if parent.keyword == "module" else parent.main_module()
+
     for ch in i_children:
         if ch.keyword == "choice":
             # These are cases - where the choice is within a case of another choice
-            # its elements are also members of the enclosing case
+            # its elements are also members of the enclosing case. The names of those
+            # that are augmented by another module may be the same as existing ones
             for sub_choice_ch in ch.i_children:
-                case = (ch.arg, sub_choice_ch.arg)
+                case = tuple(
+                    i.arg if i.main_module() is parent_module else "%s:%s" % (i.main_module().arg, i.arg)
+                    for i in (ch, sub_choice_ch)
+                )
                 get_children_elements(
                     ctx,
                     fd,
-- 
2.43.0


From 3b36852ba404903a033e02878a0de6056cf449bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 40/82] fix: a list entry whose key is rejected does not stay
 registered with the path helper

---
 pyangbind/lib/yangtypes.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index bd0fc4a..59da5d3 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -738,9 +738,15 @@ def YANGListType(*args, **kwargs):
                         )
 
                     if keydict is not None:
-                        for kn in keydict:
-                            key = getattr(tmp, "_set_%s" % safe_name(kn))
-                            key(keydict[kn], load=True)
+                        try:
+                            for kn in keydict:
+                                key = getattr(tmp, "_set_%s" % safe_name(kn))
+                                key(keydict[kn], load=True)
+                        except ValueError:
+                            if path_helper and k not in self._members:
+                                # the entry that was registered does not come to exist
+                                path_helper.unregister(tmp._path())
+                            raise
 
                     if hasattr(k, "_referenced_object") and k._referenced_object is not None:
                         k = k._referenced_object
-- 
2.43.0


From e52ae82c443eb2137e705cb149da9138150f1966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:06 +0000
Subject: [PATCH 41/82] fix: the path helper returns the current object rather
 than an equal one that it replaced

---
 pyangbind/lib/xpathhelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index 0fb3734..6d46886 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -244,7 +244,7 @@ class YANGPathHelper(PybindXpathHelper):
             raise XPathError("duplicate objects in tree - %s" % object_path)
         if this_obj_existing is not None and not this_obj_existing == []:
             this_obj_existing = this_obj_existing[0]
-            if self._library[this_obj_existing.get("obj_ptr")] == object_ptr:
+            if self._library[this_obj_existing.get("obj_ptr")] is object_ptr:
                 return True
             else:
                 del self._library[this_obj_existing.get("obj_ptr")]
-- 
2.43.0


From 89d2319a9abbf4ed7343a7122e205664995761f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 42/82] fix: deleting a list entry with del unregisters it from
 the path helper

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 59da5d3..34dc2e0 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -770,7 +770,7 @@ def YANGListType(*args, **kwargs):
                 return k
 
         def __delitem__(self, k):
-            del self._members[k]
+            self.delete(k)
 
         def __len__(self):
             return len(self._members)
-- 
2.43.0


From 896e0850b4c397dff3afd7c4f651eeb896790951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 43/82] fix: distinct names for the classes of different paths

---
 pyangbind/plugin/pybind.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 80a3214..29cd496 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -715,6 +715,18 @@ def get_children_elements(
                     imports.append(ch.arg)
 
 
+# The names of the classes that have been generated, and what they are for.
+generated_classes = {}
+
+
+def generated_class_name(element, module, path):
+    class_name = "yc_%s_%s_%s" % (safe_name(element.arg), safe_name(module.arg), safe_name(path.replace("/", "_")))
+    # the paths of different elements may result in the same name (/a/b and /a-b)
+    while generated_classes.setdefault(class_name, (module.arg, path)) != (module.arg, path):
+        class_name += "_"
+    return class_name
+
+
 def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=True, choice=False, register_paths=True):
     # Iterative function that is called for all elements that have childen
     # data nodes in the tree. This function resolves those nodes into the
@@ -815,10 +827,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             nfd.write("class %s(PybindBase):\n" % safe_name(parent.arg))
         else:
             if not path == "":
-                nfd.write(
-                    "class yc_%s_%s_%s(PybindBase):\n"
-                    % (safe_name(parent.arg), safe_name(module.arg), safe_name(path.replace("/", "_")))
-                )
+                nfd.write("class %s(PybindBase):\n" % generated_class_name(parent, module, path))
             else:
                 nfd.write("class %s(PybindBase):\n" % safe_name(parent.arg))
 
@@ -1546,11 +1555,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
 
             else:
                 # Otherwise, give a unique name for the class within the dictionary.
-                elemdict["type"] = "yc_%s_%s_%s" % (
-                    safe_name(element.arg),
-                    safe_name(module.arg),
-                    safe_name(path.replace("/", "_")),
-                )
+                elemdict["type"] = generated_class_name(element, module, path)
 
             # Deal with specific cases for list - such as the key and how it is
             # ordered.
-- 
2.43.0


From a0dd97dac581108a5581cad68ef08cab89387c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 44/82] fix: a rejected assignment to a container leaves it
 registered with the path helper

---
 pyangbind/lib/yangtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 34dc2e0..db6a2b2 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1137,6 +1137,8 @@ def YANGDynClass(*args, **kwargs):
             # a container must be registered before its children are, any other
             # element is registered once its value is known to be valid
             if self._is_container == "container":
+                if len(args) == 1 and not all(hasattr(args[0], e) for e in getattr(self, "_pyangbind_elements", ())):
+                    raise ValueError("Supplied object did not have the correct attributes")
                 self.__register()
 
             if self._is_container == "list" or self._is_container == "container":
-- 
2.43.0


From ded1936429e171e5efd2f6e6bad5c972bdab0531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:13 +0000
Subject: [PATCH 45/82] fix: the elements of a container or list that is
 replaced or unset do not stay registered with the path helper

---
 pyangbind/lib/xpathhelper.py | 6 ++++++
 pyangbind/lib/yangtypes.py   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index 6d46886..017c8f5 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -251,6 +251,12 @@ class YANGPathHelper(PybindXpathHelper):
                 new_uuid = str(uuid.uuid1())
                 self._library[new_uuid] = object_ptr
                 this_obj_existing.set("obj_ptr", new_uuid)
+                # the elements of the object that was replaced, those of the new
+                # one have yet to be registered
+                for child in list(this_obj_existing):
+                    for obj in child.iter():
+                        del self._library[obj.get("obj_ptr")]
+                    this_obj_existing.remove(child)
                 return True
 
         this_obj_id = str(uuid.uuid1())
diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index db6a2b2..aa53f97 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1156,6 +1156,12 @@ def YANGDynClass(*args, **kwargs):
             if not self._is_container == "container":
                 self.__register()
 
+            if self._is_container == "list" and self._path_helper and self._register_paths:
+                # the entries of a list that this one replaces
+                for entry in self._path_helper.get(self._register_path()):
+                    if not any(entry is member for member in self.itervalues()):
+                        self._path_helper.unregister(entry._path())
+
             if len(args):
                 self._set()
 
-- 
2.43.0


From e40a3da592eb04649116de7225863503d93cdeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 46/82] fix: modifying the bits of a leaf marks its parents as
 changed and clears the other cases of a choice

---
 pyangbind/lib/yangtypes.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index aa53f97..42dfd04 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1485,37 +1485,47 @@ def YANGBitsType(allowed_bits):
             if args:
                 value = args[0]
                 for bit in value.split():
-                    self.add(bit)
+                    self._check_bit(bit)
+                    super().add(bit)
 
         def _add_bit_definition(self, bit, position):
             self._allowed_bits[bit] = position
 
+        def _check_bit(self, bit):
+            if bit not in self._allowed_bits:
+                raise ValueError(f"Bit value {bit} not valid, expected one of {self._allowed_bits}")
+
+        def _modified(self):
+            # a leaf has to mark its parents as changed, too
+            if hasattr(self, "_set"):
+                self._set()
+            else:
+                self._mchanged = True
+
         # overwrite set methods to 1/ check for legal values and 2/ set the
         # changed flag
         def add(self, bit):
-            if bit not in self._allowed_bits:
-                raise ValueError(f"Bit value {bit} not valid, expected one of {self._allowed_bits}")
+            self._check_bit(bit)
             super().add(bit)
-            self._mchanged = True
+            self._modified()
 
         def clear(self):
             super().clear()
-            self._mchanged = True
+            self._modified()
 
         def discard(self, bit):
-            if bit not in self._allowed_bits:
-                raise ValueError(f"Bit value {bit} not valid, expected one of {self._allowed_bits}")
+            self._check_bit(bit)
             super().discard(bit)
-            self._mchanged = True
+            self._modified()
 
         def pop(self):
             bit = super().pop()
-            self._mchanged = True
+            self._modified()
             return bit
 
         def remove(self, bit):
             super().remove(bit)
-            self._mchanged = True
+            self._modified()
 
         def __str__(self, encoding="ascii", errors="replace"):
             """Return bits as shown in JSON."""
-- 
2.43.0


From 1bbed2b9706aa2fb7e2f35cc05c72bda93e48258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 47/82] fix: extending a leaf-list with a value that is
 rejected adds none of the values

---
 pyangbind/lib/yangtypes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 42dfd04..0dacc5e 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -510,6 +510,13 @@ def TypedListType(*args, **kwargs):
             val = self.check(v)
             self._list.insert(i, val)
 
+        def extend(self, values):
+            # all or none of the values are added
+            values = list(values)
+            for v in values:
+                self._convert(v)
+            super(TypedList, self).extend(values)
+
         def append(self, v):
             val = self._convert(v)
             if not self._unique or val not in self._list:
-- 
2.43.0


From dbfdedc4cba0af3e22301184395089f3ce96c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:54 +0000
Subject: [PATCH 48/82] fix: a leaf of type bits can be set to a set of bits,
 and rejects anything else

---
 pyangbind/lib/yangtypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 0dacc5e..e24c9b5 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1491,7 +1491,10 @@ def YANGBitsType(allowed_bits):
 
             if args:
                 value = args[0]
-                for bit in value.split():
+                # either the string form, or a set of bits - such as another instance
+                if not isinstance(value, (str, set, frozenset)):
+                    raise ValueError(f"Invalid value for bits: {value}")
+                for bit in value.split() if isinstance(value, str) else value:
                     self._check_bit(bit)
                     super().add(bit)
 
-- 
2.43.0


From 3d1d892c9b73c9586f66e18d79fa628d265b6387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 49/82] fix: encode the entries of a list that is dumped by
 itself in IETF JSON

---
 pyangbind/lib/serialise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index af65e88..0df70d9 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -103,6 +103,9 @@ class YangDataSerialiser(object):
                 # some elements that do not really exist - there is a need to
                 # exclude all elements that begin with "@"
                 index += 1
+        elif isinstance(d, list):
+            # the entries of a list
+            nd = [self.default(i) for i in d]
         else:
             nd = d
         return nd
-- 
2.43.0


From d70f2380f4adfc6b27d9304ce7f768086911094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 50/82] fix: keep the prefix declaration of identities whose
 namespace is a parent's default in XML

---
 pyangbind/lib/serialise.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 0df70d9..6310fc4 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -357,33 +357,34 @@ class pybindIETFXMLEncoder(object):
         """Map the IETF structured, and value-processed, object tree into an lxml objectify object"""
         doc = pybindIETFXMLEncoder.EMF(namespace=module_namespace)(module_name)
 
+        def add(parent, name, nsmap, text=None):
+            # An element that is created in the tree, rather than appended to it, keeps the
+            # prefixes that its text may use for the namespaces its parents declare, too
+            el = etree.SubElement(parent, "{%s}%s" % (nsmap[None], name), nsmap=nsmap)
+            if text is not None:
+                el._setText(text)
+            return el
+
         def aux(parent, root):
             for k, v in root.items():
                 k, nsmap = k
-                E = pybindIETFXMLEncoder.EMF(nsmap=dict(nsmap))
+                nsmap = dict(nsmap)
                 if isinstance(v, SerialisedTypedList):
                     # TypedList (e.g. leaf-list or union-list), process each element as a sibling
                     for i in v:
-                        el = E(k, str(i))
-                        parent.append(el)
+                        add(parent, k, nsmap, str(i))
                 elif isinstance(v, list):
                     # a container maps to a list, recursively process each element as a child element
                     for i in v:
-                        el = E(k)
-                        parent.append(el)
-                        aux(el, i)
+                        aux(add(parent, k, nsmap), i)
                 elif isinstance(v, dict):
-                    el = E(k)
-                    parent.append(el)
-                    aux(el, v)
+                    aux(add(parent, k, nsmap), v)
                 elif v is None:
-                    el = E(k)
-                    parent.append(el)
+                    add(parent, k, nsmap)
                 elif isinstance(v, bool):
-                    _v = str(v).lower()
-                    parent.append(E(k, _v))
+                    add(parent, k, nsmap, str(v).lower())
                 else:
-                    parent.append(E(k, str(v)))
+                    add(parent, k, nsmap, str(v))
 
         aux(doc, tree)
         return doc
-- 
2.43.0


From cd57e7d96d1cf19ffcacac4928a672014bd06b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:57 +0000
Subject: [PATCH 51/82] fix: an entry whose keys are not all valid does not
 mark the parents of the list as changed

---
 pyangbind/lib/yangtypes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index e24c9b5..0b19b5f 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -745,6 +745,8 @@ def YANGListType(*args, **kwargs):
                         )
 
                     if keydict is not None:
+                        # the parents are not changed unless every key is valid
+                        entry_parent, tmp._parent = tmp._parent, None
                         try:
                             for kn in keydict:
                                 key = getattr(tmp, "_set_%s" % safe_name(kn))
@@ -754,6 +756,8 @@ def YANGListType(*args, **kwargs):
                                 # the entry that was registered does not come to exist
                                 path_helper.unregister(tmp._path())
                             raise
+                        tmp._parent = entry_parent
+                        tmp._set()
 
                     if hasattr(k, "_referenced_object") and k._referenced_object is not None:
                         k = k._referenced_object
-- 
2.43.0


From 0f5109da2789ee59421a57351072690767b84c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:11 +0000
Subject: [PATCH 52/82] fix: a leaf-list whose values were all removed is not
 serialised in IETF JSON or XML

---
 pyangbind/lib/serialise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 6310fc4..c475e0c 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -469,6 +469,9 @@ def make_generate_ietf_tree(yname_ns_func):
             elif getattr(element, "_yang_type", None) == "empty" and not element:
                 # A leaf of type empty conveys its value by its presence
                 continue
+            elif flt and generated_by == "TypedListType" and not len(element):
+                # A leaf-list whose values were all removed
+                continue
             else:
                 if with_defaults is None:
                     if flt and element._changed():
-- 
2.43.0


From 20a52ae8ab93a07231667490da3e4ce1f1cd6d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:40 +0000
Subject: [PATCH 53/82] fix: append to a list an entry whose keys contain or
 end in a space

---
 pyangbind/lib/yangtypes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 0b19b5f..a6173f1 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -824,7 +824,7 @@ def YANGListType(*args, **kwargs):
                     if kv is None:
                         raise KeyError("Invalid key attribute specified for object")
                     ks += "%s " % str(kv())
-                return ks.rstrip(" ")
+                return ks[:-1]
             else:
                 kv = getattr(obj, "_get_%s" % safe_name(self._keyval), None)
                 if kv is None:
@@ -832,7 +832,11 @@ def YANGListType(*args, **kwargs):
                 return kv()
 
         def append(self, obj):
-            self.__set(_k=self._extract_key(obj), _v=obj)
+            k = self._extract_key(obj)
+            # the keys are those of the object, rather than the parts of k, since
+            # each of them may itself contain a space
+            keys = {kn: getattr(obj, "_get_%s" % safe_name(kn))() for kn in self._keyval.split(" ")}
+            self.__set(_k=k, _v=obj, _python_key=k, _named_set=True, **keys)
 
         def _new_item(self):
             return self._contained_class()
-- 
2.43.0


From 1cc3a75227be7830838e303048b5b5b1f5f307b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 54/82] fix: a typedef of a union that directly contains a
 union

---
 pyangbind/plugin/pybind.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 29cd496..c580692 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -501,9 +501,14 @@ def build_typedefs(ctx, defnd):
         base_t = defnd[t].search_one("type")
         if base_t.arg == "union":
             subtypes = []
-            for i in base_t.search("type"):
+            members = list(base_t.search("type"))
+            while members:
+                i = members.pop(0)
                 if i.arg == "identityref":
                     subtypes.append(i.search_one("base"))
+                elif i.arg == "union":
+                    # the members of a union within the union
+                    members.extend(i.search("type"))
                 else:
                     subtypes.append(i)
         elif base_t.arg == "identityref":
-- 
2.43.0


From ae38a53c2d165ce34024a53ba9a8fdade003df55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 55/82] fix: a list entry is found, and not added twice,
 whether its key is given as a number or as text

---
 pyangbind/lib/yangtypes.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index a6173f1..93d8d03 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -642,13 +642,33 @@ def YANGListType(*args, **kwargs):
         def __iter__(self):
             return iter(self._members)
 
-        def __contains__(self, k):
+        def _member_key(self, k):
+            """
+            The key by which the entry with key k is stored - a key that is a number
+            can be supplied as a number or as its text, whichever of these the entry
+            was added with.
+            """
             if k in self._members:
+                return k
+            other = None
+            if isinstance(k, str):
+                try:
+                    other = int(k)
+                except ValueError:
+                    return k
+                if str(other) != k:
+                    return k
+            elif isinstance(k, int):
+                other = str(k)
+            return other if other in self._members else k
+
+        def __contains__(self, k):
+            if self._member_key(k) in self._members:
                 return True
             return False
 
         def __getitem__(self, k):
-            return self._members[k]
+            return self._members[self._member_key(k)]
 
         def __setitem__(self, k, v):
             self.__set(_k=k, _v=v)
@@ -665,6 +685,8 @@ def YANGListType(*args, **kwargs):
                 # we generate a uuid that is used as the key, the method then
                 # returns the uuid for the upstream process to use
                 k = str(uuid.uuid1())
+            else:
+                k = self._member_key(k)
 
             update = False
             if v is not None:
@@ -699,7 +721,7 @@ def YANGListType(*args, **kwargs):
                                 "YANGList key must contain all key elements (%s)" % (self._keyval.split(" "))
                             )
                     elif named_set:
-                        k = kwargs.pop("_python_key", None)
+                        k = self._member_key(kwargs.pop("_python_key", None))
                         keydict = copy.copy(kwargs)
                     else:
                         if k == "":
@@ -849,7 +871,7 @@ def YANGListType(*args, **kwargs):
 
             (k, keyargs) = self._generate_key(*args, **kwargs)
 
-            if k in self._members:
+            if self._member_key(k) in self._members:
                 raise KeyError("%s is already defined as a list entry" % k)
             if self._keyval and keyargs is None:
                 if k is None:
@@ -872,6 +894,7 @@ def YANGListType(*args, **kwargs):
 
         def delete(self, *args, **kwargs):
             (k, _) = self._generate_key(*args, **kwargs)
+            k = self._member_key(k)
 
             if self._path_helper and self._keyval:
                 current_item = self._members[k]
-- 
2.43.0


From fda27e0573693a82f0e1380fd48273578248e2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 56/82] fix: with overwrite, loading JSON leaves nothing of the
 entries of a list, or in IETF JSON of a container, that the document replaces

---
 pyangbind/lib/serialise.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index c475e0c..6a7c358 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -682,8 +682,7 @@ class pybindJSONDecoder(object):
 
                 if overwrite:
                     for child_key in list(chobj):
-                        if child_key not in d[key]:
-                            chobj.delete(child_key)
+                        chobj.delete(child_key)
 
                 for child_key in key_order:
                     if child_key in chobj:
@@ -819,6 +818,11 @@ class pybindJSONDecoder(object):
                     if chobj._presence:
                         chobj._set_present()
 
+                if overwrite:
+                    for elem in chobj._pyangbind_elements:
+                        unsetchildelem = getattr(chobj, "_unset_%s" % elem)
+                        unsetchildelem()
+
                 pybindJSONDecoder.check_metadata_add(key, d, chobj)
                 pybindJSONDecoder.load_ietf_json(
                     d[key],
-- 
2.43.0


From e05c232baeb8d8c7c9d9f33dfc22f91045426b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 57/82] fix: a prefix that a module is imported with can be the
 prefix of another module

---
 pyangbind/helpers/identity.py |  2 ++
 pyangbind/plugin/pybind.py    | 22 +++++++++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/pyangbind/helpers/identity.py b/pyangbind/helpers/identity.py
index e99b5b0..2df08e9 100644
--- a/pyangbind/helpers/identity.py
+++ b/pyangbind/helpers/identity.py
@@ -24,6 +24,7 @@ class Identity(object):
     def __init__(self, name):
         self.name = name
         self.source_module = None
+        self.source_prefix = None
         self._imported_prefixes = []
         self.source_namespace = None
         self.base = None
@@ -131,6 +132,7 @@ class IdentityStore(object):
                 tid = Identity(iddef.arg)
                 tid.source_module = defining_module
                 tid.source_namespace = namespace
+                tid.source_prefix = prefix
                 tid.add_prefix(prefix)
                 self.add_identity(tid)
                 for base_id in base_ids:
diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index c580692..096e3e7 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -343,6 +343,7 @@ long = int
     # prefix that is used for it. We need to ensure that we understand all of the
     # prefixes that might be used to reference an identity or a typedef.
     all_mods = []
+    imported_mods = []
     for module in modules:
         local_module_prefix = module.search_one("prefix")
         if local_module_prefix is None:
@@ -372,10 +373,14 @@ long = int
             mod = ctx.get_module(j.arg)
             if mod is not None:
                 imported_module_prefix = j.search_one("prefix").arg
-                mods.append((imported_module_prefix, mod))
+                imported_mods.append((imported_module_prefix, mod))
                 modules.append(mod)
         all_mods.extend(mods)
 
+    # a module can be imported with a prefix that is the one of another module, to
+    # which the prefix refers in any other place
+    all_mods.extend(imported_mods)
+
     # remove duplicates from the list (same module and prefix)
     new_all_mods = []
     for mod in all_mods:
@@ -443,15 +448,26 @@ def build_identities(ctx, defnd):
     idstore = IdentityStore()
     idstore.build_store_from_definitions(ctx, defnd)
 
+    # A prefix that a module is imported with can be the prefix or name of another
+    # module, and does not stand for the identities of the former then.
+    prefix_modules = {}
+    for identity in idstore:
+        prefix_modules[identity.source_prefix] = identity.source_module
+    for identity in idstore:
+        prefix_modules[identity.source_module] = identity.source_module
+
+    def prefixes(identity):
+        return [p for p in identity.prefixes() if prefix_modules.get(p, identity.source_module) == identity.source_module]
+
     identity_dict = {}
     for identity in idstore:
-        for prefix in identity.prefixes():
+        for prefix in prefixes(identity):
             ident = "%s:%s" % (prefix, identity.name)
             identity_dict[ident] = {}
             identity_dict["%s" % identity.name] = {}
             for ch in identity.children:
                 d = {"@module": ch.source_module, "@namespace": ch.source_namespace}
-                for cpfx in ch.prefixes() + [None]:
+                for cpfx in prefixes(ch) + [None]:
                     if cpfx is not None:
                         spfx = "%s:" % cpfx
                     else:
-- 
2.43.0


From 18115e3624d0f2d8f88760cce6ca2820c53e2f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 58/82] fix: skip subtrees within lists, those below a leaf,
 and in IETF JSON, when dumping

---
 pyangbind/lib/pybindJSON.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/pyangbind/lib/pybindJSON.py b/pyangbind/lib/pybindJSON.py
index cf0bfd8..94cb8d4 100644
--- a/pyangbind/lib/pybindJSON.py
+++ b/pyangbind/lib/pybindJSON.py
@@ -28,19 +28,26 @@ from pyangbind.lib.serialise import pybindIETFJSONEncoder, pybindJSONDecoder, py
 
 
 def remove_path(tree, path):
-    this_part = path.pop(0)
-    if len(path) == 0:
-        try:
-            del tree[this_part]
-            return tree
-        except KeyError:
-            # ignore missing dictionary key
-            pass
-    else:
-        try:
-            tree[this_part] = remove_path(tree[this_part], path)
-        except KeyError:
-            pass
+    """
+    Remove the element at the path from a tree that is to be dumped, if the tree
+    has it. The path consists of the names of the elements, that of an element within
+    a list refers to the elements of all entries unless it is followed by a key.
+    """
+    if isinstance(tree, OrderedDict) and path[0] not in tree:
+        # the entries of a list by their keys
+        for entry in tree.values():
+            remove_path(entry, path)
+    elif isinstance(tree, list):
+        # the entries of a list in IETF JSON
+        for entry in tree:
+            remove_path(entry, path)
+    elif isinstance(tree, dict):
+        # in IETF JSON the names can be prefixed with that of their module
+        for name in [n for n in tree if n == path[0] or str(n).split(":")[-1] == path[0]]:
+            if len(path) == 1:
+                del tree[name]
+            else:
+                remove_path(tree[name], path[1:])
     return tree
 
 
-- 
2.43.0


From ef47382563a973e02cfe8fa0d01b31f273e0048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 59/82] fix: select entries by values nested in IETF JSON, by
 names with dots, and not those that lack the value, when dumping

---
 pyangbind/lib/pybindJSON.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/pyangbind/lib/pybindJSON.py b/pyangbind/lib/pybindJSON.py
index 94cb8d4..172cfce 100644
--- a/pyangbind/lib/pybindJSON.py
+++ b/pyangbind/lib/pybindJSON.py
@@ -94,18 +94,33 @@ def dumps(obj, indent=4, filter=True, skip_subtrees=[], select=False, mode="defa
     def lookup_subdict(dictionary, key):
         if not isinstance(key, list):
             raise AttributeError("keys should be a list")
+        if not isinstance(dictionary, dict):
+            raise KeyError("requested element of a leaf (%s)" % key[0])
         unresolved_dict = {}
         for k, v in dictionary.items():
-            if ":" in k:
+            if ":" in str(k):
                 k = k.split(":")[1]
             unresolved_dict[k] = v
 
-        if not key[0] in unresolved_dict:
-            raise KeyError("requested non-existent key (%s)" % key[0])
-        if len(key) == 1:
-            return unresolved_dict[key[0]]
-        current = key.pop(0)
-        return lookup_subdict(dictionary[current], key)
+        # the names of elements can themselves contain the separator
+        for parts in range(1, len(key) + 1):
+            name = ".".join(key[:parts])
+            if name not in unresolved_dict:
+                continue
+            if parts == len(key):
+                return unresolved_dict[name]
+            try:
+                return lookup_subdict(unresolved_dict[name], key[parts:])
+            except KeyError:
+                continue
+        raise KeyError("requested non-existent key (%s)" % ".".join(key))
+
+    def selected(element, key, value):
+        try:
+            return str(lookup_subdict(element, key.split("."))) == value
+        except KeyError:
+            # an element that does not have the value
+            return False
 
     if not isinstance(skip_subtrees, list):
         raise AttributeError("the subtrees to be skipped should be a list")
@@ -140,11 +155,11 @@ def dumps(obj, indent=4, filter=True, skip_subtrees=[], select=False, mode="defa
             for k, v in select.items():
                 v = str(v)
                 if mode == "default" or isinstance(tree, dict):
-                    if keep and not str(lookup_subdict(tree[t], k.split("."))) == v:
+                    if keep and not selected(tree[t], k, v):
                         keep = False
                 else:
                     # handle ietf case where we have a list and might have namespaces
-                    if keep and not str(lookup_subdict(t, k.split("."))) == v:
+                    if keep and not selected(t, k, v):
                         keep = False
             if not keep:
                 key_del.append(t)
@@ -153,8 +168,7 @@ def dumps(obj, indent=4, filter=True, skip_subtrees=[], select=False, mode="defa
                 if mode == "default":
                     del tree[k]
         else:
-            for i in key_del:
-                tree.remove(i)
+            tree = [t for t in tree if not any(t is i for i in key_del)]
 
     if mode == "ietf":
         cls = pybindIETFJSONEncoder
-- 
2.43.0


From 49e3b6acfbfde180a0671518def0e579071367d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 60/82] fix: key names that contain dots in the path helper

---
 pyangbind/lib/xpathhelper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index 017c8f5..6f861b9 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -107,7 +107,7 @@ class FakeRoot(PybindBase):
 class YANGPathHelper(PybindXpathHelper):
     _attr_re = regex.compile(r"^(?P<tagname>[^\[]+)(?P<args>(\[[^\]]+\])+)$")
     _arg_re = regex.compile(
-        r"^((and|or) )?[@]?(?P<cmd>[a-zA-Z0-9\-\_:]+)([ ]+)?"
+        r"^((and|or) )?[@]?(?P<cmd>[a-zA-Z0-9\-\_\.:]+)([ ]+)?"
         + r"=([ ]+)?((?P<quote>['\"])(?P<arg>.*?)(?P=quote)|(?P<arg>[^ ^'^\"]+))([ ]+)?"
         + "(?P<remainder>.*)"
     )
-- 
2.43.0


From 362b0a8a52c505c24a5cfb2a26f4b58956d2adc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 61/82] fix: any whitespace between the parts of a range or
 length

---
 pyangbind/plugin/pybind.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 096e3e7..5873bd1 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1295,17 +1295,11 @@ def build_elemtype(ctx, et, prefix=False):
         restrictions["pattern"] = [i.arg for i in pattern_stmts]
 
     if length_stmt:
-        if "|" in length_stmt.arg:
-            restrictions["length"] = [i.replace(" ", "") for i in length_stmt.arg.split("|")]
-        else:
-            restrictions["length"] = [length_stmt.arg]
+        restrictions["length"] = ["".join(i.split()) for i in length_stmt.arg.split("|")]
 
     if range_stmt:
         # Complex ranges are separated by pipes
-        if "|" in range_stmt.arg:
-            restrictions["range"] = [i.replace(" ", "") for i in range_stmt.arg.split("|")]
-        else:
-            restrictions["range"] = [range_stmt.arg]
+        restrictions["range"] = ["".join(i.split()) for i in range_stmt.arg.split("|")]
 
     # Build RestrictedClassTypes based on the compiled dictionary and the
     # underlying base type.
-- 
2.43.0


From 008750134df43e428782155b3c5dac6f43c59555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 62/82] fix: encode booleans of leaf-lists in XML as true and
 false

---
 pyangbind/lib/serialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index 6a7c358..f899ee3 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -372,7 +372,7 @@ class pybindIETFXMLEncoder(object):
                 if isinstance(v, SerialisedTypedList):
                     # TypedList (e.g. leaf-list or union-list), process each element as a sibling
                     for i in v:
-                        add(parent, k, nsmap, str(i))
+                        add(parent, k, nsmap, str(i).lower() if isinstance(i, bool) else str(i))
                 elif isinstance(v, list):
                     # a container maps to a list, recursively process each element as a child element
                     for i in v:
-- 
2.43.0


From 2365170f2fd0d5cebabd061d601cc3901eb2dbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 63/82] fix: a list is no value of a container whose elements
 are named as its methods

---
 pyangbind/lib/yangtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 93d8d03..97ca441 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1175,7 +1175,8 @@ def YANGDynClass(*args, **kwargs):
             # a container must be registered before its children are, any other
             # element is registered once its value is known to be valid
             if self._is_container == "container":
-                if len(args) == 1 and not all(hasattr(args[0], e) for e in getattr(self, "_pyangbind_elements", ())):
+                elements = getattr(self, "_pyangbind_elements", ())
+                if len(args) == 1 and not all(hasattr(getattr(args[0], e, None), "_changed") for e in elements):
                     raise ValueError("Supplied object did not have the correct attributes")
                 self.__register()
 
-- 
2.43.0


From 40897bea2d5470833c5b94b82878c39ee1808db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 64/82] fix: the default of a decimal64 leaf is the number as
 it is written, not its float

---
 pyangbind/plugin/pybind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 5873bd1..6119ec9 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -133,7 +133,7 @@ class_map = {
         ),
     },
     "string": {"native_type": "str", "base_type": True, "quote_arg": True, "pytype": str},
-    "decimal64": {"native_type": "Decimal", "base_type": True, "pytype": decimal.Decimal},
+    "decimal64": {"native_type": "Decimal", "base_type": True, "quote_arg": True, "pytype": decimal.Decimal},
     "empty": {
         "native_type": "YANGBool",
         "map": class_bool_map,
-- 
2.43.0


From e0237c6d33ec2ae45c96c9387c0cb1641dea8f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 65/82] fix: a default with three quotes makes the bindings
 invalid

---
 pyangbind/plugin/pybind.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 6119ec9..13e69ff 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1195,7 +1195,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                 """      raise ValueError({
           'error-string': \"\"\"%s must be of a type compatible with %s\"\"\",
           'defined-type': "%s",
-          'generated-type': \"\"\"%s(%s)\"\"\",
+          'generated-type': %r,
         })\n\n"""
                 % (
                     i["name"],
@@ -1205,8 +1205,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                         if ":" not in i["origtype"] and not i["origtype"] in YANG_BUILTIN_TYPES
                         else i["origtype"]
                     ),
-                    c_str["type"],
-                    c_str["arg"],
+                    "%s(%s)" % (c_str["type"], c_str["arg"]),
                 )
             )
             nfd.write("    self.__%s = t\n" % (i["name"]))
-- 
2.43.0


From b698f8e643ac95df7e677a55615dc93a24446bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 66/82] fix: quotes and backslashes in descriptions make the
 bindings invalid

---
 pyangbind/plugin/pybind.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 13e69ff..a6078be 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -736,6 +736,11 @@ def get_children_elements(
                     imports.append(ch.arg)
 
 
+def docstring_text(text):
+    """Text as it has to be written between triple quotes."""
+    return text.replace("\\", "\\\\").replace('"', '\\"')
+
+
 # The names of the classes that have been generated, and what they are for.
 generated_classes = {}
 
@@ -863,7 +868,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
         # code that is generated.
         parent_descr = parent.search_one("description")
         if parent_descr is not None:
-            parent_descr = "\n\n  YANG Description: %s" % parent_descr.arg
+            parent_descr = "\n\n  YANG Description: %s" % docstring_text(parent_descr.arg)
         else:
             parent_descr = ""
 
@@ -1144,7 +1149,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             c_str = classes[i["name"]]
             description_str = ""
             if i["description"]:
-                description_str = "\n\n    YANG Description: %s" % i["description"]
+                description_str = "\n\n    YANG Description: %s" % docstring_text(str(i["description"]))
             nfd.write(
                 '''
   def _get_%s(self):
-- 
2.43.0


From ee63c54197d768d09d212b10397589152831617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 67/82] fix: the default of a union typedef may be empty

---
 pyangbind/plugin/pybind.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index a6078be..dfce123 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -639,7 +639,7 @@ def build_typedefs(ctx, defnd):
             # function.
             native_type = []
             parent_type = []
-            default = False if default_stmt is None else default_stmt.arg
+            default = None if default_stmt is None else default_stmt.arg
             for i in elemtype:
                 if isinstance(i[1]["native_type"], list):
                     native_type.extend(i[1]["native_type"])
@@ -655,13 +655,13 @@ def build_typedefs(ctx, defnd):
                     msg += " supported (%s in %s)" % (i[1]["yang_type"], item.arg)
                     raise TypeError(msg)
 
-                if "default" in i[1] and not default:
+                if "default" in i[1] and default is None:
                     # When multiple 'default' values are specified within a union that
                     # is within a typedef, then pyangbind will choose the first one.
                     q = True if "quote_arg" in i[1] else False
                     default = (i[1]["default"], q)
             class_map[type_name] = {"native_type": native_type, "base_type": False, "parent_type": parent_type}
-            if default:
+            if default is not None:
                 if not isinstance(default, tuple):
                     q = True if "quote_arg" in i[1] else False
                     default = (default, q)
-- 
2.43.0


From 39151a6b062667687b2a747b332ecde10688c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:38 +0000
Subject: [PATCH 68/82] fix: a leafref to a leaf-list within list entries
 refuses existing values

---
 pyangbind/lib/yangtypes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 97ca441..d52c5b5 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1423,10 +1423,12 @@ def ReferenceType(*args, **kwargs):
                                 index += 1
                         else:
                             found = False
-                            for i in path_chk:
-                                if str(i) == str(value):
-                                    found = True
-                                    self._referenced_object = i
+                            for obj in path_chk:
+                                # within a list, the path leads to a leaf-list per entry
+                                for i in obj if is_yang_leaflist(obj) else [obj]:
+                                    if str(i) == str(value):
+                                        found = True
+                                        self._referenced_object = i
 
                         if not found:
                             raise ValueError(
-- 
2.43.0


From 13748a4deb908a7f210ce8a1ff636d6def1be99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:27 +0000
Subject: [PATCH 69/82] fix: an element named OrderedDict makes the bindings
 invalid

---
 pyangbind/lib/yangtypes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index d52c5b5..dd2dad5 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -94,6 +94,7 @@ reserved_name = [
     "append",
     "extend",
     "elements",
+    "OrderedDict",
 ]
 
 
-- 
2.43.0


From 78e7630e57b0d2f591493592186e61cca58ad16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:10 +0000
Subject: [PATCH 70/82] fix: bindings split into a directory confuse elements
 that have the names of others

---
 pyangbind/plugin/pybind.py | 81 +++++++++++++++++++++++++++++---------
 1 file changed, 62 insertions(+), 19 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index dfce123..6a6c29d 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -338,6 +338,9 @@ long = int
         ctx.pybind_split_basepath = os.path.abspath(ctx.opts.split_class_dir)
         if not os.path.exists(ctx.pybind_split_basepath):
             os.makedirs(ctx.pybind_split_basepath)
+        # the classes that are at the root of the directory, and the packages there
+        ctx.pybind_split_classes = {split_class_name(i.arg) for mod in modules for i in [mod] + mod.search("include")}
+        ctx.pybind_split_packages = {}
 
     # Determine all modules, and submodules that are needed, along with the
     # prefix that is used for it. We need to ensure that we understand all of the
@@ -733,7 +736,7 @@ def get_children_elements(
                 if (hasattr(ch, "i_children") and len(ch.i_children)) or (
                     ctx.opts.generate_presence and ch.search_one("presence")
                 ):
-                    imports.append(ch.arg)
+                    imports.append(split_package_name(ctx, module, path + "/" + ch.arg, register_paths))
 
 
 def docstring_text(text):
@@ -753,6 +756,59 @@ def generated_class_name(element, module, path):
     return class_name
 
 
+# Names that the generated code refers to, which a class or package would hide where
+# the output is split.
+split_reserved_names = [
+    "AttributeError",
+    "Decimal",
+    "PybindBase",
+    "ReferenceType",
+    "RestrictedClassType",
+    "RestrictedPrecisionDecimalType",
+    "TypeError",
+    "TypedListType",
+    "ValueError",
+    "YANGBinary",
+    "YANGBitsType",
+    "YANGBool",
+    "YANGDynClass",
+    "YANGListType",
+    "attrgetter",
+    "dict",
+    "getattr",
+    "hasattr",
+    "isinstance",
+    "len",
+    "long",
+    "xpathhelper",
+]
+
+
+def split_class_name(name):
+    # The name of the class of an element in the file of its own.
+    return safe_name(name) + "_" if name in split_reserved_names else safe_name(name)
+
+
+def split_package_name(ctx, module, path, register_paths=True):
+    # The name of the package that has the class of the element at this path. It is
+    # imported by the file that has the class of its parent, thus it has to differ
+    # from the classes that are in this file and the other names that it uses.
+    pparts = path.split("/")
+    package = split_class_name(pparts[-1])
+    if len(pparts) == 2 or (len(pparts) == 3 and not register_paths):
+        classes = ctx.pybind_split_classes
+    else:
+        classes = [split_class_name(pparts[-2])]
+    if package in classes:
+        package += "_"
+    if len(pparts) == 2:
+        # different modules can have elements of the same name
+        owner = (module.i_including_modulename if module.keyword == "submodule" else module.arg, path)
+        while ctx.pybind_split_packages.setdefault(package, owner) != owner:
+            package += "_"
+    return package
+
+
 def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=True, choice=False, register_paths=True):
     # Iterative function that is called for all elements that have childen
     # data nodes in the tree. This function resolves those nodes into the
@@ -774,16 +830,8 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
             pparts = path.split("/")
             npath = "/"
 
-            # Check that we don't have the problem of containers that are nested
-            # with the same name
             for i in range(1, len(pparts)):
-                if i > 0 and pparts[i] == pparts[i - 1]:
-                    pname = safe_name(pparts[i]) + "_"
-                elif i == 1 and pparts[i] == module.arg:
-                    pname = safe_name(pparts[i]) + "_"
-                else:
-                    pname = safe_name(pparts[i])
-                npath += pname + "/"
+                npath += split_package_name(ctx, module, "/".join(pparts[: i + 1]), register_paths) + "/"
 
             bpath = ctx.pybind_split_basepath + npath
             if not os.path.exists(bpath):
@@ -841,16 +889,14 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
     if ctx.opts.split_class_dir:
         if len(import_req):
             for im in import_req:
-                if im == parent.arg:
-                    im += "_"
                 # Relative import in PY2/PY3 compatible style
-                nfd.write("from . import {}\n".format(safe_name(im)))
+                nfd.write("from . import {}\n".format(im))
 
     # 'container', 'module', 'list' and 'submodule' all have their own classes
     # generated.
     if parent.keyword in ["container", "module", "list", "submodule", "input", "output", "rpc", "notification"]:
         if ctx.opts.split_class_dir:
-            nfd.write("class %s(PybindBase):\n" % safe_name(parent.arg))
+            nfd.write("class %s(PybindBase):\n" % split_class_name(parent.arg))
         else:
             if not path == "":
                 nfd.write("class %s(PybindBase):\n" % generated_class_name(parent, module, path))
@@ -1566,11 +1612,8 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
                 # If we were dealing with split classes, then rather than naming the
                 # class based on a unique intra-file name - and rather we must import
                 # the relative path to the module.class
-                if element.arg == parent.arg:
-                    modname = safe_name(element.arg) + "_"
-                else:
-                    modname = safe_name(element.arg)
-                elemdict["type"] = "%s.%s" % (modname, safe_name(element.arg))
+                modname = split_package_name(ctx, module, path, register_paths)
+                elemdict["type"] = "%s.%s" % (modname, split_class_name(element.arg))
 
             else:
                 # Otherwise, give a unique name for the class within the dictionary.
-- 
2.43.0


From 793da241b38ce21f7c9205ac56904aef246237d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:56 +0000
Subject: [PATCH 71/82] fix: bindings split into a directory fail for
 containers that are named as a variable of the code

---
 pyangbind/plugin/pybind.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 6a6c29d..899e995 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -773,13 +773,26 @@ split_reserved_names = [
     "YANGBool",
     "YANGDynClass",
     "YANGListType",
+    "all_attr",
+    "args",
     "attrgetter",
     "dict",
+    "e",
+    "extmethods",
     "getattr",
     "hasattr",
+    "helper",
     "isinstance",
+    "kwargs",
     "len",
+    "load",
     "long",
+    "nobj",
+    "parent",
+    "self",
+    "setmethod",
+    "t",
+    "v",
     "xpathhelper",
 ]
 
-- 
2.43.0


From cb1f3cfa3e29c76ede32c8f78b133391849ae12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 72/82] fix: keys with || or a newline cannot be registered
 with the path helper

---
 pyangbind/lib/xpathhelper.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyangbind/lib/xpathhelper.py b/pyangbind/lib/xpathhelper.py
index 6f861b9..b540f93 100644
--- a/pyangbind/lib/xpathhelper.py
+++ b/pyangbind/lib/xpathhelper.py
@@ -108,8 +108,8 @@ class YANGPathHelper(PybindXpathHelper):
     _attr_re = regex.compile(r"^(?P<tagname>[^\[]+)(?P<args>(\[[^\]]+\])+)$")
     _arg_re = regex.compile(
         r"^((and|or) )?[@]?(?P<cmd>[a-zA-Z0-9\-\_\.:]+)([ ]+)?"
-        + r"=([ ]+)?((?P<quote>['\"])(?P<arg>.*?)(?P=quote)|(?P<arg>[^ ^'^\"]+))([ ]+)?"
-        + "(?P<remainder>.*)"
+        + r"=([ ]+)?((?P<quote>['\"])(?P<arg>[\s\S]*?)(?P=quote)|(?P<arg>[^ ^'^\"]+))([ ]+)?"
+        + r"(?P<remainder>[\s\S]*)"
     )
     _relative_path_re = regex.compile(r"^(\.|\.\.)")
 
@@ -201,16 +201,18 @@ class YANGPathHelper(PybindXpathHelper):
 
     def _tagname_attributes(self, tag, normalise_namespace=True):
         tagname, attributes = tag, None
-        if self._attr_re.match(tag):
-            tagname, args = self._attr_re.sub(r"\g<tagname>||\g<args>", tag).split("||")
+        tag_match = self._attr_re.match(tag)
+        if tag_match:
+            tagname, args = tag_match.group("tagname"), tag_match.group("args")
             arg_parts = [i.strip("[") for i in args.split("]")]
 
             attributes = {}
             for arg in arg_parts:
                 tmp_arg = arg
                 while len(tmp_arg):
-                    if self._arg_re.match(tmp_arg):
-                        c, a, r = self._arg_re.sub(r"\g<cmd>||\g<arg>||\g<remainder>", tmp_arg).split("||")
+                    arg_match = self._arg_re.match(tmp_arg)
+                    if arg_match:
+                        c, a, r = arg_match.group("cmd", "arg", "remainder")
                         if ":" in c and normalise_namespace:
                             c = c.split(":")[1]
                         attributes[c] = a
-- 
2.43.0


From d1ca4bc14b162013e9215fea467ddda64d9e9413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:16 +0000
Subject: [PATCH 73/82] fix: merging IETF JSON into a list entry whose last key
 ends in a space, or is empty

---
 pyangbind/lib/serialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index f899ee3..fe719ac 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -859,7 +859,7 @@ class pybindJSONDecoder(object):
                             for pkv, ykv in zip(this_attr._keyval.split(" "), this_attr._yang_keys.split(" ")):
                                 kwargs[pkv] = elem[ykv]
                                 keystr += "%s " % elem[ykv]
-                            keystr = keystr.rstrip(" ")
+                            keystr = keystr[:-1]
                             if keystr not in this_attr:
                                 nobj = this_attr.add(**kwargs)
                             else:
-- 
2.43.0


From 5d6bdc69dd3c44308243d3f105fae9b8cbdfa78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:52 +0000
Subject: [PATCH 74/82] fix: find a list entry by its named key when it was
 added by a number

---
 pyangbind/lib/yangtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index dd2dad5..1efb082 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -937,7 +937,7 @@ def YANGListType(*args, **kwargs):
                     raise KeyError("Must specify all keys to retrieve a list entry")
             keystr = keystr[:-1]
 
-            return self._members[keystr]
+            return self._members[self._member_key(keystr)]
 
         def get(self, filter=False):
             d = collections.OrderedDict()
-- 
2.43.0


From 1f177fea49193de3af611ae651d0c110b1322dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:38 +0000
Subject: [PATCH 75/82] fix: refuse unknown members of a container without
 members when loading JSON

---
 pyangbind/lib/serialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyangbind/lib/serialise.py b/pyangbind/lib/serialise.py
index fe719ac..64df7c9 100644
--- a/pyangbind/lib/serialise.py
+++ b/pyangbind/lib/serialise.py
@@ -641,7 +641,7 @@ class pybindJSONDecoder(object):
 
             set_via_stdmethod = True
             pybind_attr = getattr(chobj, "_pybind_generated_by", None)
-            if pybind_attr in ["container"]:
+            if pybind_attr in ["container"] or getattr(chobj, "_is_container", None) == "container":
                 if overwrite:
                     for elem in chobj._pyangbind_elements:
                         unsetchildelem = getattr(chobj, "_unset_%s" % elem)
-- 
2.43.0


From a6a972fd061afc876e8125c13d111a33cc140549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:20 +0000
Subject: [PATCH 76/82] fix: entries of lists within RPCs and notifications do
 not register with the path helper

---
 pyangbind/lib/yangtypes.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 1efb082..080ced9 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -748,6 +748,7 @@ def YANGListType(*args, **kwargs):
                             is_container="container",
                             path_helper=path_helper,
                             register_path=(self._parent._path() + [self._yang_name + path_keystring]),
+                            register_paths=self._registers_paths(),
                             extmethods=self._parent._extmethods,
                             extensions=extensions,
                         )
@@ -762,6 +763,7 @@ def YANGListType(*args, **kwargs):
                             is_container="container",
                             path_helper=path_helper,
                             register_path=(self._parent._path() + [self._yang_name + path_keystring]),
+                            register_paths=self._registers_paths(),
                             extmethods=self._parent._extmethods,
                             load=True,
                             extensions=extensions,
@@ -775,7 +777,7 @@ def YANGListType(*args, **kwargs):
                                 key = getattr(tmp, "_set_%s" % safe_name(kn))
                                 key(keydict[kn], load=True)
                         except ValueError:
-                            if path_helper and k not in self._members:
+                            if path_helper and self._registers_paths() and k not in self._members:
                                 # the entry that was registered does not come to exist
                                 path_helper.unregister(tmp._path())
                             raise
@@ -893,11 +895,15 @@ def YANGListType(*args, **kwargs):
                 self._set()
                 return k
 
+        def _registers_paths(self):
+            # e.g., an entry of a list within an RPC is no element of the data tree
+            return getattr(self, "_register_paths", True)
+
         def delete(self, *args, **kwargs):
             (k, _) = self._generate_key(*args, **kwargs)
             k = self._member_key(k)
 
-            if self._path_helper and self._keyval:
+            if self._path_helper and self._keyval and self._registers_paths():
                 current_item = self._members[k]
                 if " " in self._keyval:
                     keyparts = self._keyval.split(" ")
@@ -919,7 +925,7 @@ def YANGListType(*args, **kwargs):
 
             try:
                 del self._members[k]
-                if self._path_helper and self._keyval:
+                if self._path_helper and self._keyval and self._registers_paths():
                     self._path_helper.unregister(obj_path)
             except KeyError as m:
                 raise KeyError("key %s was not in list (%s)" % (k, m))
-- 
2.43.0


From 83ccefaad0034a6042fb68ce25376c2af9fe1869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:16 +0000
Subject: [PATCH 77/82] fix: extension methods whose name sorts after one that
 is called method

---
 pyangbind/lib/yangtypes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index 080ced9..c55ea4b 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -1174,8 +1174,7 @@ def YANGDynClass(*args, **kwargs):
                             continue
                         member = getattr(self._extmethods[chk_path], method)
                         if hasattr(member, "__call__"):
-                            if not hasattr(self, "_method"):
-                                setattr(self, "_" + method, self.__generate_extmethod(member))
+                            setattr(self, "_" + method, self.__generate_extmethod(member))
 
             if default is not False:
                 self._default = default
-- 
2.43.0


From d02a0f407334c8692c29fed313fe050296b1d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:34 +0000
Subject: [PATCH 78/82] fix: accept enumeration names that begin with @

---
 pyangbind/lib/yangtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyangbind/lib/yangtypes.py b/pyangbind/lib/yangtypes.py
index c55ea4b..cc8245d 100644
--- a/pyangbind/lib/yangtypes.py
+++ b/pyangbind/lib/yangtypes.py
@@ -353,7 +353,8 @@ def RestrictedClassType(*args, **kwargs):
                 elif rtype == "dict_key":
                     new_rarg = copy.deepcopy(rarg)
                     for k in rarg:
-                        if k.startswith("@"):
+                        # metadata, rather than a value whose name begins with @
+                        if k.startswith("@") and not isinstance(rarg[k], dict):
                             new_rarg.pop(k, None)
                     # populate enum values
                     # (RFC6020 s9.6.4.2: zero for the first one, otherwise one
-- 
2.43.0


From 351ca29e29a3ad04790fbc710cc4941d29b88e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:58 +0000
Subject: [PATCH 79/82] fix: an enumeration or bits type that restricts the one
 of a typedef accepts only its own names

---
 pyangbind/plugin/pybind.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 899e995..58cf847 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -612,7 +612,7 @@ def build_typedefs(ctx, defnd):
             # restriction_type class_map variables).
             # a bits type cannot be replaced with the type that it is derived from,
             # since it is the latter that specifies which bits exist
-            class_map[type_name] = {"base_type": elemtype.get("parent_type") == "bits"}
+            class_map[type_name] = {"base_type": elemtype.get("restriction_type") == "bits"}
             class_map[type_name]["native_type"] = elemtype["native_type"]
             if "parent_type" in elemtype:
                 class_map[type_name]["parent_type"] = elemtype["parent_type"]
@@ -1391,10 +1391,17 @@ def build_elemtype(ctx, et, prefix=False):
         cls = "leaf"
         # Enumerations are built as RestrictedClasses where the value that is
         # provided to the class is check against the keys of a dictionary.
-        if et.arg == "enumeration":
+        if et.search_one("enum") is not None:
+            # the enumeration may also be a restriction of the one of a typedef, in
+            # which case the values that are not stated are those of the latter
+            derived = et.arg != "enumeration"
+            known_enums = {}
+            for name, attrs in (class_map[type_name].get("restriction_argument", {}) if derived else {}).items():
+                used_values = [i["value"] for i in known_enums.values()]
+                known_enums[name] = {"value": attrs.get("value", 1 + max(used_values, default=-1))}
             enumeration_dict = {}
             for enum in et.search("enum"):
-                enumeration_dict[str(enum.arg)] = {}
+                enumeration_dict[str(enum.arg)] = known_enums.get(enum.arg, {})
                 val = enum.search_one("value")
                 if val is not None:
                     enumeration_dict[str(enum.arg)]["value"] = int(val.arg)
@@ -1405,7 +1412,7 @@ def build_elemtype(ctx, et, prefix=False):
                 % (enumeration_dict),
                 "restriction_argument": enumeration_dict,
                 "restriction_type": "dict_key",
-                "parent_type": "string",
+                "parent_type": type_name if derived else "string",
                 "base_type": False,
             }
         # Map decimal64 to a RestrictedPrecisionDecimalType - this is there to
@@ -1473,12 +1480,17 @@ def build_elemtype(ctx, et, prefix=False):
                     pp.pprint(et.arg)
                     pp.pprint(base_stmt.arg)
                 sys.exit(127)
-        elif et.arg == "bits":
+        elif et.search_one("bit") is not None:
+            # as for an enumeration, a type that is derived from bits may restrict them
+            derived = et.arg != "bits"
+            known_bits = class_map[type_name].get("restriction_argument", {}) if derived else {}
             allowed_bits = {}
             for bit in et.search("bit"):
                 position = bit.search_one("position")
                 if position is not None:
                     pos = int(position.arg)
+                elif bit.arg in known_bits:
+                    pos = known_bits[bit.arg]
                 else:
                     pos = 1 + max(allowed_bits.values(), default=-1)
                 allowed_bits[bit.arg] = pos
@@ -1486,7 +1498,9 @@ def build_elemtype(ctx, et, prefix=False):
             elemtype = {
                 "native_type": f"YANGBitsType(allowed_bits={allowed_bits})",
                 "base_type": True,
-                "parent_type": "bits",
+                "restriction_argument": allowed_bits,
+                "restriction_type": "bits",
+                "parent_type": type_name if derived else "bits",
                 "quote_arg": True,
             }
         else:
-- 
2.43.0


From 2e953af0af4ac92aaf8ab9527d4d2ebfa3b29f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:44 +0000
Subject: [PATCH 80/82] fix: a pattern with the modifier invert-match takes the
 values that it does not match

---
 pyangbind/plugin/pybind.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 58cf847..24c3cfc 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1338,6 +1338,14 @@ def class_map_name(stmt, definition):
     return stmt.arg
 
 
+def pattern_arg(stmt):
+    # The regular expression of a pattern statement, which matches the values that
+    # the pattern itself does not where it has the modifier invert-match.
+    if stmt.search_one("modifier", "invert-match") is None:
+        return stmt.arg
+    return r"(?!(?:%s)\Z)(?:.|\n)*" % stmt.arg
+
+
 def build_elemtype(ctx, et, prefix=False):
     # Build a dictionary which defines the type for the element. This is used
     # both in the case that a typedef needs to be built, as well as on per-list
@@ -1353,9 +1361,9 @@ def build_elemtype(ctx, et, prefix=False):
     # type.
     restrictions = {}
     if len(pattern_stmts) == 1:
-        restrictions["pattern"] = pattern_stmts[0].arg
+        restrictions["pattern"] = pattern_arg(pattern_stmts[0])
     elif pattern_stmts:
-        restrictions["pattern"] = [i.arg for i in pattern_stmts]
+        restrictions["pattern"] = [pattern_arg(i) for i in pattern_stmts]
 
     if length_stmt:
         restrictions["length"] = ["".join(i.split()) for i in length_stmt.arg.split("|")]
-- 
2.43.0


From 38929b1555e0f99b8cce2273b05a7824f94081b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:03 +0000
Subject: [PATCH 81/82] fix: encode a leaf whose type is derived from empty as
 empty

---
 pyangbind/plugin/pybind.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 24c3cfc..491d3a7 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1105,7 +1105,7 @@ def get_children(ctx, fd, i_children, module, parent, path=str(), parent_cfg=Tru
                     class_str["arg"] += ", is_keyval=True"
                 class_str["arg"] += ", namespace='%s'" % i["namespace"]
                 class_str["arg"] += ", defining_module='%s'" % i["defining_module"]
-                class_str["arg"] += ", yang_type='%s'" % i["origtype"]
+                class_str["arg"] += ", yang_type='%s'" % i.get("yang_type", i["origtype"])
                 class_str["arg"] += ", is_config=%s" % (i["config"] and parent_cfg)
                 classes[i["name"]] = class_str
 
@@ -1544,6 +1544,15 @@ def build_elemtype(ctx, et, prefix=False):
     return (cls, elemtype)
 
 
+def encoded_type(stmt):
+    # The name of the type of a leaf, which is that of a typedef for a derived type -
+    # other than one that is derived from empty, since that is encoded in its own way.
+    base = stmt
+    while getattr(base, "i_typedef", None) is not None:
+        base = base.i_typedef.search_one("type")
+    return base.arg if base.arg == "empty" else stmt.arg
+
+
 def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=False, register_paths=True):
     # Handle mapping of an invidual element within the model. This function
     # produces a dictionary that can then be mapped into the relevant code that
@@ -1834,6 +1843,7 @@ def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=
             "name": elemname,
             "type": elemntype,
             "origtype": element.search_one("type").arg,
+            "yang_type": encoded_type(element.search_one("type")),
             "path": safe_name(path),
             "class": cls,
             "default": elemdefault,
-- 
2.43.0


From c34408c9510f6bb54a4ac367637c40f25bb76459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:47 +0000
Subject: [PATCH 82/82] fix: a typedef called bool, container or list is not
 what its name stands for in the encodings

---
 pyangbind/plugin/pybind.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyangbind/plugin/pybind.py b/pyangbind/plugin/pybind.py
index 491d3a7..6b69276 100644
--- a/pyangbind/plugin/pybind.py
+++ b/pyangbind/plugin/pybind.py
@@ -1546,11 +1546,12 @@ def build_elemtype(ctx, et, prefix=False):
 
 def encoded_type(stmt):
     # The name of the type of a leaf, which is that of a typedef for a derived type -
-    # other than one that is derived from empty, since that is encoded in its own way.
+    # other than one that is derived from empty, since that is encoded in its own way,
+    # and one whose name has another meaning where values are created and encoded.
     base = stmt
     while getattr(base, "i_typedef", None) is not None:
         base = base.i_typedef.search_one("type")
-    return base.arg if base.arg == "empty" else stmt.arg
+    return base.arg if base.arg == "empty" or stmt.arg in ("bool", "container", "list") else stmt.arg
 
 
 def get_element(ctx, fd, element, module, parent, path, parent_cfg=True, choice=False, register_paths=True):
-- 
2.43.0

