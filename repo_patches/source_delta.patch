From de5f5b50d61bb21ceb5ea96cbd55f548d42f2c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:52 +0000
Subject: [PATCH 01/82] fix: treat py/b64 and py/b85 as reserved tag names

A dictionary that uses one of these two names as a key was decoded as bytes,
even with keys=True where every other tag name is escaped.
---
 jsonpickle/tags.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/tags.py b/jsonpickle/tags.py
index cfede5b..36278e5 100644
--- a/jsonpickle/tags.py
+++ b/jsonpickle/tags.py
@@ -36,6 +36,8 @@ TYPE: str = "py/type"
 RESERVED: set[str] = {
     BYTES,
     BYTEARRAY,
+    B64,
+    B85,
     FUNCTION,
     ID,
     INITARGS,
-- 
2.43.0


From 80c3f034ac89afb4d89e7b5177b4f1fe605d77b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:57 +0000
Subject: [PATCH 02/82] fix: keep reference IDs in step when __getnewargs_ex__
 has no kwargs

The pickler numbers the kwargs dictionary even when it is empty but the
unpickler skipped it, so later py/id references resolved to the wrong object.
---
 jsonpickle/unpickler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 76420ac..c847c0c 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -824,13 +824,14 @@ class Unpickler:
 
         if has_tag(obj, tags.NEWARGSEX):
             args, kwargs = obj[tags.NEWARGSEX]
+            # The pickler always assigns a reference ID to kwargs.
+            args = self._restore(args)
+            kwargs = self._restore(kwargs)
         else:
             args = getargs(obj, classes=self._classes)
             kwargs = {}
-        if args:
-            args = self._restore(args)
-        if kwargs:
-            kwargs = self._restore(kwargs)
+            if args:
+                args = self._restore(args)
 
         is_oldstyle = not (isinstance(cls, type) or getattr(cls, "__meta__", None))
         try:
-- 
2.43.0


From da9d81563d2fe7b70d2a72009f8bfc2803f71f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:31 +0000
Subject: [PATCH 03/82] fix: do not number objects that are replaced by null or
 a plain value

Objects such as open files are encoded as null, and custom handlers may return
a string. The unpickler cannot see that these were objects, so the reference ID
they occupied made every later py/id resolve to the wrong object.
---
 jsonpickle/pickler.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 771db2b..db5cd05 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -323,6 +323,15 @@ class Pickler:
             self._objs[objid] = new_id
         return is_new
 
+    def _forget_refs(self, count: int) -> None:
+        """Forget every reference except for the first ``count`` references.
+
+        Objects that did not make it into the output must not occupy a
+        reference ID because the unpickler will never see them.
+        """
+        while len(self._objs) > count:
+            self._objs.popitem()
+
     def _mkref(self, obj: Any) -> bool:
         """
         Log a reference to an in-memory object, and return
@@ -789,10 +798,15 @@ class Pickler:
     def _ref_obj_instance(self, obj: Any) -> dict[str, Any] | list[Any] | None:
         """Reference an existing object or flatten if new"""
         if self.unpicklable:
+            num_refs = len(self._objs)
             if self._mkref(obj):
                 # We've never seen this object so return its
                 # json representation.
-                return self._flatten_obj_instance(obj)
+                result = self._flatten_obj_instance(obj)
+                if not isinstance(result, (dict, list)):
+                    # Only objects and arrays get an ID when unpickling.
+                    self._forget_refs(num_refs)
+                return result
             # We've seen this object before so place an object
             # reference tag in the data. This avoids infinite recursion
             # when processing cyclical objects.
-- 
2.43.0


From 06cbfc7ff93c7ba1b39e3706352f526a18516b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:35 +0000
Subject: [PATCH 04/82] fix: release the reference IDs of objects replaced by
 fail_safe

The failing object and everything encoded underneath it are missing from the
output, so their IDs shifted all references that follow.
---
 jsonpickle/pickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index db5cd05..0c4d78d 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -427,6 +427,7 @@ class Pickler:
         self._seen.append(obj)
 
         max_reached = self._max_reached()
+        num_refs = len(self._objs)
 
         try:
             in_cycle = _in_cycle(obj, self._objs, max_reached, self.make_refs)
@@ -449,6 +450,7 @@ class Pickler:
             if self.fail_safe is None:
                 raise
             else:
+                self._forget_refs(num_refs)
                 return self.fail_safe(e)
 
     def _list_recurse(self, obj: Iterable[Any]) -> list[Any]:
-- 
2.43.0


From 07fa1b6bc2e2974382e0d9947582306a7f2afef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:40 +0000
Subject: [PATCH 05/82] fix: keep temporaries alive while their flattened form
 is cached

Without references (make_refs=False or unpicklable=False) results are cached by
id(). Bytes produced by an iterator were freed and their id() reused, so every
item was encoded as the first one.
---
 jsonpickle/pickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 0c4d78d..f2a5c76 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -354,6 +354,8 @@ class Pickler:
             try:
                 result = self._flattened[id(obj)]
             except KeyError:
+                # The cache is keyed by id() so the object has to stay alive.
+                self._seen.append(obj)
                 result = self._flattened[id(obj)] = self._flatten_impl(obj)
         return result
 
-- 
2.43.0


From 2f905dc01af2838d199b4f16b348adb7d159ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:44 +0000
Subject: [PATCH 06/82] fix: preserve the fold attribute of datetime and time
 objects

---
 jsonpickle/handlers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index 3148365..a820054 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -215,7 +215,8 @@ class DatetimeHandler(BaseHandler):
             else:
                 result = str(obj)
             return result
-        cls, args = obj.__reduce__()  # type: ignore[str-unpack]
+        # Protocol 4 is the first one that includes the fold attribute.
+        cls, args = obj.__reduce_ex__(4)  # type: ignore[str-unpack]
         flatten = pickler.flatten
         payload = util.b64encode(args[0])  # type: ignore[arg-type]
         args = [payload] + [flatten(i, reset=False) for i in args[1:]]
-- 
2.43.0


From 610e3903d6c3a2828f7956e74eb11e650cdb03e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:48 +0000
Subject: [PATCH 07/82] fix: restore compiled bytes patterns as bytes patterns

---
 jsonpickle/handlers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index a820054..4895703 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -242,12 +242,13 @@ class RegexHandler(BaseHandler):
     """Flatten _sre.SRE_Pattern (compiled regex) objects"""
 
     def flatten(self, obj: re.Pattern[str], data: dict[str, Any]) -> HandlerReturn:
-        data["pattern"] = obj.pattern
+        data["pattern"] = self.context.flatten(obj.pattern, reset=False)
         data["flags"] = obj.flags
         return data
 
     def restore(self, data: dict[str, Any]) -> re.Pattern[str]:
-        return re.compile(data["pattern"], data.get("flags", 0))
+        pattern = self.context.restore(data["pattern"], reset=False)
+        return re.compile(pattern, data.get("flags", 0))
 
 
 RegexHandler.handles(type(re.compile("")))
-- 
2.43.0


From 3b08d5480d098d437fabfe3236ab05c7e1b6e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:53 +0000
Subject: [PATCH 08/82] fix: do not overwrite attributes when probing with
 handle_readonly

The probe assigned the value being encoded to the root object's attribute of the
same name, so a nested object or dictionary could change the object that is
being encoded. Assign the attribute's own value instead.
---
 jsonpickle/pickler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index f2a5c76..3979cea 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -485,7 +485,9 @@ class Pickler:
         if (
             self.handle_readonly
             and k in {attr for attr, val in inspect.getmembers(self._original_object)}
-            and util._is_readonly(self._original_object, k, v)
+            and util._is_readonly(
+                self._original_object, k, getattr(self._original_object, k)
+            )
         ):
             return data
 
-- 
2.43.0


From 7a9900dab99b80e3deb6d4345e2240e0498fd7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:17 +0000
Subject: [PATCH 09/82] fix: resolve forward references under string keys with
 keys=True

The placeholder for an object that is still being constructed was only replaced
for non-string keys and with keys=False, so decoding left an internal _Proxy
object in the result.
---
 jsonpickle/unpickler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index c847c0c..9f0d464 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -919,7 +919,9 @@ class Unpickler:
                 else:
                     str_k = k
                 self._namestack.append(str_k)
-                data[k] = self._restore(v)
+                data[k] = result = self._restore(v)
+                if isinstance(result, _Proxy):
+                    self._proxies.append((data, k, result, _obj_setvalue))
 
                 self._namestack.pop()
 
-- 
2.43.0


From 05cd14b277283550903761fce20c8fd564e86254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:22 +0000
Subject: [PATCH 10/82] fix: resolve forward references stored as items of dict
 subclasses

The placeholder was replaced by setting an attribute named after the key instead
of assigning the item.
---
 jsonpickle/unpickler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 9f0d464..caa10bc 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -687,7 +687,6 @@ class Unpickler:
         restore_dict_items: bool = True,
     ) -> Any:
         restore_key = self._restore_key_fn()
-        method = _obj_setattr
         deferred = {}
 
         for k, v in util.items(obj):
@@ -705,12 +704,14 @@ class Unpickler:
                 value = self._restore(v)
             else:
                 value = v
+            method = _obj_setattr
             if util._is_noncomplex(instance) or util._is_dictionary_subclass(instance):
                 try:
                     if k == "__dict__":
                         setattr(instance, k, value)
                     else:
                         instance[k] = value
+                        method = _obj_setvalue
                 except TypeError:
                     # Immutable object, must be constructed in one shot
                     if k != "__dict__":
-- 
2.43.0


From b9ee0402b293667e19ad74a241a1928a3acba301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:54 +0000
Subject: [PATCH 11/82] fix: construct reduced objects before restoring their
 state and items

An OrderedDict or deque that contains itself, or an object whose reduce state
refers back to it from inside a tuple, was decoded with an internal _Proxy in
place of the object. Only the callable and its arguments are needed to construct
the object, so restore the remaining parts afterwards, as pickle does.
---
 jsonpickle/unpickler.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index caa10bc..151345f 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -522,15 +522,16 @@ class Unpickler:
         proxy = _Proxy()
         self._mkref(proxy)
         try:
-            reduce_val = list(map(self._restore, obj[tags.REDUCE]))
+            # Restore only what is needed to construct the object. Its state
+            # and items are allowed to refer to the object itself.
+            reduce_val = map(self._restore, obj[tags.REDUCE])
+            f = next(reduce_val, None)
+            args = next(reduce_val, None)
         except TypeError:
             result = []
             proxy.reset(result)
             self._swapref(proxy, result)
             return result
-        if len(reduce_val) < 6:
-            reduce_val.extend([None] * (6 - len(reduce_val)))
-        f, args, state, listitems, dictitems, state_setter = reduce_val
 
         if f == tags.NEWOBJ or getattr(f, "__name__", "") == "__newobj__":
             # mandated special case
@@ -540,6 +541,8 @@ class Unpickler:
             stage1 = cls.__new__(cls, *args[1:])
         else:
             if not callable(f):
+                # keep the reference IDs in step
+                list(reduce_val)
                 result = []
                 proxy.reset(result)
                 self._swapref(proxy, result)
@@ -551,6 +554,11 @@ class Unpickler:
                 # __init__ since the state dict will set all attributes immediately afterwards
                 stage1 = f.__new__(f, *args)
 
+        proxy.reset(stage1)
+        self._swapref(proxy, stage1)
+
+        state, listitems, dictitems, state_setter = [*reduce_val, *[None] * 4][:4]
+
         if state and state_setter is None:
             try:
                 stage1.__setstate__(state)
@@ -591,8 +599,6 @@ class Unpickler:
             for k, v in dictitems:
                 stage1.__setitem__(k, v)
 
-        proxy.reset(stage1)
-        self._swapref(proxy, stage1)
         return stage1
 
     def _restore_id(self, obj: dict[str, Any]) -> Any:
-- 
2.43.0


From 7df166284e1fa834faee826b7770d95ffc8ec2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:59 +0000
Subject: [PATCH 12/82] fix: restore the attributes of tuple subclasses

The attributes were encoded but ignored when decoding, which lost them and also
shifted the reference IDs of everything that followed.
---
 jsonpickle/unpickler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 151345f..9b8dfd3 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -868,7 +868,8 @@ class Unpickler:
         self._swapref(proxy, instance)
 
         if isinstance(instance, tuple):
-            return instance
+            # The items were passed to __new__(), only attributes remain.
+            return self._restore_from_dict(obj, instance)
 
         instance = self._restore_object_instance_variables(obj, instance)
 
-- 
2.43.0


From 14333c14dda89ac8d28b827bc667a99b22c2547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:04 +0000
Subject: [PATCH 13/82] fix: cut circular lists and dicts with
 unpicklable=False

Lists and dicts that contain themselves recursed until RecursionError, while
objects in the same situation are replaced by null.
---
 jsonpickle/pickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 3979cea..c74aa24 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -951,6 +951,9 @@ class Pickler:
 
     def _get_flattener(self, obj: Any) -> Callable[[Any], Any] | None:
         if type(obj) in (list, dict):
+            if not self.unpicklable and id(obj) in self._objs:
+                # A circular becomes None.
+                return lambda obj: None
             if self._mkref(obj):
                 return (
                     self._list_recurse if type(obj) is list else self._flatten_dict_obj
-- 
2.43.0


From 560a15771417773bbce6d357b485f9c3eb9ee6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:09 +0000
Subject: [PATCH 14/82] fix: keep the key order when encoding with the yaml
 backend

yaml.dump() sorts keys by default. jsonpickle numbers references in the order in
which it visits keys, so sorted output made references resolve to the wrong
objects.
---
 jsonpickle/ext/yaml.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/yaml.py b/jsonpickle/ext/yaml.py
index cb13db3..76aabd9 100644
--- a/jsonpickle/ext/yaml.py
+++ b/jsonpickle/ext/yaml.py
@@ -11,6 +11,10 @@ def register(backend: JSONBackend | None = None) -> bool:
     """Register the yaml module with jsonpickle's JSONBackend"""
     if backend is None:
         backend = jsonpickle_backend
-    return backend.load_backend(
+    loaded = backend.load_backend(
         "yaml", dumps="dump", loads="safe_load", loads_exc="YAMLError"
     )
+    if loaded and backend._encoder_options["yaml"] == ([], {}):
+        # References are numbered in traversal order, which yaml must not change.
+        backend.set_encoder_options("yaml", sort_keys=False)
+    return loaded
-- 
2.43.0


From 4faa413f8032fe5b2166ea0b86692bbd8e9595ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:14 +0000
Subject: [PATCH 15/82] fix: do not list a backend twice when it is loaded
 twice

Removing the backend then left a stale entry behind that failed with KeyError.
---
 jsonpickle/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/backend.py b/jsonpickle/backend.py
index b150a02..bd6f33d 100644
--- a/jsonpickle/backend.py
+++ b/jsonpickle/backend.py
@@ -193,7 +193,8 @@ class JSONBackend:
         self._decoder_options.setdefault(name, ([], {}))
 
         # Add this backend to the list of candidate backends
-        self._backend_names.append(name)
+        if name not in self._backend_names:
+            self._backend_names.append(name)
 
         # Indicate that we successfully loaded a JSON backend
         self._verified = True
-- 
2.43.0


From f7c326c82ab97b699d5b198b6282e3b78106676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:18 +0000
Subject: [PATCH 16/82] fix: unregister the numpy.datetime64 handler with the
 other numpy handlers

---
 jsonpickle/ext/numpy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 7c895cb..3ed4f36 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -500,5 +500,6 @@ def unregister_handlers() -> None:
     unregister(np.dtype(np.float32).__class__)
     unregister(np.dtype(np.int32).__class__)
     unregister(np.dtype(np.datetime64).__class__)
+    unregister(np.datetime64)
     # other handlers
     unregister(np.ufunc)
-- 
2.43.0


From bb35ae5f46e48b0dbee9796db174c31bee0b5661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:47 +0000
Subject: [PATCH 17/82] fix: keep the name of a pandas index

A string name was split into a tuple of its characters, and a numeric name could
not be decoded at all.
---
 jsonpickle/ext/pandas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 73e695c..efd4b6e 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -377,7 +377,7 @@ class PandasIndexHandler(BaseHandler):
         buf, meta = self.pp.restore_pandas(data)
         dtype = meta.get("dtype", None)
         name_bundle = {
-            "name": (tuple if v is not None else lambda x: x)(v)  # ruff: ignore[B035]
+            "name": tuple(v) if isinstance(v, list) else v  # ruff: ignore[B035]
             for k, v in meta.items()
             if k in {"name", "names"}
         }
-- 
2.43.0


From daddb30fc1807d34e2732a5e0898bb3cd6d9c53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:52 +0000
Subject: [PATCH 18/82] fix: restore series whose name is not a plain string

A tuple name came back as a list, which is not hashable, so decoding failed.
---
 jsonpickle/ext/pandas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index efd4b6e..89b0687 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -345,7 +345,7 @@ class PandasSeriesHandler(BaseHandler):
 
     def flatten(self, obj: pd.Series, data: dict[str, Any]) -> dict[str, Any]:
         """Flatten the index and values for reconstruction"""
-        data["name"] = obj.name
+        data["name"] = self.context.flatten(obj.name, reset=False)
         # This relies on the numpy handlers for the inner guts.
         data["index"] = self.context.flatten(obj.index, reset=False)
         data["values"] = self.context.flatten(obj.values, reset=False)
@@ -353,7 +353,7 @@ class PandasSeriesHandler(BaseHandler):
 
     def restore(self, data: dict[str, Any]) -> pd.Series:
         """Restore the flattened data"""
-        name = data["name"]
+        name = self.context.restore(data["name"], reset=False)
         index = self.context.restore(data["index"], reset=False)
         values = self.context.restore(data["values"], reset=False)
         return pd.Series(values, index=index, name=name)
-- 
2.43.0


From c4246d613a101ba3e35d48881f5bb698a86b2ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:57 +0000
Subject: [PATCH 19/82] fix: do not swallow AttributeError raised while
 encoding slot values

Only a missing slot may be skipped. An AttributeError raised by a nested object
silently dropped the attribute and left the pickler's depth and reference IDs in
an inconsistent state.
---
 jsonpickle/pickler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index c74aa24..1971c59 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -534,10 +534,10 @@ class Pickler:
                     value = getattr(obj, k)
                 else:
                     value = getattr(obj, f"_{obj.__class__.__name__}{k}")
-                flatten(k, value, data)
             except AttributeError:
                 # The attribute may have been deleted
                 continue
+            flatten(k, value, data)
             ok = True
         return ok
 
-- 
2.43.0


From d0e1b5978a77a9019b32cd50d3b308f71702a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:46 +0000
Subject: [PATCH 20/82] fix: encode private slots that are declared by a base
 class

Private slot names were always mangled with the name of the object's own class,
so private slots of base classes, and of classes whose name starts with an
underscore, were silently lost.
---
 jsonpickle/pickler.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 1971c59..6f9ce46 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -206,6 +206,22 @@ def _wrap_string_slot(string: str | Sequence[str]) -> Sequence[str]:
     return string
 
 
+def _slot_names(cls: type, obj_cls: type) -> list[str]:
+    """Return the names of the slots that ``cls`` declares for ``obj_cls`` instances
+
+    Private names are mangled with the name of the class that declares them.
+    The unpickler only does that for the object's own class.
+    """
+    slots = _wrap_string_slot(cls.__dict__.get("__slots__", ()))
+    name = cls.__name__.lstrip("_")
+    if cls is obj_cls and name == cls.__name__:
+        return list(slots)
+    return [
+        f"_{name}{k}" if k.startswith("__") and not k.endswith("__") else k
+        for k in slots
+    ]
+
+
 class Pickler:
     def __init__(
         self,
@@ -581,10 +597,7 @@ class Pickler:
         exclude: Iterable[str] = (),
     ) -> dict[str, Any]:
         """Return a json-friendly dict for new-style objects with __slots__."""
-        allslots = [
-            _wrap_string_slot(getattr(cls, "__slots__", ()))
-            for cls in obj.__class__.mro()
-        ]
+        allslots = [_slot_names(cls, obj.__class__) for cls in obj.__class__.mro()]
 
         # add properties to the attribute list
         if self.include_properties:
-- 
2.43.0


From d3debc225295fe79334e57b49f0c988631934059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:51 +0000
Subject: [PATCH 21/82] fix: encode slots of base classes for objects that have
 a __dict__

A class that inherits from a class with __slots__ without declaring __slots__
itself has both slots and a __dict__. Only the latter was encoded.
---
 jsonpickle/pickler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 6f9ce46..045ef3e 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -782,7 +782,11 @@ class Pickler:
 
             # hack for zope persistent objects; this unghostifies the object
             getattr(obj, "_", None)
-            return self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
+            data = self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
+            # base classes can declare slots even though the object has a __dict__
+            for base in cls.mro():
+                self._flatten_obj_attrs(obj, _slot_names(base, cls), data, exclude)
+            return data
 
         if has_slots:
             return self._flatten_newstyle_with_slots(obj, data, exclude=exclude)
-- 
2.43.0


From 839cd8228d8872ff05fbbb1e6b49fd3501a95e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:24 +0000
Subject: [PATCH 22/82] fix: number the default factory before the items of a
 defaultdict

The unpickler restores the factory first, so with a factory that is not a class
every reference to an object inside or after the dictionary resolved to the
wrong object.
---
 jsonpickle/pickler.py | 46 +++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 045ef3e..6d65a40 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -908,6 +908,30 @@ class Pickler:
         if data is None:
             data = obj.__class__()
 
+        # the collections.defaultdict protocol
+        # The factory is flattened first because the unpickler restores it first.
+        has_factory = hasattr(obj, "default_factory") and callable(obj.default_factory)
+        if has_factory:
+            factory = obj.default_factory
+            value: Any
+            if util._is_type(factory):
+                # Reference the class/type
+                # in this case it's dict[str, str]
+                value = _mktyperef(factory)
+            else:
+                # The factory is not a type and could reference e.g. functions
+                # or even the object instance itself, which creates a cycle.
+                if self._mkref(factory):
+                    # We've never seen this object before so pickle it in-place.
+                    # Create an instance from the factory and assume that the
+                    # resulting instance is a suitable exemplar.
+                    value = self._flatten_obj_instance(handlers.CloneFactory(factory()))
+                else:
+                    # We've seen this object before.
+                    # Break the cycle by emitting a reference.
+                    # in this case it's dict[str, int]
+                    value = self._getref(factory)
+
         # If we allow non-string keys then we have to do a two-phase
         # encoding to ensure that the reference IDs are deterministic.
         if self.keys:
@@ -926,33 +950,13 @@ class Pickler:
             for k, v in util.items(obj, exclude=exclude):
                 flatten(k, v, data)
 
-        # the collections.defaultdict protocol
-        if hasattr(obj, "default_factory") and callable(obj.default_factory):
-            factory = obj.default_factory
+        if has_factory:
             # i know that this string could be moved above the hasattr to reduce
             # string duplication but mypy 1.18.2 complains and i don't want to use
             # even more type: ignores
             store_key = "default_factory"
             if store_key in data:
                 store_key = tags.DEFAULT_FACTORY
-            value: Any
-            if util._is_type(factory):
-                # Reference the class/type
-                # in this case it's dict[str, str]
-                value = _mktyperef(factory)
-            else:
-                # The factory is not a type and could reference e.g. functions
-                # or even the object instance itself, which creates a cycle.
-                if self._mkref(factory):
-                    # We've never seen this object before so pickle it in-place.
-                    # Create an instance from the factory and assume that the
-                    # resulting instance is a suitable exemplar.
-                    value = self._flatten_obj_instance(handlers.CloneFactory(factory()))
-                else:
-                    # We've seen this object before.
-                    # Break the cycle by emitting a reference.
-                    # in this case it's dict[str, int]
-                    value = self._getref(factory)
             data[store_key] = value
 
         # Sub-classes of dict
-- 
2.43.0


From 8b97b68279336663e49613f5ad8c72167f6f0ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:43 +0000
Subject: [PATCH 23/82] fix: do not number objects that are only reachable
 through properties

With include_properties=True the values of properties occupied reference IDs
although the unpickler never restores them, so later references resolved to the
wrong objects.
---
 jsonpickle/pickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 6d65a40..37fca7f 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -579,6 +579,7 @@ class Pickler:
         ]
 
         properties_dict = {}
+        num_refs = len(self._objs)
         for p_name in properties:
             p_val = getattr(obj, p_name)
             if util._is_not_class(p_val):
@@ -586,6 +587,8 @@ class Pickler:
             else:
                 properties_dict[p_name] = self._flatten(p_val)
 
+        # The unpickler ignores properties so they must not be referenced.
+        self._forget_refs(num_refs)
         data[tags.PROPERTY] = properties_dict
 
         return data
-- 
2.43.0


From 1593b7297f9eba1e83fda25035b7434a66f50958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:00 +0000
Subject: [PATCH 24/82] fix: follow the whole path when __reduce__ returns a
 string

Only the first component after the module was looked up. The replaced object also
kept its reference ID, which shifted all later references, and an object that
redirects to itself was encoded as a reference to nothing.
---
 jsonpickle/pickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 37fca7f..9a4a921 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -687,7 +687,9 @@ class Pickler:
                     curmod = sys.modules[next(varpath)]
                     for modname in varpath:
                         curmod = getattr(curmod, modname)
+                    if "." in reduce_val and curmod is not obj:
                         # replace obj with value retrieved
+                        self._forget_refs(self._objs[id(obj)])
                         return self._flatten(curmod)
                 except KeyError:
                     # well, we can't do anything with that, so we ignore it
-- 
2.43.0


From b1cf84616251b7669cb3d3c140247004c6ce8258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:49 +0000
Subject: [PATCH 25/82] fix: restore attributes with dunder names under their
 own name

Names that end in two underscores are not private and must not be mangled.
References to enclosing objects from private slots were also patched under the
unmangled name.
---
 jsonpickle/unpickler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 9b8dfd3..b347222 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -725,7 +725,7 @@ class Unpickler:
                     self._namestack.pop()
                     continue
             else:
-                if not k.startswith("__"):
+                if not k.startswith("__") or k.endswith("__"):
                     try:
                         setattr(instance, k, value)
                     except KeyError:
@@ -749,7 +749,8 @@ class Unpickler:
                             continue
                         raise
                 else:
-                    setattr(instance, f"_{instance.__class__.__name__}{k}", value)
+                    k = f"_{instance.__class__.__name__}{k}"
+                    setattr(instance, k, value)
 
             # This instance has an instance variable named `k` that is
             # currently a proxy and must be replaced
-- 
2.43.0


From 88bd3b6a156183faed0232a4a9275653ba73e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:54 +0000
Subject: [PATCH 26/82] fix: resolve forward references inside list subclasses

---
 jsonpickle/unpickler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index b347222..65796dc 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -808,7 +808,12 @@ class Unpickler:
         if has_tag(obj, tags.SEQ):
             if hasattr(instance, "append"):
                 for v in obj[tags.SEQ]:
-                    instance.append(self._restore(v))
+                    value = self._restore(v)
+                    instance.append(value)
+                    if isinstance(value, _Proxy):
+                        self._proxies.append(
+                            (instance, len(instance) - 1, value, _obj_setvalue)
+                        )
             elif hasattr(instance, "add"):
                 for v in obj[tags.SEQ]:
                     instance.add(self._restore(v))
-- 
2.43.0


From f68486829377bc116280cf8ca5587c57f9e96cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:49:41 +0000
Subject: [PATCH 27/82] fix: keep the attributes of dict subclasses whose items
 equal their attributes

The comparison by value also failed for values that cannot be compared.
---
 jsonpickle/pickler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 9a4a921..49451a0 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -965,7 +965,12 @@ class Pickler:
             data[store_key] = value
 
         # Sub-classes of dict
-        if hasattr(obj, "__dict__") and self.unpicklable and obj != obj.__dict__:
+        if (
+            hasattr(obj, "__dict__")
+            and self.unpicklable
+            and obj is not obj.__dict__
+            and (obj or obj.__dict__)
+        ):
             if self._mkref(obj.__dict__):
                 dict_data = {}
                 self._flatten_dict_obj(obj.__dict__, dict_data, exclude=exclude)
-- 
2.43.0


From 8ea8127565ad6eb4650e2156ec8822b7e5a89bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:10 +0000
Subject: [PATCH 28/82] fix: restore references to iterators as iterators

---
 jsonpickle/unpickler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 65796dc..fe1a743 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -498,9 +498,13 @@ class Unpickler:
 
     def _restore_iterator(self, obj: dict[str, Any]) -> Iterator[Any]:
         try:
-            return iter(self._restore_list(obj[tags.ITERATOR]))
+            values = self._restore_list(obj[tags.ITERATOR])
         except TypeError:
             return iter([])
+        # References to this object must get the iterator and not its values.
+        result = iter(values)
+        self._swapref(values, result)  # type: ignore[arg-type]
+        return result
 
     def _swapref(self, proxy: _Proxy, instance: Any) -> None:
         proxy_id = id(proxy)
-- 
2.43.0


From ebcf04083a5ce37f91a4dc9f7c31687bf540eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:18 +0000
Subject: [PATCH 29/82] fix: resolve forward references inside frozen
 dataclasses

---
 jsonpickle/unpickler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index fe1a743..4e9e720 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -192,7 +192,10 @@ class _IDProxy(_Proxy):
 
 def _obj_setattr(obj: Any, attr: str, proxy: _Proxy) -> None:
     """Use setattr to update a proxy entry"""
-    setattr(obj, attr, proxy.get())
+    try:
+        setattr(obj, attr, proxy.get())
+    except dataclasses.FrozenInstanceError:
+        object.__setattr__(obj, attr, proxy.get())
 
 
 def _obj_setvalue(obj: Any, idx: Any, proxy: _Proxy) -> None:
-- 
2.43.0


From 2b87ff34afdba22f115169f788dbf9af82d82725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:15 +0000
Subject: [PATCH 30/82] fix: restore the state of tuple subclasses that
 implement __getstate__

The state was encoded but skipped when decoding.
---
 jsonpickle/unpickler.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 4e9e720..60a842d 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -880,10 +880,6 @@ class Unpickler:
         proxy.reset(instance)
         self._swapref(proxy, instance)
 
-        if isinstance(instance, tuple):
-            # The items were passed to __new__(), only attributes remain.
-            return self._restore_from_dict(obj, instance)
-
         instance = self._restore_object_instance_variables(obj, instance)
 
         if _safe_hasattr(instance, "default_factory") and isinstance(
-- 
2.43.0


From befff97d5f60649b9c28d6218cfaff1a523dc8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:19 +0000
Subject: [PATCH 31/82] fix: encode the slots of list and set subclasses

---
 jsonpickle/pickler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 49451a0..99775a4 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -1021,6 +1021,8 @@ class Pickler:
         """Return a json-friendly dict for a sequence subclass."""
         if hasattr(obj, "__dict__"):
             self._flatten_dict_obj(obj.__dict__, data)
+        for base in obj.__class__.mro():
+            self._flatten_obj_attrs(obj, _slot_names(base, obj.__class__), data)
         value = [self._flatten(v) for v in obj]
         if self.unpicklable:
             data[tags.SEQ] = value
-- 
2.43.0


From 9ce191de51841d854724cec56c62e6e47e27ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:36 +0000
Subject: [PATCH 32/82] fix: honour _jsonpickle_exclude for list, set and tuple
 subclasses

---
 jsonpickle/pickler.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 99775a4..a975971 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -773,7 +773,7 @@ class Pickler:
             return data
 
         if util._is_sequence_subclass(obj):
-            return self._flatten_sequence_obj(obj, data)
+            return self._flatten_sequence_obj(obj, data, exclude=exclude)
 
         if util._is_iterator(obj):
             # force list in python 3
@@ -783,7 +783,7 @@ class Pickler:
         if has_dict:
             # Support objects that subclasses list and set
             if util._is_sequence_subclass(obj):
-                return self._flatten_sequence_obj(obj, data)
+                return self._flatten_sequence_obj(obj, data, exclude=exclude)
 
             # hack for zope persistent objects; this unghostifies the object
             getattr(obj, "_", None)
@@ -1016,13 +1016,18 @@ class Pickler:
         return None
 
     def _flatten_sequence_obj(
-        self, obj: Iterable[Any], data: dict[str, Any]
+        self,
+        obj: Iterable[Any],
+        data: dict[str, Any],
+        exclude: Iterable[str] = (),
     ) -> dict[str, Any] | list[Any]:
         """Return a json-friendly dict for a sequence subclass."""
         if hasattr(obj, "__dict__"):
-            self._flatten_dict_obj(obj.__dict__, data)
+            self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
         for base in obj.__class__.mro():
-            self._flatten_obj_attrs(obj, _slot_names(base, obj.__class__), data)
+            self._flatten_obj_attrs(
+                obj, _slot_names(base, obj.__class__), data, exclude
+            )
         value = [self._flatten(v) for v in obj]
         if self.unpicklable:
             data[tags.SEQ] = value
-- 
2.43.0


From b41562713b2106ab1ca706454c196d225a308ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:36 +0000
Subject: [PATCH 33/82] fix: keep reference IDs in step when string keys are
 escaped

Strings that look like markup are escaped with keys=True. The unpickler restores
escaped keys in a second pass, so the pickler has to number their values in the
second pass, too.
---
 jsonpickle/pickler.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index a975971..14b595a 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -859,10 +859,23 @@ class Pickler:
             make_refs=self.make_refs,
         )
 
+    def _is_special_key(self, k: Any) -> bool:
+        """Is this a string key that has to be escaped?"""
+        return (
+            self.keys
+            and isinstance(k, str)
+            and (k.startswith(tags.JSON_KEY) or k in tags.RESERVED)
+        )
+
     def _flatten_non_string_key_value_pair(
         self, k: Any, v: Any, data: dict[str, Any]
     ) -> dict[str, Any]:
         """Flatten only non-string key/value pairs"""
+        if self._is_special_key(k):
+            # Escape data keys colliding with the json:// prefix or a reserved
+            # wire tag; must run before _is_picklable, which drops RESERVED keys.
+            data[self._escape_key(k)] = self._flatten(v)
+            return data
         if not util._is_picklable(k, v):
             return data
         if self.keys and not isinstance(k, str):
@@ -874,14 +887,8 @@ class Pickler:
         self, k: str, v: Any, data: dict[str, Any]
     ) -> dict[str, Any]:
         """Flatten string key/value pairs only."""
-        if (
-            isinstance(k, str)
-            and (k.startswith(tags.JSON_KEY) or k in tags.RESERVED)
-            and self.keys
-        ):
-            # Escape data keys colliding with the json:// prefix or a reserved
-            # wire tag; must run before _is_picklable, which drops RESERVED keys.
-            data[self._escape_key(k)] = self._flatten(v)
+        if self._is_special_key(k):
+            # The unpickler restores these keys along with the non-string keys.
             return data
         if not util._is_picklable(k, v):
             return data
-- 
2.43.0


From 691483acece028324a0b5a8e633c6e458bb49f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:01 +0000
Subject: [PATCH 34/82] fix: restore reduced objects that have both a __dict__
 and slots

Their state is a tuple, which cannot be assigned to __dict__.
---
 jsonpickle/unpickler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 60a842d..3d41ed5 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -578,7 +578,7 @@ class Unpickler:
                     for k, v in stage1.__dict__.items():
                         state.setdefault(k, v)
                     stage1.__dict__ = state
-                except AttributeError:
+                except (AttributeError, TypeError):
                     # next prescribed default
                     try:
                         for k, v in state.items():
-- 
2.43.0


From 394779dfc2337feda414b8a92b2ebd2a06c30f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:27 +0000
Subject: [PATCH 35/82] fix: keep "default_factory" items of dict subclasses

The unpickler took the item for the factory of a defaultdict and dropped it.
---
 jsonpickle/pickler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 14b595a..936eaec 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -970,6 +970,13 @@ class Pickler:
             if store_key in data:
                 store_key = tags.DEFAULT_FACTORY
             data[store_key] = value
+        elif (
+            self.unpicklable
+            and "default_factory" in data
+            and util._is_dictionary_subclass(obj)
+        ):
+            # Tell the unpickler that this is a regular item.
+            data[tags.DEFAULT_FACTORY] = None
 
         # Sub-classes of dict
         if (
-- 
2.43.0


From 2c038d3a103d9eb27d4dca092278d390444588e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:47 +0000
Subject: [PATCH 36/82] fix: do not reorder the attributes of the encoded
 object with sort_keys

The attributes are now sorted while they are encoded, for nested objects and
dictionaries as well, so that their references resolve to the right objects.
---
 jsonpickle/pickler.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 936eaec..3d78de8 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -262,6 +262,8 @@ class Pickler:
         self._use_decimal = use_decimal
         # A cache of objects that have already been flattened.
         self._flattened = {}
+        # Whether the backend sorts the keys
+        self._sort_keys = False
         # Used for util._is_readonly, see +483
         self.handle_readonly = handle_readonly
         # Custom context passed through to custom handlers, see #452
@@ -298,13 +300,6 @@ class Pickler:
                 "Objects with __slots__ cannot have their keys reliably sorted  by "
                 "jsonpickle! Please sort the keys in the __slots__ definition instead."
             )
-        # Somehow some classes don't have slots or dict
-        elif hasattr(obj, "__dict__"):
-            try:
-                obj.__dict__ = dict(sorted(obj.__dict__.items()))
-            except (TypeError, AttributeError):
-                # Can't set attributes of builtin/extension type
-                pass
         return obj
 
     def reset(self) -> None:
@@ -405,7 +400,8 @@ class Pickler:
         """
         if reset:
             self.reset()
-        if self._determine_sort_keys():
+        self._sort_keys = self._determine_sort_keys()
+        if self._sort_keys:
             obj = self._sort_attrs(obj)
         return self._flatten(obj)
 
@@ -910,6 +906,20 @@ class Pickler:
         data[k] = self._flatten(v)
         return data
 
+    def _dict_items(
+        self, obj: dict[Any, Any], exclude: Iterable[Any]
+    ) -> Iterable[tuple[Any, Any]]:
+        """Return the items in the order in which the backend writes them
+
+        Reference IDs are assigned in the order of the output.
+        """
+        items = util.items(obj, exclude=exclude)
+        if self._sort_keys:
+            return sorted(
+                items, key=lambda kv: kv[0] if isinstance(kv[0], str) else repr(kv[0])
+            )
+        return items
+
     def _flatten_dict_obj(
         self,
         obj: dict[Any, Any],
@@ -949,17 +959,17 @@ class Pickler:
         if self.keys:
             # Phase 1: serialize regular objects, ignore fancy keys.
             flatten = self._flatten_string_key_value_pair
-            for k, v in util.items(obj, exclude=exclude):
+            for k, v in self._dict_items(obj, exclude):
                 flatten(k, v, data)
 
             # Phase 2: serialize non-string keys.
             flatten = self._flatten_non_string_key_value_pair
-            for k, v in util.items(obj, exclude=exclude):
+            for k, v in self._dict_items(obj, exclude):
                 flatten(k, v, data)
         else:
             # If we have string keys only then we only need a single pass.
             flatten = self._flatten_key_value_pair
-            for k, v in util.items(obj, exclude=exclude):
+            for k, v in self._dict_items(obj, exclude):
                 flatten(k, v, data)
 
         if has_factory:
-- 
2.43.0


From 794443d6f0195bd15a350e2fdd7a2a4cd94bacd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:17 +0000
Subject: [PATCH 37/82] fix: do not assign attributes of the root object to
 find out whether they are read-only

---
 jsonpickle/util.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index e0414d2..49be6cd 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -342,6 +342,14 @@ def _is_cython_function(obj: Any) -> bool:
 
 
 def _is_readonly(obj: Any, attr: str, value: Any) -> bool:
+    cls = type(obj)
+    if cls.__setattr__ is object.__setattr__:
+        # Avoid calling setters and hiding class attributes.
+        descriptor = inspect.getattr_static(cls, attr, None)
+        if isinstance(descriptor, property):
+            return descriptor.fset is None
+        if not hasattr(type(descriptor), "__set__") and hasattr(obj, "__dict__"):
+            return False
     # CPython 3.11+ has 0-cost try/except, please use up-to-date versions!
     try:
         setattr(obj, attr, value)
-- 
2.43.0


From 51351cf03976336b6655fe1624fbd8db542931bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:08 +0000
Subject: [PATCH 38/82] fix: allow unset slots with include_properties

---
 jsonpickle/pickler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 3d78de8..80e2ec4 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -573,6 +573,13 @@ class Pickler:
         properties = [
             x[0] for x in inspect.getmembers(obj.__class__) if valid_property(x)
         ]
+        # slots may be unset
+        properties = [
+            p_name
+            for p_name in properties
+            if hasattr(obj, p_name)
+            or not inspect.ismemberdescriptor(getattr(obj.__class__, p_name))
+        ]
 
         properties_dict = {}
         num_refs = len(self._objs)
-- 
2.43.0


From 2353cf8bbad0b1c8855768fdf6da1666f7e409ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:36 +0000
Subject: [PATCH 39/82] fix: flatten the containers that properties return

---
 jsonpickle/pickler.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 80e2ec4..6c419e6 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -585,10 +585,7 @@ class Pickler:
         num_refs = len(self._objs)
         for p_name in properties:
             p_val = getattr(obj, p_name)
-            if util._is_not_class(p_val):
-                properties_dict[p_name] = p_val
-            else:
-                properties_dict[p_name] = self._flatten(p_val)
+            properties_dict[p_name] = self._flatten(p_val)
 
         # The unpickler ignores properties so they must not be referenced.
         self._forget_refs(num_refs)
-- 
2.43.0


From 06e05904624a74a469c8bc052c8925a916757cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:45 +0000
Subject: [PATCH 40/82] fix: stop including properties of property values of
 the same class

---
 jsonpickle/pickler.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 6c419e6..16183bb 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -262,6 +262,8 @@ class Pickler:
         self._use_decimal = use_decimal
         # A cache of objects that have already been flattened.
         self._flattened = {}
+        # The classes whose properties are being flattened
+        self._property_owners = []
         # Whether the backend sorts the keys
         self._sort_keys = False
         # Used for util._is_readonly, see +483
@@ -563,6 +565,11 @@ class Pickler:
             # setting a list as a default argument can lead to some weird errors
             allslots = []
 
+        # Properties can compute new instances of their own class forever,
+        # e.g. decimal.Decimal.imag
+        if obj.__class__ in self._property_owners:
+            return data
+
         # convert to set in case there are a lot of slots
         allslots_set = set(itertools.chain.from_iterable(allslots))
 
@@ -583,9 +590,13 @@ class Pickler:
 
         properties_dict = {}
         num_refs = len(self._objs)
-        for p_name in properties:
-            p_val = getattr(obj, p_name)
-            properties_dict[p_name] = self._flatten(p_val)
+        self._property_owners.append(obj.__class__)
+        try:
+            for p_name in properties:
+                p_val = getattr(obj, p_name)
+                properties_dict[p_name] = self._flatten(p_val)
+        finally:
+            self._property_owners.pop()
 
         # The unpickler ignores properties so they must not be referenced.
         self._forget_refs(num_refs)
-- 
2.43.0


From b04188f5f5d661534cf30e6fd1db383062a8dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:36:13 +0000
Subject: [PATCH 41/82] fix: skip the attributes of container subclasses with
 unpicklable=False

---
 jsonpickle/pickler.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 16183bb..8a3fa55 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -1061,15 +1061,13 @@ class Pickler:
         exclude: Iterable[str] = (),
     ) -> dict[str, Any] | list[Any]:
         """Return a json-friendly dict for a sequence subclass."""
+        if not self.unpicklable:
+            return [self._flatten(v) for v in obj]
         if hasattr(obj, "__dict__"):
             self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
         for base in obj.__class__.mro():
             self._flatten_obj_attrs(
                 obj, _slot_names(base, obj.__class__), data, exclude
             )
-        value = [self._flatten(v) for v in obj]
-        if self.unpicklable:
-            data[tags.SEQ] = value
-        else:
-            return value
+        data[tags.SEQ] = [self._flatten(v) for v in obj]
         return data
-- 
2.43.0


From c65b1b247d125d429a3f953348e4e43b9b6b5146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:18 +0000
Subject: [PATCH 42/82] fix: apply max_depth at every occurrence of a shared
 object when references are off

---
 jsonpickle/pickler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 8a3fa55..fcef358 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -364,12 +364,19 @@ class Pickler:
         if self.unpicklable and self.make_refs:
             result = self._flatten_impl(obj)
         else:
+            # With a depth limit the result depends on where the object is.
+            limited = self._max_depth is not None
+            key = (id(obj), self._depth if limited else None)
             try:
-                result = self._flattened[id(obj)]
+                result = self._flattened[key]
             except KeyError:
                 # The cache is keyed by id() so the object has to stay alive.
                 self._seen.append(obj)
-                result = self._flattened[id(obj)] = self._flatten_impl(obj)
+                num_refs = len(self._objs)
+                result = self._flattened[key] = self._flatten_impl(obj)
+                if limited:
+                    # It is not a cycle when the object is seen at another depth.
+                    self._forget_refs(num_refs)
         return result
 
     def flatten(self, obj: Any, reset: bool = True) -> Any:
-- 
2.43.0


From 7889dbd995dd5dd7b3c2824e94138ef9853f31a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:53 +0000
Subject: [PATCH 43/82] fix: do not lose data when StopIteration is raised
 while encoding a reduced object or an iterator's items

---
 jsonpickle/pickler.py   |  6 ++++--
 jsonpickle/unpickler.py | 12 +++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index fcef358..e3481d0 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -740,7 +740,7 @@ class Pickler:
                     if rv_as_list[4]:
                         rv_as_list[4] = tuple(rv_as_list[4])
 
-                    reduce_args = list(map(self._flatten, rv_as_list))
+                    reduce_args = [self._flatten(v) for v in rv_as_list]
                     last_index = len(reduce_args) - 1
                     while last_index >= 2 and reduce_args[last_index] is None:
                         last_index -= 1
@@ -795,7 +795,9 @@ class Pickler:
 
         if util._is_iterator(obj):
             # force list in python 3
-            data[tags.ITERATOR] = list(map(self._flatten, islice(obj, self._max_iter)))
+            data[tags.ITERATOR] = [
+                self._flatten(v) for v in islice(obj, self._max_iter)
+            ]
             return data
 
         if has_dict:
diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 3d41ed5..067b76c 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -531,9 +531,8 @@ class Unpickler:
         try:
             # Restore only what is needed to construct the object. Its state
             # and items are allowed to refer to the object itself.
-            reduce_val = map(self._restore, obj[tags.REDUCE])
-            f = next(reduce_val, None)
-            args = next(reduce_val, None)
+            reduce_val = list(obj[tags.REDUCE])
+            f, args = [self._restore(v) for v in (reduce_val + [None] * 2)[:2]]
         except TypeError:
             result = []
             proxy.reset(result)
@@ -549,7 +548,8 @@ class Unpickler:
         else:
             if not callable(f):
                 # keep the reference IDs in step
-                list(reduce_val)
+                for v in reduce_val[2:]:
+                    self._restore(v)
                 result = []
                 proxy.reset(result)
                 self._swapref(proxy, result)
@@ -564,7 +564,9 @@ class Unpickler:
         proxy.reset(stage1)
         self._swapref(proxy, stage1)
 
-        state, listitems, dictitems, state_setter = [*reduce_val, *[None] * 4][:4]
+        state, listitems, dictitems, state_setter = [
+            self._restore(v) for v in (reduce_val + [None] * 6)[2:6]
+        ]
 
         if state and state_setter is None:
             try:
-- 
2.43.0


From 509077d5186b8ee0e1b6b415e8bc49227d4ea837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:15 +0000
Subject: [PATCH 44/82] fix: do not keep the handler context of one call for
 the next call on the same context

---
 jsonpickle/pickler.py   | 10 +++++++---
 jsonpickle/unpickler.py |  9 +++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index e3481d0..6aa33d4 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -171,11 +171,15 @@ def encode(
         original_object=value,
         handler_context=handler_context,
     )
+    # A context that is supplied by the caller keeps its own handler context.
+    previous_handler_context = context.handler_context
     if handler_context is not None:
         context.handler_context = handler_context
-    return backend.encode(
-        context.flatten(value, reset=reset), indent=indent, separators=separators
-    )
+    try:
+        data = context.flatten(value, reset=reset)
+    finally:
+        context.handler_context = previous_handler_context
+    return backend.encode(data, indent=indent, separators=separators)
 
 
 def _in_cycle(
diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 067b76c..02b632f 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -114,10 +114,15 @@ def decode(
         handle_readonly=handle_readonly,
         handler_context=handler_context,
     )
+    data = backend.decode(string)
+    # A context that is supplied by the caller keeps its own handler context.
+    previous_handler_context = context.handler_context
     if handler_context is not None:
         context.handler_context = handler_context
-    data = backend.decode(string)
-    result = context.restore(data, reset=reset, classes=classes)
+    try:
+        result = context.restore(data, reset=reset, classes=classes)
+    finally:
+        context.handler_context = previous_handler_context
     if is_ephemeral_context:
         # Avoid holding onto references to external objects, which can
         # prevent garbage collection from occuring.
-- 
2.43.0


From ad4e58ecdac7bbd32ee0d3ce6b58e645697469fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:12 +0000
Subject: [PATCH 45/82] fix: cut cycles in the same places with and without
 max_depth when references are off

---
 jsonpickle/pickler.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 6aa33d4..3638d6e 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -266,6 +266,8 @@ class Pickler:
         self._use_decimal = use_decimal
         # A cache of objects that have already been flattened.
         self._flattened = {}
+        # The number of cycles that were cut because of missing references
+        self._num_cycles = 0
         # The classes whose properties are being flattened
         self._property_owners = []
         # Whether the backend sorts the keys
@@ -313,6 +315,7 @@ class Pickler:
         self._depth = -1
         self._seen = []
         self._flattened = {}
+        self._num_cycles = 0
 
     def _push(self) -> None:
         """Steps down one level in the namespace."""
@@ -370,17 +373,29 @@ class Pickler:
         else:
             # With a depth limit the result depends on where the object is.
             limited = self._max_depth is not None
-            key = (id(obj), self._depth if limited else None)
+            if limited and id(obj) in self._objs:
+                # The object is being flattened right now: this is a cycle.
+                self._num_cycles += 1
+                return self._flatten_impl(obj)
             try:
-                result = self._flattened[key]
+                if limited and id(obj) not in self._flattened:
+                    result = self._flattened[id(obj), self._depth]
+                else:
+                    result = self._flattened[id(obj)]
+                    self._num_cycles += 1
             except KeyError:
                 # The cache is keyed by id() so the object has to stay alive.
                 self._seen.append(obj)
                 num_refs = len(self._objs)
-                result = self._flattened[key] = self._flatten_impl(obj)
+                num_cycles = self._num_cycles
+                result = self._flatten_impl(obj)
                 if limited:
                     # It is not a cycle when the object is seen at another depth.
                     self._forget_refs(num_refs)
+                if limited and num_cycles == self._num_cycles:
+                    self._flattened[id(obj), self._depth] = result
+                else:
+                    self._flattened[id(obj)] = result
         return result
 
     def flatten(self, obj: Any, reset: bool = True) -> Any:
-- 
2.43.0


From 96e4edc11ce6784a9935d8e4bc5d53b458b7ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:38 +0000
Subject: [PATCH 46/82] fix: do not remove the default factory from the data
 that is being restored

---
 jsonpickle/unpickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 02b632f..2ab17c3 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -847,6 +847,9 @@ class Unpickler:
 
         # An object can install itself as its own factory, so load the factory
         # after the instance is available for referencing.
+        if tags.DEFAULT_FACTORY in obj or "default_factory" in obj:
+            # The same data may be restored more than once so leave it alone.
+            obj = dict(obj)
         factory = self._loadfactory(obj)
 
         if has_tag(obj, tags.NEWARGSEX):
-- 
2.43.0


From 055ef0f66061fb17ed2217b70c154cc8fd2acd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:04 +0000
Subject: [PATCH 47/82] fix: flatten datetime objects to plain lists so that
 the yaml backend can decode them

---
 jsonpickle/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index 4895703..d579854 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -220,7 +220,7 @@ class DatetimeHandler(BaseHandler):
         flatten = pickler.flatten
         payload = util.b64encode(args[0])  # type: ignore[arg-type]
         args = [payload] + [flatten(i, reset=False) for i in args[1:]]
-        data["__reduce__"] = (flatten(cls, reset=False), args)
+        data["__reduce__"] = [flatten(cls, reset=False), args]
         return data
 
     def restore(self, data: dict[str, Any]) -> Any:
-- 
2.43.0


From 7571937ba2322c3e6e8998b304a828ef88016123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:18 +0000
Subject: [PATCH 48/82] fix: keep reference IDs in step when the class of an
 object is missing

---
 jsonpickle/unpickler.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 2ab17c3..f98a380 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -914,10 +914,32 @@ class Unpickler:
 
         if cls is None:
             self._process_missing(class_name)
-            return self._mkref(obj)
+            self._mkref(obj)
+            self._restore_missing_parts(obj)
+            return obj
 
         return self._restore_object_instance(obj, cls, class_name)
 
+    def _restore_missing_parts(self, obj: dict[str, Any]) -> None:
+        """Restore the parts of an object whose class is missing
+
+        The data of the object is not changed but its parts have reference IDs
+        and can be referenced from anywhere else.
+        """
+        for k, v in util.items(obj):
+            if k in (tags.OBJECT, tags.PROPERTY):
+                continue
+            if k in (tags.SEQ, tags.NEWARGSEX) and isinstance(v, list):
+                for item in v:
+                    self._restore(item)
+            elif not (self.keys and _is_json_key(k)):
+                self._restore(v)
+        if self.keys:
+            for k, v in util.items(obj):
+                if _is_json_key(k):
+                    self._restore_pickled_key(k)
+                    self._restore(v)
+
     def _restore_function(self, obj: dict[str, Any]) -> Any:
         return util.loadclass(obj[tags.FUNCTION], classes=self._classes)
 
-- 
2.43.0


From 183e603d6b87b4662863df55f2e57a7d86beb068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:59 +0000
Subject: [PATCH 49/82] fix: decode malformed bytearray markup to an empty
 bytearray

---
 jsonpickle/unpickler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index f98a380..f706e67 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -437,7 +437,7 @@ class Unpickler:
     def _restore_base64(self, obj: dict[str, Any]) -> bytes:
         try:
             return util.b64decode(obj[tags.B64].encode("utf-8"))
-        except (AttributeError, UnicodeEncodeError):
+        except (AttributeError, KeyError, UnicodeEncodeError):
             return b""
 
     def _restore_base85(self, obj: dict[str, Any]) -> bytes:
@@ -448,6 +448,8 @@ class Unpickler:
 
     def _restore_bytearray(self, obj: dict[str, Any]) -> bytearray:
         payload = obj[tags.BYTEARRAY]
+        if not isinstance(payload, dict):
+            return bytearray()
         if tags.B85 in payload:
             data = self._restore_base85(payload)
         else:
-- 
2.43.0


From 54ac084afba93a3bff5cf9621c1ae4c549b80cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:03 +0000
Subject: [PATCH 50/82] fix: let references to a malformed iterator get the
 empty iterator

---
 jsonpickle/unpickler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index f706e67..ba1d7d8 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -508,9 +508,9 @@ class Unpickler:
 
     def _restore_iterator(self, obj: dict[str, Any]) -> Iterator[Any]:
         try:
-            values = self._restore_list(obj[tags.ITERATOR])
+            values = self._restore_list(list(obj[tags.ITERATOR]))
         except TypeError:
-            return iter([])
+            values = self._restore_list([])
         # References to this object must get the iterator and not its values.
         result = iter(values)
         self._swapref(values, result)  # type: ignore[arg-type]
-- 
2.43.0


From 2d45bbe206918cd6023d3c05cebb866213ae46d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:04 +0000
Subject: [PATCH 51/82] fix: restore zero-dimensional arrays with their shape

---
 jsonpickle/ext/numpy.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 3ed4f36..e9eb430 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -214,12 +214,9 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
     def restore(self, data: dict[str, Any]) -> npt.NDArray[Any]:
         """decode numpy from json"""
         values = data["values"]
-        if isinstance(values, list):
-            # decode text representation
+        if isinstance(values, list) or "shape" not in data:
+            # decode text representation; zero-dimensional arrays are not lists
             arr = super().restore(data)
-        elif isinstance(values, (int, float)):
-            # single-value array
-            arr = np.array([values], dtype=self.restore_dtype(data))
         else:
             # decode binary representation
             dtype = self.restore_dtype(data)
-- 
2.43.0


From cdaa41e0bf06caa5453e3bd652807c5871fb58f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:08 +0000
Subject: [PATCH 52/82] fix: restore views of datetime64 and timedelta64 arrays

---
 jsonpickle/ext/numpy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index e9eb430..c507da0 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -422,7 +422,11 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
             base = self.context.restore(base, reset=False)
             buffer: Any
             if isinstance(base, np.ndarray):
-                buffer = base.data
+                try:
+                    buffer = base.data
+                except ValueError:
+                    # datetime64 and timedelta64 have no buffer protocol
+                    buffer = base.reshape(-1, order="A").view(np.uint8)
             elif isinstance(base, (bytes, bytearray, memoryview)):
                 buffer = base
             else:
-- 
2.43.0


From 139045f141c3ebe1f97e01d1ff86ec30e6c100e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:43 +0000
Subject: [PATCH 53/82] fix: keep the byte order of small arrays, structured
 arrays and array views

---
 jsonpickle/ext/numpy.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index c507da0..73268bf 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -43,6 +43,13 @@ class NumpyBaseHandler(BaseHandler):
                 dtype = dtype[len(prefix) : -1]
             data["dtype"] = dtype
 
+    def flatten_native_dtype(self, dtype: np.dtype[Any], data: dict[str, Any]) -> None:
+        """flatten a dtype without its byte order, which is stored separately"""
+        if dtype.names is None:
+            # the fields of structured dtypes have their own byte orders
+            dtype = dtype.newbyteorder("N")
+        self.flatten_dtype(dtype, data)
+
     def restore_dtype(self, data: dict[str, Any]) -> np.dtype[Any]:
         dtype = data["dtype"]
         if dtype.startswith(("{", "[")):
@@ -61,7 +68,7 @@ class NumpyDTypeHandler(NumpyBaseHandler):
 
 class NumpyGenericHandler(NumpyBaseHandler):
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
-        self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+        self.flatten_native_dtype(obj.dtype, data)
         value = obj.tolist()
         if isinstance(value, np.generic):
             # extended-precision scalars have no Python counterpart, so
@@ -112,7 +119,7 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
             arr.flags.writeable = False
 
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
-        self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+        self.flatten_native_dtype(obj.dtype, data)
         self.flatten_flags(obj, data)
         data["values"] = self.context.flatten(obj.tolist(), reset=False)
         if 0 in obj.shape:
@@ -123,9 +130,8 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
 
     def restore(self, data: dict[str, Any]) -> npt.NDArray[Any]:
         values = self.context.restore(data["values"], reset=False)
-        arr = np.array(
-            values, dtype=self.restore_dtype(data), order=data.get("order", "C")
-        )
+        dtype = self.restore_dtype(data).newbyteorder(data.get("byteorder", "|"))
+        arr = np.array(values, dtype=dtype, order=data.get("order", "C"))
         shape = data.get("shape", None)
         if shape is not None:
             arr = arr.reshape(shape)
@@ -174,6 +180,8 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
         if self.size_threshold is None or self.size_threshold >= obj.size:
             # encode as text
             data = super().flatten(obj, data)
+            if get_byteorder(obj) not in (native_byteorder, "|"):
+                self.flatten_byteorder(obj, data)
         else:
             # encode as binary
             if obj.dtype == object:
@@ -202,7 +210,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
                 buf = self.compression.compress(buf)
             data["values"] = b64encode(buf)
             data["shape"] = obj.shape
-            self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+            self.flatten_native_dtype(obj.dtype, data)
             self.flatten_byteorder(obj, data)
             self.flatten_flags(obj, data)
 
@@ -332,13 +340,11 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                 data["strides"] = obj.strides
 
             data["shape"] = obj.shape
-            self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+            self.flatten_native_dtype(obj.dtype, data)
             self.flatten_flags(obj, data)
 
-            if get_byteorder(obj) != "|":
-                byteorder = "S" if get_byteorder(obj) != get_byteorder(base) else None
-                if byteorder:
-                    data["byteorder"] = byteorder
+            if get_byteorder(obj) not in (native_byteorder, "|"):
+                self.flatten_byteorder(obj, data)
 
             if self.size_threshold is None or self.size_threshold >= obj.size:
                 # not used in restore since base is present, but
@@ -376,7 +382,7 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                     data["strides"] = obj.strides
 
                 data["shape"] = obj.shape
-                self.flatten_dtype(obj.dtype.newbyteorder("N"), data)
+                self.flatten_native_dtype(obj.dtype, data)
                 self.flatten_flags(obj, data)
 
                 if get_byteorder(obj) != "|":
-- 
2.43.0


From 7cf3df266be0c3b17bd7bed0e6c573174a11354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:57 +0000
Subject: [PATCH 54/82] fix: store subarrays of structured arrays as lists

---
 jsonpickle/ext/numpy.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 73268bf..8214dc1 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -32,6 +32,20 @@ def get_byteorder(arr: _HasDType) -> str:
     return native_byteorder if byteorder == "=" else byteorder
 
 
+def _tolist(arr: Any) -> Any:
+    """convert to lists, including the subarrays of structured data"""
+    value = arr.tolist()
+    if arr.dtype.names is None or arr.dtype.hasobject:
+        return value
+    return _subarrays_tolist(value)
+
+
+def _subarrays_tolist(value: Any) -> Any:
+    if isinstance(value, (list, tuple)):
+        return type(value)(_subarrays_tolist(v) for v in value)
+    return _tolist(value) if isinstance(value, np.ndarray) else value
+
+
 class NumpyBaseHandler(BaseHandler):
     def flatten_dtype(self, dtype: npt.DTypeLike, data: dict[str, Any]) -> None:
         if hasattr(dtype, "tostring"):
@@ -69,7 +83,7 @@ class NumpyDTypeHandler(NumpyBaseHandler):
 class NumpyGenericHandler(NumpyBaseHandler):
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         self.flatten_native_dtype(obj.dtype, data)
-        value = obj.tolist()
+        value = _tolist(obj)
         if isinstance(value, np.generic):
             # extended-precision scalars have no Python counterpart, so
             # tolist() hands back the scalar itself; store its text form
@@ -121,7 +135,7 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         self.flatten_native_dtype(obj.dtype, data)
         self.flatten_flags(obj, data)
-        data["values"] = self.context.flatten(obj.tolist(), reset=False)
+        data["values"] = self.context.flatten(_tolist(obj), reset=False)
         if 0 in obj.shape:
             # add shape information explicitly as it cannot be
             # inferred from an empty list
-- 
2.43.0


From fcf18791205e9c993b6636aa26504691da365bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:02 +0000
Subject: [PATCH 55/82] fix: restore subarray dtypes

---
 jsonpickle/ext/numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 8214dc1..174deb5 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -66,7 +66,7 @@ class NumpyBaseHandler(BaseHandler):
 
     def restore_dtype(self, data: dict[str, Any]) -> np.dtype[Any]:
         dtype = data["dtype"]
-        if dtype.startswith(("{", "[")):
+        if dtype.startswith(("{", "[", "(")):
             dtype = ast.literal_eval(dtype)
         return np.dtype(dtype)  # type: ignore[no-any-return]
 
-- 
2.43.0


From 1878f955cba241a354250ab5fa2d994e10a7476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:04:13 +0000
Subject: [PATCH 56/82] fix: keep the precision of complex long double values

---
 jsonpickle/ext/numpy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 174deb5..bd3f102 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -87,7 +87,10 @@ class NumpyGenericHandler(NumpyBaseHandler):
         if isinstance(value, np.generic):
             # extended-precision scalars have no Python counterpart, so
             # tolist() hands back the scalar itself; store its text form
+            # (of both parts, as parsing a complex number would round them)
             value = str(obj)
+            if obj.dtype.kind == "c":
+                value = [str(obj.real), str(obj.imag)]
         data["value"] = self.context.flatten(value, reset=False)
         return data
 
@@ -97,7 +100,10 @@ class NumpyGenericHandler(NumpyBaseHandler):
         # constructor ignores everything the dtype carries beyond its kind,
         # such as the datetime64/timedelta64 unit and the field layout of a
         # structured scalar
-        return np.array(value, dtype=self.restore_dtype(data))[()]
+        dtype = self.restore_dtype(data)
+        if dtype.kind == "c" and isinstance(value, list):
+            return np.array(value, dtype=np.longdouble).view(dtype)[0]
+        return np.array(value, dtype=dtype)[()]
 
 
 class NumpyDatetimeHandler(NumpyGenericHandler):
-- 
2.43.0


From 446cd2ceb9b983eee3d1edc8f11dac83bebb9c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:19 +0000
Subject: [PATCH 57/82] fix: keep the memory order of arrays stored as binary
 data

---
 jsonpickle/ext/numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index bd3f102..cdcb730 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -265,7 +265,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
                     dtype=dtype,
                     shape=data.get("shape"),  # type: ignore[arg-type]
                     order=data.get("order", "C"),
-                ).copy()  # make a copy, to force the result to own the data
+                ).copy("A")  # make a copy, to force the result to own the data
                 self.restore_byteorder(data, arr)
             self.restore_flags(data, arr)
 
-- 
2.43.0


From 4fbc2ab2c83b5a4d5ea2801fcf2f120fab5ce504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:06:23 +0000
Subject: [PATCH 58/82] fix: restore empty views

---
 jsonpickle/ext/numpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index cdcb730..0933117 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -353,7 +353,7 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
             data["base"] = self.context.flatten(base, reset=False)
 
             offset = obj.ctypes.data - base.ctypes.data
-            if offset:
+            if offset and obj.size:
                 data["offset"] = offset
 
             if not obj.flags.c_contiguous:
@@ -395,7 +395,7 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                 data["base"] = self.context.flatten(base_store, reset=False)
 
                 offset = obj.ctypes.data - base_buf.ctypes.data
-                if offset:
+                if offset and obj.size:
                     data["offset"] = offset
 
                 if not obj.flags.c_contiguous:
-- 
2.43.0


From 5e90237dd82566466ad1bba67b28e6ca521132f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:08 +0000
Subject: [PATCH 59/82] fix: keep arrays that refer to writable buffers
 writable

---
 jsonpickle/ext/numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 0933117..683e95a 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -391,6 +391,9 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                     base_store = base.tobytes()
                 else:
                     base_store = base_buf.tobytes()
+                if obj.flags.writeable:
+                    # arrays that refer to bytes objects are read-only
+                    base_store = bytearray(base_store)
 
                 data["base"] = self.context.flatten(base_store, reset=False)
 
-- 
2.43.0


From 285522bd2c7e08c5fea6eead9feacd671a0c65f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:26 +0000
Subject: [PATCH 60/82] fix: store strided arrays in the order in which they
 are read

---
 jsonpickle/ext/numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 683e95a..60d9a79 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -234,7 +234,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
             self.flatten_byteorder(obj, data)
             self.flatten_flags(obj, data)
 
-            if not obj.flags.c_contiguous:
+            if obj.flags.fnc:
                 data["order"] = "F"
 
         return data
-- 
2.43.0


From a368a079004a6fe364a0fe3da0bfde9cf684e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:41 +0000
Subject: [PATCH 61/82] fix: keep nullable, period and time zone aware columns
 of data frames

---
 jsonpickle/ext/pandas.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 89b0687..6a52984 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -195,11 +195,11 @@ class PandasDfHandler(BaseHandler):
                 else:
                     # treat it as regular object dtype
                     data_columns[col] = col_data.tolist()
-                    type_codes.append(TYPE_MAP.get(dtype_name, "object"))
+                    type_codes.append(TYPE_MAP.get(dtype_name, dtype_name))
             else:
                 # for other dtypes, store their values directly
                 data_columns[col] = col_data.tolist()
-                type_codes.append(TYPE_MAP.get(dtype_name, "object"))
+                type_codes.append(TYPE_MAP.get(dtype_name, dtype_name))
 
         # store index data
         index_encoded = encode(index_values, keys=True)
@@ -275,7 +275,7 @@ class PandasDfHandler(BaseHandler):
             else:
                 df_data[col] = col_data
                 # used later to get correct dtypes
-                dtype_str = REVERSE_TYPE_MAP.get(type_code, "object")
+                dtype_str = REVERSE_TYPE_MAP.get(type_code, type_code)
                 dtypes[col] = dtype_str
 
         # turn dict into df
-- 
2.43.0


From 256c21f9cff06d2f12be2655b2782c682b8cdf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:41 +0000
Subject: [PATCH 62/82] fix: use the same type codes for data frame columns in
 every process

---
 jsonpickle/tags_pd.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/tags_pd.py b/jsonpickle/tags_pd.py
index 4f2a729..510522e 100644
--- a/jsonpickle/tags_pd.py
+++ b/jsonpickle/tags_pd.py
@@ -123,11 +123,12 @@ def get_smallest_unique_substrings(
 
 
 def all_subclasses(cls: type) -> list[type]:
-    # use a set to avoid adding duplicates
-    subclasses = set()
+    # use a dict to avoid adding duplicates; unlike the order of a set, its order
+    # (and with it the tags below) is the same in every process
+    subclasses: dict[type, None] = {}
     for subclass in cls.__subclasses__():
-        subclasses.add(subclass)
-        subclasses.update(all_subclasses(subclass))
+        subclasses[subclass] = None
+        subclasses.update(dict.fromkeys(all_subclasses(subclass)))
     return list(subclasses)
 
 
-- 
2.43.0


From 59ac96c9dc695adeb5ef8e6649af77cd39c4e709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:53 +0000
Subject: [PATCH 63/82] fix: keep the time zone and the object type of series

---
 jsonpickle/ext/pandas.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 6a52984..e94d6ba 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -349,6 +349,12 @@ class PandasSeriesHandler(BaseHandler):
         # This relies on the numpy handlers for the inner guts.
         data["index"] = self.context.flatten(obj.index, reset=False)
         data["values"] = self.context.flatten(obj.values, reset=False)
+        if isinstance(obj.dtype, pd.DatetimeTZDtype):
+            # the values are in UTC
+            data["tz"] = str(obj.dtype.tz)
+        elif obj.values.dtype == object:
+            # do not infer another type from the values
+            data["dtype"] = str(obj.dtype)
         return data
 
     def restore(self, data: dict[str, Any]) -> pd.Series:
@@ -356,7 +362,9 @@ class PandasSeriesHandler(BaseHandler):
         name = self.context.restore(data["name"], reset=False)
         index = self.context.restore(data["index"], reset=False)
         values = self.context.restore(data["values"], reset=False)
-        return pd.Series(values, index=index, name=name)
+        if "tz" in data:
+            values = pd.DatetimeIndex(values, tz="UTC").tz_convert(data["tz"])
+        return pd.Series(values, index=index, name=name, dtype=data.get("dtype"))
 
 
 class PandasIndexHandler(BaseHandler):
-- 
2.43.0


From db2de264d208fe3cbcddf833ce1d7d1d8072b6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:41 +0000
Subject: [PATCH 64/82] fix: do not infer other types for the items of object
 and timedelta columns

---
 jsonpickle/ext/pandas.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index e94d6ba..12cee4c 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -271,12 +271,16 @@ class PandasDfHandler(BaseHandler):
             if type_code == "py/jp":
                 # deserialize each item in the column
                 col_values = [decode(item) for item in col_data]
-                df_data[col] = col_values
+                df_data[col] = pd.Series(col_values, dtype=object)
             else:
-                df_data[col] = col_data
                 # used later to get correct dtypes
                 dtype_str = REVERSE_TYPE_MAP.get(type_code, type_code)
                 dtypes[col] = dtype_str
+                if dtype_str.startswith(("object", "datetime", "timedelta", "period")):
+                    # do not convert the items to a common type, which would be
+                    # datetime64 for missing values of other types
+                    col_data = pd.Series(col_data, dtype=object)
+                df_data[col] = col_data
 
         # turn dict into df
         df = pd.DataFrame(df_data)
-- 
2.43.0


From cc9a93fff12a68e427e37a428fd03443a014d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:16 +0000
Subject: [PATCH 65/82] fix: keep the type of the index of data frames

---
 jsonpickle/ext/pandas.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 12cee4c..499ba95 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -209,6 +209,7 @@ class PandasDfHandler(BaseHandler):
         meta = {
             "dtypes_rle": rle_types,
             "index": index_encoded,
+            "index_dtype": None if is_multiindex else str(obj.index.dtype),
             "index_names": index_names,
             "columns": encode(columns, keys=True),
             "column_names": column_names,
@@ -307,7 +308,11 @@ class PandasDfHandler(BaseHandler):
                 index_values, names=meta.get("index_names")
             )
         else:
-            index = pd.Index(index_values, name=meta.get("index_names"))
+            index = pd.Index(
+                index_values,
+                dtype=meta.get("index_dtype"),
+                name=meta.get("index_names"),
+            )
         df.index = index
 
         # restore column names for easy readability
-- 
2.43.0


From 141adb10b9824489c8609b6b61e5591a7ac6caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:45 +0000
Subject: [PATCH 66/82] fix: store arrays of objects with their shape and with
 any kind of object

---
 jsonpickle/ext/numpy.py | 45 ++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 60d9a79..93c9e35 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -5,6 +5,8 @@ import json
 import sys
 import warnings
 import zlib
+from functools import reduce
+from operator import getitem
 from types import ModuleType
 from typing import Any, NoReturn, Protocol, cast
 
@@ -142,19 +144,24 @@ class NumpyNDArrayHandler(NumpyBaseHandler):
         self.flatten_native_dtype(obj.dtype, data)
         self.flatten_flags(obj, data)
         data["values"] = self.context.flatten(_tolist(obj), reset=False)
-        if 0 in obj.shape:
+        if 0 in obj.shape or (obj.ndim and obj.dtype == object):
             # add shape information explicitly as it cannot be
-            # inferred from an empty list
+            # inferred from an empty list or a list of lists
             data["shape"] = obj.shape
         return data
 
     def restore(self, data: dict[str, Any]) -> npt.NDArray[Any]:
         values = self.context.restore(data["values"], reset=False)
         dtype = self.restore_dtype(data).newbyteorder(data.get("byteorder", "|"))
-        arr = np.array(values, dtype=dtype, order=data.get("order", "C"))
         shape = data.get("shape", None)
-        if shape is not None:
-            arr = arr.reshape(shape)
+        if shape is not None and dtype == object:
+            arr = np.empty(shape, dtype=dtype, order=data.get("order", "C"))
+            for index in np.ndindex(*shape):
+                arr[index] = reduce(getitem, index, values)
+        else:
+            arr = np.array(values, dtype=dtype, order=data.get("order", "C"))
+            if shape is not None:
+                arr = arr.reshape(shape)
 
         self.restore_flags(data, arr)
         return arr
@@ -197,29 +204,18 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
 
     def flatten(self, obj: npt.NDArray[Any], data: dict[str, Any]) -> dict[str, Any]:
         """encode numpy to json"""
-        if self.size_threshold is None or self.size_threshold >= obj.size:
-            # encode as text
+        if (
+            self.size_threshold is None
+            or self.size_threshold >= obj.size
+            or obj.dtype == object
+        ):
+            # encode as text; this is the only form for arbitrary objects
             data = super().flatten(obj, data)
             if get_byteorder(obj) not in (native_byteorder, "|"):
                 self.flatten_byteorder(obj, data)
         else:
             # encode as binary
-            if obj.dtype == object:
-                # There's a bug deep in the bowels of numpy that causes a
-                # segfault when round-tripping an ndarray of dtype object.
-                # E.g., the following will result in a segfault:
-                #     import numpy as np
-                #     arr = np.array([str(i) for i in range(3)],
-                #                    dtype=object)
-                #     dtype = arr.dtype
-                #     shape = arr.shape
-                #     buf = arr.tobytes()
-                #     del arr
-                #     arr = np.ndarray(buffer=buf, dtype=dtype,
-                #                      shape=shape).copy()
-                # So, save as a binary-encoded list in this case
-                buf = json.dumps(obj.tolist()).encode()
-            elif hasattr(obj, "tobytes"):
+            if hasattr(obj, "tobytes"):
                 # numpy docstring is lacking as of 1.11.2,
                 # but this is the option we need
                 buf = obj.tobytes(order="A")
@@ -251,8 +247,7 @@ class NumpyNDArrayHandlerBinary(NumpyNDArrayHandler):
             buf = b64decode(values)
             if self.compression:
                 buf = self.compression.decompress(buf)
-            # See note above about segfault bug for numpy dtype object. Those
-            # are saved as a list to work around that.
+            # older versions stored arrays of dtype object as encoded lists
             if dtype == object:
                 values = json.loads(buf.decode())
                 arr = np.array(values, dtype=dtype, order=data.get("order", "C"))
-- 
2.43.0


From 0abc6864a97f1ea53a609de243f068d6c6f1ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:17 +0000
Subject: [PATCH 67/82] fix: do not include excluded attributes with
 include_properties

---
 jsonpickle/pickler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 3638d6e..47b53fe 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -586,6 +586,7 @@ class Pickler:
         obj: Any,
         data: dict[str, Any],
         allslots: Iterable[Sequence[str]] | None = None,
+        exclude: Iterable[str] = (),
     ) -> dict[str, Any]:
         if allslots is None:
             # setting a list as a default argument can lead to some weird errors
@@ -597,7 +598,7 @@ class Pickler:
             return data
 
         # convert to set in case there are a lot of slots
-        allslots_set = set(itertools.chain.from_iterable(allslots))
+        allslots_set = set(itertools.chain.from_iterable(allslots)).union(exclude)
 
         # i don't like lambdas
         def valid_property(x: tuple[str, Any]) -> bool:
@@ -641,7 +642,7 @@ class Pickler:
 
         # add properties to the attribute list
         if self.include_properties:
-            data = self._flatten_properties(obj, data, allslots)
+            data = self._flatten_properties(obj, data, allslots, exclude)
 
         if not self._flatten_obj_attrs(obj, chain(*allslots), data, exclude):
             attrs = [
@@ -709,7 +710,7 @@ class Pickler:
             return result
 
         if self.include_properties:
-            data = self._flatten_properties(obj, data)
+            data = self._flatten_properties(obj, data, exclude=exclude)
 
         if self.unpicklable:
             # test for a reduce implementation, and redirect before
-- 
2.43.0


From 4928caa54bb04930d88af60bdc898cbbc67b4438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:22 +0000
Subject: [PATCH 68/82] fix: restore objects with slots that are all excluded

---
 jsonpickle/pickler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 47b53fe..f4897da 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -646,7 +646,11 @@ class Pickler:
 
         if not self._flatten_obj_attrs(obj, chain(*allslots), data, exclude):
             attrs = [
-                x for x in dir(obj) if not x.startswith("__") and not x.endswith("__")
+                x
+                for x in dir(obj)
+                if not x.startswith("__")
+                and not x.endswith("__")
+                and x != "_jsonpickle_exclude"
             ]
             self._flatten_obj_attrs(obj, attrs, data, exclude)
 
-- 
2.43.0


From 43ac88648a23a1802d629de399e70e570e2d4e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:54 +0000
Subject: [PATCH 69/82] fix: do not keep objects alive after encode() or after
 a failed decode()

---
 jsonpickle/pickler.py   | 6 ++++++
 jsonpickle/unpickler.py | 8 ++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index f4897da..3de8bb7 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -154,6 +154,7 @@ def encode(
     """
 
     backend = backend or json
+    is_ephemeral_context = context is None
     context = context or Pickler(
         unpicklable=unpicklable,
         make_refs=make_refs,
@@ -179,6 +180,11 @@ def encode(
         data = context.flatten(value, reset=reset)
     finally:
         context.handler_context = previous_handler_context
+        if is_ephemeral_context:
+            # Avoid holding onto references to external objects, which can
+            # happen when the context is kept by a registered handler object.
+            context.reset()
+            context._original_object = None
     return backend.encode(data, indent=indent, separators=separators)
 
 
diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index ba1d7d8..e533c87 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -123,10 +123,10 @@ def decode(
         result = context.restore(data, reset=reset, classes=classes)
     finally:
         context.handler_context = previous_handler_context
-    if is_ephemeral_context:
-        # Avoid holding onto references to external objects, which can
-        # prevent garbage collection from occuring.
-        context.reset()
+        if is_ephemeral_context:
+            # Avoid holding onto references to external objects, which can
+            # prevent garbage collection from occuring.
+            context.reset()
     return result
 
 
-- 
2.43.0


From ab60544ac9aa0eed17fc70549bf0748332c21ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:38 +0000
Subject: [PATCH 70/82] fix: restore the state of frozen dataclasses that are
 reduced

---
 jsonpickle/unpickler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index e533c87..59808a5 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -586,7 +586,8 @@ class Unpickler:
                     # preserved so that _swap_proxies works out
                     for k, v in stage1.__dict__.items():
                         state.setdefault(k, v)
-                    stage1.__dict__ = state
+                    # frozen dataclasses only allow this way
+                    object.__setattr__(stage1, "__dict__", state)
                 except (AttributeError, TypeError):
                     # next prescribed default
                     try:
-- 
2.43.0


From fa103da084a9bcb3820315b9e298ceaeb2daa8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:39 +0000
Subject: [PATCH 71/82] fix: don't store read-only class attributes for objects
 with no slot set

An object whose class has __slots__, none of them set, was encoded with
all of the attributes of its class. Decoding then failed because class
constants and properties without a setter cannot be set on the instance.
---
 jsonpickle/pickler.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 3de8bb7..8180862 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -216,6 +216,18 @@ def _wrap_string_slot(string: str | Sequence[str]) -> Sequence[str]:
     return string
 
 
+def _can_set(obj: Any, name: str) -> bool:
+    """Whether an attribute of an object without a __dict__ can be restored"""
+    cls = type(obj)
+    if cls.__setattr__ is not object.__setattr__:
+        return True
+    attr = inspect.getattr_static(cls, name, cls)
+    if isinstance(attr, property):
+        return attr.fset is not None
+    # Anything else the class has to say about the name makes it read-only.
+    return attr is cls or hasattr(type(attr), "__set__")
+
+
 def _slot_names(cls: type, obj_cls: type) -> list[str]:
     """Return the names of the slots that ``cls`` declares for ``obj_cls`` instances
 
@@ -657,6 +669,7 @@ class Pickler:
                 if not x.startswith("__")
                 and not x.endswith("__")
                 and x != "_jsonpickle_exclude"
+                and (not self.unpicklable or _can_set(obj, x))
             ]
             self._flatten_obj_attrs(obj, attrs, data, exclude)
 
-- 
2.43.0


From 5ee80572f3a048e1c091bd7f02f993ce3ee76ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:15 +0000
Subject: [PATCH 72/82] fix: keep the unit of time differences in data frames
 stored as CSV

Newer pandas versions infer the unit from the text, which gave columns of
another type than the one stored with the document.
---
 jsonpickle/ext/pandas.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 499ba95..d9fdfde 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -113,14 +113,14 @@ class PandasProcessor:
 def make_read_csv_params(
     meta: dict[str, Any],
     context: RestoreType,
-) -> tuple[dict[str, Any], list[str], dict[str, str]]:
+) -> tuple[dict[str, Any], dict[str, str], dict[str, str]]:
     meta_dtypes = context.restore(meta.get("dtypes", {}), reset=False)
     # The header is used to select the rows of the csv from which
     # the columns names are retrieved
     header = meta.get("header", [0])
     parse_dates = []
     converters = {}
-    timedeltas = []
+    timedeltas = {}
     # this is only for pandas v2+ due to a backwards-incompatible change
     parse_datetime_v2 = {}
     dtype = {}
@@ -131,7 +131,7 @@ def make_read_csv_params(
         elif v.startswith("complex"):
             converters[k] = complex
         elif v.startswith("timedelta"):
-            timedeltas.append(k)
+            timedeltas[k] = v
             dtype[k] = "object"
         else:
             dtype[k] = v
@@ -336,8 +336,8 @@ class PandasDfHandler(BaseHandler):
             if data["values"].strip()
             else pd.DataFrame()
         )
-        for col in timedeltas:
-            df[col] = pd.to_timedelta(df[col])
+        for col, v in timedeltas.items():
+            df[col] = pd.to_timedelta(df[col]).astype(v)
         df = df.astype(parse_datetime_v2)
 
         df.set_index(decode(meta["index"]), inplace=True)
-- 
2.43.0


From a51cd778245cf2e5ec5255495ac701af622276da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:42 +0000
Subject: [PATCH 73/82] fix: don't store the parts of numbers whose class has
 empty slots

---
 jsonpickle/pickler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 8180862..31056bd 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -224,6 +224,13 @@ def _can_set(obj: Any, name: str) -> bool:
     attr = inspect.getattr_static(cls, name, cls)
     if isinstance(attr, property):
         return attr.fset is not None
+    if inspect.isgetsetdescriptor(attr) or inspect.ismemberdescriptor(attr):
+        # Nothing but trying tells whether these can be set.
+        try:
+            setattr(obj, name, getattr(obj, name))
+        except (AttributeError, TypeError):
+            return False
+        return True
     # Anything else the class has to say about the name makes it read-only.
     return attr is cls or hasattr(type(attr), "__set__")
 
-- 
2.43.0


From 43718faaa160958e116f5df43688546a6d664f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:13 +0000
Subject: [PATCH 74/82] fix: don't drop dictionary entries and settable
 attributes with handle_readonly

---
 jsonpickle/pickler.py | 23 +++++++----------------
 jsonpickle/util.py    | 22 ----------------------
 2 files changed, 7 insertions(+), 38 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 31056bd..fb8b458 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -217,7 +217,7 @@ def _wrap_string_slot(string: str | Sequence[str]) -> Sequence[str]:
 
 
 def _can_set(obj: Any, name: str) -> bool:
-    """Whether an attribute of an object without a __dict__ can be restored"""
+    """Whether an attribute of an object can be restored"""
     cls = type(obj)
     if cls.__setattr__ is not object.__setattr__:
         return True
@@ -231,8 +231,8 @@ def _can_set(obj: Any, name: str) -> bool:
         except (AttributeError, TypeError):
             return False
         return True
-    # Anything else the class has to say about the name makes it read-only.
-    return attr is cls or hasattr(type(attr), "__set__")
+    # Without a __dict__ whatever else the class has to say makes it read-only.
+    return attr is cls or hasattr(obj, "__dict__") or hasattr(type(attr), "__set__")
 
 
 def _slot_names(cls: type, obj_cls: type) -> list[str]:
@@ -297,7 +297,7 @@ class Pickler:
         self._property_owners = []
         # Whether the backend sorts the keys
         self._sort_keys = False
-        # Used for util._is_readonly, see +483
+        # Whether to leave out read-only attributes, see +483
         self.handle_readonly = handle_readonly
         # Custom context passed through to custom handlers, see #452
         self.handler_context = handler_context
@@ -545,17 +545,6 @@ class Pickler:
         """Flatten a key/value pair into the passed-in dictionary."""
         if not util._is_picklable(k, v):
             return data
-        # TODO: use inspect.getmembers_static on 3.11+ because it avoids dynamic
-        # attribute lookups
-        if (
-            self.handle_readonly
-            and k in {attr for attr, val in inspect.getmembers(self._original_object)}
-            and util._is_readonly(
-                self._original_object, k, getattr(self._original_object, k)
-            )
-        ):
-            return data
-
         if k is None:
             k = "null"  # for compatibility with common json encoders
 
@@ -676,7 +665,7 @@ class Pickler:
                 if not x.startswith("__")
                 and not x.endswith("__")
                 and x != "_jsonpickle_exclude"
-                and (not self.unpicklable or _can_set(obj, x))
+                and (not (self.unpicklable or self.handle_readonly) or _can_set(obj, x))
             ]
             self._flatten_obj_attrs(obj, attrs, data, exclude)
 
@@ -857,6 +846,8 @@ class Pickler:
 
             # hack for zope persistent objects; this unghostifies the object
             getattr(obj, "_", None)
+            if self.handle_readonly:
+                exclude.update(k for k in obj.__dict__ if not _can_set(obj, k))
             data = self._flatten_dict_obj(obj.__dict__, data, exclude=exclude)
             # base classes can declare slots even though the object has a __dict__
             for base in cls.mro():
diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index 49be6cd..db2a841 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -341,28 +341,6 @@ def _is_cython_function(obj: Any) -> bool:
     )
 
 
-def _is_readonly(obj: Any, attr: str, value: Any) -> bool:
-    cls = type(obj)
-    if cls.__setattr__ is object.__setattr__:
-        # Avoid calling setters and hiding class attributes.
-        descriptor = inspect.getattr_static(cls, attr, None)
-        if isinstance(descriptor, property):
-            return descriptor.fset is None
-        if not hasattr(type(descriptor), "__set__") and hasattr(obj, "__dict__"):
-            return False
-    # CPython 3.11+ has 0-cost try/except, please use up-to-date versions!
-    try:
-        setattr(obj, attr, value)
-        return False
-    except AttributeError:
-        # this is okay, it means the attribute couldn't be set
-        return True
-    except TypeError:
-        # this should only be happening when obj is a dict
-        # as these errors happen when attr isn't a str
-        return True
-
-
 def in_dict(obj: Any, key: str, default: bool = False) -> bool:
     """
     Returns true if key exists in obj.__dict__; false if not in.
-- 
2.43.0


From fdaede19474937174d108e7f0b1fb17bebee64a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:51 +0000
Subject: [PATCH 75/82] fix: encode callable objects whose repr fails

---
 jsonpickle/util.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index db2a841..7c5dbb3 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -334,11 +334,15 @@ def _is_reducible(obj: Any) -> bool:
 
 def _is_cython_function(obj: Any) -> bool:
     """Returns true if the object is a reference to a Cython function"""
-    return (
-        callable(obj)
-        and hasattr(obj, "__repr__")
-        and repr(obj).startswith("<cyfunction ")
-    )
+    try:
+        return (
+            callable(obj)
+            and hasattr(obj, "__repr__")
+            and repr(obj).startswith("<cyfunction ")
+        )
+    except Exception:  # ruff: ignore[BLE001]
+        # some other callable whose repr() cannot be had
+        return False
 
 
 def in_dict(obj: Any, key: str, default: bool = False) -> bool:
-- 
2.43.0


From 3c56522767320942588395471eb2948144bfd5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:43 +0000
Subject: [PATCH 76/82] fix: restore attributes named default_factory and
 factories that are dictionaries

---
 jsonpickle/unpickler.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 59808a5..be21359 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -850,10 +850,14 @@ class Unpickler:
 
         # An object can install itself as its own factory, so load the factory
         # after the instance is available for referencing.
-        if tags.DEFAULT_FACTORY in obj or "default_factory" in obj:
-            # The same data may be restored more than once so leave it alone.
-            obj = dict(obj)
-        factory = self._loadfactory(obj)
+        factory = None
+        if (isinstance(cls, type) and issubclass(cls, dict)) or has_tag(
+            obj.get("default_factory"), tags.TYPE
+        ):
+            if tags.DEFAULT_FACTORY in obj or "default_factory" in obj:
+                # The same data may be restored more than once so leave it alone.
+                obj = dict(obj)
+            factory = self._loadfactory(obj)
 
         if has_tag(obj, tags.NEWARGSEX):
             args, kwargs = obj[tags.NEWARGSEX]
@@ -870,7 +874,7 @@ class Unpickler:
         try:
             if not is_oldstyle and hasattr(cls, "__new__"):
                 # new style classes
-                if factory:
+                if factory is not None:
                     instance = cls.__new__(cls, factory, *args, **kwargs)
                     instance.default_factory = factory
                 else:
@@ -898,6 +902,10 @@ class Unpickler:
         if _safe_hasattr(instance, "default_factory") and isinstance(
             instance.default_factory, _Proxy
         ):
+            # The factory may be an object that does not exist yet.
+            self._proxies.append(
+                (instance, "default_factory", instance.default_factory, _obj_setattr)
+            )
             instance.default_factory = instance.default_factory.get()
 
         return instance
-- 
2.43.0


From fe27229c0b4707ff7f76ed5a17cb9de3a80e68c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:49 +0000
Subject: [PATCH 77/82] fix: don't confuse callable objects with the factories
 made from them

---
 jsonpickle/pickler.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index fb8b458..48da55c 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -293,6 +293,8 @@ class Pickler:
         self._flattened = {}
         # The number of cycles that were cut because of missing references
         self._num_cycles = 0
+        # Maps id(factory) to its stand-in
+        self._factories = {}
         # The classes whose properties are being flattened
         self._property_owners = []
         # Whether the backend sorts the keys
@@ -340,6 +342,7 @@ class Pickler:
         self._depth = -1
         self._seen = []
         self._flattened = {}
+        self._factories = {}
         self._num_cycles = 0
 
     def _push(self) -> None:
@@ -1008,11 +1011,18 @@ class Pickler:
             else:
                 # The factory is not a type and could reference e.g. functions
                 # or even the object instance itself, which creates a cycle.
-                if self._mkref(factory):
-                    # We've never seen this object before so pickle it in-place.
+                # The clones stand for factories only, never for the object itself.
+                use_refs = self.unpicklable and self.make_refs
+                if not use_refs or id(factory) not in self._objs:
                     # Create an instance from the factory and assume that the
                     # resulting instance is a suitable exemplar.
-                    value = self._flatten_obj_instance(handlers.CloneFactory(factory()))
+                    if id(factory) not in self._factories:
+                        clone = handlers.CloneFactory(factory())
+                        self._factories[id(factory)] = clone
+                    factory = self._factories[id(factory)]
+                if self._mkref(factory):
+                    # We've never seen this object before so pickle it in-place.
+                    value = self._flatten_obj_instance(factory)
                 else:
                     # We've seen this object before.
                     # Break the cycle by emitting a reference.
-- 
2.43.0


From f4b38c06db71c640fafbd8f6ca9fbfba35609748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:35 +0000
Subject: [PATCH 78/82] fix: complete slot attributes of objects restored
 through a reduction

---
 jsonpickle/unpickler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index be21359..6f43b78 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -593,6 +593,7 @@ class Unpickler:
                     try:
                         for k, v in state.items():
                             setattr(stage1, k, v)
+                        attrs = state
                     except Exception:  # ruff: ignore[BLE001]
                         dict_state, slots_state = state
                         if dict_state:
@@ -600,6 +601,12 @@ class Unpickler:
                         if slots_state:
                             for k, v in slots_state.items():
                                 setattr(stage1, k, v)
+                        attrs = {**(dict_state or {}), **(slots_state or {})}
+                    self._proxies.extend(
+                        (stage1, k, v, _obj_setattr)
+                        for k, v in attrs.items()
+                        if isinstance(v, _Proxy)
+                    )
         elif state:
             # pickle protocol 5's state_setter takes priority over __setstate__
             state_setter(stage1, state)
-- 
2.43.0


From 64363343d8aedbe92edcd29d39b942a6f6c5890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:41 +0000
Subject: [PATCH 79/82] fix: restore modules whose name their package uses for
 something else

---
 jsonpickle/unpickler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 6f43b78..f41fbe3 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -5,6 +5,7 @@
 # This software is licensed as described in the file COPYING, which
 # you should have received as part of this distribution.
 import dataclasses
+import sys
 import warnings
 from collections.abc import Callable, Iterator, Sequence
 from typing import Any, TypeAlias
@@ -302,6 +303,9 @@ def _loadmodule(module_str: str) -> Any | None:
         result = __import__(module)
     except ImportError:
         return None
+    if identifier == module:
+        # The parent package may use the module's name for something else.
+        return sys.modules[module]
     identifier_parts = identifier.split(".")
     first_identifier = identifier_parts[0]
     if first_identifier != module and not module.startswith(f"{first_identifier}."):
-- 
2.43.0


From 93eee90b07cb1ec7a57e520a7e76b94675edb5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:26:22 +0000
Subject: [PATCH 80/82] fix: restore false states of reductions

---
 jsonpickle/unpickler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index f41fbe3..1789239 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -579,7 +579,8 @@ class Unpickler:
             self._restore(v) for v in (reduce_val + [None] * 6)[2:6]
         ]
 
-        if state and state_setter is None:
+        has_setstate = state is not None and hasattr(stage1, "__setstate__")
+        if (has_setstate or state) and state_setter is None:
             try:
                 stage1.__setstate__(state)
             except AttributeError:
@@ -611,7 +612,7 @@ class Unpickler:
                         for k, v in attrs.items()
                         if isinstance(v, _Proxy)
                     )
-        elif state:
+        elif state is not None and state_setter is not None:
             # pickle protocol 5's state_setter takes priority over __setstate__
             state_setter(stage1, state)
 
-- 
2.43.0


From 32ab6fefb41c58fdb245daff3003a7305dbd1ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:44:56 +0000
Subject: [PATCH 81/82] fix: keep the hidden fields of struct_time, stat_result
 and the like

---
 jsonpickle/pickler.py |  7 ++++++-
 jsonpickle/util.py    | 13 +++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 48da55c..49d25ed 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -800,7 +800,12 @@ class Pickler:
                 ]
 
             if has_getnewargs and not has_getnewargs_ex:
-                data[tags.NEWARGS] = self._flatten(obj.__getnewargs__())
+                if util._has_hidden_fields(cls):
+                    # fields such as tm_zone are not among the items
+                    newargs = obj.__reduce__()[1]
+                else:
+                    newargs = obj.__getnewargs__()
+                data[tags.NEWARGS] = self._flatten(newargs)
 
             if has_getinitargs:
                 data[tags.INITARGS] = self._flatten(obj.__getinitargs__())
diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index 7c5dbb3..2fff0c2 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -332,6 +332,19 @@ def _is_reducible(obj: Any) -> bool:
     )
 
 
+def _has_hidden_fields(cls: type) -> bool:
+    """Has this tuple type fields beyond its items, as time.struct_time has?"""
+    fields = getattr(cls, "n_fields", None)
+    items = getattr(cls, "n_sequence_fields", None)
+    return (
+        isinstance(cls, type)
+        and issubclass(cls, tuple)
+        and isinstance(fields, int)
+        and isinstance(items, int)
+        and fields > items
+    )
+
+
 def _is_cython_function(obj: Any) -> bool:
     """Returns true if the object is a reference to a Cython function"""
     try:
-- 
2.43.0


From c9e96400ff5dcd3df09d4665c436f7283b8deef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:30:39 +0000
Subject: [PATCH 82/82] fix: keep copied NumPy arrays read-only

---
 jsonpickle/ext/numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 93c9e35..044b064 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -432,6 +432,8 @@ class NumpyNDArrayHandlerView(NumpyNDArrayHandlerBinary):
                 )
                 raise ValueError(msg)
             data = super().flatten(obj.copy(), data)
+            # the copy itself is always writeable
+            self.flatten_flags(obj, data)
 
         return data
 
-- 
2.43.0

