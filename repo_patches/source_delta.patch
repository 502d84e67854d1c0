From 55b564fd5ece7a1a64416c1a057d106bac060038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 01/78] fix: Python reads of unaligned 64-bit fields leaked
 bits of the next field

---
 flatdata-py/flatdata/lib/data_access.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index 359dfc6..39693d1 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -20,8 +20,8 @@ def read_value(data, offset_bits, num_bits, is_signed):
         remainder = data[offset_bytes + total_bytes]
         result |= remainder << (total_bytes * 8 - offset_extra_bits)
 
-    if num_bits < 64:
-        result = result & ((1 << num_bits) - 1)
+    # an unaligned value can leave bits of its neighbours in the last byte, also at full width
+    result = result & ((1 << num_bits) - 1)
 
     if not is_signed:
         return result
-- 
2.43.0


From 50844bd733aa9b38713483950060d599b9c5de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 02/78] fix: Python write_value changed bits outside the field
 and left old bits inside it

---
 flatdata-py/flatdata/lib/data_access.py | 34 +++++--------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index 39693d1..bc1f5f0 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -33,32 +33,10 @@ def write_value(data, offset_bits, num_bits, is_signed, value):
     assert num_bits <= 64, f'Number of bits to write is greater than 64'
 
     offset_bytes, offset_extra_bits = divmod(offset_bits, 8)
-    total_bytes = (num_bits + 7) // 8
-
-    if num_bits == 1:
-        if value == 1:
-            data[offset_bytes] |= 1 << offset_extra_bits
-        else:
-            data[offset_bytes] &= ~(1 << offset_extra_bits)
-        return
-
-    mask = (1 << num_bits) - 1
-    value <<= offset_extra_bits
-    value &= mask << offset_extra_bits
-    value_in_little_endian = value.to_bytes(total_bytes + 1, byteorder="little", signed=is_signed)
-    surrounding_bits = data[offset_bytes] & ((1 << offset_bits) - 1)
-
-    byte_idx = 0
-    data[offset_bytes] = value_in_little_endian[byte_idx]
-    data[offset_bytes] |= surrounding_bits
-
-    byte_idx += 1
-    while byte_idx < total_bytes:
-        data[offset_bytes + byte_idx] = value_in_little_endian[byte_idx]
-        byte_idx += 1
+    end_byte = offset_bytes + (offset_extra_bits + num_bits + 7) // 8
 
-    bits_written = total_bytes * 8 - offset_extra_bits
-    if bits_written < num_bits:
-        surrounding_bits = data[offset_bytes + byte_idx] & ~((1 << offset_bits) - 1)
-        data[offset_bytes + byte_idx] = value_in_little_endian[byte_idx] & ((1 << (8 - (bits_written % 8))) - 1)
-        data[offset_bytes + byte_idx] |= surrounding_bits
+    # replace only the bits of this field, keep everything around it
+    mask = ((1 << num_bits) - 1) << offset_extra_bits
+    result = int.from_bytes(data[offset_bytes:end_byte], byteorder="little")
+    result = (result & ~mask) | ((value << offset_extra_bits) & mask)
+    data[offset_bytes:end_byte] = result.to_bytes(end_byte - offset_bytes, byteorder="little")
-- 
2.43.0


From 1bd92ebab3133cb25a92fb24a9ef2daa9f53a619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 03/78] fix: Python archives reported present but empty
 resources as missing

---
 flatdata-py/flatdata/lib/archive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive.py b/flatdata-py/flatdata/lib/archive.py
index 34e27aa..fb7ee28 100644
--- a/flatdata-py/flatdata/lib/archive.py
+++ b/flatdata-py/flatdata/lib/archive.py
@@ -56,8 +56,8 @@ class Archive:
         for name, signature in self._RESOURCES.items():
             resource = self.__getattr__(name)
             result.append([name, signature.container.__name__, signature.is_optional,
-                           resource.size_in_bytes() if resource else None,
-                           len(resource) if resource else None])
+                           resource.size_in_bytes() if resource is not None else None,
+                           len(resource) if resource is not None else None])
         return pd.DataFrame(data=result,
                             columns=["Name", "Type", "Optional", "SizeInBytes", "Size"])
 
@@ -84,7 +84,7 @@ class Archive:
     def size_in_bytes(self):
         return sum(resource_value.size_in_bytes() for resource_value in
                    (self.__getattr__(resource) for resource in self._RESOURCES.keys())
-                   if resource_value)
+                   if resource_value is not None)
 
     def __len__(self):
         return len(self._RESOURCES)
@@ -110,7 +110,7 @@ class Archive:
                                                          name=name,
                                                          initializer=resource_signature.initializer,
                                                          is_optional=resource_signature.is_optional)
-            if resource:
+            if resource is not None:
                 resource.__doc__ = resource_signature.doc
                 return resource
         return None
-- 
2.43.0


From f1ca04e6a3a38a3facfebd7862b5a7047d69f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 04/78] fix: Python archives crashed on optional resources
 without data and on empty files

---
 flatdata-py/flatdata/lib/archive.py               |  2 +-
 flatdata-py/flatdata/lib/file_resource_storage.py |  7 +++++--
 flatdata-py/flatdata/lib/resources.py             | 13 +++++++++----
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive.py b/flatdata-py/flatdata/lib/archive.py
index fb7ee28..87df13c 100644
--- a/flatdata-py/flatdata/lib/archive.py
+++ b/flatdata-py/flatdata/lib/archive.py
@@ -95,7 +95,7 @@ class Archive:
         # when it is initialized.
         if not _is_archive_signature(resource_signature):
             storage = self._resource_storage.get(name + _SCHEMA_EXT, resource_signature.is_optional)
-            if storage:
+            if storage is not None:
                 Archive._check_non_subarchive_schema(name, resource_signature, storage)
             elif not resource_signature.is_optional:
                 raise MissingResourceError(name)
diff --git a/flatdata-py/flatdata/lib/file_resource_storage.py b/flatdata-py/flatdata/lib/file_resource_storage.py
index 674b6fb..32dc5ee 100644
--- a/flatdata-py/flatdata/lib/file_resource_storage.py
+++ b/flatdata-py/flatdata/lib/file_resource_storage.py
@@ -21,8 +21,11 @@ class FileResourceStorage:
         :param filename:
         :return: file-like object for memory mapped file.
         """
-        opened_file = open(filename, 'r')
-        return mmap.mmap(opened_file.fileno(), 0, access=mmap.ACCESS_READ)
+        with open(filename, 'rb') as opened_file:
+            if os.fstat(opened_file.fileno()).st_size == 0:
+                # an empty file cannot be mapped
+                return memoryview(b"")
+            return mmap.mmap(opened_file.fileno(), 0, access=mmap.ACCESS_READ)
 
     def __init__(self, path):
         self.path = path
diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index f371a7d..08a8087 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -51,7 +51,10 @@ class ResourceBase:
 
     @classmethod
     def open(cls, storage, name, initializer, is_optional=False):
-        return cls(storage.get(name, is_optional), initializer)
+        mem = storage.get(name, is_optional)
+        if mem is None:
+            return None
+        return cls(mem, initializer)
 
 
 class _VectorSlice:
@@ -138,9 +141,11 @@ class Multivector(ResourceBase):
 
     @classmethod
     def open(cls, storage, name, initializer, is_optional=False):
-        return cls(storage.get(name + "_index", is_optional),
-                   storage.get(name, is_optional),
-                   *initializer)
+        index_mem = storage.get(name + "_index", is_optional)
+        mem = storage.get(name, is_optional)
+        if index_mem is None or mem is None:
+            return None
+        return cls(index_mem, mem, *initializer)
 
     def __len__(self):
         # The last entry is just a sentinel
-- 
2.43.0


From ff53695412f616aa0b4bd8ce0ad8fdf53f8b040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 05/78] fix: inspector could not open tar archives

---
 flatdata-py/flatdata/lib/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/inspector.py b/flatdata-py/flatdata/lib/inspector.py
index 5bfdfdc..8ffc6ca 100755
--- a/flatdata-py/flatdata/lib/inspector.py
+++ b/flatdata-py/flatdata/lib/inspector.py
@@ -72,7 +72,7 @@ def open_archive(path, archive=None, module_name=None):
 
     try:
         module, archive_type = \
-            Engine(schema.read().decode()).render_python_module(module_name=module_name,
+            Engine(bytes(schema).decode()).render_python_module(module_name=module_name,
                                                                 archive_name=archive_name)
     except FlatdataSyntaxError as err:
         raise RuntimeError("Error reading schema: %s " % err)
-- 
2.43.0


From 6d70f9d33160e8b8a4310e3fd566aad9013e7593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 06/78] fix: Python multivector returned wrong items for
 negative indices

---
 flatdata-py/flatdata/lib/resources.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 08a8087..c3bab7d 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -158,6 +158,10 @@ class Multivector(ResourceBase):
         if isinstance(index, slice):
             return _MultivectorSlice(index, self)
 
+        if index < 0:
+            index += len(self)
+        if index >= len(self) or index < 0:
+            raise IndexError("Multivector access out of bounds: " + str(index))
         offset = self._bucket_offset(index)
         next_offset = self._bucket_offset(index + 1)
         elements = []
-- 
2.43.0


From bb74ccf73255032473a5663d593b18ad50cfb921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 07/78] fix: Python raw data indexing exposed size header and
 padding and failed on open slices

---
 flatdata-py/flatdata/lib/resources.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index c3bab7d..288c38a 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -189,19 +189,20 @@ class RawData(ResourceBase):
         return read_value(self._mem, 0, SIZE_OFFSET_IN_BITS, False)
 
     def __getitem__(self, item):
+        data = self._mem[SIZE_OFFSET_IN_BYTES:SIZE_OFFSET_IN_BYTES + len(self)]
         if isinstance(item, slice):
-            return self._mem[
-                slice(item.start + SIZE_OFFSET_IN_BYTES,
-                      (item.stop + SIZE_OFFSET_IN_BYTES) if item.stop is not None else None,
-                      item.step)
-            ]
-        return self._mem[item + SIZE_OFFSET_IN_BYTES:item + SIZE_OFFSET_IN_BYTES + 1]
+            return data[item]
+        if item < 0:
+            item += len(data)
+        if item >= len(data) or item < 0:
+            raise IndexError("Raw data access out of bounds: " + str(item))
+        return data[item:item + 1]
 
     def sub_str(self, index, separator = b'\0'):
         for i in range(index, len(self)):
             if self[i:i + len(separator)] == separator:
                 return bytes(self[index:i]).decode("utf-8")
-        return bytes(self[index]).decode("utf-8")
+        return bytes(self[index:]).decode("utf-8")
 
     def sub_str_list(self, index, separator = b'\0', list_separator = b'\0\0'):
         result = []
-- 
2.43.0


From ee11f9f4f19293052a5b9f33ff3d6ab403d0bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 08/78] fix: Python raw data string lists miscounted separators
 longer than one byte

---
 flatdata-py/flatdata/lib/resources.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 288c38a..e390f90 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -207,21 +207,23 @@ class RawData(ResourceBase):
     def sub_str_list(self, index, separator = b'\0', list_separator = b'\0\0'):
         result = []
         for i in range(index, len(self)):
+            if i < index:
+                continue
             if index == i and self[i:i + len(list_separator)] == list_separator:
                 break
             if self[i:i + len(separator)] == separator:
                 result.append(bytes(self[index:i]).decode("utf-8"))
-                index = i + 1
+                index = i + len(separator)
         return result
 
     def sub_str_array(self, index, size, separator = b'\0'):
         result = []
         for i in range(index, len(self)):
-            if self[i:i + len(separator)] == separator:
+            if len(result) == size:
+                break
+            if i >= index and self[i:i + len(separator)] == separator:
                 result.append(bytes(self[index:i]).decode("utf-8"))
-                index = i + 1
-                if len(result) == size:
-                    break
+                index = i + len(separator)
         return result
 
 
-- 
2.43.0


From 2c8e9086934828d4391bbd9ee83c33598521dde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 09/78] fix: Python slices with a limit exported uninitialized
 rows or failed

---
 flatdata-py/flatdata/lib/resources.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index e390f90..98df6a7 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -64,12 +64,14 @@ class _VectorSlice:
 
     def to_numpy(self, limit=None):
         indices = self._slice.indices(len(self._sequence))
-        num_items = len(range(*indices)) if not limit else limit
+        num_items = len(range(*indices))
+        if limit is not None:
+            num_items = min(num_items, limit)
         result = np.empty(
             shape=num_items,
             dtype=self._sequence._element_type.dtype()
         )
-        for index, item in enumerate(self):
+        for index, item in zip(range(num_items), self):
             result[index] = item.as_tuple()
         return result
 
-- 
2.43.0


From 6200ef3119f3b2a45e2afd8b8d0c812bbd4af922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 10/78] fix: Python structures iterated over their fields in
 arbitrary order

---
 flatdata-py/flatdata/lib/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/structure.py b/flatdata-py/flatdata/lib/structure.py
index fec73c0..e1d3a04 100644
--- a/flatdata-py/flatdata/lib/structure.py
+++ b/flatdata-py/flatdata/lib/structure.py
@@ -24,10 +24,10 @@ class Structure:
         return read_value(self._mem, self._pos * 8 + field.offset, field.width, field.is_signed)
 
     def __dir__(self):
-        return self._FIELD_KEYS
+        return list(self._FIELDS)
 
     def __iter__(self):
-        for name in self._FIELD_KEYS:
+        for name in self._FIELDS:
             yield getattr(self, name)
 
     def as_dict(self):
-- 
2.43.0


From fba990e8cf7c5440960ddd3d68dbc64454ae3c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 11/78] fix: archives in nested namespaces or spanning several
 could not be opened by name

---
 .../flatdata/generator/engine.py              | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/engine.py b/flatdata-generator/flatdata/generator/engine.py
index d568f03..53b904f 100644
--- a/flatdata-generator/flatdata/generator/engine.py
+++ b/flatdata-generator/flatdata/generator/engine.py
@@ -6,6 +6,7 @@
 import types
 
 from flatdata.generator.tree.builder import build_ast
+from flatdata.generator.tree.nodes.archive import Archive
 from flatdata.generator.tree.nodes.trivial.namespace import Namespace
 
 from .generators.cpp import CppGenerator
@@ -68,18 +69,39 @@ class Engine:
         :param archive_name: Archive name to lookup,
             if specified, archive type is returned along with the model
         """
-        root_namespace = self._find_root_namespace(self.tree)
+        archive = self._find_archive(self.tree, archive_name) if archive_name else None
+        if archive is not None:
+            root_name = next(iter(self.tree.namespaces(archive))).name
+        else:
+            root_name = self._find_root_namespace(self.tree).name
         module_code = self.render("py")
-        module = types.ModuleType(module_name if module_name is not None else root_namespace.name)
+        module = types.ModuleType(module_name if module_name is not None else root_name)
         #pylint: disable=exec-used
         exec(module_code, module.__dict__)
         if archive_name is None:
             return module
 
-        name = root_namespace.name + "_" + archive_name
+        namespace = self.tree.namespace_path(archive, "_") if archive is not None else root_name
+        name = namespace + "_" + archive_name
         archive_type = getattr(module, name) if archive_name else None
         return module, archive_type
 
+    @staticmethod
+    def _find_archive(tree, name):
+        """
+        Find the archive that `name` (an archive or its builder) stands for. If several namespaces
+        define it, the outermost one is used.
+        """
+        archives = [node for node in tree.root.iterate(Archive)
+                    if name in (node.name, node.name + "Builder")]
+        if not archives:
+            return None
+        depth = lambda node: len(list(tree.namespaces(node)))
+        outermost = [node for node in archives if depth(node) == min(map(depth, archives))]
+        if len(outermost) > 1:
+            raise RuntimeError("Ambiguous archive name %s" % name)
+        return outermost[0]
+
     @classmethod
     def _create_generator(cls, name):
         generator_type = cls._GENERATORS.get(name, None)
-- 
2.43.0


From 1d959afa3c7d3ddb9e392197d1396be616764f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 12/78] fix: root namespaces with builtin in their name were
 not found

---
 flatdata-generator/flatdata/generator/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/engine.py b/flatdata-generator/flatdata/generator/engine.py
index 53b904f..ee5c772 100644
--- a/flatdata-generator/flatdata/generator/engine.py
+++ b/flatdata-generator/flatdata/generator/engine.py
@@ -115,7 +115,7 @@ class Engine:
         root_children = tree.root.children
         root_namespaces = [
             child for child in root_children
-            if isinstance(child, Namespace) and "builtin" not in child.name
+            if isinstance(child, Namespace) and child.name != "_builtin"
         ]
         if not root_namespaces:
             raise RuntimeError("No root namespace found.")
-- 
2.43.0


From 46051db087ff3d526a2de76a2be75c2dc560f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 13/78] fix: Python builder silently stored nothing for text
 and other non-bytes raw data

---
 flatdata-py/flatdata/lib/archive_builder.py  | 2 +-
 flatdata-py/flatdata/lib/resource_storage.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive_builder.py b/flatdata-py/flatdata/lib/archive_builder.py
index a4b1d2a..7d3c8e2 100644
--- a/flatdata-py/flatdata/lib/archive_builder.py
+++ b/flatdata-py/flatdata/lib/archive_builder.py
@@ -274,7 +274,7 @@ class ArchiveBuilder:
         elif self._RESOURCES[name].container is Multivector:
             self.__set_multivector(storage, name, value)
         elif self._RESOURCES[name].container is RawData:
-            storage.write(value)
+            storage.write(value.encode("utf-8") if isinstance(value, str) else value)
         else:
             NotImplementedError
 
diff --git a/flatdata-py/flatdata/lib/resource_storage.py b/flatdata-py/flatdata/lib/resource_storage.py
index 72a6219..b952a5b 100644
--- a/flatdata-py/flatdata/lib/resource_storage.py
+++ b/flatdata-py/flatdata/lib/resource_storage.py
@@ -52,8 +52,7 @@ class _Resource():
 
         :param data(bytearray): bytearray to be added to resource
         '''
-        if data and isinstance(data, bytearray) or isinstance(data, bytes):
-            self.data += data
+        self.data += data
 
     def get_data(self):
         '''Returns resources data in bytearray'''
-- 
2.43.0


From 74563400ec60d5e1d7a4671990854e4955724d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 14/78] fix: rejected Python builder calls left files of the
 resource behind

---
 flatdata-py/flatdata/lib/archive_builder.py | 57 +++++++++++----------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive_builder.py b/flatdata-py/flatdata/lib/archive_builder.py
index 7d3c8e2..6714846 100644
--- a/flatdata-py/flatdata/lib/archive_builder.py
+++ b/flatdata-py/flatdata/lib/archive_builder.py
@@ -151,7 +151,6 @@ class ArchiveBuilder:
         :param value(dict): instance object replicates struct
         '''
         initializer = self._RESOURCES[name].initializer
-        ArchiveBuilder.__validate_structure_fields(name, value, initializer)
 
         bout = bytearray(initializer._SIZE_IN_BYTES)
         for (key, field) in initializer._FIELDS.items():
@@ -169,9 +168,6 @@ class ArchiveBuilder:
         :param vector(list): vector, provided as list of dict ie [{},{}]
         '''
         initializer = self._RESOURCES[name].initializer
-        for value in vector:
-            ArchiveBuilder.__validate_structure_fields(
-                name, value, initializer)
         for value in vector:
             bout = bytearray(initializer._SIZE_IN_BYTES)
             for (key, field) in initializer._FIELDS.items():
@@ -193,23 +189,6 @@ class ArchiveBuilder:
         for index, obj_type in enumerate(initializer_list[1:]):
             initializers[obj_type._NAME] = (index, obj_type)
 
-        def valid_structure_name(_obj):
-            return _obj['name'] in [_initializer._NAME for _initializer in initializer_list[1:]]
-
-        def validate_fields(_obj):
-            matched_obj_list = [
-                _initializer for _initializer in initializer_list[1:] \
-                    if _initializer._NAME == _obj['name']]
-            if len(matched_obj_list) == 1:
-                ArchiveBuilder.__validate_structure_fields(
-                    name, _obj['attributes'], matched_obj_list[0])
-
-        for sub_list in value:
-            for obj in sub_list:
-                if not valid_structure_name(obj):
-                    raise UnknownStructureError(obj['name'])
-                validate_fields(obj)
-
         index_data_points = []
         data_point = 0
         data_size = 0
@@ -248,6 +227,34 @@ class ArchiveBuilder:
         self._resources_written.append(name)
         self._resources_written.append(f'{name}_index')
 
+    def __validate(self, name, value):
+        '''
+        Validates the value of a resource before anything is written for it
+
+        :raises MissingFieldError
+        :raises UnknownFieldError
+        :raises UnknownStructureError
+        :param name(str): resource name
+        :param value: value to write
+        '''
+        signature = self._RESOURCES[name]
+        if signature.container is Instance:
+            ArchiveBuilder.__validate_structure_fields(name, value, signature.initializer)
+        elif signature.container is Vector:
+            for struct in value:
+                ArchiveBuilder.__validate_structure_fields(name, struct, signature.initializer)
+        elif signature.container is Multivector:
+            initializers = {initializer._NAME: initializer
+                            for initializer in signature.initializer[1:]}
+            for sub_list in value:
+                for obj in sub_list:
+                    if obj['name'] not in initializers:
+                        raise UnknownStructureError(obj['name'])
+                    ArchiveBuilder.__validate_structure_fields(
+                        name, obj['attributes'], initializers[obj['name']])
+        elif signature.container is not RawData:
+            raise NotImplementedError("Resource %s is a sub-archive" % name)
+
     def set(self, name, value):
         """
         Write a resource for this archive at once.
@@ -260,11 +267,11 @@ class ArchiveBuilder:
         if name not in self._RESOURCES:
             raise UnknownResourceError(name)
 
-        if not self._resources_written.count(name):
-            self._write_schema(name)
-        else:
+        if self._resources_written.count(name):
             raise ResourceAlreadySetError()
 
+        self.__validate(name, value)
+        self._write_schema(name)
         storage = self._resource_storage.get(name, False)
 
         if self._RESOURCES[name].container is Instance:
@@ -275,8 +282,6 @@ class ArchiveBuilder:
             self.__set_multivector(storage, name, value)
         elif self._RESOURCES[name].container is RawData:
             storage.write(value.encode("utf-8") if isinstance(value, str) else value)
-        else:
-            NotImplementedError
 
         storage.add_size()
         storage.add_padding()
-- 
2.43.0


From b6019894d9cf8180954f8775fca006629ee9c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 15/78] fix: Python opened truncated, extended and malformed
 resources as if they were intact

---
 flatdata-py/flatdata/lib/resources.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 98df6a7..3e4754d 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -21,6 +21,9 @@ class ResourceBase:
         if len(mem) < (SIZE_OFFSET_IN_BYTES + SIZE_PADDING_IN_BYTES):
             raise CorruptResourceError()
         self._mem = memoryview(mem)
+        self._data_size_in_bytes = read_value(self._mem, 0, SIZE_OFFSET_IN_BITS, False)
+        if len(mem) != SIZE_OFFSET_IN_BYTES + self._data_size_in_bytes + SIZE_PADDING_IN_BYTES:
+            raise CorruptResourceError("Resource size does not match its size header")
         self._element_type = element_type
         self._element_types = [element_type]
         self._type_size_in_bytes = self._element_type._SIZE_IN_BYTES if self._element_type else 1
@@ -92,9 +95,9 @@ class _VectorSlice:
 class Vector(ResourceBase):
     def __init__(self, mem, element_type):
         ResourceBase.__init__(self, mem, element_type)
-        size_in_bytes = read_value(self._mem, 0, SIZE_OFFSET_IN_BITS, False)
-        size, rem = divmod(size_in_bytes, self._type_size_in_bytes)
-        assert rem == 0, "Malformed vector"
+        size, rem = divmod(self._data_size_in_bytes, self._type_size_in_bytes)
+        if rem != 0:
+            raise CorruptResourceError("Malformed vector")
         self._size = size
 
     def to_data_frame(self):
@@ -136,8 +139,8 @@ class _MultivectorSlice:
 
 class Multivector(ResourceBase):
     def __init__(self, index_mem, mem, index_type, *element_types):
+        ResourceBase.__init__(self, mem, None)
         self._index = Vector(index_mem, index_type)
-        self._mem = mem
         self._element_types = element_types
         self._index_type = index_type
 
@@ -230,6 +233,11 @@ class RawData(ResourceBase):
 
 
 class Instance(ResourceBase):
+    def __init__(self, mem, element_type):
+        ResourceBase.__init__(self, mem, element_type)
+        if self._data_size_in_bytes != self._type_size_in_bytes:
+            raise CorruptResourceError("Malformed instance")
+
     def __getitem__(self, index):
         if isinstance(index, slice):
             raise IndexError("Instance has only one item")
-- 
2.43.0


From 40bf71dc85445a53b8f4d325f92284630615b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 16/78] fix: stored schemas of archives in nested namespaces
 could not be parsed

Normalized schemas spell each namespace of a path as a block of its own, but the
grammar had no nested namespaces. The inspector failed on such archives.
---
 flatdata-generator/flatdata/generator/grammar.py |  7 ++++---
 .../flatdata/generator/tree/builder.py           | 16 +++++++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/grammar.py b/flatdata-generator/flatdata/generator/grammar.py
index 034c509..b118573 100644
--- a/flatdata-generator/flatdata/generator/grammar.py
+++ b/flatdata-generator/flatdata/generator/grammar.py
@@ -8,7 +8,7 @@
 from pyparsing import (
     Word, alphas, alphanums, nums, cppStyleComment,
     Keyword, Group, Optional, Or, OneOrMore, delimitedList, ZeroOrMore,
-    hexnums, Combine, FollowedBy, ParseException as pyparsingParseException
+    hexnums, Combine, FollowedBy, Forward, ParseException as pyparsingParseException
 )
 
 ParseException = pyparsingParseException
@@ -195,11 +195,12 @@ flatdata_entry = (
 
 free_comments = Optional(OneOrMore(comment)("comment"))
 
-namespace = Group(
+namespace = Forward()
+namespace <<= Group(
     Keyword("namespace") +
     qualified_identifier("name") +
     "{" +
-    ZeroOrMore(flatdata_entry) + "}" +
+    ZeroOrMore(flatdata_entry | namespace.setResultsName("namespaces", listAllMatches=True)) + "}" +
     Optional(comment)
 )
 
diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index bc53a9d..aa02639 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -79,6 +79,17 @@ def _merge_roots(roots):
     return result
 
 
+def _flatten_namespaces(namespaces, outer=None):
+    """
+    Yields full name and definition of all the namespaces, including the ones nested in others
+    """
+    for namespace in namespaces:
+        name = namespace.name if outer is None else Node.jointwo(outer, namespace.name)
+        yield name, namespace
+        for nested in _flatten_namespaces(namespace.namespaces, outer=name):
+            yield nested
+
+
 def _build_node_tree(definition):
     if not definition:
         return Root()
@@ -91,9 +102,8 @@ def _build_node_tree(definition):
 
     roots = []
 
-    for namespace in parsed.namespace:
-        root_namespace, target_namespace = _create_nested_namespaces(
-            namespace.name)
+    for name, namespace in _flatten_namespaces(parsed.namespace):
+        root_namespace, target_namespace = _create_nested_namespaces(name)
 
         parsed_items = [
             (namespace.constants, nodes.Constant),
-- 
2.43.0


From 633517729c8202b8e7f73598442b302e9f87fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 17/78] fix: stored schemas depended on the order of @const and
 @optional

Normalized schemas list @const before @optional, so a schema using another order
had archives whose stored schemas were not reproduced when parsed again.
---
 .../flatdata/generator/tree/nodes/trivial/field.py              | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py b/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py
index 2b23c85..1597e37 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py
@@ -12,9 +12,11 @@ class Field(Node):
         if properties and 'decorations' in properties:
             self._decorations = properties.decorations
 
+        # The order of decorations has no meaning: add references in the order used by normalized schemas
         for d in self.decorations:
             if "const_ref" in d:
                 self.insert(ConstantValueReference(d.const_ref.name))
+        for d in self.decorations:
             if "invalid_value" in d:
                 self.insert(InvalidValueReference(d.invalid_value.name))
 
-- 
2.43.0


From 99208c6e1119ab0abc1e0c49befd9385df6743d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 18/78] fix: stored schemas of archives listed constants in an
 order depending on other namespaces

An archive whose schema spans several namespaces did not match its own stored
schema when parsed again, since the order followed the first use of a namespace.
---
 .../flatdata/generator/tree/builder.py               |  9 ++++++++-
 .../generator/tree/nodes/trivial/constant.py         | 12 ++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index aa02639..1a6ce9b 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -101,6 +101,7 @@ def _build_node_tree(definition):
         raise ParsingError(err)
 
     roots = []
+    constants_count = 0
 
     for name, namespace in _flatten_namespaces(parsed.namespace):
         root_namespace, target_namespace = _create_nested_namespaces(name)
@@ -117,6 +118,10 @@ def _build_node_tree(definition):
                 target_namespace.insert(cls.create(properties=item,
                                                    definition=definition))
 
+        for constant in target_namespace.children_like(nodes.Constant):
+            constant.declaration_index = constants_count
+            constants_count += 1
+
         roots.append(root_namespace)
 
     return _merge_roots(roots)
@@ -135,7 +140,9 @@ def _append_builtin_structures(root):
 
 
 def _append_constant_references(root):
-    constants = [c for c in root.iterate(nodes.Constant)]
+    # Order of declaration: the order in the tree depends on which namespaces come first in a schema, and would
+    # differ between a schema and the schemas of its archives
+    constants = sorted(root.iterate(nodes.Constant), key=lambda c: c.declaration_index)
     constant_references = set(c.target for c in root.iterate(ConstantReference))
     archives = [a for a in root.iterate(Archive)]
     for archive in archives:
diff --git a/flatdata-generator/flatdata/generator/tree/nodes/trivial/constant.py b/flatdata-generator/flatdata/generator/tree/nodes/trivial/constant.py
index 1f213a8..64a24be 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/trivial/constant.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/trivial/constant.py
@@ -5,6 +5,7 @@ from flatdata.generator.tree.errors import InvalidConstantValueError
 class Constant(Node):
     def __init__(self, name, properties=None):
         super().__init__(name=name, properties=properties)
+        self._declaration_index = 0
         if properties:
             self._value = int(properties.value, 0)
             if self.type.bits_required(self.value) > self.type.width:
@@ -26,3 +27,14 @@ class Constant(Node):
     @property
     def value(self):
         return self._value
+
+    @property
+    def declaration_index(self):
+        """
+        Returns the position of the constant among all constants of the schema
+        """
+        return self._declaration_index
+
+    @declaration_index.setter
+    def declaration_index(self, value):
+        self._declaration_index = value
-- 
2.43.0


From 361b39930a85e2b72bc61663f0e8488dec1cdf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 19/78] fix: generator crashed on literals with leading zeros

The grammar accepts them, but Python does not parse such decimal literals with automatic base.
---
 .../flatdata/generator/tree/helpers/literal.py           | 9 +++++++++
 .../flatdata/generator/tree/nodes/trivial/constant.py    | 3 ++-
 .../flatdata/generator/tree/nodes/trivial/enumeration.py | 3 ++-
 3 files changed, 13 insertions(+), 2 deletions(-)
 create mode 100644 flatdata-generator/flatdata/generator/tree/helpers/literal.py

diff --git a/flatdata-generator/flatdata/generator/tree/helpers/literal.py b/flatdata-generator/flatdata/generator/tree/helpers/literal.py
new file mode 100644
index 0000000..fef4185
--- /dev/null
+++ b/flatdata-generator/flatdata/generator/tree/helpers/literal.py
@@ -0,0 +1,9 @@
+'''
+ Copyright (c) 2017 HERE Europe B.V.
+ See the LICENSE file in the root of this project for license details.
+'''
+
+
+def parse_literal(text):
+    """Returns value of a decimal (leading zeros are allowed) or hexadecimal (0x...) literal"""
+    return int(text, 16 if "x" in text else 10)
diff --git a/flatdata-generator/flatdata/generator/tree/nodes/trivial/constant.py b/flatdata-generator/flatdata/generator/tree/nodes/trivial/constant.py
index 64a24be..40c2b6f 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/trivial/constant.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/trivial/constant.py
@@ -1,5 +1,6 @@
 from flatdata.generator.tree.nodes.node import Node
 from flatdata.generator.tree.helpers.basictype import BasicType
+from flatdata.generator.tree.helpers.literal import parse_literal
 from flatdata.generator.tree.errors import InvalidConstantValueError
 
 class Constant(Node):
@@ -7,7 +8,7 @@ class Constant(Node):
         super().__init__(name=name, properties=properties)
         self._declaration_index = 0
         if properties:
-            self._value = int(properties.value, 0)
+            self._value = parse_literal(properties.value)
             if self.type.bits_required(self.value) > self.type.width:
                 raise InvalidConstantValueError(name=name, value=self.value)
 
diff --git a/flatdata-generator/flatdata/generator/tree/nodes/trivial/enumeration.py b/flatdata-generator/flatdata/generator/tree/nodes/trivial/enumeration.py
index 5f714b0..2049b89 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/trivial/enumeration.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/trivial/enumeration.py
@@ -1,5 +1,6 @@
 from flatdata.generator.tree.errors import DuplicateEnumValueError, InvalidEnumValueError, SparseEnumError
 from flatdata.generator.tree.helpers.basictype import BasicType
+from flatdata.generator.tree.helpers.literal import parse_literal
 from flatdata.generator.tree.nodes.node import Node
 from .enumeration_value import EnumerationValue
 
@@ -23,7 +24,7 @@ class Enumeration(Node):
         unique_values = set()
         for value in properties.enum_values:
             if value.constant:
-                current_assigned_value = int(value.constant, 0)
+                current_assigned_value = parse_literal(value.constant)
             if current_assigned_value in unique_values:
                 raise DuplicateEnumValueError(enumeration_name=result._name, value=current_assigned_value)
             unique_values.add(current_assigned_value)
-- 
2.43.0


From 68f22f07b97bbc062d9536756da8fd4427b99390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 20/78] fix: generator crashed on malformed namespace names

Names like 'a..b' or '.a' passed the grammar and failed an assertion afterwards.
---
 flatdata-generator/flatdata/generator/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/grammar.py b/flatdata-generator/flatdata/generator/grammar.py
index b118573..f72e375 100644
--- a/flatdata-generator/flatdata/generator/grammar.py
+++ b/flatdata-generator/flatdata/generator/grammar.py
@@ -15,6 +15,7 @@ ParseException = pyparsingParseException
 
 identifier = Word(alphas + "_", alphas + alphanums + "_")
 qualified_identifier = Word(alphas + "_.", alphas + alphanums + "_.")
+namespace_path = Combine(identifier + ZeroOrMore("." + identifier))
 
 BASIC_TYPES = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"]
 basic_type = Or([Keyword(t) for t in BASIC_TYPES])
@@ -198,7 +199,7 @@ free_comments = Optional(OneOrMore(comment)("comment"))
 namespace = Forward()
 namespace <<= Group(
     Keyword("namespace") +
-    qualified_identifier("name") +
+    namespace_path("name") +
     "{" +
     ZeroOrMore(flatdata_entry | namespace.setResultsName("namespaces", listAllMatches=True)) + "}" +
     Optional(comment)
-- 
2.43.0


From f77649fac97227b45a37fb9e1c6310768428feb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 21/78] fix: generator crashed or nested namespaces in
 structures on names used for both

A namespace with the path of another entity failed an assertion, or was inserted into
the entity. It is a redefinition of the symbol.
---
 .../flatdata/generator/tree/builder.py        | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index 1a6ce9b..cfba1c2 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -10,7 +10,7 @@ from flatdata.generator.grammar import flatdata_grammar
 from flatdata.generator.tree.errors import (
     InvalidEnumWidthError, InvalidRangeName, InvalidRangeReference,
     InvalidConstReference, InvalidConstValueReference, DuplicateInvalidValueReference,
-    InvalidStructInExplicitReference, OptionalRange)
+    SymbolRedefinition, InvalidStructInExplicitReference, OptionalRange)
 from flatdata.generator.tree.nodes.explicit_reference import ExplicitReference
 from flatdata.generator.tree.nodes.archive import Archive
 from flatdata.generator.tree.nodes.node import Node
@@ -46,16 +46,16 @@ def _ensure_namespace(root, path):
     assert path.startswith(
         Node.PATH_SEPARATOR), "This method only works with root-level paths"
 
-    found = root.get(path)
-    if found is not None:
-        assert isinstance(found, nodes.Namespace)
-        return found
-
-    last_common_parent = root.find_last(path)
-    first, last = _create_nested_namespaces(
-        path[len(last_common_parent.path) + 1:])
-    last_common_parent.insert(first)
-    return last
+    result = root
+    for name in Node.splitpath(path)[1:]:
+        found = result.get_relative(name)
+        if found is None:
+            found = nodes.Namespace(name=name)
+            result.insert(found)
+        elif not isinstance(found, nodes.Namespace):
+            raise SymbolRedefinition(duplicate=nodes.Namespace(name=name), existing=found)
+        result = found
+    return result
 
 
 def _innermost_namespace(root):
-- 
2.43.0


From 5f83f2f6b880e5cdd686ac367cafdaa80a6c614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 22/78] fix: duplicate references in different spelling were no
 syntax error

Referring twice to an entity, once by its local and once by its full name, raised a plain
RuntimeError that the command line does not handle.
---
 flatdata-generator/flatdata/generator/tree/nodes/node.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/tree/nodes/node.py b/flatdata-generator/flatdata/generator/tree/nodes/node.py
index f324d8a..c0eb247 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/node.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/node.py
@@ -101,15 +101,14 @@ class Node:
     def set_name(self, value):
         """
         Sets the new name for the node. New name should not clash with any of siblings' names.
-        :raises RuntimeError in case name is already in use
+        :raises SymbolRedefinition in case name is already in use
         :param value: new name
         """
         if self.name == value:
             return
 
         if self.parent is not None and value in self._parent._children:
-            raise RuntimeError(
-                "Cannot rename the node, name {value} is already in use".format(value=value))
+            raise SymbolRedefinition(duplicate=self, existing=self.parent._children[value])
 
         self._name = value
         if self.parent is not None:
-- 
2.43.0


From aa78b6f92533fed0252d9e9118ebba21dbfe5941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 23/78] fix: generator accepted bit fields of zero width

No backend can represent them: generated code divides by zero or does not compile.
---
 flatdata-generator/flatdata/generator/tree/builder.py           | 2 +-
 flatdata-generator/flatdata/generator/tree/helpers/basictype.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index cfba1c2..a5c4602 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -159,7 +159,7 @@ def _update_field_type_references(root):
         if isinstance(reference, EnumerationReference):
             field.type = EnumType(name=reference.name, basic_type=BasicType(
                 name=reference.node.type.name, width=reference.node.type.width))
-            if reference.width and reference.width != reference.node.type.width:
+            if reference.width is not None and reference.width != reference.node.type.width:
                 raise InvalidEnumWidthError(enumeration_name=reference.name,
                                             width=reference.node.type.width, provided_width=reference.width)
 
diff --git a/flatdata-generator/flatdata/generator/tree/helpers/basictype.py b/flatdata-generator/flatdata/generator/tree/helpers/basictype.py
index 6a166f1..f1ca971 100644
--- a/flatdata-generator/flatdata/generator/tree/helpers/basictype.py
+++ b/flatdata-generator/flatdata/generator/tree/helpers/basictype.py
@@ -26,7 +26,7 @@ class BasicType:
         self._width = width
         if width is None:
             self._width = self._WIDTH[self._name]
-        if self._width > self._WIDTH[self.name]:
+        if not 1 <= self._width <= self._WIDTH[self.name]:
             raise InvalidWidthError(self._width, self._name)
 
     @property
-- 
2.43.0


From 9783f6d731551566a05cb85cc33e6afb5ee7fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 24/78] fix: generator accepted several ranges with the same
 name in a structure

Generated code defines the range twice.
---
 flatdata-generator/flatdata/generator/tree/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index a5c4602..8db8ffe 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -196,7 +196,7 @@ def _check_ranges(root):
         if not name:
             continue
         for sibling in field.parent.fields:
-            if sibling.name == name:
+            if sibling.name == name or (sibling is not field and sibling.range == name):
                 raise InvalidRangeName(name)
         # Also check that the range is not optional
         if field.invalid_value:
-- 
2.43.0


From 861c54ca2db1558101829e3843a449c32686d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 25/78] fix: generator accepted multivectors with index of zero
 width

The index silently got 64 bit instead.
---
 .../flatdata/generator/tree/nodes/trivial/field.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py b/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py
index 1597e37..3a96f80 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py
@@ -31,7 +31,7 @@ class Field(Node):
     @staticmethod
     def create(properties, offset=None):
         width = None
-        if properties.width:
+        if properties.width or properties.width == 0:
             width = int(properties.width)
         return Field(name=properties.name,
                      properties=properties,
-- 
2.43.0


From 34294edccc0990531f732555cb802ab46976ec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 26/78] fix: generator accepted duplicate explicit references
 in different spelling

The schemas stored for such an archive spell both the same way and were rejected.
---
 flatdata-generator/flatdata/generator/tree/builder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index 8db8ffe..a3866f3 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -223,6 +223,11 @@ def _check_const_refs(root):
 
 def _check_explicit_references(root):
     for reference in root.iterate(ExplicitReference):
+        for other in reference.parent.explicit_references:
+            if other is reference:
+                break
+            if (other.field.target, other.destination.target) == (reference.field.target, reference.destination.target):
+                raise SymbolRedefinition(duplicate=reference, existing=other)
         for ref in reference.children_like(StructureReference):
             if not ref.target in [x.target for x in reference.parent.children_like(StructureReference)]:
                 raise InvalidStructInExplicitReference(ref.node.name, reference.parent.name)
-- 
2.43.0


From 1605a082d24e319c23282115309f86a69f2b0ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 27/78] fix: different explicit references were rejected as
 redefinition of the same symbol

Names of the references join paths with underscores, e.g. A_b.c and A.b_c clashed.
---
 .../generator/tree/nodes/explicit_reference.py         |  5 +++++
 .../flatdata/generator/tree/nodes/resources/base.py    | 10 +++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/tree/nodes/explicit_reference.py b/flatdata-generator/flatdata/generator/tree/nodes/explicit_reference.py
index 7f21d23..74fd324 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/explicit_reference.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/explicit_reference.py
@@ -20,6 +20,11 @@ class ExplicitReference(Node):
         result.insert(StructureReference(name=properties.source_type))
         return result
 
+    def has_same_targets(self, other):
+        """
+        Checks if both refer to the same names
+        """
+        return [c.target for c in self.children] == [c.target for c in other.children]
 
     @property
     def destination(self):
diff --git a/flatdata-generator/flatdata/generator/tree/nodes/resources/base.py b/flatdata-generator/flatdata/generator/tree/nodes/resources/base.py
index e8e92ff..715eec2 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/resources/base.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/resources/base.py
@@ -15,7 +15,15 @@ class ResourceBase(Node, ABC):
             self._decorations = properties.decorations
             for decoration in self._decorations:
                 if 'explicit_reference' in decoration:
-                    self.insert(ExplicitReference.create(properties=decoration.explicit_reference))
+                    self._insert_explicit_reference(
+                        ExplicitReference.create(properties=decoration.explicit_reference))
+
+    def _insert_explicit_reference(self, reference):
+        # names are built by joining paths with underscores, different references can end up with the same
+        existing = self.get_relative(reference.name)
+        if existing is not None and not reference.has_same_targets(existing):
+            reference.set_name("{}_{}".format(reference.name, len(self.explicit_references)))
+        self.insert(reference)
 
     @abstractmethod
     def create_references(self):
-- 
2.43.0


From ed097733462aa51f7a5b2f2956f010ff0f0ec9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 28/78] fix: C++ to_string of fields with enumerations from
 other namespaces did not compile

---
 .../flatdata/generator/templates/cpp/structure.jinja2           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2 b/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2
index 48759d6..6fc57d4 100644
--- a/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2
@@ -161,7 +161,7 @@ std::string {{ template_spec }}::to_string( ) const
     ss << "{{ struct.name }} {" << std::endl <<
     {% for member in struct.fields %}
     {% if member.type_reference | is_enumeration_reference %}
-    "    {{ member.name }} : " << {{ member.type_reference.node.parent | cpp_base_type }}::to_string( {{ member.name }} ) << "," << std::endl
+    "    {{ member.name }} : " << {{ member.type_reference.node.parent.path_with("::")[2 if member.type_reference.node.parent == struct.parent else 0:] }}::to_string( {{ member.name }} ) << "," << std::endl
     {% elif member.invalid_value %}
     "    {{ member.name }} : " << +*{{ member.name }} << "," << std::endl
     {% else %}
-- 
2.43.0


From 7d1ee1664131c2df2c71a06a0d37c253820f5fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 29/78] fix: C++ fields with signed enumerations of full width
 did not compile

---
 flatdata-cpp/include/flatdata/internal/Reader.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Reader.h b/flatdata-cpp/include/flatdata/internal/Reader.h
index 74c3514..2e75278 100644
--- a/flatdata-cpp/include/flatdata/internal/Reader.h
+++ b/flatdata-cpp/include/flatdata/internal/Reader.h
@@ -37,18 +37,21 @@ struct Reader
 
     enum
     {
-        bit_width = num_bits
+        bit_width = num_bits,
+        // enumerations of full width can only represent the limits of their underlying type
+        is_signed = std::is_signed< T >::value
+                    || ( IsSigned< T >::value && num_bits == sizeof( T ) * 8 )
     };
     enum : typename UnderlyingType< T >::type
     {
         max = bit_width == 0 ? 0
-                             : ( bit_width - std::is_signed< T >::value
+                             : ( bit_width - is_signed
                                          == sizeof( typename BitsToUnsigned< num_bits >::type ) * 8
                                      ? typename BitsToUnsigned< num_bits >::type( -1 )
                                      : ( typename BitsToUnsigned< num_bits >::type( 1 )
-                                         << ( bit_width - std::is_signed< T >::value ) )
+                                         << ( bit_width - is_signed ) )
                                            - 1 ),
-        min = bit_width == 0 || !std::is_signed< T >::value
+        min = bit_width == 0 || !is_signed
                   ? static_cast< typename UnderlyingType< T >::type >( 0 )
                   : static_cast< typename UnderlyingType< T >::type >( -max - 1 )
     };
-- 
2.43.0


From f3085356fb275c28e01a6d878969342e845de3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 30/78] fix: C++ writers changed neighbouring fields for signed
 enumerations and too large values

---
 flatdata-cpp/include/flatdata/internal/Writer.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Writer.h b/flatdata-cpp/include/flatdata/internal/Writer.h
index 230e861..96abf83 100644
--- a/flatdata-cpp/include/flatdata/internal/Writer.h
+++ b/flatdata-cpp/include/flatdata/internal/Writer.h
@@ -52,12 +52,9 @@ struct Writer
         auto destination = data + offset / 8;
         static const int BIT_OFFSET = offset % 8;
 
-        auto value_to_store = static_cast< UnsignedType >( t );
-        if ( std::is_signed< T >::value )
-        {
-            // negative numbers are stored as 2-complement, and we need to remove upper bits
-            value_to_store = masked< num_bits >( value_to_store );
-        }
+        // negative numbers are stored as 2-complement, and we need to remove upper bits (also of
+        // enumerations and values too large for the field) to not change surrounding data
+        auto value_to_store = masked< num_bits >( static_cast< UnsignedType >( t ) );
         UnsignedType value_mask = masked< num_bits >( static_cast< UnsignedType >( -1 ) );
         UnsignedType value;
         // read previous data
-- 
2.43.0


From 10b31aa46e10ea3d090ca2e71574d150e69f606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:31 +0000
Subject: [PATCH 31/78] fix: C++ views of empty vectors with ranges claimed to
 hold a sentinel

---
 flatdata-cpp/include/flatdata/ArrayView.h         |  3 ++-
 .../include/flatdata/internal/ArrayView.inl       | 15 +++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/ArrayView.h b/flatdata-cpp/include/flatdata/ArrayView.h
index f24d2f7..0a78546 100644
--- a/flatdata-cpp/include/flatdata/ArrayView.h
+++ b/flatdata-cpp/include/flatdata/ArrayView.h
@@ -49,10 +49,11 @@ public:
     bool empty( ) const;
 
 private:
-    ArrayView( ConstStreamType data, size_t size );
+    ArrayView( ConstStreamType data, size_t size, bool has_sentinel );
 
     ConstStreamType m_data;
     size_t m_size;
+    bool m_has_sentinel = false;
 };
 
 }  // namespace flatdata
diff --git a/flatdata-cpp/include/flatdata/internal/ArrayView.inl b/flatdata-cpp/include/flatdata/internal/ArrayView.inl
index 76c5a8f..d8491e7 100644
--- a/flatdata-cpp/include/flatdata/internal/ArrayView.inl
+++ b/flatdata-cpp/include/flatdata/internal/ArrayView.inl
@@ -15,13 +15,15 @@ ArrayView< T >::ArrayView( ConstStreamType data_begin, ConstStreamType data_end
     if ( T::IS_OVERLAPPING_WITH_NEXT && m_size != 0 )
     {
         m_size--;
+        m_has_sentinel = true;
     }
 }
 
 template < typename T >
-ArrayView< T >::ArrayView( ConstStreamType data, size_t size )
+ArrayView< T >::ArrayView( ConstStreamType data, size_t size, bool has_sentinel )
     : m_data( data )
     , m_size( size )
+    , m_has_sentinel( has_sentinel )
 {
 }
 
@@ -50,7 +52,7 @@ template < typename T >
 size_t
 ArrayView< T >::size_in_bytes( ) const
 {
-    return ( m_size + ( T::IS_OVERLAPPING_WITH_NEXT ? 1 : 0 ) ) * T::size_in_bytes( );
+    return ( m_size + ( m_has_sentinel ? 1 : 0 ) ) * T::size_in_bytes( );
 }
 
 template < typename T >
@@ -78,28 +80,29 @@ template < typename T >
 ArrayView< T >
 ArrayView< T >::slice( size_t pos, size_t length ) const
 {
-    return ArrayView( m_data + pos * T::size_in_bytes( ), length );
+    return ArrayView( m_data + pos * T::size_in_bytes( ), length, m_has_sentinel );
 }
 
 template < typename T >
 ArrayView< T >
 ArrayView< T >::slice( std::pair< size_t /*start*/, size_t /*end*/ > range ) const
 {
-    return ArrayView( m_data + range.first * T::size_in_bytes( ), range.second - range.first );
+    return ArrayView( m_data + range.first * T::size_in_bytes( ), range.second - range.first,
+                      m_has_sentinel );
 }
 
 template < typename T >
 ArrayView< T >
 ArrayView< T >::slice_before( size_t pos ) const
 {
-    return ArrayView( m_data, pos );
+    return ArrayView( m_data, pos, m_has_sentinel );
 }
 
 template < typename T >
 ArrayView< T >
 ArrayView< T >::slice_after( size_t pos ) const
 {
-    return ArrayView( m_data + pos * T::size_in_bytes( ), m_size - pos );
+    return ArrayView( m_data + pos * T::size_in_bytes( ), m_size - pos, m_has_sentinel );
 }
 
 template < typename T >
-- 
2.43.0


From 231c1c6a053887304c9991963e9e4ff9e8084e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 32/78] fix: C++ enumerators with the smallest 64 bit value did
 not compile with clang

---
 flatdata-generator/flatdata/generator/generators/cpp.py     | 6 ++++++
 .../flatdata/generator/templates/cpp/enumeration.jinja2     | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/generators/cpp.py b/flatdata-generator/flatdata/generator/generators/cpp.py
index 3d9cc58..96b2650 100644
--- a/flatdata-generator/flatdata/generator/generators/cpp.py
+++ b/flatdata-generator/flatdata/generator/generators/cpp.py
@@ -45,6 +45,12 @@ class CppGenerator(BaseGenerator):
 
         env.filters["cpp_base_type"] = _cpp_base_type
 
+        def _cpp_literal(value):
+            # C++ has no negative literals: the smallest 64 bit number has to be an expression
+            return "-9223372036854775807 - 1" if value == -2 ** 63 else str(value)
+
+        env.filters["cpp_literal"] = _cpp_literal
+
         def _to_type_params(refs):
             return ', '.join([ref.node.path_with("::") for ref in refs])
 
diff --git a/flatdata-generator/flatdata/generator/templates/cpp/enumeration.jinja2 b/flatdata-generator/flatdata/generator/templates/cpp/enumeration.jinja2
index 6150fba..97d94fb 100644
--- a/flatdata-generator/flatdata/generator/templates/cpp/enumeration.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/cpp/enumeration.jinja2
@@ -9,7 +9,7 @@ enum class {{ enum.name }} : {{ enum.type|cpp_base_type }}
     {% if value.doc %}
     {{ value.doc|cpp_doc }}
     {% endif %}
-    {{ value.name }} = {{ value.value }}{{ "," if not loop.last }}
+    {{ value.name }} = {{ value.value|cpp_literal }}{{ "," if not loop.last }}
     {% endfor %}
 };
 
-- 
2.43.0


From a3d0f95603566592d59bab659541861ef6eeed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 33/78] fix: C++ tar reader followed member sizes beyond the
 end of the file

---
 flatdata-cpp/src/TarReader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 6a35034..8030067 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -151,6 +151,13 @@ read_tar_file_entries( MemoryDescriptor data )
             file.size = file_size;
             file_entries.emplace_back( file );
 
+            assert( data.size( ) >= offset );
+            if ( file_size > data.size( ) - offset )
+            {
+                // The file is truncated, nothing can follow
+                break;
+            }
+
             const size_t padding = ( BLOCK_SIZE - ( file_size % BLOCK_SIZE ) ) % BLOCK_SIZE;
             offset += file_size + padding;
         }
-- 
2.43.0


From 986301771a364f28c4f6b993418e5119b6aae936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 34/78] fix: C++ tar reader gave the long name of a directory
 to the next file

---
 flatdata-cpp/src/TarReader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 8030067..7319298 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -163,7 +163,8 @@ read_tar_file_entries( MemoryDescriptor data )
         }
         else if ( header.typeflag == DIRTYPE )
         {
-            // Skip directories
+            // Skip directories, together with their long names
+            long_name.clear( );
         }
         else if ( header.typeflag == GNUTYPE_LONGNAME )
         {
-- 
2.43.0


From e136505f12ed39c57d0c07d041e80fb34d01792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 35/78] fix: C++ tar storage used the first instead of the last
 of several members with one name

---
 .../include/flatdata/MemoryMappedTarFileStorage.h        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h b/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h
index cb2da3b..660a0f8 100644
--- a/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h
@@ -62,11 +62,10 @@ inline MemoryMappedTarFileStorage::MemoryMappedTarFileStorage( const char* tar_p
     for ( const auto& file : file_entries )
     {
         std::string path = file.name.substr( 0, 2 ) == "./" ? file.name.substr( 2 ) : file.name;
-        m_files.emplace(
-            std::move( path ),
-            MemoryDescriptor(
-                static_cast< const unsigned char* >( m_region.get_address( ) ) + file.offset,
-                std::min( file.size, m_region.get_size( ) - file.offset ) ) );
+        // the last member of a name is the valid one
+        m_files[ path ] = MemoryDescriptor(
+            static_cast< const unsigned char* >( m_region.get_address( ) ) + file.offset,
+            std::min( file.size, m_region.get_size( ) - file.offset ) );
     }
 }
 
-- 
2.43.0


From 2f811b110c55bb9f0cecf280c6eedf3a877f5895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 36/78] fix: C++ tar reader ignored the name prefix of the
 POSIX format

---
 flatdata-cpp/src/TarReader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 7319298..a13a58d 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -44,6 +44,7 @@ struct TarFileHeader
 const char REGTYPE = '0';           /* regular file */
 const char AREGTYPE = '\0';         /* regular file */
 const char DIRTYPE = '5';           /* directory */
+const char USTAR_MAGIC[] = "ustar";  // POSIX format (the GNU format is marked differently)
 const char GNUTYPE_LONGNAME = 'L';  // Identifies the *next* file on the tape as having a long name.
 
 uint64_t
@@ -137,6 +138,13 @@ read_tar_file_entries( MemoryDescriptor data )
         if ( header.typeflag == REGTYPE || header.typeflag == AREGTYPE )
         {
             std::string file_name( header.name, strnlen( header.name, sizeof( header.name ) ) );
+            if ( std::memcmp( header.magic, USTAR_MAGIC, sizeof( header.magic ) ) == 0
+                 && header.prefix[ 0 ] != '\0' )
+            {
+                file_name = std::string( header.prefix,
+                                         strnlen( header.prefix, sizeof( header.prefix ) ) )
+                            + "/" + file_name;
+            }
             if ( !long_name.empty( ) )
             {
                 file_name = std::move( long_name );
-- 
2.43.0


From 8cc7cda1b95569249ffd844f6ee7b1a92fa3fd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 37/78] fix: Python tar storage did not find sub-archives
 without directory entries

---
 flatdata-py/flatdata/lib/tar_archive_resource_storage.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
index cb5dd55..468ac90 100644
--- a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
+++ b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
@@ -37,6 +37,10 @@ class TarArchiveResourceStorage:
                     file_entries[name] = (file.offset_data, file.size)
                 if file.isdir() and name != ".":
                     dir_entries.add(name)
+                # directories do not need to have entries of their own
+                if file.isreg() and "/" in name:
+                    parts = name.split("/")[:-1]
+                    dir_entries.update("/".join(parts[:i + 1]) for i in range(len(parts)))
 
         return cls(tar_map, file_entries, dir_entries, sub_path)
 
-- 
2.43.0


From eb19fa23bf327f144b448a7d5469f2163ba93095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 38/78] fix: C++ describe wrote out of bounds when comparing
 archive schemas

---
 flatdata-cpp/src/Archive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/src/Archive.cpp b/flatdata-cpp/src/Archive.cpp
index 4fb7a83..85540a1 100644
--- a/flatdata-cpp/src/Archive.cpp
+++ b/flatdata-cpp/src/Archive.cpp
@@ -88,7 +88,7 @@ std::string
 create_context( const std::vector< std::string >& diff )
 {
     std::string result;
-    std::vector< bool > result_mask( diff.size( ) );
+    std::vector< bool > result_mask( diff.size( ) + 1 );
     size_t context_lines = 3;
 
     int lines_to_go = -1;
-- 
2.43.0


From 70d0c6072f0c3f301af1e953cda0cdae91b15be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 39/78] fix: C++ describe read beyond the end of stored schemas

---
 flatdata-cpp/src/Archive.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flatdata-cpp/src/Archive.cpp b/flatdata-cpp/src/Archive.cpp
index 85540a1..c74b70e 100644
--- a/flatdata-cpp/src/Archive.cpp
+++ b/flatdata-cpp/src/Archive.cpp
@@ -129,14 +129,16 @@ create_context( const std::vector< std::string >& diff )
 }
 
 std::string
-compute_diff( const char* expected, const char* found )
+compute_diff( const char* expected, MemoryDescriptor found )
 {
     if ( !found )
     {
         return { };
     }
     std::vector< std::string > lines_expected = to_lines( expected );
-    std::vector< std::string > lines_found = to_lines( found );
+    // stored schemas are not terminated
+    std::vector< std::string > lines_found
+        = to_lines( std::string( found.char_ptr( ), found.size_in_bytes( ) ).c_str( ) );
     size_t expected_length = lines_expected.size( ) + 1;
     size_t found_length = lines_found.size( ) + 1;
 
@@ -259,7 +261,7 @@ Archive::describe( size_t nest_level ) const
                << ( is_root_node ? newl : empty ) << hline;
         result << compute_diff(
             schema( ),
-            m_storage->read_schema( internal::signature_name( name( ) ).c_str( ) ).char_ptr( ) );
+            m_storage->read_schema( internal::signature_name( name( ) ).c_str( ) ) );
         return result.str( );
     }
 
-- 
2.43.0


From feab66e77dbc7a42c5f5e1dfe17dcbcc4805aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:48 +0000
Subject: [PATCH 40/78] fix: C++ opened instances and vectors whose size is not
 that of their structures

---
 flatdata-cpp/include/flatdata/internal/ResourceStorage.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
index 0520da2..0754030 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
+++ b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
@@ -27,7 +27,7 @@ struct ValueCreator
     operator( )( const char* resource, const char* schema, Loader&& loader )
     {
         auto data = loader( resource, schema );
-        if ( !data )
+        if ( !data || data.size_in_bytes( ) != T::size_in_bytes( ) )
         {
             return boost::none;
         }
@@ -43,7 +43,7 @@ struct ValueCreator< ArrayView< T > >
     operator( )( const char* resource, const char* schema, Loader&& loader )
     {
         auto data = loader( resource, schema );
-        if ( !data )
+        if ( !data || data.size_in_bytes( ) % T::size_in_bytes( ) != 0 )
         {
             return boost::none;
         }
-- 
2.43.0


From ca0c562e2ae5b8df419f62cc17cfbaeb9193d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 41/78] fix: interrupted C++ writes of eight bytes looked like
 a complete empty resource

---
 flatdata-cpp/include/flatdata/internal/ResourceHandle.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ResourceHandle.h b/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
index e77f196..2d4eab0 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
+++ b/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
@@ -58,7 +58,8 @@ ResourceHandle::create( std::shared_ptr< std::ostream > stream,
 
     result->m_resource_reader = std::move( resource_reader );
 
-    resource_storage::write_to_stream< resource_storage::size_type >( *result->m_stream, 0 );
+    // The size is only valid after closing, until then no amount of data may look complete
+    resource_storage::write_to_stream( *result->m_stream, resource_storage::size_type( -1 ) );
     return result;
 }
 
-- 
2.43.0


From 3a50b211edbdbc8212548820a0724985dbdd4c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 42/78] fix: C++ assignment of boost::optional to optional
 fields

---
 flatdata-cpp/include/flatdata/internal/Writer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Writer.h b/flatdata-cpp/include/flatdata/internal/Writer.h
index 96abf83..cc97efa 100644
--- a/flatdata-cpp/include/flatdata/internal/Writer.h
+++ b/flatdata-cpp/include/flatdata/internal/Writer.h
@@ -134,12 +134,13 @@ struct Writer< Tagged< T, INVALID_VALUE >, offset, num_bits, struct_size_bytes >
     {
         if ( t )
         {
-            Writer< T, offset, num_bits >{ data } = t;
+            Writer< T, offset, num_bits >{ data } = *t;
         }
         else
         {
             Writer< T, offset, num_bits >{ data } = INVALID_VALUE;
         }
+        return *this;
     }
 };
 
-- 
2.43.0


From a810d9acbdf1e026d6360856af05a7a2b6c3b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 43/78] fix: C++ writing to read-only storages dereferenced a
 missing stream

---
 flatdata-cpp/include/flatdata/ExternalVector.h             | 7 +++++--
 flatdata-cpp/include/flatdata/MultiVector.h                | 7 +++++--
 flatdata-cpp/include/flatdata/internal/ResourceStorage.inl | 4 ++++
 flatdata-cpp/src/ResourceStorage.cpp                       | 4 ++++
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/ExternalVector.h b/flatdata-cpp/include/flatdata/ExternalVector.h
index 6dd7c14..fe0febb 100644
--- a/flatdata-cpp/include/flatdata/ExternalVector.h
+++ b/flatdata-cpp/include/flatdata/ExternalVector.h
@@ -97,7 +97,10 @@ template < typename T >
 void
 ExternalVector< T >::flush( )
 {
-    m_array->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    if ( m_array )
+    {
+        m_array->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    }
     m_data.resize( 0 );
     m_data.resize( PADDING_SIZE );
 }
@@ -107,7 +110,7 @@ ArrayView< T >
 ExternalVector< T >::close( )
 {
     flush( );
-    MemoryDescriptor data = m_array->close( );
+    MemoryDescriptor data = m_array ? m_array->close( ) : MemoryDescriptor( );
     return data ? ArrayView< T >{ data.data( ), data.data( ) + data.size_in_bytes( ) }
                 : ArrayView< T >{ };
 }
diff --git a/flatdata-cpp/include/flatdata/MultiVector.h b/flatdata-cpp/include/flatdata/MultiVector.h
index 62ae109..3d1ded1 100644
--- a/flatdata-cpp/include/flatdata/MultiVector.h
+++ b/flatdata-cpp/include/flatdata/MultiVector.h
@@ -142,7 +142,7 @@ MultiVector< IndexType, Args... >::close( )
     add_to_index( );  // sentinel for last item
     flush( );
 
-    MemoryDescriptor data = m_handle->close( );
+    MemoryDescriptor data = m_handle ? m_handle->close( ) : MemoryDescriptor( );
     ArrayView< IndexType > index_view = m_index.close( );
     if ( !data || !index_view )
     {
@@ -163,7 +163,10 @@ template < typename IndexType, typename... Args >
 void
 MultiVector< IndexType, Args... >::flush( )
 {
-    m_handle->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    if ( m_handle )
+    {
+        m_handle->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    }
     m_size_flushed += m_data.size( ) - PADDING_SIZE;
     m_data.resize( 0 );
     m_data.resize( PADDING_SIZE );
diff --git a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
index 0754030..320a79a 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
+++ b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
@@ -134,6 +134,10 @@ ResourceStorage::write_schema( const char* resource_name, const char* schema )
 {
     auto schema_stream
         = create_output_stream( ( std::string( resource_name ) + ".schema" ).c_str( ) );
+    if ( !schema_stream )
+    {
+        return false;
+    }
     *schema_stream << schema;
     schema_stream->flush( );
     return static_cast< bool >( *schema_stream );
diff --git a/flatdata-cpp/src/ResourceStorage.cpp b/flatdata-cpp/src/ResourceStorage.cpp
index d14192e..631a750 100644
--- a/flatdata-cpp/src/ResourceStorage.cpp
+++ b/flatdata-cpp/src/ResourceStorage.cpp
@@ -17,6 +17,10 @@ ResourceStorage::write_to_stream( const char* resource_name,
                                   size_t size_in_bytes )
 {
     auto stream = create_output_stream( resource_name );
+    if ( !stream )
+    {
+        return false;
+    }
     resource_storage::write_to_stream( *stream, size_in_bytes );
     stream->write( reinterpret_cast< const char* >( data ), size_in_bytes );
     resource_storage::write_padding( *stream );
-- 
2.43.0


From 7b6158b528bc924f1109f8205ead0f0b6be75357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:41 +0000
Subject: [PATCH 44/78] fix: signed arithmetic in ArrayViewIterator

Negative differences between iterators were divided as unsigned numbers.
---
 .../include/flatdata/internal/ArrayViewIterator.inl       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
index 7862702..bdb80c5 100644
--- a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
+++ b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
@@ -64,7 +64,7 @@ template < typename T >
 ArrayViewIterator< T >&
 ArrayViewIterator< T >::operator+=( difference_type offset )
 {
-    m_ptr += T::size_in_bytes( ) * offset;
+    m_ptr += static_cast< difference_type >( T::size_in_bytes( ) ) * offset;
     return *this;
 }
 
@@ -72,7 +72,7 @@ template < typename T >
 ArrayViewIterator< T >&
 ArrayViewIterator< T >::operator-=( difference_type offset )
 {
-    m_ptr -= T::size_in_bytes( ) * offset;
+    m_ptr -= static_cast< difference_type >( T::size_in_bytes( ) ) * offset;
     return *this;
 }
 
@@ -98,7 +98,7 @@ template < typename T >
 typename ArrayViewIterator< T >::difference_type
 ArrayViewIterator< T >::operator-( const ArrayViewIterator& other ) const
 {
-    return ( m_ptr - other.m_ptr ) / T::size_in_bytes( );
+    return ( m_ptr - other.m_ptr ) / static_cast< difference_type >( T::size_in_bytes( ) );
 }
 
 template < typename T >
@@ -154,7 +154,7 @@ template < typename T >
 typename ArrayViewIterator< T >::ConstValueType
 ArrayViewIterator< T >::operator[]( difference_type index ) const
 {
-    return ConstValueType{ m_ptr + T::size_in_bytes( ) * index };
+    return ConstValueType{ m_ptr + static_cast< difference_type >( T::size_in_bytes( ) ) * index };
 }
 
 template < typename T >
-- 
2.43.0


From fe9c84602d90cc573aa10cae60411cb8ee2bfe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:30 +0000
Subject: [PATCH 45/78] fix: zero the padding when a Vector shrinks

Elements added after pop_back() or resize() to a smaller size started with
bytes of removed elements.
---
 flatdata-cpp/include/flatdata/Vector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/Vector.h b/flatdata-cpp/include/flatdata/Vector.h
index 20579bd..4c58739 100644
--- a/flatdata-cpp/include/flatdata/Vector.h
+++ b/flatdata-cpp/include/flatdata/Vector.h
@@ -8,6 +8,7 @@
 #include "ArrayView.h"
 #include "internal/Constants.h"
 
+#include <algorithm>
 #include <type_traits>
 #include <vector>
 
@@ -135,6 +136,8 @@ void
 Vector< T >::resize( size_t size )
 {
     m_data.resize( size * T::size_in_bytes( ) + PADDING_SIZE );
+    // removed elements must not show up again in elements added later
+    std::fill( m_data.end( ) - PADDING_SIZE, m_data.end( ), 0 );
 }
 
 template < typename T >
@@ -157,7 +160,7 @@ template < typename T >
 void
 Vector< T >::pop_back( )
 {
-    m_data.resize( m_data.size( ) - T::size_in_bytes( ) );
+    resize( size( ) - 1 );
 }
 
 template < typename T >
-- 
2.43.0


From 3001e0c8b7baed5066ebbe972fcbd601cf7ea691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:39 +0000
Subject: [PATCH 46/78] fix: Rust: read the ninth byte of a field from the
 right position

The pointer already includes the byte offset, which was added a second time.
---
 flatdata-rs/lib/src/bytereader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/bytereader.rs b/flatdata-rs/lib/src/bytereader.rs
index 99376c5..5c39332 100644
--- a/flatdata-rs/lib/src/bytereader.rs
+++ b/flatdata-rs/lib/src/bytereader.rs
@@ -63,7 +63,7 @@ macro_rules! flatdata_read_bytes {
 
             let read_bits = num_bytes * 8 - bit_offset;
             if read_bits < $num_bits {
-                let temp = u64::from(unsafe { *data.add(byte_offset + num_bytes) });
+                let temp = u64::from(unsafe { *data.add(num_bytes) });
                 result |= temp << read_bits % (num_bytes * 8);
             }
             result = flatdata_read_bytes!(@mask, result, $num_bits);
-- 
2.43.0


From bac96468523564cccbf15a1b6364981d81563558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:39 +0000
Subject: [PATCH 47/78] fix: Rust: write the ninth byte of a field to the right
 position

The byte offset of the field was ignored for the last byte.
---
 flatdata-rs/lib/src/bytewriter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/bytewriter.rs b/flatdata-rs/lib/src/bytewriter.rs
index 2275e14..c931880 100644
--- a/flatdata-rs/lib/src/bytewriter.rs
+++ b/flatdata-rs/lib/src/bytewriter.rs
@@ -65,7 +65,7 @@ macro_rules! flatdata_write_bytes {
         // one byte might be missing
         let batched_bits_written = num_bytes * 8 - bit_offset;
         if batched_bits_written < $num_bits {
-            let destination = &mut $data[num_bytes] as *mut u8;
+            let destination = &mut $data[$offset / 8 + num_bytes] as *mut u8;
             value_to_store >>= batched_bits_written % (num_bytes * 8);
             value_mask >>= batched_bits_written % (num_bytes * 8);
             unsafe {
-- 
2.43.0


From 5d50570daec484c001c68d26bd72ae62149db0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:39 +0000
Subject: [PATCH 48/78] fix: Rust: values wider than their field no longer
 overwrite the next fields

Only values of signed types were cut to the width of the field.
---
 flatdata-rs/lib/src/bytewriter.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/flatdata-rs/lib/src/bytewriter.rs b/flatdata-rs/lib/src/bytewriter.rs
index c931880..3444344 100644
--- a/flatdata-rs/lib/src/bytewriter.rs
+++ b/flatdata-rs/lib/src/bytewriter.rs
@@ -30,9 +30,7 @@ macro_rules! flatdata_write_bytes {
         let bit_offset = $offset % 8;
 
         let mut value_to_store = $value as u64;
-        if <$T as $crate::helper::Int>::IS_SIGNED {
-            value_to_store = flatdata_read_bytes!(@mask, value_to_store, $num_bits);
-        }
+        value_to_store = flatdata_read_bytes!(@mask, value_to_store, $num_bits);
         let mut value_mask = flatdata_read_bytes!(@mask, u64::max_value(), $num_bits);
         let mut value: u64 = 0;
 
-- 
2.43.0


From 127b8de761195bb8f3bcb74758811a324418e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:40 +0000
Subject: [PATCH 49/78] fix: Rust: report resources whose size header overflows
 instead of panicking

---
 flatdata-rs/lib/src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/storage.rs b/flatdata-rs/lib/src/storage.rs
index d3c4eab..c1a20f9 100644
--- a/flatdata-rs/lib/src/storage.rs
+++ b/flatdata-rs/lib/src/storage.rs
@@ -112,7 +112,7 @@ pub trait ResourceStorage: std::fmt::Debug {
         }
 
         let size = flatdata_read_bytes!(SizeType, data.as_ptr()) as usize;
-        if size + mem::size_of::<SizeType>() + PADDING_SIZE != data.len() {
+        if size != data.len() - mem::size_of::<SizeType>() - PADDING_SIZE {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-- 
2.43.0


From 5f742088f013e82bc7829eaf1ded4f7264611547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 50/78] fix: Rust: enumerations over bool get a representation
 Rust accepts

repr(bool) does not exist; u8 has the same size and values.
---
 .../flatdata/generator/templates/rust/enumeration.jinja2        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2 b/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2
index 784ce67..e5baeb8 100644
--- a/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2
@@ -4,7 +4,7 @@
 {{ enum.doc | rust_doc }}
 {% endif %}
 #[derive(Debug, PartialEq, Eq)]
-#[repr({{ enum.type.name }})]
+#[repr({% if enum.type.name == "bool" %}u8{% else %}{{ enum.type.name }}{% endif %})]
 pub enum {{ enum.name }} {
     {% for value in enum.values %}
     {% if value.doc %}
-- 
2.43.0


From 1c22b1ced275a77ba81c567198bc4b1c5eeadc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 51/78] fix: Rust: constants of type bool are emitted as true
 or false

Integer literals do not have type bool.
---
 .../flatdata/generator/templates/rust/constant.jinja2           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2 b/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2
index 614c6fa..bdd6bd7 100644
--- a/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2
@@ -3,5 +3,5 @@
 {% if node.doc %}
     {{ node.doc | rust_doc }}
 {% endif %}
-pub const {{ node.name | camel_to_snake_case | upper }}: {{ node.type.name }} = {{ node.value | format_numeric_literal }};
+pub const {{ node.name | camel_to_snake_case | upper }}: {{ node.type.name }} = {% if node.type.name == "bool" %}{{ "true" if node.value else "false" }}{% else %}{{ node.value | format_numeric_literal }}{% endif %};
 {%- endmacro %}
-- 
2.43.0


From af4d4042aafa46f4aad426143204b11023e5db44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:02 +0000
Subject: [PATCH 52/78] fix: diagrams no longer cut the type names of
 namespaces with a common prefix

---
 flatdata-generator/flatdata/generator/generators/dot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/generators/dot.py b/flatdata-generator/flatdata/generator/generators/dot.py
index 02e97d5..e67c7f2 100644
--- a/flatdata-generator/flatdata/generator/generators/dot.py
+++ b/flatdata-generator/flatdata/generator/generators/dot.py
@@ -22,8 +22,8 @@ class DotGenerator(BaseGenerator):
         def _field_value_type(field):
             type_name = field.type.name.replace("@@", ".").replace("@", ".")
             namespace_name = field.parent.parent.path
-            if type_name.startswith(namespace_name):
-                type_name = type_name[len(namespace_name):]
+            if type_name.startswith(namespace_name + "."):
+                type_name = type_name[len(namespace_name) + 1:]
             if type_name.startswith("."):
                 type_name = type_name[1:]
 
-- 
2.43.0


From 5b1ad7e107ea79ebc2065dcb4f9807add54df469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 53/78] fix: C++: explicit references to a single instance no
 longer break compilation

An instance has no size that could be compared with the limit of the reference.
---
 flatdata-generator/flatdata/generator/tree/builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index a3866f3..2142edf 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -15,7 +15,7 @@ from flatdata.generator.tree.nodes.explicit_reference import ExplicitReference
 from flatdata.generator.tree.nodes.archive import Archive
 from flatdata.generator.tree.nodes.node import Node
 from flatdata.generator.tree.syntax_tree import SyntaxTree
-from flatdata.generator.tree.nodes.resources import Multivector, Vector, ResourceBase
+from flatdata.generator.tree.nodes.resources import Instance, Multivector, Vector, ResourceBase
 from flatdata.generator.tree.nodes.references import (
     BuiltinStructureReference, ConstantReference, ConstantValueReference,
     EnumerationReference, StructureReference, InvalidValueReference)
@@ -185,6 +185,9 @@ def _compute_max_resource_size(root):
     for reference in root.iterate(ExplicitReference):
         if reference.field.node.type.width == 64:
             continue
+        # an instance has no number of elements that could be limited
+        if isinstance(reference.destination.node, Instance):
+            continue
         ref_limit = 2 ** reference.field.node.type.width
         max_size = reference.destination.node.max_size
         reference.destination.node.max_size = ref_limit if max_size is None or max_size > ref_limit else max_size
-- 
2.43.0


From c922ea138cadde33af763ecf0873f8cfbf1bf6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:51 +0000
Subject: [PATCH 54/78] fix: Go reads of signed fields inside one byte lost the
 sign

---
 flatdata-go/flatdata/reader.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/flatdata-go/flatdata/reader.go b/flatdata-go/flatdata/reader.go
index a48d20e..5fed69e 100644
--- a/flatdata-go/flatdata/reader.go
+++ b/flatdata-go/flatdata/reader.go
@@ -28,7 +28,7 @@ func Read(descriptor MemoryDescriptor, offset, size uint, signed bool) int {
 		result = currentByte >> localOffset
 		if bitsLeft <= (8 - localOffset) {
 			result &= (1 << bitsLeft) - 1
-			return int(result)
+			return extendSign(result, size, signed)
 		}
 		bitsLeft -= 8 - localOffset
 		currentIndex++
@@ -51,9 +51,14 @@ func Read(descriptor MemoryDescriptor, offset, size uint, signed bool) int {
 		result |= temp
 	}
 
-	if signed {
-		return int((result & (signBits[size-1] - 1)) - (result & signBits[size-1]))
+	return extendSign(result, size, signed)
+}
+
+// single bits are flags and never negative
+func extendSign(value, size uint, signed bool) int {
+	if signed && size > 1 {
+		return int((value & (signBits[size-1] - 1)) - (value & signBits[size-1]))
 	}
 
-	return int(result)
+	return int(value)
 }
-- 
2.43.0


From 65afed38084000705ff188aec5b745b0ef554569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 55/78] fix: generated Go code with unused imports did not
 compile

---
 .../flatdata/generator/templates/go/go.jinja2       | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/flatdata-generator/flatdata/generator/templates/go/go.jinja2 b/flatdata-generator/flatdata/generator/templates/go/go.jinja2
index 184fc50..6aa656f 100644
--- a/flatdata-generator/flatdata/generator/templates/go/go.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/go/go.jinja2
@@ -33,3 +33,16 @@
         {{- archive_definition(tree, node) }}
     {% endif %}
 {% endfor %}
+
+// not every package needs all of the imports
+var (
+	_ = bytes.Buffer{}
+	_ = binary.LittleEndian
+	_ = errors.New
+	_ = fmt.Sprintf
+	_ = log.Println
+{% if tree|contains_archive_resource %}
+	_ = filepath.Join
+{% endif %}
+	_ flatdata.ResourceStorage
+)
-- 
2.43.0


From 35c329648cd728be35f07169e508574c68a49ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 56/78] fix: Go looked for sub-archives in a lower case
 directory

---
 .../flatdata/generator/templates/go/archive.jinja2              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/templates/go/archive.jinja2 b/flatdata-generator/flatdata/generator/templates/go/archive.jinja2
index e51d98d..549c18c 100644
--- a/flatdata-generator/flatdata/generator/templates/go/archive.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/go/archive.jinja2
@@ -99,7 +99,7 @@ func Open{{ archive.name|to_go_case }}Archive(resource flatdata.ResourceStorage)
     // Initialize resources
 	{% for resource in archive.resources if not resource|is_bound_resource%}
 	{% if resource|is_archive_resource %}
-	{{ resource.name|lower|to_go_case(false) }}Archive, err := Open{{ resource.name|to_go_case }}Archive(flatdata.NewFileResourceStorage(filepath.Join(resource.GetBasePath(), "{{ resource.name|lower }}/{{ resource|to_initializer(tree) }}.archive")))
+	{{ resource.name|lower|to_go_case(false) }}Archive, err := Open{{ resource.name|to_go_case }}Archive(flatdata.NewFileResourceStorage(filepath.Join(resource.GetBasePath(), "{{ resource.name }}/{{ resource|to_initializer(tree) }}.archive")))
 	{{ resource.name|lower|to_go_case(false)}}Archive.IsOptional = {{ resource.optional|lower }}
 	{{ resource.name|lower|to_go_case(false) }}Archive.IsOpen = true
 	if err != nil {
-- 
2.43.0


From f793036c0d826339dc3339945bddfb1353f4171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 57/78] fix: the Go generator failed on enumeration typed
 fields

---
 flatdata-generator/flatdata/generator/generators/go.py    | 7 +++++++
 .../flatdata/generator/templates/go/structure.jinja2      | 8 ++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/generators/go.py b/flatdata-generator/flatdata/generator/generators/go.py
index e4e5a0c..9765719 100644
--- a/flatdata-generator/flatdata/generator/generators/go.py
+++ b/flatdata-generator/flatdata/generator/generators/go.py
@@ -2,6 +2,7 @@
  Copyright (c) 2017 HERE Europe B.V.
  See the LICENSE file in the root of this project for license details.
 '''
+from flatdata.generator.tree.helpers.enumtype import EnumType
 from flatdata.generator.tree.nodes.archive import Archive
 from flatdata.generator.tree.nodes.node import Node
 from flatdata.generator.tree.nodes.resources import Instance, Vector, Multivector, RawData
@@ -51,6 +52,11 @@ class GoGenerator(BaseGenerator):
                 "i64": "int64"
             }[flatdata_type]
 
+        def basic_type(field):
+            if isinstance(field.type, EnumType):
+                return field.type_reference.node.type.name
+            return field.type.name
+
         def is_bool(flatdata_type):
             return flatdata_type == "bool"
 
@@ -90,6 +96,7 @@ class GoGenerator(BaseGenerator):
         env.filters['type_mapping'] = type_mapping
         env.filters['type_mapping_with_bool'] = type_mapping_with_bool
         env.filters['to_go_case'] = to_go_case
+        env.filters['basic_type'] = basic_type
         env.filters['is_bool'] = is_bool
         env.filters['get_types_for_multivector'] = get_types_for_multivector
         env.filters['contains_archive_resource'] = contains_archive_resource
diff --git a/flatdata-generator/flatdata/generator/templates/go/structure.jinja2 b/flatdata-generator/flatdata/generator/templates/go/structure.jinja2
index fa11b48..91f02b9 100644
--- a/flatdata-generator/flatdata/generator/templates/go/structure.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/go/structure.jinja2
@@ -6,17 +6,17 @@ type {{ struct.name|to_go_case }} struct {
 }
 
 {% for field in struct.fields %}
-func (v *{{ struct.name|to_go_case }}) Get{{ field.name|to_go_case }}() {{ field.type.name|type_mapping_with_bool }} {
+func (v *{{ struct.name|to_go_case }}) Get{{ field.name|to_go_case }}() {{ field|basic_type|type_mapping_with_bool }} {
     {% if field.doc %}
         {{ field|to_go_doc|indent(8) }}
     {% endif %}
     elementSizeInBits := uint({{ field.type.width }})
     elementOffset := uint({{ field.offset }})
     result := flatdata.Read(v.descriptor, (uint(v.position)*8)+elementOffset, elementSizeInBits, {{ field.type.is_signed|lower }})
-{% if field.type.name|is_bool %}
+{% if field|basic_type|is_bool %}
     return result == 1
 {% else %}
-    return {{ field.type.name|type_mapping_with_bool }}(result)
+    return {{ field|basic_type|type_mapping_with_bool }}(result)
 {% endif %}
 }
     
@@ -27,7 +27,7 @@ func (v *{{ struct.name|to_go_case }}) ToString() string {
     buffer.WriteString(fmt.Sprintf(`{"name": "{{ struct.name }}", "position": %d, "attributes": {`, v.position))
     if v.descriptor != nil {
 	    {% for field in struct.fields %}
-        buffer.WriteString(fmt.Sprintf(`"{{ field.name }}": %v`, {% if field.type.name|is_bool %}v.Get{{ field.name|to_go_case }}(){% else %}v.Get{{ field.name|to_go_case }}(){% endif %}))
+        buffer.WriteString(fmt.Sprintf(`"{{ field.name }}": %v`, {% if field|basic_type|is_bool %}v.Get{{ field.name|to_go_case }}(){% else %}v.Get{{ field.name|to_go_case }}(){% endif %}))
         {% if loop.length != loop.index %}
         buffer.WriteString(",")
         {% endif %}
-- 
2.43.0


From 3b215d72eb197ede3adac11a737eea518ac4882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 58/78] fix: the Go generator failed on empty schemas and
 sub-archives of nested namespaces

The package was named after the first namespace even if there is none, and the import of path/filepath was
left out unless an archive of the first outermost namespace holds a sub-archive.
---
 flatdata-generator/flatdata/generator/generators/go.py    | 8 +++-----
 .../flatdata/generator/templates/go/base.jinja2           | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/generators/go.py b/flatdata-generator/flatdata/generator/generators/go.py
index 9765719..ecb0f98 100644
--- a/flatdata-generator/flatdata/generator/generators/go.py
+++ b/flatdata-generator/flatdata/generator/generators/go.py
@@ -8,6 +8,7 @@ from flatdata.generator.tree.nodes.node import Node
 from flatdata.generator.tree.nodes.resources import Instance, Vector, Multivector, RawData
 from flatdata.generator.tree.nodes.resources.archive import Archive as ArchiveResource
 from flatdata.generator.tree.nodes.trivial import Structure, Constant
+from flatdata.generator.tree.traversal import DfsTraversal
 
 from . import BaseGenerator
 
@@ -85,11 +86,8 @@ class GoGenerator(BaseGenerator):
             return [_decorate_archive_type(t.node) for t in resource.referenced_structures]
 
         def contains_archive_resource(tree):
-            for child in tree.root.children[0].children:
-                for res in child.children:
-                    if isinstance(res, ArchiveResource):
-                        return True
-            return False
+            return any(isinstance(node, ArchiveResource)
+                       for node, _ in DfsTraversal(tree).dependency_order())
 
         env.filters['to_go_doc'] = to_go_doc
         env.filters['to_initializer'] = to_initializer
diff --git a/flatdata-generator/flatdata/generator/templates/go/base.jinja2 b/flatdata-generator/flatdata/generator/templates/go/base.jinja2
index 035554b..f8273b2 100644
--- a/flatdata-generator/flatdata/generator/templates/go/base.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/go/base.jinja2
@@ -4,7 +4,7 @@
 //    This code is automatically generated by flatdata generator.
 //    Any modifications to this file will be lost upon next regeneration.
 /////////////////////////////////////////////////////////////////////////
-package {{ tree.root.children[0].name }}
+package {{ tree.root.children[0].name if tree.root.children else "flatdata" }}
 
 import (
 	"bytes"
-- 
2.43.0


From f534196ac29cd20a1181c3781e6898b1f2b1372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 59/78] fix: Rust: optional fields refer to their constant by
 its upper case name

---
 flatdata-generator/flatdata/generator/generators/rust.py    | 6 ++++++
 .../flatdata/generator/templates/rust/structure.jinja2      | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/generators/rust.py b/flatdata-generator/flatdata/generator/generators/rust.py
index 7751fee..d97b7a7 100644
--- a/flatdata-generator/flatdata/generator/generators/rust.py
+++ b/flatdata-generator/flatdata/generator/generators/rust.py
@@ -87,7 +87,13 @@ class RustGenerator(BaseGenerator):
         def _fully_qualified_name(current, node):
             return "::".join((current.path_depth() - 1) * ["super"]) + node.path_with("::")
 
+        def _fully_qualified_constant_name(current, node):
+            # constants are declared in upper snake case
+            path, name = _fully_qualified_name(current, node).rsplit("::", 1)
+            return "::".join([path, _camel_to_snake_case(name).upper()])
+
         env.globals["fully_qualified_name"] = _fully_qualified_name
+        env.globals["fully_qualified_constant_name"] = _fully_qualified_constant_name
         env.filters["escape_rust_keywords"] = _escape_rust_keywords
         env.filters["field_type"] = _field_type
         env.filters["primitive_type"] = _primitive_type
diff --git a/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2 b/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2
index bfdce59..1bce4cb 100644
--- a/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2
@@ -98,7 +98,7 @@ impl {{ struct.name }} {
         let value = flatdata_read_bytes!({{ field | primitive_type }}, self.data.as_ptr(), {{ field.offset }}, {{ field.type.width }});
         {% if field.invalid_value %}
         let x = unsafe { std::mem::transmute::<{{ field | primitive_type }}, {{ field | field_type }}>(value) };
-        Some(x).filter(|&x| x != {{ fully_qualified_name(struct, field.invalid_value.node) }})
+        Some(x).filter(|&x| x != {{ fully_qualified_constant_name(struct, field.invalid_value.node) }})
         {% else %}
         unsafe { std::mem::transmute::<{{ field | primitive_type }}, {{ field | field_type }}>(value) }
         {% endif %}
@@ -113,7 +113,7 @@ impl {{ struct.name }} {
         let start = flatdata_read_bytes!({{ field.type.name }}, self.data.as_ptr(), {{ field.offset }}, {{ field.type.width }});
         let end = flatdata_read_bytes!({{ field.type.name }}, self.data.as_ptr(), {{ field.offset }} + {{ struct.size_in_bytes }} * 8, {{ field.type.width }});
         {% if field.invalid_value %}
-        let check = |x| {% if field.invalid_value %}Some(x).filter(|&x| x != {{ fully_qualified_name(struct, field.invalid_value.node) }}{% else %}x{% endif %};
+        let check = |x| {% if field.invalid_value %}Some(x).filter(|&x| x != {{ fully_qualified_constant_name(struct, field.invalid_value.node) }}{% else %}x{% endif %};
         check(start)..check(end)
         {% else %}
         start..end
@@ -158,7 +158,7 @@ impl {{ struct.name }} {
     #[inline]
     #[allow(missing_docs)]
     pub fn set_{{ name }}(&mut self, value: {% if field.invalid_value %}Option<{{ field | field_type }}>{% else %}{{ field | field_type }}{% endif %}) {
-        {% if field.invalid_value %}let value = value.unwrap_or({{ fully_qualified_name(struct, field.invalid_value.node) }});{% endif %}
+        {% if field.invalid_value %}let value = value.unwrap_or({{ fully_qualified_constant_name(struct, field.invalid_value.node) }});{% endif %}
         flatdata_write_bytes!({{ field | primitive_type }}; value, self.data, {{ field.offset }}, {{ field.type.width }})
     }
 
-- 
2.43.0


From 79dc7b7aeb3bc92977b88a597487c3f2006c7d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 60/78] fix: Rust: lines of doc comments no longer become code
 or inner documentation

---
 flatdata-generator/flatdata/generator/generators/rust.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/generators/rust.py b/flatdata-generator/flatdata/generator/generators/rust.py
index d97b7a7..8d2b9b8 100644
--- a/flatdata-generator/flatdata/generator/generators/rust.py
+++ b/flatdata-generator/flatdata/generator/generators/rust.py
@@ -64,7 +64,13 @@ class RustGenerator(BaseGenerator):
                 start = 1
             if lines[-1] == "///":
                 end = -1
-            return "\n".join(lines[start:end])
+            return "\n".join(_outer_comment(line) for line in lines[start:end])
+
+        def _outer_comment(line):
+            if line.startswith("//!"):
+                return "///" + line[3:]
+            # whatever has no comment mark of its own would be code
+            return line if not line or line.startswith("//") else "/// " + line
 
         env.filters["rust_doc"] = _rust_doc
 
-- 
2.43.0


From 6db598363c3415accb993401f4a6fc8b5db57b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:01 +0000
Subject: [PATCH 61/78] fix: C++: doc comments ending with a backslash no
 longer swallow the next line

---
 flatdata-generator/flatdata/generator/generators/cpp.py   | 8 +++++++-
 .../flatdata/generator/templates/cpp/archive.jinja2       | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/generators/cpp.py b/flatdata-generator/flatdata/generator/generators/cpp.py
index 96b2650..b53f72b 100644
--- a/flatdata-generator/flatdata/generator/generators/cpp.py
+++ b/flatdata-generator/flatdata/generator/generators/cpp.py
@@ -20,7 +20,13 @@ class CppGenerator(BaseGenerator):
         return [Structure, Archive, Constant, Enumeration]
 
     def _populate_environment(self, env):
-        env.filters["cpp_doc"] = lambda value: value
+        def _cpp_doc(value):
+            # a backslash at the end of a // comment would make the next line part of it
+            if value.startswith("//") and value.rstrip().endswith("\\"):
+                return value.rstrip("\\ \t\r\n")
+            return value
+
+        env.filters["cpp_doc"] = _cpp_doc
 
         def _safe_cpp_string_line(value):
             return value.replace('\\', '\\\\').replace('"', r'\"')
diff --git a/flatdata-generator/flatdata/generator/templates/cpp/archive.jinja2 b/flatdata-generator/flatdata/generator/templates/cpp/archive.jinja2
index 97b5e7d..9457b64 100644
--- a/flatdata-generator/flatdata/generator/templates/cpp/archive.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/cpp/archive.jinja2
@@ -1,7 +1,7 @@
 {% import "cpp/resource.jinja2" as resource %}
 
 {% macro declaration(archive) %}
-{{ archive.doc }}
+{{ archive.doc|cpp_doc }}
 class {{ archive.name }} : public flatdata::Archive
 {
 public:
-- 
2.43.0


From ab4ec63445fafbfb1f064ab8a516931f91e81cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:26 +0000
Subject: [PATCH 62/78] fix: Rust: the iterator of multi array views knows its
 exact size

MultiArrayViewIter implements ExactSizeIterator without a size_hint, so len() of it or of adapters of it panicked.
---
 flatdata-rs/lib/src/multiarrayview.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatdata-rs/lib/src/multiarrayview.rs b/flatdata-rs/lib/src/multiarrayview.rs
index 848a8a0..57004d0 100644
--- a/flatdata-rs/lib/src/multiarrayview.rs
+++ b/flatdata-rs/lib/src/multiarrayview.rs
@@ -217,6 +217,10 @@ where
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.view.len(), Some(self.view.len()))
+    }
 }
 
 impl<'a, Ts: 'a> iter::DoubleEndedIterator for MultiArrayViewIter<'a, Ts>
-- 
2.43.0


From 40b8574ea797eea64674a52add5bd9575f165609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:26 +0000
Subject: [PATCH 63/78] fix: C++: structures are ordered field by field

operator< of generated structures held only if every field was smaller, which is no ordering: elements that differ counted as equivalent,
and sets of structures lost elements. It did not compile for structures with optional fields.
---
 .../generator/templates/cpp/structure.jinja2     | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2 b/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2
index 6fc57d4..31223ef 100644
--- a/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/cpp/structure.jinja2
@@ -139,11 +139,19 @@ bool {{ template_spec }}::operator!=( const {{ struct.name }}Template& other ) c
 inline
 bool {{ template_spec }}::operator<( const {{ struct.name }}Template& other ) const
 {
-return
 {% for member in struct.fields %}
-    {{ member.name }} < other.{{ member.name }}{% if not loop.last %} &&
-{%endif%}
-{% endfor %};
+{% set left = ("*" if member.invalid_value else "") + member.name %}
+{% set right = ("*" if member.invalid_value else "") + "other." + member.name %}
+{% if not loop.last %}
+    if ( {{ left }} != {{ right }} )
+    {
+        return {{ left }} < {{ right }};
+    }
+{% else %}
+return
+    {{ left }} < {{ right }};
+{% endif %}
+{% endfor %}
 }
 
 {{ template_header }}
-- 
2.43.0


From 5ae6ab07e24e229fa5047857a75defe1acce7112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:26 +0000
Subject: [PATCH 64/78] fix: C++: resources can be read again after they are
 written anew

Storages kept what was read of a resource before, although it had been replaced since.
---
 .../include/flatdata/FileResourceStorage.h    |  4 +++
 .../flatdata/MemoryMappedFileStorage.h        | 27 +++++++++++++++++++
 .../include/flatdata/MemoryResourceStorage.h  | 23 ++++++++++++++++
 3 files changed, 54 insertions(+)

diff --git a/flatdata-cpp/include/flatdata/FileResourceStorage.h b/flatdata-cpp/include/flatdata/FileResourceStorage.h
index 699541d..40fb73f 100644
--- a/flatdata-cpp/include/flatdata/FileResourceStorage.h
+++ b/flatdata-cpp/include/flatdata/FileResourceStorage.h
@@ -103,6 +103,10 @@ FileResourceStorage::create( const char* path, bool create_on_missing )
 inline std::shared_ptr< std::ostream >
 FileResourceStorage::create_output_stream( const char* key )
 {
+    {
+        std::lock_guard< std::mutex > lock( m_storage_mutex );
+        m_storage->forget( get_path( key ).c_str( ) );
+    }
     return std::shared_ptr< std::ostream >(
         new std::ofstream( get_path( key ).c_str( ), std::ofstream::out | std::ofstream::binary ) );
 }
diff --git a/flatdata-cpp/include/flatdata/MemoryMappedFileStorage.h b/flatdata-cpp/include/flatdata/MemoryMappedFileStorage.h
index bafafdd..56fe1db 100644
--- a/flatdata-cpp/include/flatdata/MemoryMappedFileStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryMappedFileStorage.h
@@ -18,6 +18,7 @@
 #include <map>
 #include <memory>
 #include <tuple>
+#include <vector>
 
 namespace flatdata
 {
@@ -25,10 +26,17 @@ class MemoryMappedFileStorage
 {
 public:
     MemoryDescriptor read( const char* path );
+
+    /**
+     * @brief Makes the next read see the current content of the file, e.g. since it is written anew.
+     * The previous content stays mapped.
+     */
+    void forget( const char* path );
     ~MemoryMappedFileStorage( );
 
 private:
     std::map< std::string, boost::interprocess::mapped_region > m_maps;
+    std::vector< boost::interprocess::mapped_region > m_forgotten;
 };
 
 inline MemoryDescriptor
@@ -65,6 +73,17 @@ MemoryMappedFileStorage::read( const char* path )
     }
 }
 
+inline void
+MemoryMappedFileStorage::forget( const char* path )
+{
+    auto found = m_maps.find( path );
+    if ( found != m_maps.end( ) )
+    {
+        m_forgotten.push_back( std::move( found->second ) );
+        m_maps.erase( found );
+    }
+}
+
 inline MemoryMappedFileStorage::~MemoryMappedFileStorage( )
 {
     for ( const auto& [ key, value ] : m_maps )
@@ -73,6 +92,14 @@ inline MemoryMappedFileStorage::~MemoryMappedFileStorage( )
                                   value.get_size( ) );
 #ifdef DEBUG_DATA_ACCESS_STATISTICS
         DebugDataAccessStatistics::deregister_mapping( mapping );
+#endif
+    }
+    for ( const auto& value : m_forgotten )
+    {
+        MemoryDescriptor mapping( static_cast< const unsigned char* >( value.get_address( ) ),
+                                  value.get_size( ) );
+#ifdef DEBUG_DATA_ACCESS_STATISTICS
+        DebugDataAccessStatistics::deregister_mapping( mapping );
 #endif
     }
 }
diff --git a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
index f8dbf72..bfae3fe 100644
--- a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
@@ -15,6 +15,7 @@
 #include <set>
 #include <sstream>
 #include <stdexcept>
+#include <vector>
 
 namespace flatdata
 {
@@ -25,7 +26,10 @@ class MemoryResourceStorage : public ResourceStorage
         std::map< std::string, std::shared_ptr< std::stringstream > > streams;
         std::map< std::string, std::shared_ptr< std::string > > resources;
         std::set< std::string > created_directories;
+        // values of resources that have been replaced since they were read
+        std::vector< std::shared_ptr< std::string > > replaced;
 
+        void remove( const std::string& path );
         ~Storage( );
     };
 
@@ -75,6 +79,7 @@ MemoryResourceStorage::create_output_stream( const char* key )
 
     std::lock_guard< std::mutex > lock( m_storage_mutex );
     m_storage->streams[ get_path( key ) ] = result;
+    m_storage->remove( get_path( key ) );
 
     return result;
 }
@@ -93,9 +98,25 @@ inline MemoryResourceStorage::MemoryResourceStorage( std::shared_ptr< Storage >
 {
 }
 
+inline void
+MemoryResourceStorage::Storage::remove( const std::string& path )
+{
+    auto found = resources.find( path );
+    if ( found != resources.end( ) )
+    {
+        replaced.push_back( found->second );
+        resources.erase( found );
+    }
+}
+
 inline MemoryResourceStorage::Storage::~Storage( )
 {
 #ifdef DEBUG_DATA_ACCESS_STATISTICS
+    for ( auto& string : replaced )
+    {
+        DebugDataAccessStatistics::deregister_mapping( MemoryDescriptor(
+            reinterpret_cast< const unsigned char* >( string->c_str( ) ), string->size( ) ) );
+    }
     for ( auto& resource : resources )
     {
         auto& string = resource.second;
@@ -137,6 +158,7 @@ inline void
 MemoryResourceStorage::assign_value( const char* key, MemoryDescriptor value )
 {
     std::lock_guard< std::mutex > lock( m_storage_mutex );
+    m_storage->remove( key );
     m_storage->resources.insert( std::make_pair(
         std::string( key ),
         std::make_shared< std::string >( value.char_ptr( ), value.size_in_bytes( ) ) ) );
@@ -152,6 +174,7 @@ inline void
 MemoryResourceStorage::assign_value( const char* key, const char* value )
 {
     std::lock_guard< std::mutex > lock( m_storage_mutex );
+    m_storage->remove( key );
     m_storage->resources.insert(
         std::make_pair( std::string( key ), std::make_shared< std::string >( value ) ) );
 #ifdef DEBUG_DATA_ACCESS_STATISTICS
-- 
2.43.0


From 381f93c910ee9b67d82309894f5a8e295deb9606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:26 +0000
Subject: [PATCH 65/78] fix: Rust: resources can be written anew

In-memory storages appended to the resource written before, and both storages kept what was read of a resource before, although it had
been replaced since.
---
 flatdata-rs/lib/src/filestorage.rs | 11 +++++++++++
 flatdata-rs/lib/src/memstorage.rs  | 15 ++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/flatdata-rs/lib/src/filestorage.rs b/flatdata-rs/lib/src/filestorage.rs
index 8e1e14d..73fc504 100644
--- a/flatdata-rs/lib/src/filestorage.rs
+++ b/flatdata-rs/lib/src/filestorage.rs
@@ -15,6 +15,8 @@ use std::{
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
     maps: Mutex<BTreeMap<String, Mmap>>,
+    // Mappings of files that were written anew after they were mapped.
+    replaced: Mutex<Vec<Mmap>>,
 }
 
 impl MemoryMappedFileStorage {
@@ -30,6 +32,12 @@ impl MemoryMappedFileStorage {
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
         Ok(extended_lifetime_data)
     }
+
+    fn forget(&self, path: &str) {
+        // The mapping might still be in use => keep it
+        let map = self.maps.lock().unwrap().remove(path);
+        self.replaced.lock().unwrap().extend(map);
+    }
 }
 
 /// Resource storage on disk using memory mapped files.
@@ -100,6 +108,9 @@ impl ResourceStorage for FileResourceStorage {
             fs::create_dir_all(self.path.clone())?;
         }
         let resource_path = self.path.join(resource_name);
+        if let Some(p) = resource_path.to_str() {
+            self.storage.forget(p);
+        }
         let file = File::create(resource_path)?;
         Ok(Box::new(file))
     }
diff --git a/flatdata-rs/lib/src/memstorage.rs b/flatdata-rs/lib/src/memstorage.rs
index 04fdee2..9a77384 100644
--- a/flatdata-rs/lib/src/memstorage.rs
+++ b/flatdata-rs/lib/src/memstorage.rs
@@ -18,6 +18,8 @@ struct MemoryStorage {
     streams: Arc<Mutex<BTreeMap<PathBuf, MemoryStorageStream>>>,
     // Data of resources that were opened for reading.
     resources: Arc<Mutex<BTreeMap<PathBuf, Arc<Vec<u8>>>>>,
+    // Data of resources that were written anew after they were opened.
+    replaced: Arc<Mutex<Vec<Arc<Vec<u8>>>>>,
 }
 
 impl fmt::Debug for MemoryStorage {
@@ -143,14 +145,17 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Box<dyn Stream>, io::Error> {
         let resource_path = self.path.join(resource_name);
-        let stream = self
+        let stream: MemoryStorageStream = Arc::default();
+        let mut streams = self.storage.streams.lock().unwrap();
+        // The data that was opened so far might still be in use => keep it
+        let opened = self
             .storage
-            .streams
+            .resources
             .lock()
             .unwrap()
-            .entry(resource_path)
-            .or_insert_with(|| Arc::new(Mutex::new(Cursor::new(Vec::new()))))
-            .clone();
+            .remove(&resource_path);
+        self.storage.replaced.lock().unwrap().extend(opened);
+        streams.insert(resource_path, stream.clone());
         Ok(Box::new(StreamWrapper { stream }))
     }
 }
-- 
2.43.0


From c3fe5c57eb8aed699103039cfd428d920356ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:36 +0000
Subject: [PATCH 66/78] fix: C++: names and columns stay apart in descriptions
 of nested archives

Long names of resources in nested archives ran into the column behind them.
---
 flatdata-cpp/src/Archive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/src/Archive.cpp b/flatdata-cpp/src/Archive.cpp
index c74b70e..5f5fb27 100644
--- a/flatdata-cpp/src/Archive.cpp
+++ b/flatdata-cpp/src/Archive.cpp
@@ -312,7 +312,7 @@ Archive::describe_impl( std::ostream& stream,
     const std::string indent( nest_level * TAB_WIDTH, ' ' );
     size_t offset = indent.size( );
     stream << indent << std::left << std::setw( 37 - offset ) << std::setfill( ' ' )
-           << std::string( name ).substr( 0, 30 ) << std::left << std::setw( 10 )
+           << std::string( name ).substr( 0, 30 ) + ' ' << std::left << std::setw( 10 )
            << std::setfill( ' ' ) << ( optional ? "YES" : "NO" ) << std::left << std::setw( 11 )
            << std::setfill( ' ' ) << ( too_large ? "YES" : "NO" ) << std::left << std::setw( 10 )
            << std::setfill( ' ' ) << ( static_cast< bool >( loaded ) ? "YES" : "NO" ) << details
-- 
2.43.0


From abde79a1fc3e2bfdf97e5dfe7854659b2f959cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:12 +0000
Subject: [PATCH 67/78] fix: Rust: multivectors of structures with the same
 name in different namespaces

---
 .../flatdata/generator/generators/rust.py             | 11 +++++++++++
 .../flatdata/generator/templates/rust/variadic.jinja2 | 10 +++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/generators/rust.py b/flatdata-generator/flatdata/generator/generators/rust.py
index 8d2b9b8..8c9406c 100644
--- a/flatdata-generator/flatdata/generator/generators/rust.py
+++ b/flatdata-generator/flatdata/generator/generators/rust.py
@@ -52,6 +52,17 @@ class RustGenerator(BaseGenerator):
 
         env.filters["snake_to_upper_camel_case"] = _snake_to_upper_camel_case
 
+        def _variant_name(reference, references):
+            name = reference.node.name
+            alike = [r for r in references
+                     if _camel_to_snake_case(r.node.name) == _camel_to_snake_case(name)]
+            if len(alike) == 1:
+                return name
+            # structures of different namespaces can have the same name
+            return _snake_to_upper_camel_case(SyntaxTree.namespace_path(reference.node, "_")) + name
+
+        env.filters["variant_name"] = _variant_name
+
         def _rust_doc(expr):
             lines = [
                 re.sub(r'^[ \t]*(/\*\*\s?|/\*\s?|\*/|\*\s?)(.*?)\s*(\*/)?$',
diff --git a/flatdata-generator/flatdata/generator/templates/rust/variadic.jinja2 b/flatdata-generator/flatdata/generator/templates/rust/variadic.jinja2
index 8e86409..cbd231b 100644
--- a/flatdata-generator/flatdata/generator/templates/rust/variadic.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/rust/variadic.jinja2
@@ -10,7 +10,7 @@
 pub enum {{name}}Ref<'a> {
     {% for type in types %}
     #[allow(missing_docs)]
-    {{type.node.name }}(&'a {{fully_qualified_name(archive, type.node)}}),
+    {{type | variant_name(types)}}(&'a {{fully_qualified_name(archive, type.node)}}),
     {%- endfor %}
 }
 
@@ -18,7 +18,7 @@ impl<'a> ::std::fmt::Debug for {{name}}Ref<'a> {
     fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
         match *self {
             {% for type in types %}
-            {{name}}Ref::{{type.node.name}}(ref inner) => write!(f, "{:?}", inner),
+            {{name}}Ref::{{type | variant_name(types)}}(ref inner) => write!(f, "{:?}", inner),
             {% endfor %}
         }
     }
@@ -29,7 +29,7 @@ impl<'a> flatdata::VariadicRef for {{name}}Ref<'a> {
     fn size_in_bytes(&self) -> usize {
         match *self {
             {% for type in types %}
-            {{name}}Ref::{{type.node.name}}(_) => <{{fully_qualified_name(archive, type.node)}} as flatdata::Struct>::SIZE_IN_BYTES,
+            {{name}}Ref::{{type | variant_name(types)}}(_) => <{{fully_qualified_name(archive, type.node)}} as flatdata::Struct>::SIZE_IN_BYTES,
             {% endfor %}
         }
     }
@@ -52,7 +52,7 @@ impl<'a> {{name}}Builder<'a> {
     ///
     /// [`{{type.node.name}}`]: struct.{{type.node.name}}.html
     #[inline]
-    pub fn add_{{ type.node.name | camel_to_snake_case }}<'b>(&'b mut self) -> &'b mut {{inner_type}} {
+    pub fn add_{{ type | variant_name(types) | camel_to_snake_case }}<'b>(&'b mut self) -> &'b mut {{inner_type}} {
         let old_len = self.data.len();
         let increment = 1 + <{{inner_type}} as flatdata::Struct>::SIZE_IN_BYTES;
         self.data.resize(old_len + increment, 0);
@@ -101,7 +101,7 @@ impl<'a> flatdata::VariadicStruct<'a> for {{name}} {
         match index {
             {% for type in types %}
             {% set inner_type = fully_qualified_name(archive, type.node) %}
-                {{loop.index0}} => {{name}}Ref::{{type.node.name}}({{inner_type}}::from_bytes_slice(&data).expect("Corrupted data")),
+                {{loop.index0}} => {{name}}Ref::{{type | variant_name(types)}}({{inner_type}}::from_bytes_slice(&data).expect("Corrupted data")),
             {% endfor %}
             _ => panic!("invalid type index {} for variadic type {{name}}Ref", index),
         }
-- 
2.43.0


From 71a4b74c8e466c38889ff3d51ef32aa3efcefab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:45 +0000
Subject: [PATCH 68/78] fix: inspector: archives holding an archive of their
 own name

---
 flatdata-generator/flatdata/generator/engine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/engine.py b/flatdata-generator/flatdata/generator/engine.py
index ee5c772..cfe8ac9 100644
--- a/flatdata-generator/flatdata/generator/engine.py
+++ b/flatdata-generator/flatdata/generator/engine.py
@@ -7,6 +7,7 @@ import types
 
 from flatdata.generator.tree.builder import build_ast
 from flatdata.generator.tree.nodes.archive import Archive
+from flatdata.generator.tree.nodes.references import ArchiveReference
 from flatdata.generator.tree.nodes.trivial.namespace import Namespace
 
 from .generators.cpp import CppGenerator
@@ -90,12 +91,14 @@ class Engine:
     def _find_archive(tree, name):
         """
         Find the archive that `name` (an archive or its builder) stands for. If several namespaces
-        define it, the outermost one is used.
+        define it, the one which is not part of another archive, then the outermost one is used.
         """
         archives = [node for node in tree.root.iterate(Archive)
                     if name in (node.name, node.name + "Builder")]
         if not archives:
             return None
+        held = [reference.node for reference in tree.root.iterate(ArchiveReference)]
+        archives = [node for node in archives if node not in held] or archives
         depth = lambda node: len(list(tree.namespaces(node)))
         outermost = [node for node in archives if depth(node) == min(map(depth, archives))]
         if len(outermost) > 1:
-- 
2.43.0


From 098f0e2a4dc36a0fa6b72a9c2fea0e1846409c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:53 +0000
Subject: [PATCH 69/78] fix: writer: the only archive of a schema is found
 whatever its comments say

---
 flatdata-py/flatdata/lib/flatdata_writer.py | 30 +++++++++++----------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/flatdata-py/flatdata/lib/flatdata_writer.py b/flatdata-py/flatdata/lib/flatdata_writer.py
index c7e6beb..7a65930 100644
--- a/flatdata-py/flatdata/lib/flatdata_writer.py
+++ b/flatdata-py/flatdata/lib/flatdata_writer.py
@@ -4,6 +4,7 @@
 '''
 
 from flatdata.generator.engine import Engine
+from flatdata.generator.tree.nodes.archive import Archive
 from flatdata.generator.tree.errors import FlatdataSyntaxError
 
 from .resource_storage import ResourceStorage
@@ -27,11 +28,14 @@ class Writer:
         :param archive_schema(str): flatdata schema
         :param path(str): file path where flatdata files are created
         '''
+        if not archive_schema:
+            raise RuntimeError("Archive schema is required")
+
         try:
+            engine = Engine(archive_schema)
             if not archive_name:
-                archive_name = Writer._get_archive_name(
-                    archive_schema)
-            _, archive_type = Engine(archive_schema).render_python_module(
+                archive_name = Writer._get_archive_name(engine.tree)
+            _, archive_type = engine.render_python_module(
                 archive_name=archive_name + "Builder")
         except FlatdataSyntaxError as err:
             raise RuntimeError(
@@ -54,19 +58,17 @@ class Writer:
         '''Completes flatdata creation'''
         self.builder.finish()
 
-    @classmethod
-    def _get_archive_name(cls, archive_schema):
+    @staticmethod
+    def _get_archive_name(tree):
         '''
-        Returns name of archive from flatdata schema.
+        Returns name of the only archive of a schema.
 
-        :param archive_schema(str): flatdata schema in str
+        :param tree(SyntaxTree): syntax tree of the schema
         '''
-        if not archive_schema:
-            raise RuntimeError("Archive schema is required")
-
-        archive_keyword = "archive"
-        index = archive_schema.find(archive_keyword) + len(archive_keyword)
-        if archive_schema[index:].find(archive_keyword) >= 0:
+        archives = [archive.name for archive in tree.root.iterate(Archive)]
+        if not archives:
+            raise RuntimeError("Schema contains no archives")
+        if len(archives) > 1:
             raise RuntimeError(
                 "Schema contains multiple archives, please specify archive name explicitly")
-        return archive_schema[index:index+archive_schema[index:].find("{")].strip()
+        return archives[0]
-- 
2.43.0


From 49a28e68c0d078205f42f680145e07d2d9c08fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:01 +0000
Subject: [PATCH 70/78] fix: Rust: resources can be read by several threads at
 once

---
 flatdata-rs/lib/src/filestorage.rs |  7 +++---
 flatdata-rs/lib/src/memstorage.rs  | 34 ++++++++----------------------
 2 files changed, 13 insertions(+), 28 deletions(-)

diff --git a/flatdata-rs/lib/src/filestorage.rs b/flatdata-rs/lib/src/filestorage.rs
index 73fc504..5b91e16 100644
--- a/flatdata-rs/lib/src/filestorage.rs
+++ b/flatdata-rs/lib/src/filestorage.rs
@@ -21,12 +21,13 @@ struct MemoryMappedFileStorage {
 
 impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
-        if !self.maps.lock().unwrap().contains_key(path) {
+        let mut maps = self.maps.lock().unwrap();
+        if !maps.contains_key(path) {
             let file = File::open(path)?;
             let file_mmap = unsafe { Mmap::map(&file)? };
-            self.maps.lock().unwrap().insert(path.into(), file_mmap);
+            maps.insert(path.into(), file_mmap);
         }
-        let data = &self.maps.lock().unwrap()[path];
+        let data = &maps[path];
         // We cannot prove to Rust that the buffer will live as long as the storage
         // (we never delete mappings), so we need to manually extend lifetime
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
diff --git a/flatdata-rs/lib/src/memstorage.rs b/flatdata-rs/lib/src/memstorage.rs
index 9a77384..db1f6db 100644
--- a/flatdata-rs/lib/src/memstorage.rs
+++ b/flatdata-rs/lib/src/memstorage.rs
@@ -93,40 +93,24 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn exists(&self, resource_name: &str) -> bool {
         let resource_path = self.path.join(resource_name);
-        self.storage
-            .resources
-            .lock()
-            .unwrap()
-            .contains_key(&resource_path)
-            || self
-                .storage
-                .streams
-                .lock()
-                .unwrap()
-                .contains_key(&resource_path)
+        // always lock in this order
+        let streams = self.storage.streams.lock().unwrap();
+        let resources = self.storage.resources.lock().unwrap();
+        resources.contains_key(&resource_path) || streams.contains_key(&resource_path)
     }
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !self
-            .storage
-            .resources
-            .lock()
-            .unwrap()
-            .contains_key(&resource_path)
-        {
-            let streams = self.storage.streams.lock().unwrap();
+        let streams = self.storage.streams.lock().unwrap();
+        let mut resources = self.storage.resources.lock().unwrap();
+        if !resources.contains_key(&resource_path) {
             let stream = streams.get(&resource_path);
             match stream {
                 Some(stream) => {
                     // Resource is not yet opened, but there is a stream it was written to
                     // => copy the stream as resource data.
                     let data = Arc::new(stream.lock().unwrap().get_ref().clone());
-                    self.storage
-                        .resources
-                        .lock()
-                        .unwrap()
-                        .insert(resource_path.clone(), data);
+                    resources.insert(resource_path.clone(), data);
                 }
                 None => {
                     return Err(io::Error::new(
@@ -136,7 +120,7 @@ impl ResourceStorage for MemoryResourceStorage {
                 }
             }
         }
-        let data = &self.storage.resources.lock().unwrap()[&resource_path];
+        let data = &resources[&resource_path];
         // We cannot prove to Rust that the buffer will live as long as the storage
         // (we never delete mappings), so we need to manually extend lifetime
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
-- 
2.43.0


From c09674c440b2f99c4802c1e42083385f0fac5f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:03 +0000
Subject: [PATCH 71/78] fix: C++: directories of a memory storage can be used
 by several threads at once

---
 .../include/flatdata/MemoryResourceStorage.h  | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
index bfae3fe..f419598 100644
--- a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
@@ -26,6 +26,8 @@ class MemoryResourceStorage : public ResourceStorage
         std::map< std::string, std::shared_ptr< std::stringstream > > streams;
         std::map< std::string, std::shared_ptr< std::string > > resources;
         std::set< std::string > created_directories;
+        // shared by all directories
+        mutable std::mutex mutex;
         // values of resources that have been replaced since they were read
         std::vector< std::shared_ptr< std::string > > replaced;
 
@@ -59,7 +61,6 @@ private:
 
 private:
     std::shared_ptr< Storage > m_storage;
-    mutable std::mutex m_storage_mutex;
     std::string m_path;
 };
 
@@ -77,7 +78,7 @@ MemoryResourceStorage::create_output_stream( const char* key )
     std::shared_ptr< std::stringstream > result(
         new std::stringstream( std::ofstream::out | std::ofstream::binary ) );
 
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->streams[ get_path( key ) ] = result;
     m_storage->remove( get_path( key ) );
 
@@ -131,7 +132,7 @@ MemoryResourceStorage::read_resource( const char* key )
 {
     const auto path = get_path( key );
 
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     if ( m_storage->resources.count( path ) == 0 )
     {
         auto found = m_storage->streams.find( path );
@@ -157,7 +158,7 @@ MemoryResourceStorage::read_resource( const char* key )
 inline void
 MemoryResourceStorage::assign_value( const char* key, MemoryDescriptor value )
 {
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->remove( key );
     m_storage->resources.insert( std::make_pair(
         std::string( key ),
@@ -173,7 +174,7 @@ MemoryResourceStorage::assign_value( const char* key, MemoryDescriptor value )
 inline void
 MemoryResourceStorage::assign_value( const char* key, const char* value )
 {
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->remove( key );
     m_storage->resources.insert(
         std::make_pair( std::string( key ), std::make_shared< std::string >( value ) ) );
@@ -189,7 +190,7 @@ inline std::unique_ptr< ResourceStorage >
 MemoryResourceStorage::create_directory( const char* key )
 {
     const auto new_path = get_path( key ) + "/";
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->created_directories.insert( new_path );
     return std::unique_ptr< MemoryResourceStorage >(
         new MemoryResourceStorage( m_storage, new_path ) );
@@ -199,7 +200,7 @@ inline std::unique_ptr< ResourceStorage >
 MemoryResourceStorage::directory( const char* key )
 {
     const auto new_path = get_path( key ) + "/";
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     if ( m_storage->created_directories.find( new_path ) == m_storage->created_directories.end( ) )
     {
         return nullptr;
@@ -276,7 +277,7 @@ inline bool
 MemoryResourceStorage::exists( const char* key )
 {
     auto path = get_path( key );
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     return m_storage->resources.count( path ) != 0 || m_storage->streams.count( path ) != 0
            || helpers::prefix_exists( m_storage->resources, path + "/" )
            || helpers::prefix_exists( m_storage->streams, path + "/" );
@@ -291,7 +292,7 @@ MemoryResourceStorage::dump_resources( bool dump_schemas, ResourceSerializer&& f
     };
 
     std::ostringstream ss;
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     for ( auto& resource : m_storage->resources )
     {
         if ( !is_schema( resource.first ) || dump_schemas )
-- 
2.43.0


From 215de657b579277a9644789aca96d220e3fc48fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:23 +0000
Subject: [PATCH 72/78] fix: Rust: interrupted writes of eight bytes looked
 like a complete empty resource

---
 flatdata-rs/lib/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-rs/lib/src/storage.rs b/flatdata-rs/lib/src/storage.rs
index c1a20f9..a199e74 100644
--- a/flatdata-rs/lib/src/storage.rs
+++ b/flatdata-rs/lib/src/storage.rs
@@ -307,9 +307,9 @@ impl<'a> ResourceHandle<'a> {
         mut stream: Box<dyn Stream>,
     ) -> io::Result<Self> {
         // Reserve space for size in the beginning of the stream, which will be updated
-        // later.
+        // later. Until then no amount of data may look complete.
         {
-            write_size(0u64, &mut stream)?;
+            write_size(u64::MAX, &mut stream)?;
         }
         Ok(Self {
             stream,
-- 
2.43.0


From bc11ceacadddc449ffe9e23d2d1277a805d7baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:28 +0000
Subject: [PATCH 73/78] fix: Python: data that was refused could be left
 looking like a complete resource

---
 flatdata-py/flatdata/lib/archive_builder.py | 26 ++++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive_builder.py b/flatdata-py/flatdata/lib/archive_builder.py
index 6714846..b736598 100644
--- a/flatdata-py/flatdata/lib/archive_builder.py
+++ b/flatdata-py/flatdata/lib/archive_builder.py
@@ -18,6 +18,18 @@ ResourceSignature = namedtuple("ResourceSignature",
                                ["container", "initializer", "schema", "is_optional", "doc"])
 
 
+class _Buffer(bytearray):
+    """
+    Collects the data of a resource before anything is written for it.
+    """
+
+    def write(self, data):
+        """
+        Adds data
+        """
+        self += data
+
+
 class IndexWriter:
     """
     IndexWriter class. Only applicable when multivector is present in archive schema.
@@ -271,18 +283,20 @@ class ArchiveBuilder:
             raise ResourceAlreadySetError()
 
         self.__validate(name, value)
-        self._write_schema(name)
-        storage = self._resource_storage.get(name, False)
 
+        data = _Buffer()
         if self._RESOURCES[name].container is Instance:
-            self.__set_instance(storage, name, value)
+            self.__set_instance(data, name, value)
         elif self._RESOURCES[name].container is Vector:
-            self.__set_vector(storage, name, value)
+            self.__set_vector(data, name, value)
         elif self._RESOURCES[name].container is Multivector:
-            self.__set_multivector(storage, name, value)
+            self.__set_multivector(data, name, value)
         elif self._RESOURCES[name].container is RawData:
-            storage.write(value.encode("utf-8") if isinstance(value, str) else value)
+            data.write(value.encode("utf-8") if isinstance(value, str) else value)
 
+        self._write_schema(name)
+        storage = self._resource_storage.get(name, False)
+        storage.write(data)
         storage.add_size()
         storage.add_padding()
         storage.close()
-- 
2.43.0


From 69af676a425e572fb2c2223e0078f0679265b230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:54 +0000
Subject: [PATCH 74/78] fix: Rust: the build helper takes folders named like a
 schema for schemas

---
 flatdata-rs/lib/src/generator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/generator.rs b/flatdata-rs/lib/src/generator.rs
index 7e75053..2916b85 100644
--- a/flatdata-rs/lib/src/generator.rs
+++ b/flatdata-rs/lib/src/generator.rs
@@ -110,7 +110,8 @@ pub fn generate(
 
     for entry in walkdir::WalkDir::new(schemas_path) {
         let entry = entry?;
-        if entry.path().extension().map_or(true, |x| x != "flatdata") {
+        // folders might be named like a schema, too
+        if entry.path().is_dir() || entry.path().extension().map_or(true, |x| x != "flatdata") {
             continue;
         }
 
-- 
2.43.0


From 17346f58cdd6e9b5c9b99e925099781b295705d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:54 +0000
Subject: [PATCH 75/78] fix: C++: access statistics leave out the last, partial
 page of a resource

---
 flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h b/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h
index 9114d6d..1dd7a02 100644
--- a/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h
+++ b/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h
@@ -220,7 +220,7 @@ struct DebugDataAccessStatistics
             std::cerr << "        bytes [accessed]: "
                       << ( x->num_bytes_accessed * 100.0 / x->data.size( ) ) << "%" << std::endl;
             std::cerr << "        pages [count]: " << x->pages.size( ) << " out of "
-                      << x->data.size( ) / PAGE_SIZE << std::endl;
+                      << ( x->data.size( ) + PAGE_SIZE - 1 ) / PAGE_SIZE << std::endl;
             std::cerr << "        pages [data access]: "
                       << x->num_bytes_accessed * 100.0 / x->pages.size( ) / PAGE_SIZE << "%"
                       << std::endl;
-- 
2.43.0


From a36212e27451b14f68a4d7e304f7a7febad8e478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:07 +0000
Subject: [PATCH 76/78] fix: C++: clearing the access statistics kept the
 unregistered reads

---
 flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h b/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h
index 1dd7a02..d7a83a7 100644
--- a/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h
+++ b/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h
@@ -160,6 +160,7 @@ struct DebugDataAccessStatistics
         auto& self = instance( );
         std::unique_lock lock( self.m_mutex );
         self.m_inactive_mappings.clear( );
+        self.m_unregistered_bytes_read = 0;
         for ( auto& mapping : self.m_active_mappings )
         {
             for ( auto& x : mapping.second->accessed )
-- 
2.43.0


From d72fd026457cf12b7dd11416c072785cd72e636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:02 +0000
Subject: [PATCH 77/78] fix: C++: using a closed vector or multivector crashed

Closing one again, or growing it until it flushes, wrote to a stream that
is gone. ResourceHandle::close already expects to be called again and
reports failure; write did not.
---
 flatdata-cpp/include/flatdata/internal/ResourceHandle.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatdata-cpp/include/flatdata/internal/ResourceHandle.h b/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
index 2d4eab0..a3efa18 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
+++ b/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
@@ -41,6 +41,11 @@ template < typename T >
 void
 ResourceHandle::write( T* data, size_t size_in_bytes )
 {
+    if ( m_stream == nullptr )
+    {
+        // closed already
+        return;
+    }
     m_stream->write( reinterpret_cast< const char* >( data ), size_in_bytes );
     m_size_in_bytes += size_in_bytes;
 }
-- 
2.43.0


From d88482029b4c191cfc0629dc8777e63cab4ce11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:28 +0000
Subject: [PATCH 78/78] fix: C++: programs with access statistics did not
 compile

The header sorts, but relied on others to include <algorithm>: including
FileResourceStorage.h first failed.
---
 flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h b/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h
index d7a83a7..51da1c4 100644
--- a/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h
+++ b/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h
@@ -9,10 +9,12 @@
 
 #include <flatdata/MemoryDescriptor.h>
 
+#include <algorithm>
 #include <atomic>
 #include <bitset>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <memory>
 #include <mutex>
-- 
2.43.0

