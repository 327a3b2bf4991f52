From 65e2bc0d61b6fe24dd595be69e8b8505ca77fa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:01 +0000
Subject: [PATCH 01/23] fix: mat backend: do not use numpy.object, which numpy
 no longer provides

---
 dsch/backends/mat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 8b89110..c9fa766 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -87,7 +87,7 @@ class List(npz.List):
         # If the list layer got squeezed away, we need to re-introduce it here
         if not isinstance(data_storage, np.ndarray) \
                 or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=np.object)
+            data_storage = np.array([data_storage], dtype=object)
 
         for field in data_storage:
             subnode = data.data_node_from_schema(self.schema_node.subnode,
@@ -99,12 +99,12 @@ class List(npz.List):
         """Export the node data as a data storage object.
 
         For the mat backend, List data is represented as a NumPy object array,
-        i.e. a :class:`numpy.ndarray` with ``dtype=numpy.object``.
+        i.e. a :class:`numpy.ndarray` with ``dtype=object``.
 
         Returns:
             dict: Data storage object with the node's data.
         """
-        data_storage = np.zeros((len(self._subnodes),), dtype=np.object)
+        data_storage = np.zeros((len(self._subnodes),), dtype=object)
         for idx, node in enumerate(self._subnodes):
             data_storage[idx] = node.save()
         return data_storage
-- 
2.43.0


From d7d035971035f9bfa79d8f7e27471f1e7ab79160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 02/23] fix: hdf5 backend: replacing bytes must not truncate or
 pad the new value, and empty bytes must be storable

---
 dsch/backends/hdf5.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 1f37986..46be024 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -126,11 +126,11 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        if self._storage:
-            self._storage[()] = np.void(new_value)
-        else:
-            self._storage = self._parent.create_dataset(
-                self._dataset_name, data=np.void(new_value))
+        # The dataset is always re-created, because its type includes the length
+        # of the value. HDF5 has no opaque type of size zero, so an empty value
+        # is represented by an empty array.
+        super().replace(np.void(new_value) if new_value
+                        else np.empty(0, dtype='S1'))
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From 22102d1deadedcef20fd7a1e865eeae1fbb017ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 03/23] fix: npz backend: empty bytes and trailing null bytes
 must survive saving and loading

---
 dsch/backends/npz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index b7901c4..b47d79e 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -60,7 +60,9 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self._storage = np.array(new_value, dtype='bytes')
+        # Store individual bytes, since a single NumPy bytes item cannot be
+        # empty and is stripped of trailing null bytes.
+        self._storage = np.frombuffer(new_value, dtype='S1')
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From 8c98939ae5801eb962f33cc0a77ee595ba029b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 04/23] fix: mat backend: load without squeezing, which
 destroyed lists with one item, array shapes and empty strings

---
 dsch/backends/mat.py | 97 ++++++++++++++++++++++++++++++++------------
 1 file changed, 72 insertions(+), 25 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index c9fa766..dccc487 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -5,17 +5,50 @@ from . import npz
 from .. import data, schema
 
 
+class _ItemNode(npz._ItemNode):
+    """Common base class for data nodes for the mat backend."""
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        MATLAB arrays always have at least two dimensions, while all items
+        except :class:`Array` are represented by one-dimensional arrays.
+
+        Args:
+            data_storage: Backend-specific data storage object to load.
+        """
+        super()._init_from_storage(np.ravel(data_storage))
+
+
 class Array(npz.Array):
     """Array-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        MATLAB arrays always have at least two dimensions, but no trailing
+        dimensions of size one beyond that. This restores the original shape.
+
+        Args:
+            data_storage (numpy.ndarray): Backend-specific data storage object
+                to load.
+        """
+        data_storage = np.asarray(data_storage)
+        ndim = self.schema_node.ndim
+        if ndim > data_storage.ndim:
+            data_storage = data_storage.reshape(
+                data_storage.shape + (1,) * (ndim - data_storage.ndim))
+        elif ndim == 1 and data_storage.shape[0] <= 1:
+            data_storage = data_storage.ravel()
+        super()._init_from_storage(data_storage)
 
 
-class Bytes(npz.Bytes):
+class Bytes(_ItemNode, npz.Bytes):
     """Bytes-type data node for the mat backend."""
     pass
 
 
-class Bool(npz.Bool):
+class Bool(_ItemNode, npz.Bool):
     """Bool-type data node for the mat backend."""
     pass
 
@@ -37,19 +70,20 @@ class Compilation(npz.Compilation):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # For Compilation inside Compilation, scipy.io.loadmat seems to wrap
-        # the inner Compilation in an additional scalar ndarray with dtype
-        # object. This must be ignored, if present.
-        if data_storage.shape == ():
-            data_storage = data_storage[()]
+        # Structs are represented by arrays with a single element, possibly
+        # wrapped in additional arrays with dtype object. A struct without any
+        # fields is represented by None.
+        while isinstance(data_storage, np.ndarray):
+            data_storage = data_storage.ravel()[0]
 
         for node_name, subnode in self.schema_node.subnodes.items():
             # Work around the fact that we cannot use
             # data_storage.get(node_name) because data_storage is not a dict,
-            # but a numpy.ndarray.
-            try:
+            # but a numpy.void.
+            if data_storage is not None \
+                    and node_name in data_storage.dtype.names:
                 node_storage = data_storage[node_name]
-            except ValueError:
+            else:
                 node_storage = None
 
             self._subnodes[node_name] = data.data_node_from_schema(
@@ -57,12 +91,12 @@ class Compilation(npz.Compilation):
                 data_storage=node_storage)
 
 
-class Date(npz.Date):
+class Date(_ItemNode, npz.Date):
     """Date-type data node for the mat backend."""
     pass
 
 
-class DateTime(npz.DateTime):
+class DateTime(_ItemNode, npz.DateTime):
     """DateTime-type data node for the mat backend."""
     pass
 
@@ -84,12 +118,7 @@ class List(npz.List):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # If the list layer got squeezed away, we need to re-introduce it here
-        if not isinstance(data_storage, np.ndarray) \
-                or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=object)
-
-        for field in data_storage:
+        for field in data_storage.ravel():
             subnode = data.data_node_from_schema(self.schema_node.subnode,
                                                  self.__module__, self,
                                                  data_storage=field)
@@ -112,7 +141,17 @@ class List(npz.List):
 
 class Scalar(npz.Scalar):
     """Scalar-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        MATLAB arrays always have at least two dimensions, so the actual scalar
+        must be extracted first.
+
+        Args:
+            data_storage: Backend-specific data storage object to load.
+        """
+        super()._init_from_storage(np.ravel(data_storage)[0])
 
 
 class Storage(npz.Storage):
@@ -129,8 +168,8 @@ class Storage(npz.Storage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
-        file_ = sio.loadmat(self.storage_path, squeeze_me=True)
-        self.schema_node = schema.node_from_json(file_['schema'])
+        file_ = sio.loadmat(self.storage_path)
+        self.schema_node = schema.node_from_json(file_['schema'][0])
         data_storage = file_.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
@@ -145,11 +184,19 @@ class Storage(npz.Storage):
         sio.savemat(self.storage_path, store_data)
 
 
-class String(npz.String):
+class String(_ItemNode, npz.String):
     """String-type data node for the mat backend."""
-    pass
+
+    def _value(self):
+        """Return the actual node data, independent of the backend in use.
+
+        Returns:
+            Node data.
+        """
+        # An empty string is loaded as an array without elements.
+        return ''.join(np.ravel(self._storage))
 
 
-class Time(npz.Time):
+class Time(_ItemNode, npz.Time):
     """Time-type data node for the mat backend."""
     pass
-- 
2.43.0


From 6e7957007414af22037762007e9cfd0f64b26259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 05/23] fix: mat backend: bytes could not be loaded, because
 they were stored as characters

---
 dsch/backends/mat.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index dccc487..62b00e1 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -45,7 +45,19 @@ class Array(npz.Array):
 
 class Bytes(_ItemNode, npz.Bytes):
     """Bytes-type data node for the mat backend."""
-    pass
+
+    def replace(self, new_value):
+        """Completely replace the current node value.
+
+        Instead of changing parts of the data (e.g. via numpy array slicing),
+        replace the entire data object for this node.
+
+        Args:
+            new_value: New value to apply to the node, independent of the
+                backend in use.
+        """
+        # MATLAB strings are made of characters, so use plain integers.
+        self._storage = np.frombuffer(new_value, dtype='uint8')
 
 
 class Bool(_ItemNode, npz.Bool):
-- 
2.43.0


From 40bb2402586bdcf8366743d7a9cc37c091e56220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 06/23] fix: mat backend: restore the dtype of bool and float16
 arrays on loading

---
 dsch/backends/mat.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 62b00e1..cef1cfe 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -28,6 +28,8 @@ class Array(npz.Array):
 
         MATLAB arrays always have at least two dimensions, but no trailing
         dimensions of size one beyond that. This restores the original shape.
+        Also, booleans are stored as integers and half-precision numbers as
+        doubles, so this restores the original dtype, too.
 
         Args:
             data_storage (numpy.ndarray): Backend-specific data storage object
@@ -40,6 +42,10 @@ class Array(npz.Array):
                 data_storage.shape + (1,) * (ndim - data_storage.ndim))
         elif ndim == 1 and data_storage.shape[0] <= 1:
             data_storage = data_storage.ravel()
+        dtype = np.dtype(self.schema_node.dtype)
+        if (dtype, data_storage.dtype) in (('bool', 'uint8'),
+                                           ('float16', 'float64')):
+            data_storage = data_storage.astype(dtype)
         super()._init_from_storage(data_storage)
 
 
-- 
2.43.0


From a799e6c25750043324593ffee55a5dd12941c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 07/23] fix: npz backend: save to exactly the storage path,
 whatever its file extension

---
 dsch/backends/npz.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index b47d79e..3973a5e 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -268,8 +268,9 @@ class Storage(storage.FileStorage):
                 store_data = _flatten_dotted({'data': output_data})
             else:
                 store_data = {}
-        np.savez(self.storage_path, _schema=self.schema_node.to_json(),
-                 **store_data)
+        # Use a file object, since NumPy appends '.npz' to any other file name.
+        with open(self.storage_path, 'wb') as file_:
+            np.savez(file_, _schema=self.schema_node.to_json(), **store_data)
 
 
 class String(_ItemNode):
-- 
2.43.0


From 649c1fa2b82adc8c6001261c34e48008ab10ce72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 08/23] fix: compare each independent variable with its own
 dimension if other dimensions have none

---
 dsch/data.py   | 3 +++
 dsch/schema.py | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index 4616bdc..dc6084d 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -314,6 +314,9 @@ class Array(ItemNode):
             if node_name:
                 independent_values.append(getattr(self.parent, node_name)
                                           .value)
+            else:
+                # Keep the values aligned with the array's dimensions.
+                independent_values.append(None)
         self.schema_node.validate(self.value, independent_values)
 
 
diff --git a/dsch/schema.py b/dsch/schema.py
index ce3cf71..716b58d 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -234,7 +234,8 @@ class Array(SchemaNode):
         in contrast to other node types, this method requires a second
         argument, supplying a tuple of :class:`numpy.ndarray` representing the
         independent variables. The tuple's length must consequently be equal to
-        :attr:`ndim` and to the length of :attr:`depends_on`.
+        :attr:`ndim` and to the length of :attr:`depends_on`. For dimensions
+        without an independent variable, it must contain ``None``.
 
         If validation succeeds, the method terminates silently. Otherwise, an
         exception is raised.
@@ -276,6 +277,8 @@ class Array(SchemaNode):
 
         if self.depends_on:
             for dim, value in zip(test_data.shape, independent_values):
+                if value is None:
+                    continue
                 if value.ndim > 1:
                     raise ValueError('Independent variable array must be '
                                      'one-dimensional.')
-- 
2.43.0


From eff57a62b1d6c37c8fcf820ad741aae268f59d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 09/23] fix: enforce a maximum length or maximum array shape of
 zero

---
 dsch/schema.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index 716b58d..1160a05 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -258,7 +258,7 @@ class Array(SchemaNode):
                                   self.ndim, test_data.ndim)
         if self.max_shape:
             for nominal, actual in zip(self.max_shape, test_data.shape):
-                if nominal and actual > nominal:
+                if nominal is not None and actual > nominal:
                     raise ValidationError('Maximum array shape exceeded.',
                                           self.max_shape, test_data.shape)
         if self.min_shape:
@@ -340,7 +340,8 @@ class Bytes(SchemaNode):
         if not isinstance(test_data, bytes):
             raise ValidationError('Invalid type/value.', 'bytes',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None \
+                and len(test_data) > self.max_length:
             raise ValidationError('Maximum bytes length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
@@ -660,7 +661,8 @@ class List(SchemaNode):
         Raises:
             dsch.exceptions.ValidationError: if validation fails.
         """
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None \
+                and len(test_data) > self.max_length:
             raise ValidationError('Maximum list length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
@@ -818,7 +820,8 @@ class String(SchemaNode):
         if not isinstance(test_data, str):
             raise ValidationError('Invalid type/value.', 'str',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None \
+                and len(test_data) > self.max_length:
             raise ValidationError('Maximum string length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
-- 
2.43.0


From 36568ca819772541444d75237aec49973c67feaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 10/23] fix: schema nodes reloaded from JSON must equal the
 original, also with shapes, depends_on or optionals

---
 dsch/schema.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index 1160a05..f60464d 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -184,8 +184,9 @@ class Array(SchemaNode):
 
         self.dtype = dtype
         self.unit = unit
-        self.max_shape = max_shape
-        self.min_shape = min_shape
+        # Always use tuples, since JSON turns tuples into lists.
+        self.max_shape = None if max_shape is None else tuple(max_shape)
+        self.min_shape = None if min_shape is None else tuple(min_shape)
         if max_shape or min_shape:
             self.ndim = len(max_shape or min_shape)
         else:
@@ -195,7 +196,8 @@ class Array(SchemaNode):
         if isinstance(depends_on, str):
             self.depends_on = (depends_on,)
         else:
-            self.depends_on = depends_on
+            self.depends_on = (None if depends_on is None
+                               else tuple(depends_on))
         if self.depends_on and len(self.depends_on) != self.ndim:
             raise ValueError('Number of independent variables must be equal '
                              'to the number of array dimensions.')
@@ -426,7 +428,7 @@ class Compilation(SchemaNode):
                 checking for completeness.
         """
         self.subnodes = subnodes
-        self.optionals = optionals or []
+        self.optionals = list(optionals or [])
 
     @classmethod
     def from_dict(cls, node_dict):
-- 
2.43.0


From 89a1ed60afa6aa479550be82fba54a0eef0c1757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 11/23] fix: report missing compilation fields as
 AttributeError

---
 dsch/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index dc6084d..9d04dc7 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -449,7 +449,10 @@ class Compilation:
 
         This returns the entire sub-node object, not just the node value.
         """
-        return self._subnodes[attr_name]
+        try:
+            return self._subnodes[attr_name]
+        except KeyError:
+            raise AttributeError(attr_name) from None
 
     def _init_from_storage(self, data_storage):
         """Initialize Compilation from the given data storage object.
-- 
2.43.0


From 73d31063d25440c55a54bc7fd39e113a6c152fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:55 +0000
Subject: [PATCH 12/23] fix: allow numpy.dtype objects in schemas, which could
 not be hashed or saved

---
 dsch/schema.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index f60464d..fe81809 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -213,7 +213,7 @@ class Array(SchemaNode):
             dict: dict-representation of the node.
         """
         config = {
-            'dtype': self.dtype,
+            'dtype': _dtype_name(self.dtype),
             'unit': self.unit,
             'max_shape': self.max_shape,
             'min_shape': self.min_shape,
@@ -732,7 +732,7 @@ class Scalar(SchemaNode):
             dict: dict-representation of the node.
         """
         config = {
-            'dtype': self.dtype,
+            'dtype': _dtype_name(self.dtype),
             'unit': self.unit,
             'max_value': self.max_value,
             'min_value': self.min_value,
@@ -887,6 +887,18 @@ class Time(SchemaNode):
                                   type(test_data))
 
 
+def _dtype_name(dtype):
+    """Convert a dtype specification to a JSON-compatible string.
+
+    Args:
+        dtype (numpy.dtype or str): NumPy dtype specification.
+
+    Returns:
+        str: String representation of the dtype.
+    """
+    return dtype if isinstance(dtype, str) else np.dtype(dtype).str
+
+
 def node_from_dict(node_dict):
     """Create a new node from its ``node_dict``.
 
-- 
2.43.0


From ad763a5e4be2ab73c3df9a3feb28bf39ac2ab48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 13/23] fix: PseudoStorage must not keep a storage with an
 unaccepted schema, which close() would save

---
 dsch/frontend.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dsch/frontend.py b/dsch/frontend.py
index 0ea1029..afd02ce 100644
--- a/dsch/frontend.py
+++ b/dsch/frontend.py
@@ -255,11 +255,12 @@ class PseudoStorage:
             raise RuntimeError('PseudoStorage is already open.')
         if isinstance(self._data_storage, str):
             if os.path.exists(self._data_storage):
-                self.storage = load(self._data_storage)
-                self._verify_schema(self.storage.schema_node)
+                storage = load(self._data_storage)
+                self._verify_schema(storage.schema_node)
             else:
-                self.storage = create(self._data_storage,
-                                      schema_node=self._schema_node)
+                storage = create(self._data_storage,
+                                 schema_node=self._schema_node)
+            self.storage = storage
             self.data = self.storage.data
         else:
             self.storage = None
-- 
2.43.0


From f0d1d82cf73e0c297a096ee4089a2da06ebd9054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 14/23] fix: set_on_create must not fill fields that are loaded
 as empty

---
 dsch/backends/hdf5.py | 6 ++++++
 dsch/backends/mat.py  | 6 ++++++
 dsch/backends/npz.py  | 4 ++++
 dsch/data.py          | 4 ++++
 4 files changed, 20 insertions(+)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 46be024..decda94 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -190,6 +190,9 @@ class Compilation(data.Compilation):
                 new_params_sub = {'name': node_name, 'parent': data_storage}
                 self._subnodes[node_name] = data.data_node_from_schema(
                     subnode, self.__module__, self, new_params=new_params_sub)
+                # The field is stored as empty, so there must not be a value
+                # from `set_on_create`.
+                self._subnodes[node_name].clear()
 
     def _init_new(self, new_params):
         """Initialize new, empty Compilation.
@@ -384,6 +387,9 @@ class Storage(storage.FileStorage):
                 self.data = data.data_node_from_schema(self.schema_node,
                                                        self.__module__, None,
                                                        new_params=new_params)
+                # The data is stored as empty, so there must not be a value
+                # from `set_on_create`.
+                self.data.clear()
                 return
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index cef1cfe..ab2a385 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -107,6 +107,10 @@ class Compilation(npz.Compilation):
             self._subnodes[node_name] = data.data_node_from_schema(
                 subnode, self.__module__, self,
                 data_storage=node_storage)
+            if node_storage is None:
+                # The field is stored as empty, so there must not be a value
+                # from `set_on_create`.
+                self._subnodes[node_name].clear()
 
 
 class Date(_ItemNode, npz.Date):
@@ -192,6 +196,8 @@ class Storage(npz.Storage):
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
                                                data_storage=data_storage)
+        if data_storage is None:
+            self.data.clear()
 
     def _save(self):
         """Save the current data to the file in :attr:`storage_path`."""
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 3973a5e..320f78a 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -250,6 +250,10 @@ class Storage(storage.FileStorage):
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
                                                data_storage=data_storage)
+        if data_storage is None:
+            # The data is stored as empty, so there must not be a value from
+            # `set_on_create`.
+            self.data.clear()
 
     def _new(self):
         """Create a new file at :attr:`storage_path`."""
diff --git a/dsch/data.py b/dsch/data.py
index 9d04dc7..4a98435 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -473,6 +473,10 @@ class Compilation:
             self._subnodes[node_name] = data_node_from_schema(
                 subnode, self.__module__, self,
                 data_storage=node_storage)
+            if node_storage is None:
+                # The field is stored as empty, so there must not be a value
+                # from `set_on_create`.
+                self._subnodes[node_name].clear()
 
     def _init_new(self, new_params):
         """Initialize new, empty Compilation.
-- 
2.43.0


From 71babe157eac7bbeb3bc5b047b51a0553e5b8223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 15/23] fix: load_from must copy empty nodes, replace list
 items and not share arrays with the source

---
 dsch/data.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dsch/data.py b/dsch/data.py
index 4a98435..79c7530 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -11,6 +11,7 @@ implementing the respective functionality. The classes in this module provide
 common functionality and are intended to be used as base classes.
 Different backends are implemented in the :mod:`dsch.backends` package.
 """
+import copy
 import datetime
 import importlib
 
@@ -151,7 +152,7 @@ class ItemNode:
         This is effectively a shorthand for ``self.replace(source_node.value)``
         with additional checking of node compatibility. Two nodes are
         considered compatible if their ``schema_node`` attributes are
-        identical.
+        identical. If the source node is empty, this node is cleared.
 
         Args:
             source_node: Data node to copy value from.
@@ -159,7 +160,11 @@ class ItemNode:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
-        self.replace(source_node.value)
+        if source_node.empty:
+            self.clear()
+        else:
+            # Never share mutable values (i.e. arrays) between nodes.
+            self.replace(copy.deepcopy(source_node.value))
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
@@ -503,7 +508,7 @@ class Compilation:
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
         for key, subnode in self._subnodes.items():
-            subnode.load_from(getattr(source_node, key))
+            subnode.load_from(source_node._subnodes[key])
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
@@ -804,6 +809,7 @@ class List:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
+        self.clear()
         for idx, subnode in enumerate(source_node):
             self.append()
             self[idx].load_from(subnode)
-- 
2.43.0


From d07bbc1cefcdc9cf9e852a77e3e66fbe018875de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 16/23] fix: resizing arrays must also work after loading, when
 numpy arrays do not own their data

---
 dsch/backends/inmem.py | 15 ++++++++++++++-
 dsch/backends/npz.py   | 14 ++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/inmem.py b/dsch/backends/inmem.py
index f768daa..5488893 100644
--- a/dsch/backends/inmem.py
+++ b/dsch/backends/inmem.py
@@ -41,7 +41,20 @@ class _ItemNode(data.ItemNode):
 
 class Array(data.Array, _ItemNode):
     """Array-type data node for the inmem backend."""
-    pass
+
+    def resize(self, size):
+        """Resize the stored array.
+
+        NumPy only resizes arrays in-place that own their data and are not
+        referenced elsewhere, which is not the case for loaded arrays.
+
+        Args:
+            size: Desired new size. This is specified as a tuple, even for
+                one-dimensional arrays.
+        """
+        resized = self._storage.copy()
+        resized.resize(size, refcheck=False)
+        self._storage = resized
 
 
 class Bytes(_ItemNode):
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 320f78a..97cb349 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -38,6 +38,20 @@ class Array(data.Array, _ItemNode):
         """
         self._storage = new_value
 
+    def resize(self, size):
+        """Resize the stored array.
+
+        NumPy only resizes arrays in-place that own their data and are not
+        referenced elsewhere, which is not the case for loaded arrays.
+
+        Args:
+            size: Desired new size. This is specified as a tuple, even for
+                one-dimensional arrays.
+        """
+        resized = self._storage.copy()
+        resized.resize(size, refcheck=False)
+        self._storage = resized
+
     def _value(self):
         """Return the actual node data, independent of the backend in use.
 
-- 
2.43.0


From 236154bd855f515b675788e4c47b1cb030f4e3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 17/23] fix: comparing a schema node with a node class must
 give False instead of raising

---
 dsch/schema.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index fe81809..a502b75 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -48,11 +48,9 @@ class SchemaNode:
 
     def __eq__(self, other):
         """Implement the == operator for schema nodes."""
-        try:
-            other_dict = other.to_dict()
-        except AttributeError:
+        if not isinstance(other, SchemaNode):
             return False
-        return self.to_dict() == other_dict
+        return self.to_dict() == other.to_dict()
 
     @classmethod
     def from_dict(cls, node_dict):
-- 
2.43.0


From a487b594d56ac7ec2e1870a6894d2f6e68584aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 18/23] fix: zero-dimensional arrays must be loadable and valid
 in the hdf5 and mat backends

---
 dsch/backends/hdf5.py | 3 ++-
 dsch/backends/mat.py  | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index decda94..f8bc2dc 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -110,7 +110,8 @@ class Array(data.Array, _ItemNode):
         Returns:
             Node data.
         """
-        return self._storage[()]
+        # h5py gives a scalar instead of a zero-dimensional array.
+        return np.asarray(self._storage[()])
 
 
 class Bytes(_ItemNode):
diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index ab2a385..aaadb09 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -42,6 +42,8 @@ class Array(npz.Array):
                 data_storage.shape + (1,) * (ndim - data_storage.ndim))
         elif ndim == 1 and data_storage.shape[0] <= 1:
             data_storage = data_storage.ravel()
+        elif ndim == 0 and data_storage.size == 1:
+            data_storage = data_storage.reshape(())
         dtype = np.dtype(self.schema_node.dtype)
         if (dtype, data_storage.dtype) in (('bool', 'uint8'),
                                            ('float16', 'float64')):
-- 
2.43.0


From 40e36cce9108f2d9cfbbb28cba7b623fa3f0f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:06 +0000
Subject: [PATCH 19/23] fix: compare schema nodes consistently with their
 hashes

1, 1.0 and True are equal in Python, but different in JSON, so that nodes
with different hashes could compare equal.
---
 dsch/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index a502b75..59a7bb8 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -50,7 +50,7 @@ class SchemaNode:
         """Implement the == operator for schema nodes."""
         if not isinstance(other, SchemaNode):
             return False
-        return self.to_dict() == other.to_dict()
+        return self.to_json() == other.to_json()
 
     @classmethod
     def from_dict(cls, node_dict):
-- 
2.43.0


From 64673acedb5e4ca17bc19ff857b22b05acfb4ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:06 +0000
Subject: [PATCH 20/23] fix: schemas with NumPy numbers as limits can be stored

json cannot serialise NumPy integers and most floats, so saving a storage
with e.g. max_value=numpy.int32(5) in its schema raised TypeError.
---
 dsch/schema.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index 59a7bb8..fb2f219 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -98,7 +98,8 @@ class SchemaNode:
         Returns:
             str: JSON representation of the node.
         """
-        return json.dumps(self.to_dict(), sort_keys=True)
+        return json.dumps(self.to_dict(), sort_keys=True,
+                          default=_builtin_number)
 
 
 class Array(SchemaNode):
@@ -897,6 +898,23 @@ def _dtype_name(dtype):
     return dtype if isinstance(dtype, str) else np.dtype(dtype).str
 
 
+def _builtin_number(number):
+    """Convert a NumPy number to its JSON-compatible built-in counterpart.
+
+    Args:
+        number (numpy.integer or numpy.floating): NumPy number.
+
+    Returns:
+        int or float: The same number as an instance of a built-in type.
+    """
+    if isinstance(number, np.integer):
+        return int(number)
+    if isinstance(number, np.floating):
+        return float(number)
+    raise TypeError('Object of type {} is not JSON serializable.'.format(
+        type(number).__name__))
+
+
 def node_from_dict(node_dict):
     """Create a new node from its ``node_dict``.
 
-- 
2.43.0


From 0f224a10bdafb32170367cd8a0ed1857b09077e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 21/23] fix: Compilation.to_dict handed out the node's own list
 of optionals

---
 dsch/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index fb2f219..7ff72a2 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -462,7 +462,7 @@ class Compilation(SchemaNode):
                         self.subnodes.items()}
         return {'node_type': 'Compilation', 'config': {
             'subnodes': subnode_dict,
-            'optionals': self.optionals,
+            'optionals': list(self.optionals),
         }}
 
 
-- 
2.43.0


From 49cdebaef682e7b3efbeff01b636cdd7645d8728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:34 +0000
Subject: [PATCH 22/23] fix: keep the items of a List that is loaded from
 itself

---
 dsch/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsch/data.py b/dsch/data.py
index 79c7530..eaca09e 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -809,6 +809,9 @@ class List:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
+        if source_node is self:
+            # Clearing would remove the data that is to be loaded.
+            return
         self.clear()
         for idx, subnode in enumerate(source_node):
             self.append()
-- 
2.43.0


From 1e4e8fe2274f5478a27d20da53c885157f2f2df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:58 +0000
Subject: [PATCH 23/23] fix: read all new List entries before the current ones
 are removed

---
 dsch/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsch/data.py b/dsch/data.py
index eaca09e..c5360b7 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -846,6 +846,8 @@ class List:
         Args:
             new_value (list): New entries to put into the List.
         """
+        # The given values may depend on the current items, e.g. in a generator.
+        new_value = list(new_value)
         self.clear()
         for item in new_value:
             self.append(item)
-- 
2.43.0

