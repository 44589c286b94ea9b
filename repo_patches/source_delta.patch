From 3f187ab1d5d5deafd2b4b130e6b527624eb3b765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:49 +0000
Subject: [PATCH 01/88] fix: align operands by dimension name in !=, <, <=, >
 and >= like in ==

---
 hftools/dataset/arrayobj.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 6fc190f..82a1e8d 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -745,6 +745,26 @@ class _hfarray(ndarray):
     def __eq__(self, other):
         return ndarray.__eq__(self, other)
 
+    @check_instance
+    def __ne__(self, other):
+        return ndarray.__ne__(self, other)
+
+    @check_instance
+    def __lt__(self, other):
+        return ndarray.__lt__(self, other)
+
+    @check_instance
+    def __le__(self, other):
+        return ndarray.__le__(self, other)
+
+    @check_instance
+    def __gt__(self, other):
+        return ndarray.__gt__(self, other)
+
+    @check_instance
+    def __ge__(self, other):
+        return ndarray.__ge__(self, other)
+
     @check_instance
     def __rdiv__(self, other):
         return np.divide(other, self)
-- 
2.43.0


From 76016719f3fc9ea0e15f5b795282ce6e0bac7c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:21 +0000
Subject: [PATCH 02/88] fix: indexing with a list or ndarray selects the
 dimension's coordinates too

---
 hftools/dataset/arrayobj.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 82a1e8d..c3d9405 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -665,6 +665,8 @@ class _hfarray(ndarray):
                 continue
             elif isinstance(idx, slice):
                 dims.append(dim[idx])
+            elif dim.name not in dim_in_indices and np.ndim(idx) == 1:
+                dims.append(dim[np.asarray(idx)])
             else:
                 dims.append(dim_in_indices.get(dim.name, dim))
         if ellipsis_and_ints:
-- 
2.43.0


From 0217044a54d57e10522960db42c54dca971a6831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:06 +0000
Subject: [PATCH 03/88] fix: take keeps the selected coordinates and the unit
 of the dimension

---
 hftools/dataset/arrayobj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index c3d9405..dd03983 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -566,7 +566,8 @@ class _hfarray(ndarray):
             return hfarray(data, dims=(DimAnonymous("anon1", indices), ))
         axis = self.dims_index(axis_handler(self, axis))
         olddim = self.dims[axis]
-        newdim = olddim.__class__(olddim.name, indices)
+        newdim = olddim.__class__(olddim, data=olddim.data.take(indices,
+                                                                mode=mode))
         data = np.ndarray.take(self, indices, axis, out, mode)
         newdims = list(self.dims)
         newdims[axis] = newdim
-- 
2.43.0


From 2009895156d600546af501d0b23466c6455c4ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:52 +0000
Subject: [PATCH 04/88] fix: indexing with a tuple that contains arrays no
 longer fails on the newaxis test

---
 hftools/dataset/arrayobj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index dd03983..2d2ef93 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -605,7 +605,8 @@ class _hfarray(ndarray):
 
     @apply_outputformat
     def __getitem__(self, x):
-        if x is newaxis or (isinstance(x, tuple) and newaxis in x):
+        if x is newaxis or (isinstance(x, tuple) and
+                            any(i is newaxis for i in x)):
             return self.view(type=ndarray, dtype=self.dtype)[x]
         if x is Ellipsis:
             return self.view()
-- 
2.43.0


From 8ea7568ab04ef5148782d3347fa892956088d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:46 +0000
Subject: [PATCH 05/88] fix: reductions accept a negative axis number

---
 hftools/dataset/arrayobj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 2d2ef93..c5a4400 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -994,7 +994,7 @@ def multiple_axis_handler(a, axis):
     for ax in axis:
         if isinstance(ax, integer_types):
             outaxis.append(a.dims[ax])
-            outidx.append(ax)
+            outidx.append(ax if ax >= 0 else ax + len(a.dims))
             continue
         if isinstance(ax, string_types):
             i = a.dims_index(ax)
-- 
2.43.0


From 353cdd81fb927ca58ff88486a70a38eec8b9db94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:15 +0000
Subject: [PATCH 06/88] fix: std and var use their ddof argument

---
 hftools/dataset/arrayobj.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index c5a4400..2344c2f 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -844,7 +844,8 @@ class _hfarray(ndarray):
                 raise
             else:
                 return self
-        r = np.asarray(self).std(dimidx, dtype=dtype, out=out, keepdims=True)
+        r = np.asarray(self).std(dimidx, dtype=dtype, out=out, ddof=ddof,
+                                 keepdims=True)
         res = hfarray(r, dims=self.dims)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
@@ -864,7 +865,8 @@ class _hfarray(ndarray):
                 raise
             else:
                 return self
-        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, keepdims=True)
+        r = np.asarray(self).var(dimidx, dtype=dtype, out=out, ddof=ddof,
+                                 keepdims=True)
         res = hfarray(r, dims=self.dims)
         if not keepdims:
             res = res.squeeze(axis=dimidx)
-- 
2.43.0


From 5a2826e3251be6f5021296025d1a8ad9ccf14292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:08 +0000
Subject: [PATCH 07/88] fix: view and with it arithmetic works for all
 multiport classes

---
 hftools/networks/multiports.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 8e17d68..ca47321 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -155,7 +155,9 @@ class _MultiPortArray(_hfarray):
     def view(self, dtype=None, type=None):
         if type is None:
             x = np.ndarray.view(self, dtype=self.dtype)
-            return self.__class__(x, dims=self.dims, copy=False, Z0=self.Z0)
+            out = self.__class__(x, dims=self.dims, copy=False)
+            out.Z0 = self.Z0
+            return out
         else:
             return np.ndarray.view(self, dtype=self.dtype, type=type)
 
-- 
2.43.0


From a96514fd873a651ee4f725c7fd90628e8c495444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:14 +0000
Subject: [PATCH 08/88] fix: add_dim keeps unit and output format

---
 hftools/dataset/arrayobj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 2344c2f..ab673ab 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -952,7 +952,10 @@ class _hfarray(ndarray):
             out = out.repeat(len(dim.data), axis)
         dims = list(self.dims)
         dims.insert(axis, dim)
-        return self.__class__(out, dims=dims, copy=False)
+        out = self.__class__(out, dims=dims, copy=False)
+        out.unit = self.unit
+        out.outputformat = self.outputformat
+        return out
 
 
 def axis_handler(a, axis):
-- 
2.43.0


From db4690196e1e7b78ee6decaacc005b66d3f1db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:33 +0000
Subject: [PATCH 09/88] fix: only names that end in two indices 1-9 denote a
 matrix element

---
 hftools/dataset/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 2fd55be..c15bf2a 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -179,7 +179,7 @@ class DataDict(dict):
         return self.order + dir(type(self)) + list(self.__dict__.keys())
 
 reg_matrix_name = re.compile("([_A-Za-z]([_A-Za-z0-9]*"
-                             "[_A-Za-z])?)([0-9][0-9])")
+                             "[_A-Za-z])?)([1-9][1-9])$")
 
 
 def is_matrix_name(x):
-- 
2.43.0


From d5abce176cc330510cb5ea4a25e38f839b3abf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:42 +0000
Subject: [PATCH 10/88] fix: DataDict keeps its key order in step with its
 content

---
 hftools/dataset/dataset.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index c15bf2a..89e416d 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -137,8 +137,31 @@ class DataDict(dict):
             self.order.append(key)
         return a
 
+    def update(self, *k, **kw):
+        for key, value in dict(*k, **kw).items():
+            self[key] = value
+
+    def pop(self, key, *default):
+        value = dict.pop(self, key, *default)
+        if key in self.order:
+            self.order.remove(key)
+        return value
+
+    def popitem(self):
+        key, value = dict.popitem(self)
+        if key in self.order:
+            self.order.remove(key)
+        return key, value
+
+    def clear(self):
+        dict.clear(self)
+        del self.order[:]
+
     def rename(self, oldname, newname):
         vdata = self[oldname]
+        if oldname == newname:
+            return
+        self.order[:] = list(self)
         if newname not in self.order:
             self.order[self.order.index(oldname)] = newname
         del self[oldname]
-- 
2.43.0


From 5ca57bb3e0429947e415c0fef8565f87df61f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:17 +0000
Subject: [PATCH 11/88] fix: DataBlock.filter with values keeps the points with
 those values

---
 hftools/dataset/dataset.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 89e416d..2a6ca3e 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -441,12 +441,8 @@ class DataBlock(object):
                 warn(msg)
                 return out
             localdim = self.ivardata[boolarray.dims[0].name]
-            intersection = set(localdim.data).intersection(boolarray)
-            barray = boolarray.astype(bool)
-            barray[...] = False
-            for f in intersection:
-                barray[boolarray == f] = True
-            boolarray = barray
+            boolarray = hfarray(np.in1d(localdim.data, np.array(boolarray)),
+                                dims=(localdim,))
 
         out = DataBlock()
         out.blockname = self.blockname
-- 
2.43.0


From 6e6d91346fee258c750ad80e3ef18dce30b16178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:35 +0000
Subject: [PATCH 12/88] fix: DataBlock.sort handles a dimension with a single
 point

---
 hftools/dataset/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 2a6ca3e..38bda55 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -476,7 +476,9 @@ class DataBlock(object):
         return out
 
     def sort(self, dim):
-        dim = hfarray(dim, copy=False).squeeze()
+        dim = hfarray(dim, copy=False)
+        if dim.ndim > 1:
+            dim = dim.squeeze()
         if dim.ndim > 1:
             msg = "sort can only get sort direction from array with"\
                   " one dimension"
-- 
2.43.0


From cfb1fb42af2a9c68f2b521818b13cd3169ee41da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:58 +0000
Subject: [PATCH 13/88] fix: interpolate without a mode picks the values along
 the right dimension and in the requested order

---
 hftools/dataset/dataset.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 38bda55..59b0371 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -762,13 +762,9 @@ def interpolate(newx, y, defaultmode=None):
     newdims = olddims[:dimidx] + (newx,) + olddims[dimidx + 1:]
     if mode in [None, "none"]:
         bools = np.array(newx.data)[:, None] == np.array(oldx.data)[None, :]
-        boolarray = hfarray(bools.any(axis=0),
-                            dims=(oldx,),
-                            unit=y.unit,
-                            outputformat=y.outputformat)
-        if boolarray.sum() != len(newx.data):
+        if not bools.any(axis=1).all():
             raise ValueError("Missing x-values")
-        data = np.array(y, copy=False)[boolarray]
+        data = np.array(y, copy=False).take(bools.argmax(axis=1), axis=dimidx)
     elif mode in ["linear"]:
         data = interp1d(y.dims[dimidx].data, y, axis=dimidx)(newx.data)
     else:
-- 
2.43.0


From 3a4908a6c8e8f3e70755d562e82361a5247a9de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:17 +0000
Subject: [PATCH 14/88] fix: hyper keeps values at their coordinates when the
 points are not in ascending order

---
 hftools/dataset/dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 59b0371..35ec3b7 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -694,10 +694,11 @@ class DataBlock(object):
                 newname = "%s_index" % x
             else:
                 newname = x
-            dims.append(DimSweep(newname, stable_uniq(self[x]),
+            uniqdata = stable_uniq(self[x])
+            dims.append(DimSweep(newname, uniqdata,
                                  unit=self[x].unit,
                                  outputformat=self[x].outputformat))
-            sortdata.append(self[x])
+            sortdata.append([uniqdata.index(value) for value in self[x]])
         dims = tuple(dims)
         dims_shape = tuple(len(x.data) for x in dims)
 
-- 
2.43.0


From 65f8d113e82b7c93c9d9ab89dcb4c21b2b603d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:44 +0000
Subject: [PATCH 15/88] fix: remove_rep handles rep dimensions that are not
 adjacent and keeps the unit

---
 hftools/dataset/arrayobj.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index ab673ab..6993602 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -271,26 +271,26 @@ def remove_rep(data, newdimname="AllReps"):
     """
     order = [(i, dim) for i, dim in enumerate(data.dims)
              if isinstance(dim, DimRep)]
-#    pdb.set_trace()
 
     if order:
         dims = list(zip(*order))[1]
+        first = order[0][0]
+        last = first + len(order)
 
-        newdata = data.reorder_dimensions(*(data.dims[:order[0][0]] + dims))
-        newdata = hfarray(np.ascontiguousarray(data, dtype=data.dtype),
-                          dims=newdata.dims, dtype=newdata.dtype,
-                          unit=newdata.unit)
+        newdata = data.reorder_dimensions(*(data.dims[:first] + dims))
         shapes = [data.shape[i] for i, _ in order]
         repsize = int(np.multiply.reduce(shapes))
-        a = np.array(data)
-        a.shape = (data.shape[:order[0][0]] + (repsize,) +
-                   data.shape[order[-1][0] + 1:])
-        dims = (data.dims[:order[0][0]] + (DimRep(newdimname, repsize),) +
-                data.dims[order[-1][0] + 1:])
+        a = np.array(newdata, order="C")
+        a.shape = (newdata.shape[:first] + (repsize,) + newdata.shape[last:])
+        dims = (newdata.dims[:first] + (DimRep(newdimname, repsize),) +
+                newdata.dims[last:])
     else:
         dims = data.dims
         a = data
-    return data.__class__(a, dims=dims, copy=False)
+    out = data.__class__(a, dims=dims, copy=False)
+    out.unit = data.unit
+    out.outputformat = data.outputformat
+    return out
 
 
 def make_fullcomplex_array(a):
-- 
2.43.0


From fca44adf9e6054350044c90fb73a331d9fb0dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:07 +0000
Subject: [PATCH 16/88] fix: DataBlock.remove_rep keeps values at their rep
 coordinates whatever the order of the dimensions

---
 hftools/dataset/dataset.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 35ec3b7..01639a8 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -677,9 +677,16 @@ class DataBlock(object):
             a[...] = dim.data[sliceidx]
             a = np.array(a, copy=False)
             a.shape = (newdim.data.shape[0],)
-            out[dim.name] = hfarray(a, dims=(newdim,))
+            out[dim.name] = hfarray(a, dims=(newdim,), unit=dim.unit,
+                                    outputformat=dim.outputformat)
         for x in self.vardata:
-            out[x] = remove_rep(self[x], newdimname)
+            v = self.vardata[x]
+            # collapse in the same order as the coordinates above
+            reps = iter([dim for dim in dims if dim in v.dims])
+            v = v.reorder_dimensions(*[next(reps).name
+                                       if isinstance(dim, DimRep)
+                                       else dim.name for dim in v.dims])
+            out[x] = remove_rep(v, newdimname)
         return out
 
     def hyper(self, dimnames, replacedim, indexed=False, all=True):
-- 
2.43.0


From bd5a0c0a4973af28774c35429f453dec4207b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:53 +0000
Subject: [PATCH 17/88] fix: comparing string arrays gives a result with
 dimensions

---
 hftools/dataset/arrayobj.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 6993602..c34f142 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -349,7 +349,11 @@ def check_instance(func):
             a, b = self, other
         else:
             a, b = make_same_dims(self, self.__class__(other))
-        return func(a, b)
+        out = func(a, b)
+        if type(out) is ndarray:
+            # numpy drops the subclass when it compares strings
+            out = hfarray(out, dims=a.dims, copy=False)
+        return out
     return a
 
 
-- 
2.43.0


From 98a02e9e130a973d5f1b1f1f7322b83914f7dc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:54 +0000
Subject: [PATCH 18/88] fix: read Touchstone files with a single frequency
 point

---
 hftools/file_formats/touchstone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 821d56a..d1eefe9 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -80,9 +80,9 @@ class ReadTouchstoneFileFormat(ReadFileFormat):
 
 
 def process_data(data):
-    max_N = int(sqrt(sum(map(len, data)) - 1) / 2 + 1)
+    max_N = int(sqrt(max(sum(map(len, data)) - 1, 0) / 2.) + 1e-9)
     n = 1  # number of ports
-    for n in range(1, max_N):
+    for n in range(1, max_N + 1):
         N = 2 * n ** 2 + 1  # number of data points per frequency
         output, noise = _process_data(data, N)
         if output:
-- 
2.43.0


From a6b6b8e4f7fd97e06be8463d0805ec5308262f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:13 +0000
Subject: [PATCH 19/88] fix: save Touchstone N-ports in row order and with
 their reference impedance

---
 hftools/file_formats/touchstone.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index d1eefe9..99e6c26 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -235,11 +235,17 @@ def save_touchstone(db, filename):
             if v.shape == ():
                 fil.write("!%s: %s\n" % (k, v.outputformat % v))
 #            fil.write("\t".join(rad))
-        fil.write("#HZ S RI R 50\n")
-
-
-        header, columns = make_col_from_matrix([db.S.dims[0].name, "S"], [hfarray(db.S.dims[0]), db.S],
-                                               "%s[%s,%s]", fortranorder=True)
+        if "Z0" in db.vardata and db.Z0.shape == ():
+            fil.write("#HZ S RI R %.16g\n" % db.Z0)
+        else:
+            fil.write("#HZ S RI R 50\n")
+
+        # Only two-port data is stored in column order (11 21 12 22)
+        fortranorder = db.S.shape[-1] == 2
+        header, columns = make_col_from_matrix([db.S.dims[0].name, "S"],
+                                               [hfarray(db.S.dims[0]), db.S],
+                                               "%s[%s,%s]",
+                                               fortranorder=fortranorder)
         fmts = [x.outputformat for x in columns]
 
         for row in zip(*columns):
-- 
2.43.0


From c55f1714756b720dbf3f8b6c8ea75c0b8ee10da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:51 +0000
Subject: [PATCH 20/88] fix: save_touchstone accepts blocks without comments

---
 hftools/file_formats/touchstone.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/touchstone.py b/hftools/file_formats/touchstone.py
index 99e6c26..ee59fc4 100644
--- a/hftools/file_formats/touchstone.py
+++ b/hftools/file_formats/touchstone.py
@@ -228,9 +228,10 @@ def save_touchstone(db, filename):
     """Write a Datablock to a touchstone-format file with name filename.
     """
     with open(filename, "w") as fil:
-        for comment in db.comments.fullcomments:
-            fil.write("!" + comment)
-            fil.write("\n")
+        if db.comments:
+            for comment in db.comments.fullcomments:
+                fil.write("!" + comment)
+                fil.write("\n")
         for k, v in db.vardata.items():
             if v.shape == ():
                 fil.write("!%s: %s\n" % (k, v.outputformat % v))
-- 
2.43.0


From de57b130143f58c23d3646eefb8f22630df14dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:35 +0000
Subject: [PATCH 21/88] fix: parse the whole exponent of numbers with units

---
 hftools/constants/si_units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index 7f4355c..defb05e 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -64,7 +64,7 @@ def unit_to_multiplier(unit):
     else:
         return 1, unit
 
-reg_value = re.compile(r"[-+0-9.]+[eE]?[-+0-9]?")
+reg_value = re.compile(r"[-+0-9.]+([eE][-+]?[0-9]+)?")
 reg_unit = re.compile(r"\s*[[]?([a-zA-Z%]+)[]]?")
 
 
-- 
2.43.0


From 957fda59018a325cf6ed5b12c67fb93ab123eb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:53 +0000
Subject: [PATCH 22/88] fix: format numbers in the yotta range

---
 hftools/constants/si_units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index defb05e..8cd00b1 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -27,12 +27,12 @@ siprefixes = dict(d=0.1, c=0.01,
 siprefixes[""] = 1.
 si_exp_to_prefixes = {0: "",
                       3: "k", 6: "M", 9: "G", 12: "T", 15: "P",
-                      18: "E", 21: "Z", -24: "Y",
+                      18: "E", 21: "Z", 24: "Y",
                       -3: "m", -6: "u", -9: "n", -12: "p", -15: "f",
                       -18: "a", -21: "z", -24: "y"}
 si_exp_to_prefixes_greek = {0: "",
                             3: "k", 6: "M", 9: "G", 12: "T", 15: "P",
-                            18: "E", 21: "Z", -24: "Y",
+                            18: "E", 21: "Z", 24: "Y",
                             -3: "m", -6: "μ", -9: "n", -12: "p", -15: "f",
                             -18: "a", -21: "z", -24: "y"}
 
-- 
2.43.0


From 750977c2ac041e3130d2b1e7ede488ccf8218f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:35 +0000
Subject: [PATCH 23/88] fix: lex_order sorts names that start with and without
 digits

---
 hftools/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hftools/utils.py b/hftools/utils.py
index 5046b86..4eee1e1 100644
--- a/hftools/utils.py
+++ b/hftools/utils.py
@@ -156,7 +156,10 @@ def split_num(string):
 
 
 def lex_order(lista):
-    ordered = sorted(list(map(split_num, lista)))
+    def key(item):
+        parts, orig = item
+        return [(hasattr(x, "strip"), x) for x in parts], orig
+    ordered = sorted(list(map(split_num, lista)), key=key)
     return [orig for _, orig in ordered]
 
 
-- 
2.43.0


From ff79b4c5d8ca4505191adc542d45338b60317e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:58 +0000
Subject: [PATCH 24/88] fix: read_data detects the format of binary and
 non-utf8 files

---
 hftools/file_formats/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/__init__.py b/hftools/file_formats/__init__.py
index ab92fee..cfc8cb0 100644
--- a/hftools/file_formats/__init__.py
+++ b/hftools/file_formats/__init__.py
@@ -25,6 +25,7 @@ This package contains routines to read and write data.
 
 """
 import glob
+import io
 import re
 from contextlib import contextmanager
 from hftools.core.exceptions import HFToolsIOError
@@ -70,7 +71,7 @@ def read_data(filename, merge=True, guess_unit=True,
             break
     else:
         raise IOError("No files match pattern %r" % filename)
-    fil = open(fname)
+    fil = io.open(fname, encoding="cp1252", errors="replace")
     for rad in fil:
         for fun, readfun in isfile:
             if fun(fname, rad):
-- 
2.43.0


From ce4a2f33a3011d701a1130cd3821f05d4f7b8c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:33 +0000
Subject: [PATCH 25/88] fix: save_citi writes every data list over the same
 variables in the same order

---
 hftools/file_formats/citi.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/hftools/file_formats/citi.py b/hftools/file_formats/citi.py
index 976cbe1..a523372 100644
--- a/hftools/file_formats/citi.py
+++ b/hftools/file_formats/citi.py
@@ -21,7 +21,8 @@ import re
 import numpy as np
 from numpy import array, iscomplexobj, pi
 import hftools.dataset
-from hftools.dataset import DataBlock, DimSweep, hfarray, _DimMatrix
+from hftools.dataset import DataBlock, DimSweep, hfarray, _DimMatrix,\
+    change_shape
 from hftools.core.exceptions import HFToolsIOError
 from hftools.file_formats.common import Comments
 
@@ -175,6 +176,21 @@ def handle_data(data, typ):
         raise CITIFileError("Unknown Vartype %r" % (typ,))
 
 
+def expand_dims(value, sweepdims):
+    """Repeat *value* along the dimensions in *sweepdims* it does not have and
+    order its dimensions as *sweepdims* followed by the matrix dimensions.
+    """
+    dims = tuple(sweepdims) + tuple(sorted(dim for dim in value.dims
+                                           if isinstance(dim, _DimMatrix)))
+    if (tuple(value.dims) == dims or
+            not all(dim in dims for dim in value.dims)):
+        return value
+    shape = tuple(dim.data.shape[0] for dim in dims)
+    data = np.broadcast_to(np.asarray(change_shape(value, dims)), shape)
+    return hfarray(data, dims=dims, unit=value.unit,
+                   outputformat=value.outputformat)
+
+
 def format_citi_block(inblock):
     block = DataBlock()
     for k, v in inblock.vardata.items():
@@ -190,6 +206,13 @@ def format_citi_block(inblock):
         pass
     yield "NAME %s" % block.blockname
 
+    # All data lists of a CITI file share the same variables, in the same order
+    sweepdims = [dim for dim in block.ivardata.values()
+                 if is_numlike(dim.data) and not isinstance(dim, _DimMatrix)]
+    for name, value in block.vardata.items():
+        if is_numlike(value):
+            block.vardata[name] = expand_dims(value, sweepdims)
+
     for name, value in block.ivardata.items():
         if is_numlike(value.data) and not isinstance(value, _DimMatrix):
             yield "VAR %s MAG %s" % (name, value.data.shape[0])
@@ -198,8 +221,8 @@ def format_citi_block(inblock):
         if is_numlike(value):
             if hftools.dataset.ismatrix(value):
                 names = []
-                for i in hfarray(value.dims[-2]):
-                    for j in hfarray(value.dims[-1]):
+                for i in range(value.shape[-2]):
+                    for j in range(value.shape[-1]):
                         names.append("%s%s%s" % (name, i + 1, j + 1))
             else:
                 names = [name]
@@ -221,8 +244,8 @@ def format_citi_block(inblock):
         if is_numlike(value):
             if hftools.dataset.ismatrix(value):
                 values = []
-                for i in hfarray(value.dims[-2]):
-                    for j in hfarray(value.dims[-1]):
+                for i in range(value.shape[-2]):
+                    for j in range(value.shape[-1]):
                         values.append(value[..., i, j])
             else:
                 values = [value]
-- 
2.43.0


From 44140508b606bcf167d3a8e7872c43b3879c1c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:25 +0000
Subject: [PATCH 26/88] fix: merge blocks when a variable is defined in only
 one of them

---
 hftools/file_formats/merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index f086cc4..b189cab 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -192,6 +192,10 @@ def merge_blocks(blocks, hyper=False, indexed=False):
                 ri = (db[tuple(dimpartialgroups[k].keys())[0]].dims[0],)
             else:
                 ri = tuple()
+            if len(v) == 1 and not (ri and len(ri[0].data) == 1):
+                # Only defined in one of several blocks, not swept
+                db[vname] = v[0]
+                continue
             try:
                 value = hfarray(v, dims=ri + v[0].dims, unit=v[0].unit)
             except UnicodeError:
-- 
2.43.0


From 7f2673160716780c0cb95cb4ca632519561e4cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:01 +0000
Subject: [PATCH 27/88] fix: refuse to merge blocks whose sweeps have different
 coordinates

---
 hftools/file_formats/merge.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index b189cab..8b75b15 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -12,10 +12,11 @@ from collections import OrderedDict
 from numpy import array, empty
 import numpy as np
 
-from hftools.core.exceptions import HFToolsHyperCubeError
+from hftools.core.exceptions import HFToolsHyperCubeError, HFToolsIOError
 from hftools.dataset import DataDict, DimSweep, DimPartial, hfarray,\
     DataBlock, DimRep
 from hftools.file_formats.common import Comments
+from hftools.utils import is_numlike
 
 
 def merge_blocks_to_association_list(blocks):
@@ -155,6 +156,21 @@ def get_partials(db):
     return partials
 
 
+def same_coordinates(dims, other):
+    if [x.name for x in dims] != [x.name for x in other]:
+        return False
+    for a, b in zip(dims, other):
+        a, b = array(a.data), array(b.data)
+        if a.shape != b.shape:
+            return False
+        elif is_numlike(a) and is_numlike(b):
+            if not np.allclose(a, b, rtol=1e-6, atol=0):
+                return False
+        elif not np.all(a == b):
+            return False
+    return True
+
+
 def merge_blocks(blocks, hyper=False, indexed=False):
     db = DataBlock()
     dimpartialgroups = OrderedDict()
@@ -196,6 +212,10 @@ def merge_blocks(blocks, hyper=False, indexed=False):
                 # Only defined in one of several blocks, not swept
                 db[vname] = v[0]
                 continue
+            for x in v[1:]:
+                if not same_coordinates(x.dims, v[0].dims):
+                    msg = "Can not merge blocks, %r is swept differently"
+                    raise HFToolsIOError(msg % vname)
             try:
                 value = hfarray(v, dims=ri + v[0].dims, unit=v[0].unit)
             except UnicodeError:
-- 
2.43.0


From a70adba33536f704aa596334fac982477d1d99d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:06 +0000
Subject: [PATCH 28/88] fix: matrices built from elements keep the elements'
 precision and unit

---
 hftools/file_formats/readbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 12af29f..384d514 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -383,13 +383,15 @@ class ReadFileFormat(object):
         for vname, (elems, i_indices, j_indices) in matrices.items():
             ex = block[elems[0]]
             shape = ex.shape
+            dtype = np.result_type(*[block[elem].dtype for elem in elems])
             x = np.empty(shape + (len(i_indices) * len(j_indices),),
-                         dtype=ex.dtype)
+                         dtype=dtype)
             for idx, elem in enumerate(elems):
                 x[..., idx] = block[elem]
                 del block[elem]
             x.shape = shape + (len(i_indices), len(j_indices),)
             block[vname] = make_matrix(x, dims=ex.dims)
+            block[vname].unit = ex.unit
 
     def _merge(self, blocks):
         if self.merge:
-- 
2.43.0


From f973d3bc4e25a14f725ce819909a314b2e4fc08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:22 +0000
Subject: [PATCH 29/88] fix: complex columns keep their unit

---
 hftools/file_formats/readbase.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/readbase.py b/hftools/file_formats/readbase.py
index 384d514..52a44c2 100644
--- a/hftools/file_formats/readbase.py
+++ b/hftools/file_formats/readbase.py
@@ -125,6 +125,15 @@ def get_outer_function(varname):
         return "", varname, "", varname
 
 
+reg_unitsuffix = re.compile(r"^[ \t]*\[[a-zA-Z]+\]$")
+
+
+def get_unit_suffix(rest):
+    """Return *rest* if it is a unit, e.g. " [V]", otherwise ""
+    """
+    return rest if reg_unitsuffix.match(rest) else ""
+
+
 def make_cplx(dataset):
     """Inplace conversion in *dataset* of pairs of variables into complex
     variables. Using the pattern Re(x) & Im(x) -> x, and Re(x) and Im(x)
@@ -136,9 +145,12 @@ def make_cplx(dataset):
         varnames.setdefault(varname, {})[outerfunction] = (outerfunction,
                                                            rest, fullname)
 
-    for vname, alt in varnames.items():
+    for basename, alt in varnames.items():
+        vname = basename
         if "Re" in alt and "Im" in alt:
-            if vname in dataset:
+            if alt["Re"][1] == alt["Im"][1]:
+                vname = basename + get_unit_suffix(alt["Re"][1])
+            if vname in dataset or basename in dataset:
                 pass  # Already scalar data present
             else:
                 dataset[vname] = (dataset[alt["Re"][-1]] +
@@ -146,7 +158,8 @@ def make_cplx(dataset):
                 del dataset[alt["Re"][-1]]
                 del dataset[alt["Im"][-1]]
         elif "Mag" in alt and "Arg" in alt:
-            if vname in dataset:
+            vname = basename + get_unit_suffix(alt["Mag"][1])
+            if vname in dataset or basename in dataset:
                 pass  # Already scalar data present
             else:
                 dataset[vname] = (dataset[alt["Mag"][-1]] *
-- 
2.43.0


From 9135d6acc326e87eda92155613067d9fa2240664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:38 +0000
Subject: [PATCH 30/88] fix: save blocks that only have dimensions

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index 302cebd..dfc89b5 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -387,7 +387,7 @@ def make_block_iterator(data, first=False):
         comments = data.comments
         yield (sweepvars, header, fmts, columns,
                blockname, comments)
-        raise StopIteration
+        return
     d = data.vardata.values()[0]
     if ismatrix(d):
         dimsnames = [x.name for x in d.dims[:-2]]
-- 
2.43.0


From ed759d8871175065e202942b72afe1ba0b12ad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:10 +0000
Subject: [PATCH 31/88] fix: save_spdata keeps scalar variables and the units
 of swept variables

---
 hftools/file_formats/common.py | 2 +-
 hftools/file_formats/spdata.py | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index dfc89b5..f016722 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -407,7 +407,7 @@ def make_block_iterator(data, first=False):
         sweepvars = []
         for iname, dim, i in zip(dimsnames[1:], dimsdata[1:], idx):
             fmt = getattr(dim, "outputformat", "%.16e")
-            sweepvars.append((iname, fmt, dim[i]))
+            sweepvars.append((iname, fmt, hfarray(dim[i], unit=dim.unit)))
         if dimsnames:
             header = [dimsnames[0]] + data.vardata.keys()
             columns = dimsdata[:1] + [col[(slice(None), ) + idx]
diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 1389bcb..3c7a422 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -24,7 +24,8 @@ from hftools.dataset import DataDict, DataBlock,  DimSweep, DimRep,\
     DimPartial, hfarray
 from hftools.core.exceptions import HFToolsIOError
 from hftools.file_formats.common import Comments, db_iterator,\
-    make_col_from_matrix, format_complex_header, format_elem
+    make_col_from_matrix, format_complex_header, format_elem,\
+    format_unit_header
 from hftools.file_formats.readbase import ReadFileFormat
 from hftools.file_formats.readbase import Token
 from hftools.utils import to_numeric
@@ -160,8 +161,12 @@ class ReadSPFileFormat(ReadFileFormat):
 def format_sp_block(sweepvars, header, fmts, columns, blockname, comments):
     for comment in comments.fullcomments:
         yield ["!" + comment.lstrip("!")]
+    for name, value in comments.property.items():
+        if not np.iscomplexobj(value):
+            yield ["!%s: %s" % (format_unit_header(name, value),
+                                value.outputformat % value)]
     for iname, fmt, value in sweepvars:
-        yield [("!@%s=" + fmt) % (iname, value)]
+        yield [("!@%s=" + fmt) % (format_unit_header(iname, value), value)]
     header, columns = make_col_from_matrix(header, columns, "%s%s%s")
     outheader = format_complex_header(header, columns,
                                       "%s", "Re(%s)", "Im(%s)",
-- 
2.43.0


From 6d9fac9878d0f767d5176f9ef95ffc5b2a005226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:39 +0000
Subject: [PATCH 32/88] fix: reject sp-data rows with the wrong number of
 columns

---
 hftools/file_formats/spdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/spdata.py b/hftools/file_formats/spdata.py
index 3c7a422..a2f148d 100644
--- a/hftools/file_formats/spdata.py
+++ b/hftools/file_formats/spdata.py
@@ -119,7 +119,7 @@ class ReadSPFileFormat(ReadFileFormat):
             header = [x.strip() for x in header[0].strip().split("\t")]
             Nhead = len(header)
             #data = np.array(data)
-            if Nhead != len(data[0]):
+            if not data or any(Nhead != len(row) for row in data):
                 msg = "Different number of header variables "\
                       "from data columns"
                 raise SPDataIOError(msg)
-- 
2.43.0


From 0724939cecc7b88eb208ea97195ed692047d609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:21 +0000
Subject: [PATCH 33/88] fix: hyper and interpolate keep the comments of the
 block

---
 hftools/dataset/dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 01639a8..5531985 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -694,6 +694,7 @@ class DataBlock(object):
             replacedim = self.ivardata[replacedim]
         out = DataBlock()
         out.blockname = self.blockname
+        out.comments = self.comments
         dims = []
         sortdata = []
         for x in dimnames:
@@ -750,6 +751,8 @@ class DataBlock(object):
 
     def interpolate(self, variable, defaultmode=None):
         out = DataBlock()
+        out.blockname = self.blockname
+        out.comments = self.comments
         for k, v in self.vardata.items():
             out[k] = interpolate(variable, self[k], defaultmode)
         return out
-- 
2.43.0


From d940d7e4e837b42c1a123e576775c5f0cf87bad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:13 +0000
Subject: [PATCH 34/88] fix: read MDIF files (a generator must not raise
 StopIteration)

---
 hftools/file_formats/mdif.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index d41db6b..5984ab9 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -198,7 +198,11 @@ class ReadMDIFFileFormat(ReadFileFormat):
         containing a measurement data block.
         """
         while True:
-            comments = ManyOptional("COMMENT")(stream)
+            try:
+                comments = ManyOptional("COMMENT")(stream)
+                stream.push(next(stream))
+            except StopIteration:  # No more blocks
+                return
 
             def split_eq(rad):
                 return [x.strip() for x in rad.split("=")]
-- 
2.43.0


From 868b93638b15e30a8e8a107641fd1aa859336e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:31 +0000
Subject: [PATCH 35/88] fix: asking for a missing MDIF block is an error

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 5984ab9..3c91d9a 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -155,7 +155,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
                 return res[blockname]
             else:
                 msg = "%r not a block in mdif file %r" % (blockname, filename)
-                MDIFError(msg)
+                raise MDIFError(msg)
         else:
             return res
 
-- 
2.43.0


From 7367709f866791857bac0791eb38234ace9f2413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:50 +0000
Subject: [PATCH 36/88] fix: read MDIF files in the same encoding as the other
 text formats

---
 hftools/file_formats/mdif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 3c91d9a..d9982a8 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -16,6 +16,7 @@ MDIF
 
 """
 from __future__ import print_function
+import io
 import re
 import itertools
 import time
@@ -131,7 +132,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             filenames = [filename]
         objs = {}
         for idx, fname in enumerate(filenames):
-            with open(fname) as fil:
+            with io.open(fname, encoding="cp1252") as fil:
                 res = obj.do_file(fil)
                 for k, v in res.items():
                     if isinstance(v, list):
-- 
2.43.0


From 4ca9e8d3d411d9d267a788d42f539daf8618b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:30 +0000
Subject: [PATCH 37/88] fix: read_mdif accepts lists of files and reports
 missing files

---
 hftools/file_formats/mdif.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index d9982a8..fa708e9 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -127,9 +127,16 @@ class ReadMDIFFileFormat(ReadFileFormat):
         obj.filename = filename
 
         if multiple_files:
-            filenames = glob(filename)
+            if isinstance(filename, (list, tuple)):
+                filenames = []
+                for f in filename:
+                    filenames.extend(glob(f))
+            else:
+                filenames = glob(filename)
         else:
             filenames = [filename]
+        if not filenames:
+            raise IOError("Pattern %r did not match any files" % (filename,))
         objs = {}
         for idx, fname in enumerate(filenames):
             with io.open(fname, encoding="cp1252") as fil:
-- 
2.43.0


From 5e87e1d1d5d54cdc4ab0658377127331638bb00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:47 +0000
Subject: [PATCH 38/88] fix: save_mdif writes the value at each point of the
 swept variables

---
 hftools/file_formats/mdif.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index fa708e9..4485a45 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -27,7 +27,7 @@ from hftools.dataset import DataBlock, DataDict, hfarray, DimSweep,\
     make_vector, yield_dim_consistent_datablocks, convert_matrices_to_elements
 
 
-from hftools.utils import glob
+from hftools.utils import glob, is_numlike
 from hftools.file_formats.common import Comments,\
     format_complex_header, format_elem
 from hftools.file_formats.readbase import ManyOptional,\
@@ -475,8 +475,9 @@ def fixnames(mdif):
 def fmt_mdif_block(dims, db):
     dimnames = [x.name for x in dims]
     fmts = [x.outputformat for x in dims]
-    for coord in itertools.product(*[x.data for x in dims[1:]]):
-        for iname, fmt, value in zip(dimnames[1:], fmts[1:], coord):
+    for coord in itertools.product(*[range(len(x.data)) for x in dims[1:]]):
+        values = [x.data[i] for x, i in zip(dims[1:], coord)]
+        for iname, fmt, value in zip(dimnames[1:], fmts[1:], values):
 #            import pdb;pdb.set_trace()
             yield [("VAR SWEEP.%s(real) = " + fmt) % (iname, value)]
         blockname = db.blockname
@@ -484,8 +485,10 @@ def fmt_mdif_block(dims, db):
             blockname = "DATABLOCK"
         yield ["BEGIN %s" % blockname]
 
-        attribnames, attribdata = zip(*[(k, v) for (k, v) in db.vardata.items()
-                                        if v.dims == dims[1:]])
+        attribs = [(k, v) for (k, v) in db.vardata.items()
+                   if v.dims == dims[1:] and is_numlike(v)]
+        attribnames = [k for k, v in attribs]
+        attribdata = [v for k, v in attribs]
         attribheader = format_complex_header(attribnames, attribdata,
                                              "%s(real)", "%s(complex)",
                                              None, unit_fmt=False)
@@ -493,7 +496,6 @@ def fmt_mdif_block(dims, db):
             yield [("# %s = %s" % (name, data.outputformat)) % data[coord]]
 
         header, columns = zip(*[(k, v) for (k, v) in db.vardata.items()
-
                                 if v.dims == dims])
         header = (dims[0].name, ) + header
 
-- 
2.43.0


From 00bceaf57816e6b33799b556e8a6a5ad4cb20dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:24 +0000
Subject: [PATCH 39/88] fix: save_mdif writes every swept value with its own
 format

---
 hftools/file_formats/mdif.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 4485a45..68edbf8 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -507,11 +507,11 @@ def fmt_mdif_block(dims, db):
                                           None, unit_fmt=False)
 
         yield ["% " + " ".join(outheader)]
-        fmts = [x.outputformat for x in columns]
+        colfmts = [x.outputformat for x in columns]
 #        import pdb;pdb.set_trace()
         for row in zip(*columns):
             out = []
-            for elem, fmt in zip(row, fmts):
+            for elem, fmt in zip(row, colfmts):
                 out.extend(format_elem(fmt, elem))
             yield out
         yield ["END"]
-- 
2.43.0


From d0deb662915f6a89e6253fa3a682df249a30abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:40 +0000
Subject: [PATCH 40/88] fix: merge MDIF blocks by variable, checking that they
 are swept alike

---
 hftools/file_formats/mdif.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 68edbf8..72e3311 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -27,9 +27,10 @@ from hftools.dataset import DataBlock, DataDict, hfarray, DimSweep,\
     make_vector, yield_dim_consistent_datablocks, convert_matrices_to_elements
 
 
-from hftools.utils import glob, is_numlike
+from hftools.utils import glob, is_numlike, stable_uniq
 from hftools.file_formats.common import Comments,\
     format_complex_header, format_elem
+from hftools.file_formats.merge import same_coordinates
 from hftools.file_formats.readbase import ManyOptional,\
     One, Token, ReadFileFormat, FileFormatError
 
@@ -342,11 +343,21 @@ def simple_merge_blocks(blocks):
     ri = DimRep("INDEX", len(blocks))
     out = DataBlock()
     #import pdb;pdb.set_trace()
-    for k in blocks[0].vardata:
-        out[k] = hfarray([b[k] for b in blocks],
-                         dims=(ri,) + blocks[0][k].dims)
-        if blocks[0][k].dims:
-            out[k] = out[k].reorder_dimensions(blocks[0][k].dims[0])
+    for k in stable_uniq(sum([list(b.vardata) for b in blocks], [])):
+        values = [b.vardata[k] for b in blocks if k in b.vardata]
+        if len(values) == 1:  # Only defined in one block, not swept
+            out[k] = values[0]
+            continue
+        elif len(values) != len(blocks):
+            raise MDIFError("%r is missing in some of the blocks" % k)
+        dims = values[0].dims
+        for v in values[1:]:
+            if not same_coordinates(v.dims, dims):
+                msg = "Can not merge blocks, %r is swept differently"
+                raise MDIFError(msg % k)
+        out[k] = hfarray(values, dims=(ri,) + dims, unit=values[0].unit)
+        if dims:
+            out[k] = out[k].reorder_dimensions(dims[0])
     for k in blocks[0].ivardata:
         if isinstance(blocks[0].ivardata[k], DimPartial):
             out[k] = hfarray([b.ivardata[k].data[0] for b in blocks],
-- 
2.43.0


From 9b7bab093004dfd6806013b227984ff5bf974569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:14 +0000
Subject: [PATCH 41/88] fix: read MDIF blocks with vector columns

---
 hftools/file_formats/mdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 72e3311..c3e04f4 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -310,7 +310,7 @@ class ReadMDIFFileFormat(ReadFileFormat):
             a.sort()
             fmt = "%s[%%s]" % (matrix, )
             arrays = [np.array(db.vardata[fmt % i])[:, np.newaxis] for i, in a]
-            dims = db.vardata["%s[%s]" % (matrix, i)].dims
+            dims = db.vardata[fmt % a[0][0]].dims
             X = np.concatenate(arrays, 1)
             X.shape = X.shape[:1] + (len(a),)
             db.vardata[matrix] = make_vector(X, dims)
-- 
2.43.0


From e3caaabad92b0ebcdfcb6f8f2fbd7a3dec20609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:33 +0000
Subject: [PATCH 42/88] fix: dimension consistent subsets keep the block name

---
 hftools/dataset/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 5531985..cfdb818 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -44,6 +44,7 @@ class DataBlockError(Exception):
 def subset_datablock_by_dims(db, dims):
     """Get subset of db with variables with matching dims."""
     out = DataBlock()
+    out.blockname = db.blockname
     dimset = set(dims)
     if len(dims) != len(dimset):
         msg = "dims %r did not specify unique dimensions %r" % (dims, dimset)
-- 
2.43.0


From 73cb0e42e5516e6d1503b11308ca90b6480d8991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:47 +0000
Subject: [PATCH 43/88] fix: units of swept variables in version 0.1 hdf5 files

---
 hftools/file_formats/hdf5/v_01.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/hdf5/v_01.py b/hftools/file_formats/hdf5/v_01.py
index af3ee0e..bd0f2da 100644
--- a/hftools/file_formats/hdf5/v_01.py
+++ b/hftools/file_formats/hdf5/v_01.py
@@ -104,7 +104,7 @@ def read_hdf5(h5file, name="datablock", **kw):
         v = ivardata[k]
         datadtype = v.attrs[r"info\dtype"] or None
         dimcls = dims_dict.get(v.attrs[r"info\class"], DimRep)
-        unit = str(v.attrs.get(r"info\unit", "none"))
+        unit = cast_unicode(v.attrs.get(r"info\unit", "none"))
         if unit.lower() == "none":
             unit = None
         vdata = np.array(np.array(v), dtype=datadtype)
-- 
2.43.0


From 20d6946cb93841c33bede90da0715ee3aa87089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:04 +0000
Subject: [PATCH 44/88] fix: swept variables in version 0.2 hdf5 files keep
 name, type and format

---
 hftools/file_formats/hdf5/v_02.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 6ec152e..0dbec03 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -41,17 +41,21 @@ def expand_dataset(dataset, expansion, axis):
     dataset.resize(dataset.shape[axis] + expansion, axis=axis)
 
 
+def getdim(x):
+    dimcls = dimrep[cast_unicode(x.attrs.get("dimtype", "DimSweep"))]
+    return dimcls(unescape_varname(x.name.strip("/")),
+                  np.array(x[...], dtype=x.attrs.get("dtype", None)),
+                  unit=x.attrs.get("unit", None),
+                  outputformat=x.attrs.get("outputformat", None))
+
+
 def getvar(db, key):
     X = db[key]
 
     dims = []
     for x in X.dims:
         if len(x):
-            dimcls = dimrep[cast_unicode(x[0].attrs.get("dimtype", "DimSweep"))]
-            dim = dimcls(x[0].name.strip("/"),
-                         x[0][...],
-                         unit = x[0].attrs.get("unit", None))
-            dims.append(dim)
+            dims.append(getdim(x[0]))
 
     unit = X.attrs.get("unit", None)
     outputformat = X.attrs.get("outputformat", None)
@@ -105,6 +109,10 @@ def read_hdf5_handle(filehandle, **kw):
             uk = unescape_varname(k)
             if "dimtype" not in filehandle[k].attrs:
                 db[uk] = getvar(filehandle, k)
+        for k in filehandle:
+            uk = unescape_varname(k)
+            if "dimtype" in filehandle[k].attrs and uk not in db.ivardata:
+                db[uk] = getdim(filehandle[k])
         db.comments = Comments()
         return db
     else:
@@ -158,8 +166,9 @@ def save_hdf5_handle(db, filehandle, expandable=False, expanddim=None, **kw):
             pass
         create_dataset(filehandle, ek, v, expandable=expandable)
         for idx, dv in enumerate(v.dims):
-            filehandle[ek].dims.create_scale(filehandle[dv.name])
-            filehandle[ek].dims[idx].attach_scale(filehandle[dv.name])
+            dimname = escape_varname(dv.name)
+            filehandle[ek].dims.create_scale(filehandle[dimname])
+            filehandle[ek].dims[idx].attach_scale(filehandle[dimname])
 
         filehandle[ek].attrs["arraytype"] = v.__class__.__name__
         if v.unit:
-- 
2.43.0


From 2fc10df3d7e7a9091115bfa9d224d0aee6b9fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:59 +0000
Subject: [PATCH 45/88] fix: append_hdf5 writes the index, keeps long strings
 and checks data before changing the file

---
 hftools/file_formats/hdf5/v_02.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/hftools/file_formats/hdf5/v_02.py b/hftools/file_formats/hdf5/v_02.py
index 0dbec03..9ee9c2a 100644
--- a/hftools/file_formats/hdf5/v_02.py
+++ b/hftools/file_formats/hdf5/v_02.py
@@ -60,6 +60,8 @@ def getvar(db, key):
     unit = X.attrs.get("unit", None)
     outputformat = X.attrs.get("outputformat", None)
     dtype = X.attrs.get("dtype", None)
+    if dtype is not None and np.dtype(dtype).kind == "U":
+        dtype = "U"  # longer strings may have been appended
     if len(dims) == len(X.dims):
         return hfarray(X.value, dims=dims, unit=unit,
                        dtype=dtype, outputformat=outputformat)
@@ -186,22 +188,42 @@ def save_hdf5(db, h5file, expandable=False, expanddim=None, **kw):
     return d
 
 
+def check_can_append(dataset, data, expanddim):
+    """Raise ValueError if data can not be appended to dataset."""
+    name = unescape_varname(dataset.name.strip("/"))
+    dims = [getdim(x[0]) for x in dataset.dims]
+    dims = [dim for dim in dims if dim.name != expanddim.name]
+    if [dim.name for dim in dims] != [dim.name for dim in data.dims]:
+        raise ValueError("%r has wrong dimensions, can not append" % name)
+    for diskdim, dim in zip(dims, data.dims):
+        if not np.array_equal(diskdim.data, dim.data):
+            msg = "%r has different %r, can not append"
+            raise ValueError(msg % (name, dim.name))
+    if not np.can_cast(data.dtype, dataset.attrs["dtype"], "same_kind"):
+        raise ValueError("%r has wrong type, can not append" % name)
+
+
 def append_hdf5(db, filehandle, expanddim=None, **kw):
     key = "hftools file version"
     if key not in filehandle.attrs or filehandle.attrs[key] != "0.2":
         raise Exception("Can only append to hftools version 0.2")
     if expanddim is None:
         expanddim = DimRep("INDEX", 1)
-    idx = filehandle[expanddim.name][-1] + 1
-    expand_dataset(filehandle[expanddim.name], 1, 0)
-    filehandle[expanddim.name].value[-1] = idx
-
+    newdata = []
     for k, v in filehandle.items():
         uk = unescape_varname(k)
         if uk in db.ivardata or uk == expanddim.name:
             continue
         if uk not in db.vardata:
             raise ValueError("Variable %r missing in db, can not append" % uk)
+        check_can_append(v, db[uk], expanddim)
+        newdata.append((k, uk))
+
+    idx = filehandle[expanddim.name][-1] + 1
+    expand_dataset(filehandle[expanddim.name], 1, 0)
+    filehandle[expanddim.name][-1] = idx
+
+    for k, uk in newdata:
         diskdata = filehandle[k]
         ax = diskdata.maxshape.index(None)
         expand_dataset(diskdata, 1, ax)
-- 
2.43.0


From d3a2376499d9bb52548ee5d4b7b90d17db2adaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:42 +0000
Subject: [PATCH 46/88] fix: merged blocks keep the order of the variables

---
 hftools/file_formats/merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hftools/file_formats/merge.py b/hftools/file_formats/merge.py
index 8b75b15..6c4d80b 100644
--- a/hftools/file_formats/merge.py
+++ b/hftools/file_formats/merge.py
@@ -187,13 +187,14 @@ def merge_blocks(blocks, hyper=False, indexed=False):
             db[k] = hfarray([x.data[0] for x in v],
                             dims=dims, unit=v[0].unit)
 
-    varnames = set()
+    varnames = []
     for b in blocks:
         for k, v in b.ivardata.items():
             if k not in db:
                 db[k] = v
         for k in b.vardata.keys():
-            varnames.add(k)
+            if k not in varnames:
+                varnames.append(k)
 
     for vname in varnames:
         v = []
-- 
2.43.0


From 864e9969581f0fcd49f09841065a0e2159fb632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:54 +0000
Subject: [PATCH 47/88] fix: comments with a unit and a text value keep the
 text

---
 hftools/dataset/comments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/comments.py b/hftools/dataset/comments.py
index 07273f6..74fc2a5 100644
--- a/hftools/dataset/comments.py
+++ b/hftools/dataset/comments.py
@@ -141,7 +141,10 @@ def process_comment(comment):
             except ValueError:
                 pass
         else:
-            value = convert([convert_with_unit], unit, value)
+            try:
+                value = convert([convert_with_unit], unit, value)
+            except ValueError:
+                pass
         out[varname] = value
     return out
 
-- 
2.43.0


From e87a3399f19a3e12bc0693febc6a6c026067d232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:13 +0000
Subject: [PATCH 48/88] fix: numbers with a unit in brackets

---
 hftools/constants/si_units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index 8cd00b1..48bcfb9 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -77,7 +77,7 @@ def string_number_with_unit_to_value(string_number):
         reg_unit = re.compile(r"\s*[[]?([a-zA-Z%]+)[]]?")
         unit_res = reg_unit.match(string_number[res.span()[-1]:])
         if unit_res:
-            unit = unit_res.group()
+            unit = unit_res.group(1)
         else:
             unit = None
     else:
-- 
2.43.0


From b7522f472a2cd9f6e77581ee4f385cca46f781b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:32 +0000
Subject: [PATCH 49/88] fix: lex_order of names with nan or inf in them

---
 hftools/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/utils.py b/hftools/utils.py
index 4eee1e1..de384e9 100644
--- a/hftools/utils.py
+++ b/hftools/utils.py
@@ -152,7 +152,8 @@ reg_split = re.compile("[^0-9]+|[0-9]+")
 
 
 def split_num(string):
-    return [to_numeric(x, False) for x in reg_split.findall(string)], string
+    return [int(x) if x[0] in "0123456789" else x
+            for x in reg_split.findall(string)], string
 
 
 def lex_order(lista):
-- 
2.43.0


From ec04fa82984b250e51f0375b1eb2e2604285360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:27 +0000
Subject: [PATCH 50/88] fix: normalize_names never overwrites one variable with
 another

---
 hftools/file_formats/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/common.py b/hftools/file_formats/common.py
index f016722..01fb070 100644
--- a/hftools/file_formats/common.py
+++ b/hftools/file_formats/common.py
@@ -289,7 +289,7 @@ def normalize_names(data):
     """
     out = data.copy()
     for old, new in _trtable.items():
-        if old in data and new in data:
+        if old in out and new in out:
             continue
         out.rename(old, new)
     meantr = remove_enclosing_function("Mean")
-- 
2.43.0


From aa16ea8b56e9fda72287be738ee411988526ee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:16 +0000
Subject: [PATCH 51/88] fix: convert networks with any number of ports

---
 hftools/networks/multiports.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index ca47321..d078193 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -67,10 +67,11 @@ def convert(fromP, toP, a):
     PB = inv(toP)
     PA = fromP
     P = matrix_multiply(PA, PB)
-    tau1 = P[..., :2, :2]
-    sigma1 = P[..., :2, 2:]
-    tau2 = P[..., 2:, :2]
-    sigma2 = P[..., 2:, 2:]
+    N = a.shape[-1]
+    tau1 = P[..., :N, :N]
+    sigma1 = P[..., :N, N:]
+    tau2 = P[..., N:, :N]
+    sigma2 = P[..., N:, N:]
     A = inv(tau1 - matrix_multiply(a, tau2))
     B = -sigma1 + matrix_multiply(a, sigma2)
     res = matrix_multiply(A, B)
-- 
2.43.0


From b57a390339015bda79523acaad5711587b5f7671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:55 +0000
Subject: [PATCH 52/88] fix: networks keep their reference impedance and
 conversions never change their source

---
 hftools/networks/multiports.py | 42 +++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index d078193..8814dd5 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -99,8 +99,8 @@ class _MultiPortArray(_hfarray):
                         accessor = make_accessor(i, j)
                         self._attrfuns[label] = accessor
 
-        if isinstance(data, self.__class__) and self.Z0 == data.Z0:
-            pass
+        if isinstance(data, self.__class__) and Z0 in (None, data.Z0):
+            self.Z0 = data.Z0
         elif isinstance(data, _MultiPortArray):
             if Z0 is None:
                 self.Z0 = getattr(data, "Z0", None)
@@ -115,6 +115,8 @@ class _MultiPortArray(_hfarray):
                        "elements of a %s matrix")
                 msg = fmt % (data.__class__.__name__, self.__class__.__name__)
                 raise ValueError(msg)
+        elif Z0 is not None:
+            self.Z0 = Z0
 
     @property
     def Z0(self):
@@ -134,6 +136,13 @@ class _MultiPortArray(_hfarray):
             dims = info
             info = None
         data = np.asanyarray(data)
+        if isinstance(data, _MultiPortArray) and (
+                not isinstance(data, subtype) or Z0 not in (None, data.Z0)):
+            # the converted values must not be written into *data*, and
+            # they are in general not integers
+            copy = True
+            if dtype is None and data.dtype.kind in "biu":
+                dtype = np.float64
         if dims is None:
             if hasattr(data, 'dims'):
                 dims = tuple(data.dims)
@@ -173,8 +182,8 @@ class _MultiPortArray(_hfarray):
         Converts *self* and *other* to S-parameters first if necessary.
         """
         a = SArray(self)
-        b = SArray(other)
-        return self.__class__(cascadeS(a, b))
+        b = SArray(other, Z0=a.Z0)
+        return self.__class__(SArray(cascadeS(a, b), Z0=a.Z0))
 
     def deembed(self, left=None, right=None):
         """Deembed *left* and *right from *self*.
@@ -184,16 +193,15 @@ class _MultiPortArray(_hfarray):
         """
         if left is None and right is None:
             return self
-        elif left is None:
-            return self.__class__(deembedright(SArray(self),
-                                               SArray(right)))
+        S = SArray(self)
+        Z0 = S.Z0
+        if left is None:
+            S = deembedright(S, SArray(right, Z0=Z0))
         elif right is None:
-            return self.__class__(deembedleft(SArray(left),
-                                              SArray(self)))
+            S = deembedleft(SArray(left, Z0=Z0), S)
         else:
-            return self.__class__(deembed(SArray(left),
-                                          SArray(self),
-                                          SArray(right)))
+            S = deembed(SArray(left, Z0=Z0), S, SArray(right, Z0=Z0))
+        return self.__class__(SArray(S, Z0=Z0))
 
     def __getattr__(self, key):
         try:
@@ -213,7 +221,9 @@ class _MultiPortArray(_hfarray):
     def __getitem__(self, idx):
         data = self.view(dtype=self.dtype, type=hfarray).__getitem__(idx)
         if ismatrix(data):
-            return self.__class__(data, copy=False)
+            out = self.__class__(data, copy=False)
+            out.Z0 = self.Z0
+            return out
         else:
             return data
 
@@ -332,7 +342,9 @@ This model may be of any dimension.
 """
     shortname = "S"
 
-    def __init__(self, data, dims=None, copy=True, Z0=50., info=None, unit=None):
+    def __init__(self, data, dims=None, copy=True, Z0=None, info=None, unit=None):
+        if Z0 is None and not isinstance(data, SArray):
+            Z0 = 50.
         _MultiPortArray.__init__(self, data, dims, copy=copy, Z0=Z0, info=info, unit=unit)
 
     @property
@@ -475,7 +487,6 @@ This model may be of any dimension.
     shortname = "T"
 
     def __init__(self, data, dims=None, copy=True, info=None, unit=None):
-        self.Z0 = 50
         _TwoPortArray.__init__(self, data, dims, copy=copy, info=info, unit=None)
 
     @property
@@ -515,7 +526,6 @@ This model is only valid for a twoport
     shortname = "Tp"
 
     def __init__(self, data, dims=None, copy=True, info=None, unit=None):
-        self.Z0 = 50
         _TwoPortArray.__init__(self, data, dims, copy=copy, info=info, unit=None)
 
     @property
-- 
2.43.0


From 9857f8eab22b9556c2d3d56b0edb984a2312ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:14 +0000
Subject: [PATCH 53/88] fix: cascade all given networks and keep complex
 results of real networks

---
 hftools/networks/spar_functions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index b146b5c..a7720e3 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -12,6 +12,11 @@ from hftools.dataset import make_same_dims, _DimMatrix, hfarray
 from hftools.math import det, inv, matrix_multiply
 
 
+def _result_dtype(a, b):
+    # the elements are computed with divisions and determinants
+    return np.result_type(a.dtype, b.dtype, np.float32)
+
+
 def cascadeS(S1, S2, *rest):
     """Cascade arrays containing S-parameters.
     """
@@ -23,13 +28,15 @@ def cascadeS(S1, S2, *rest):
     s1det = det(S1)
     s2det = det(S2)
     maxshape = tuple(max(x) for x in zip(S1.shape, S2.shape))
-    res = S1.__class__(np.zeros(maxshape, S1.dtype), dims=S1.dims)
+    res = S1.__class__(np.zeros(maxshape, _result_dtype(S1, S2)), dims=S1.dims)
     res[..., 0, 0] = S1[..., 0, 0] - S2[..., 0, 0] * s1det
     res[..., 0, 1] = S1[..., 0, 1] * S2[..., 0, 1]
     res[..., 1, 0] = S1[..., 1, 0] * S2[..., 1, 0]
     res[..., 1, 1] = S2[..., 1, 1] - S1[..., 1, 1] * s2det
     res = res / denom
     res = S1.__class__(res, dims=S1.dims)
+    for S in rest:
+        res = cascadeS(res, S)
     return res
 
 
@@ -49,7 +56,7 @@ def deembedleft(e, X):
              e[..., 0, 0] * e[..., 1, 1] +
              e[..., 1, 1] * X[..., 0, 0])
     maxshape = tuple(max(x) for x in zip(X.shape, e.shape))
-    res = X.__class__(np.zeros(maxshape, X.dtype), dims=X.dims)
+    res = X.__class__(np.zeros(maxshape, _result_dtype(X, e)), dims=X.dims)
     e11 = (X[..., 0, 0] - e[..., 0, 0])
     e12 = (X[..., 0, 1] * e[..., 1, 0])
     e21 = (X[..., 1, 0] * e[..., 0, 1])
@@ -80,7 +87,7 @@ def deembedright(X, e):
              e[..., 0, 0] * e[..., 1, 1] +
              e[..., 0, 0] * X[..., 1, 1])
     maxshape = tuple(max(x) for x in zip(X.shape, e.shape))
-    res = X.__class__(np.zeros(maxshape, X.dtype), dims=X.dims)
+    res = X.__class__(np.zeros(maxshape, _result_dtype(X, e)), dims=X.dims)
     res[..., 0, 0] = (-X[..., 0, 1] * X[..., 1, 0] * e[..., 0, 0])
     res[..., 0, 1] = (X[..., 0, 1] * e[..., 1, 0])
     res[..., 1, 0] = (X[..., 1, 0] * e[..., 0, 1])
-- 
2.43.0


From 0677ca61bfe861d13f1273cee69a199940c2dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:48 +0000
Subject: [PATCH 54/88] fix: unit_matrix and unit_smatrix return the requested
 class

---
 hftools/networks/multiports.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 8814dd5..dead17f 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -547,7 +547,7 @@ def unit_matrix(size=2, cls=SArray):
     i = DimMatrix_i("i", range(size))
     j = DimMatrix_j("j", range(size))
     m = hfarray(np.identity(size, dtype=np.complex128), dims=(i, j))
-    return SArray(m)
+    return cls(m)
 
 
 def unit_smatrix(size=2, cls=SArray):
@@ -555,7 +555,7 @@ def unit_smatrix(size=2, cls=SArray):
     j = DimMatrix_j("j", range(size))
     m = hfarray(np.zeros((size, size), dtype=np.complex128), dims=(i, j))
     m[0, 1] = m[1, 0] = 1
-    return SArray(m)
+    return cls(SArray(m))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 9b70ad3d10ce743f9777982cd9bb57fae0301f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:10 +0000
Subject: [PATCH 55/88] fix: network conversion keeps the order of the
 dimensions

---
 hftools/networks/multiports.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index dead17f..4266410 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -109,6 +109,7 @@ class _MultiPortArray(_hfarray):
             if self.ismatrix() and (data.shape[-1] == data.shape[-2]):
                 view = data.view(type=hfarray, dtype=data.dtype)
                 res, _, _ = convert(data.P, self.P, view)
+                res = res.reorder_dimensions(*[x.name for x in self.dims])
                 self.view(type=hfarray, dtype=self.dtype)[:] = res
             else:
                 fmt = ("Can not convert subelements of a %s matrix to "
-- 
2.43.0


From 3fb3dd5bf2085e9043a4e21f972d2ea6ebeae7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:20 +0000
Subject: [PATCH 56/88] fix: cascaded and de-embedded networks keep their
 reference impedance

---
 hftools/networks/multiports.py     | 4 ++--
 hftools/networks/spar_functions.py | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 4266410..c1b3632 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -184,7 +184,7 @@ class _MultiPortArray(_hfarray):
         """
         a = SArray(self)
         b = SArray(other, Z0=a.Z0)
-        return self.__class__(SArray(cascadeS(a, b), Z0=a.Z0))
+        return self.__class__(cascadeS(a, b))
 
     def deembed(self, left=None, right=None):
         """Deembed *left* and *right from *self*.
@@ -202,7 +202,7 @@ class _MultiPortArray(_hfarray):
             S = deembedleft(SArray(left, Z0=Z0), S)
         else:
             S = deembed(SArray(left, Z0=Z0), S, SArray(right, Z0=Z0))
-        return self.__class__(SArray(S, Z0=Z0))
+        return self.__class__(S)
 
     def __getattr__(self, key):
         try:
diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index a7720e3..1763758 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -17,6 +17,11 @@ def _result_dtype(a, b):
     return np.result_type(a.dtype, b.dtype, np.float32)
 
 
+def _copy_Z0(source, dest):
+    if hasattr(source, "Z0"):
+        dest.Z0 = source.Z0
+
+
 def cascadeS(S1, S2, *rest):
     """Cascade arrays containing S-parameters.
     """
@@ -35,6 +40,7 @@ def cascadeS(S1, S2, *rest):
     res[..., 1, 1] = S2[..., 1, 1] - S1[..., 1, 1] * s2det
     res = res / denom
     res = S1.__class__(res, dims=S1.dims)
+    _copy_Z0(S1, res)
     for S in rest:
         res = cascadeS(res, S)
     return res
@@ -68,6 +74,7 @@ def deembedleft(e, X):
     res = res / denom
     res[..., 1, 1] = res[..., 1, 1] + X[..., 1, 1]
     res = klass(res, dims=dims)
+    _copy_Z0(X, res)
     return res
 
 
@@ -95,6 +102,7 @@ def deembedright(X, e):
     res = res / denom
     res[..., 0, 0] = res[..., 0, 0] + X[..., 0, 0]
     res = klass(res, dims=dims)
+    _copy_Z0(X, res)
     return res
 
 
-- 
2.43.0


From 852acf3352dcf6ece6486349282ef1926f435843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:11 +0000
Subject: [PATCH 57/88] fix: make_matrix keeps complex elements whatever the
 first element is

---
 hftools/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/math.py b/hftools/math.py
index adb7a25..0779640 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -44,7 +44,7 @@ def make_matrix(a, b, c, d):
     a, b, c, d = make_same_dims_list([a, b, c, d])
     abcdshape = zip(a.shape, b.shape, c.shape, d.shape)
     maxshape = (tuple(max(x) for x in abcdshape) + (2, 2))
-    res = zeros(maxshape, a.dtype)
+    res = zeros(maxshape, np.result_type(a, b, c, d))
     res[..., 0, 0] = a
     res[..., 0, 1] = b
     res[..., 1, 0] = c
-- 
2.43.0


From 825f17fdad66a5f977b4eb6857c01c97385acd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:32 +0000
Subject: [PATCH 58/88] fix: products and solutions of non-square matrices have
 the right dimensions

---
 hftools/math.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index 0779640..628569a 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -390,6 +390,14 @@ def matrix_multiply_old(A, B):
     return result
 
 
+def matrix_dim(a, dim):
+    """The dimension of *a* that is like *dim*, of length one if *a* has none
+    """
+    if dim in a.dims:
+        return a.dims[a.dims.matching_index(dim)]
+    return dim.__class__(dim.name, 1)
+
+
 def matrix_multiply(a, b):
     """Multiply arrays of matrices.
 
@@ -398,7 +406,8 @@ def matrix_multiply(a, b):
     """
     A, B = make_same_dims(a, b)
     res = np.einsum("...ij,...jk->...ik", A, B)
-    return hfarray(res, dims=A.dims)
+    dims = A.dims[:-2] + (matrix_dim(a, A.dims[-2]), matrix_dim(b, A.dims[-1]))
+    return hfarray(res, dims=dims)
 
 
 def flatten_non_matrix(A):
@@ -418,7 +427,8 @@ def det(A):
 def solve_Ab(A, b, squeeze=True):
     AA, bb = make_same_dims(A, b)
     x = np.linalg.solve(AA, bb)
-    result = hfarray(x, dims=bb.dims)
+    dims = bb.dims[:-1] + (matrix_dim(b, bb.dims[-1]),)
+    result = hfarray(x, dims=dims)
     if squeeze:
         result = result.squeeze()
     return result
@@ -426,15 +436,19 @@ def solve_Ab(A, b, squeeze=True):
 
 def lstsq(A, b, squeeze=True):
     lstsq = np.linalg.lstsq
-    res = broadcast_matrices((A, b))
-    x, residuals, rank, s = lstsq(firstelement(res._broadcasted[0]), firstelement(res._broadcasted[1]))
-    xdims = res._broadcasted[0].dims
-    xempty = np.empty(res.outershape + x.shape, dtype=x.dtype)
-    xresult = hfarray(xempty, dims=xdims)
-
-    for a, b, rx in broadcast_matrices((A, b, xresult)):
-        rx[...], _, _, _ = lstsq(a, b)
-    return xresult
+    AA, bb = make_same_dims(A, b)
+    idim, jdim = AA.dims[-2:]
+    dims = AA.dims[:-2] + (idim.__class__(idim.name, matrix_dim(A, jdim).data),
+                           matrix_dim(b, jdim))
+    AA, bb = np.asarray(AA), np.asarray(bb)
+    outershape = np.broadcast(AA[..., 0, 0], bb[..., 0, 0]).shape
+    AA = np.broadcast_to(AA, outershape + AA.shape[-2:])
+    bb = np.broadcast_to(bb, outershape + bb.shape[-2:])
+    x = np.empty(outershape + (AA.shape[-1], bb.shape[-1]),
+                 dtype=np.result_type(AA, bb, np.float64))
+    for idx in np.ndindex(*outershape):
+        x[idx] = lstsq(AA[idx], bb[idx])[0]
+    return hfarray(x, dims=dims)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 70870e277b603377290cd19fe1fab7f51750ade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:52 +0000
Subject: [PATCH 59/88] fix: reject products of matrices whose sizes do not fit

---
 hftools/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/math.py b/hftools/math.py
index 628569a..d34a1ef 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -405,7 +405,7 @@ def matrix_multiply(a, b):
     Matrix multiplication is done by broadcasting the other dimensions first.
     """
     A, B = make_same_dims(a, b)
-    res = np.einsum("...ij,...jk->...ik", A, B)
+    res = np.matmul(np.asarray(A), np.asarray(B))
     dims = A.dims[:-2] + (matrix_dim(a, A.dims[-2]), matrix_dim(b, A.dims[-1]))
     return hfarray(res, dims=dims)
 
-- 
2.43.0


From f0faba5a893316cb14bbdf443078907afec4ebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:07 +0000
Subject: [PATCH 60/88] fix: noise resistance of ABCD two-ports

---
 hftools/networks/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/networks/noise.py b/hftools/networks/noise.py
index 2356c41..fa64c22 100644
--- a/hftools/networks/noise.py
+++ b/hftools/networks/noise.py
@@ -87,14 +87,14 @@ class NoisyTwoport(object):
         db = DataBlock()
         db.S = SArray(self.N)
         if isinstance(self.N, ABCDArray):
-            CA = self.C / (2 * k * 290)
+            CA = self.C / (4 * k * 290)
             CA11 = CA[..., 0, 0]
             CA12 = CA[..., 0, 1]
             CA22 = CA[..., 1, 1]
             Rn = CA11.real
             Yopt = (np.sqrt(CA22 / CA11 - (CA12.imag / CA11) ** 2) +
                     1j * (CA12.imag / CA11))
-            Fmin = 1 + (CA12 + CA11 * Yopt.conj()).real
+            Fmin = 1 + 2 * (CA12 + CA11 * Yopt.conj()).real
             if partial:
                 db.CA = CA
             db.Rn = Rn
-- 
2.43.0


From 411468d923f10e6fd4691a7613ad2562adec88d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:14 +0000
Subject: [PATCH 61/88] fix: passivity and reciprocity functions work for any
 dimensions and leave their argument alone

---
 hftools/networks/spar_functions.py | 44 ++++++++++++------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/hftools/networks/spar_functions.py b/hftools/networks/spar_functions.py
index 1763758..c741ff4 100644
--- a/hftools/networks/spar_functions.py
+++ b/hftools/networks/spar_functions.py
@@ -131,17 +131,13 @@ def make_passive_svd(S, delta=1e-6):
     Reciprocity, Passivity and Causality in S-parameters"
     """
 
-    svd = np.linalg.svd
-    out = []
-    for ss in S:
-        ss = np.array(ss, copy=False)
-        u, s, v = svd(ss)
-        s = abs(s) - 1
-        s[s < 0] = 0
-        s = np.diag(s)
-        delta = matrix_multiply(matrix_multiply(u, s), v)
-        out.append(ss - delta)
-    return S.__class__(out, dims=S.dims)
+    s = np.asarray(S)
+    u, sigma, v = np.linalg.svd(s)
+    excess = np.where(sigma > 1, sigma - (1 - delta), 0)
+    out = S.__class__(s - np.matmul(u * excess[..., np.newaxis, :], v),
+                      dims=S.dims)
+    _copy_Z0(S, out)
+    return out
 
 
 def make_passive_eig(S, delta=1e-6):
@@ -150,32 +146,26 @@ def make_passive_eig(S, delta=1e-6):
     The S-parameters of S are scaled such that the highest eigenvalue of S'
     becomes |lambda|max < 1 - delta.
     """
-    eig = np.linalg.eigvals
-    out = []
-    for s in S:
-        lambda_max = max(abs(eig(s)))
-        if lambda_max > 1:
-            out.append(s / lambda_max * (1 - delta))
-        else:
-            out.append(s)
-    return S.__class__(out, dims=S.dims)
+    s = np.asarray(S)
+    lambda_max = abs(np.linalg.eigvals(s)).max(-1)
+    scale = np.where(lambda_max > 1, lambda_max / (1 - delta), 1)
+    out = S.__class__(s / scale[..., np.newaxis, np.newaxis], dims=S.dims)
+    _copy_Z0(S, out)
+    return out
 
 
 def make_reciprocal(S):
     s12 = S[..., 0, 1]
     s21 = S[..., 1, 0]
     S12 = np.sqrt(s12 * s21)
-    A12 = np.where(np.angle(S12 / s12) < 1, S12, -S12)
+    A12 = np.where(abs(np.angle(S12 / s12)) < np.pi / 2, S12, -S12)
+    S = S.copy()
     S[..., 0, 1] = A12
     S[..., 1, 0] = A12
     return S
 
 
 def check_passive(S):
-    eig = np.linalg.eigvals
-    out = []
-    for s in S:
-        lambda_max = max(abs(eig(s)))
-        out.append(lambda_max)
-    return hfarray(out, dims=S.dims[:1])
+    lambda_max = abs(np.linalg.eigvals(np.asarray(S))).max(-1)
+    return hfarray(lambda_max, dims=S.dims[:-2])
 
-- 
2.43.0


From 7a89ed1955a61ee43b8459ff67f34601049b10b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:55 +0000
Subject: [PATCH 62/88] fix: smooth along any axis and of integer data

---
 hftools/math.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index d34a1ef..5200b76 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -204,7 +204,8 @@ def smooth(data, aperture, axis=0):
             axel som skall smoothas langs default = 1
     """
     data = np.asanyarray(data)
-    newdata = np.empty_like(data)
+    newdata = np.empty_like(data, dtype=np.result_type(data, np.float32))
+    pre = (slice(None),) * (axis % data.ndim)
     len = data.shape[axis] - 1
     if aperture % 2 == 0:
         odd = 0
@@ -213,9 +214,10 @@ def smooth(data, aperture, axis=0):
     for i in range(data.shape[axis]):
         wid = min(i, aperture // 2, abs(len - i))
         if wid != 0:
-            newdata[i] = np.mean(data[i - wid: i + wid + odd], axis)
+            window = data[pre + (slice(i - wid, i + wid + odd),)]
+            newdata[pre + (i,)] = np.mean(window, axis)
         else:
-            newdata[i] = data[i]
+            newdata[pre + (i,)] = data[pre + (i,)]
     return newdata
 
 
-- 
2.43.0


From 394561b7dce51f868206cbc6e2d5081b331a8b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:18 +0000
Subject: [PATCH 63/88] fix: written configuration files read back with their
 units, intervals, dates and paths, and scopes see later changes

---
 hftools/file_formats/config.py | 44 +++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/hftools/file_formats/config.py b/hftools/file_formats/config.py
index 40fff25..6967fbf 100644
--- a/hftools/file_formats/config.py
+++ b/hftools/file_formats/config.py
@@ -74,7 +74,8 @@ class LexicalScopeDict(OrderedDict):
     def __contains__(self, key):
         if OrderedDict.__contains__(self, key):
             return True
-        return self.parent and key in self.parent
+        dct = find_next_dict(self)
+        return dct is not None and key in dct
 
     def update(self, other):
         for k, v in other.items():
@@ -103,7 +104,9 @@ class LexicalScopeDict(OrderedDict):
         return out
 
     def copy(self):
-        return LexicalScopeDict(OrderedDict.copy(self))
+        res = LexicalScopeDict(self.items())
+        res.parent = self.parent
+        return res
 
     def __repr__(self):
         return dict.__repr__(self)
@@ -174,7 +177,10 @@ class LexicalConfig(LexicalScopeDict):
         self.clear()
         try:
             with io.open(self.filename, encoding="utf-8") as stream:
-                self.update(yaml.load(stream, Loader=LexicalLoader))
+                self.update(yaml.load(stream, Loader=LexicalLoader) or {})
+            for value in self.values():
+                if isinstance(value, (LexicalScopeDict, LexicalScopeList)):
+                    value.parent = self
         except IOError:
             print("missing config file %r" % self.filename)
 
@@ -197,7 +203,7 @@ class Config(dict):
         self.clear()
         try:
             with io.open(self.filename, encoding="utf-8") as stream:
-                self.update(yaml.load(stream, Loader=StandardLoader))
+                self.update(yaml.load(stream, Loader=StandardLoader) or {})
         except IOError:
             warnings.warn("missing config file %r" % self.filename)
 
@@ -226,22 +232,20 @@ def convert_or_none(x):
 
 
 def sivalue_representer(dumper, data):
-    if data.unit:
-        return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s%s' % (data, data.unit))
+    if data.unit == "m":
+        # a bare m is the prefix milli, so metres need a prefix
+        return dumper.represent_scalar(u'!sivalue', u'%smm' % (data * 1000))
+    elif data.unit:
+        return dumper.represent_scalar(u'!sivalue', u'%s%s' % (data, data.unit))
     else:
         return dumper.represent_scalar(u'tag:yaml.org,2002:float', u'%s' % (data))
 
 
 
 def timeintervall_representer(dumper, data):
-    tremain = data.total_seconds()
-    days = tremain // (3600 * 24)
-    tremain = tremain - days * 3600 * 24
-    hours = tremain // (3600)
-    tremain = tremain - hours * 3600
-    minutes = tremain // 60
-    tremain = tremain - minutes * 60
-    seconds = tremain
+    days = data.days
+    hours, seconds = divmod(data.seconds, 3600)
+    minutes, seconds = divmod(seconds, 60)
     out = []
     if days:
         out.append(u"%s days" % days)
@@ -249,19 +253,21 @@ def timeintervall_representer(dumper, data):
         out.append(u"%s hours" % hours)
     if minutes:
         out.append(u"%s minutes" % minutes)
-    if seconds:
+    if data.microseconds:
+        out.append(u"%d.%06d seconds" % (seconds, data.microseconds))
+    elif seconds or not out:
         out.append(u"%s seconds" % seconds)
 
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str',
-                                   u" ".join(out))
+    return dumper.represent_scalar(u'!timeintervall', u" ".join(out))
 
 
 def timestamp_representer(dumper, data):
-    return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % (data))
+    return dumper.represent_scalar(u'tag:yaml.org,2002:timestamp',
+                                   u'%s' % (data))
 
 
 def path_representer(dumper, p):
-    return dumper.represent_scalar(u'!str', u'%s' % p)
+    return dumper.represent_scalar(u'tag:yaml.org,2002:str', u'%s' % p)
 
 reg_si_value = re.compile(r"^([-+]?[0-9]*\.?[0-9]+([eE][-+]?[0-9]+)?)"
                           r"[ \t]*(([dcmunpfakMGTPE])?(Hz|V|A|m|s|W|Ohm)?)?$")
-- 
2.43.0


From deb39931e79782a9bfc709295478e7a829fae2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:36 +0000
Subject: [PATCH 64/88] fix: draw Smith charts with current matplotlib

---
 hftools/plotting/smith.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index e7952b8..47dd88c 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -90,10 +90,8 @@ class MyCircle(object):
         else:
             pars = ((self.x, self.y),
                     self.flipx * 2 * self.r,
-                    self.flipy * 2 * self.r,
-                    0,
-                    self.t1,
-                    self.t2)
+                    self.flipy * 2 * self.r)
+            kw.update(angle=0, theta1=self.t1, theta2=self.t2)
             return Arc(*(pars + k), **kw)
 
 
@@ -252,7 +250,8 @@ def polar_grid(ax=None, mode="full", **kw):
     angles = dict(full=(0, 360), lower=(180, 360.00001), upper=(0, 180.000001))
     t1, t2 = angles[mode]
     for r in np.arange(0, 1.001, 0.2):
-        ax.add_patch(Arc((0, 0), 2 * r, 2 * r, 0, t1, t2, color="k"))
+        ax.add_patch(Arc((0, 0), 2 * r, 2 * r, angle=0, theta1=t1, theta2=t2,
+                         color="k"))
 
     for fi in np.arange(t1 / 180 * np.pi, t2 / 180 * np.pi, np.pi / 4):
         z = np.exp(1j * fi)
@@ -286,7 +285,8 @@ def smith_grid(ax=None, mode="full", standard=True, **kw):
         XC = BCircle
     t1, t2 = angles[mode]
     x1, x2 = xlims[mode]
-    ax.add_patch(Arc((0, 0), 2, 2, 0, t1, t2, fc="w", ec="k"))
+    ax.add_patch(Arc((0, 0), 2, 2, angle=0, theta1=t1, theta2=t2, fc="w",
+                     ec="k"))
 
     for r in [0, 1. / 3, 1, 3]:
         c = RC(r, x1, x2)
-- 
2.43.0


From f663725e1352df242a78e518c664cfeffbdebedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:54 +0000
Subject: [PATCH 65/88] fix: limits of constant conductance and susceptance
 circles

---
 hftools/plotting/smith.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index 47dd88c..946e385 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -197,6 +197,7 @@ def GCircle(g, b1=None, b2=None):
     if b1 is None or b2 is None:
         pass
     else:
+        b1, b2 = sorted((b1, b2))
         y1 = complex(g, b2)
         y2 = complex(g, b1)
         c1 = y2gamma(y1)
@@ -212,9 +213,11 @@ def BCircle(b, g1=None, g2=None):
         if g1 is None or g2 is None:
             return MyLine(-1, 0, 1, 0)
         else:
-            x1 = (z2gamma(g1) + 0j).real
-            x2 = (z2gamma(g2) + 0j).real
+            x1 = (y2gamma(g1) + 0j).real
+            x2 = (y2gamma(g2) + 0j).real
             return MyLine(x1, 0, x2, 0)
+    if g1 is not None and g2 is not None:
+        g1, g2 = sorted((g1, g2))
     if b >= 0:
         branch = 90
         g1, g2 = (g2, g1)
-- 
2.43.0


From 7ce6ab24ab8d5f48ce2824f953aadd5da8b0a221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:14 +0000
Subject: [PATCH 66/88] fix: unwrap phase of arrays with dimensions in any
 order

---
 hftools/math.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hftools/math.py b/hftools/math.py
index 5200b76..c8b8685 100644
--- a/hftools/math.py
+++ b/hftools/math.py
@@ -132,9 +132,11 @@ def _unwrap_phase(data, deg=False):
        >>> unwrap_phase(hfarray(y))
        hfarray([  0. ,   1.5,   3. ,   4.5,   6. ,   7.5,   9. ,  10.5])
     """
-    result = data.real * 0
+    dims = data.dims
+    data = array(data)
+    result = zeros(data.shape)
     a = angle(data[0])
-    a0 = np.median(array(a.flat[0], copy=False))
+    a0 = np.median(array(a).flat[0])
     add_pos = abs(a - a0 + 2 * pi) < 2
     add_neg = abs(a - a0 - 2 * pi) < 2
     result[0] = a
@@ -144,7 +146,7 @@ def _unwrap_phase(data, deg=False):
     result2 = np.where(array(add_neg), array(result1 - 2 * pi), array(result1))
     if deg:
         result2 = result2 / pi * 180
-    return hfarray(result2, dims=data.dims)
+    return hfarray(result2, dims=dims)
 
 
 def unwrap_phase(data, deg=False):
-- 
2.43.0


From ad1830577a27df0510597527f6f7e96d90d01238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:34 +0000
Subject: [PATCH 67/88] fix: plot lines along the dimension of x

---
 hftools/plotting/helper.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 5fae5bc..229cf01 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -22,7 +22,7 @@ from matplotlib.backends.backend_pdf import PdfPages
 import hftools.math
 from hftools.py3compat import text_type
 from hftools.constants.si_units import si_exp_to_prefixes, _help_format_sci
-from hftools.dataset import hfarray, remove_tail
+from hftools.dataset import hfarray, remove_tail, change_shape
 from hftools.math import delay, unwrap_phase
 
 """
@@ -243,6 +243,17 @@ def get_dims_names(x):
     return [y.name for y in x.dims]
 
 
+def align_with_x(x, y):
+    """Reorder dimensions of y so that they start with the dimensions of x
+    """
+    xdims = getattr(x, "dims", ())
+    ydims = getattr(y, "dims", ())
+    if xdims and all(dim in ydims for dim in xdims):
+        y = change_shape(y, list(xdims) + [dim for dim in ydims
+                                           if dim not in xdims])
+    return y
+
+
 class HFToolsAxes(Axes):
     name = "rectilinear"
 
@@ -345,7 +356,7 @@ class HFToolsAxes(Axes):
                 return Axes.plot(self, y, *args, **kwargs)
         elif len(vars) == 2:
             x = vars[0]
-            y = vars[1]
+            y = align_with_x(x, vars[1])
             xunit = getattr(x, "unit", None)
             yunit = getattr(y, "unit", None)
 
@@ -594,7 +605,7 @@ class ComplexPolarAxes(PolarAxes):
                 return Axes.plot(self, y, *args, **kwargs)
         elif len(vars) == 2:
             x = vars[0]
-            y = remove_tail(vars[1])
+            y = remove_tail(align_with_x(x, vars[1]))
 
             if projection in _projfun:
                 x, y = _projfun[projection](x, y)
-- 
2.43.0


From 749fa92425d7c4fa175c137952a04cc92c7edb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:56 +0000
Subject: [PATCH 68/88] fix: plot plain arrays on all projections

---
 hftools/plotting/helper.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 229cf01..ff2e1b8 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -637,19 +637,23 @@ def cplx_polar_projection(x, y):
         theta = np.angle(y)
     return theta, r
 
+
+def _keep_dims(y, values):
+    if hasattr(y, "dims"):
+        return hfarray(values, dims=y.dims)
+    else:
+        return values
+
 _projfun = dict(db=lambda x, y: (x, hftools.math.dB(y)),
                 db10=lambda x, y: (x, 10 * np.log10(abs(y))),
-                mag=lambda x, y: (x, hfarray(np.abs(y), dims=y.dims)),
-                mag_square=lambda x, y: (x, hfarray(np.abs(y) ** 2,
-                                                    dims=y.dims)),
-                rad=lambda x, y: (x, hfarray(np.angle(y, deg=False),
-                                             dims=y.dims)),
-                deg=lambda x, y: (x, hfarray(np.angle(y, deg=True),
-                                             dims=y.dims)),
+                mag=lambda x, y: (x, _keep_dims(y, np.abs(y))),
+                mag_square=lambda x, y: (x, _keep_dims(y, np.abs(y) ** 2)),
+                rad=lambda x, y: (x, _keep_dims(y, np.angle(y, deg=False))),
+                deg=lambda x, y: (x, _keep_dims(y, np.angle(y, deg=True))),
                 unwraprad=lambda x, y: (x, unwrap_phase(y)),
                 unwrapdeg=lambda x, y: (x, unwrap_phase(y, deg=True)),
-                imag=lambda x, y: (x, hfarray(np.imag(y), dims=y.dims)),
-                real=lambda x, y: (x, hfarray(np.real(y), dims=y.dims)),
+                imag=lambda x, y: (x, _keep_dims(y, np.imag(y))),
+                real=lambda x, y: (x, _keep_dims(y, np.real(y))),
                 groupdelay=lambda x, y: delay(x, y),
                 cplxpolar=cplx_polar_projection)
 _projfun["x-si"] = lambda x, y: (x, y)
-- 
2.43.0


From 45d73e655cdaa5938a0dab3a8f7daf5542977865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:19 +0000
Subject: [PATCH 69/88] fix: outer arc of half admittance charts

---
 hftools/plotting/smith.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/plotting/smith.py b/hftools/plotting/smith.py
index 946e385..8f23641 100644
--- a/hftools/plotting/smith.py
+++ b/hftools/plotting/smith.py
@@ -278,7 +278,7 @@ def smith_grid(ax=None, mode="full", standard=True, **kw):
         lower = [-1. / 3, -1, -3]
 
     else:
-        angles = dict(full=(0, 360), lower=(0, 180), upper=(180, 360))
+        angles = dict(full=(0, 360), lower=(180, 360), upper=(0, 180))
         xlims = dict(full=(-np.inf, np.inf),
                      upper=(-np.inf, 0),
                      lower=(0, np.inf))
-- 
2.43.0


From ef813ca6696c660399026ad74ec5c82ffa68dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:15 +0000
Subject: [PATCH 70/88] fix: axis label of ticks with their own prefix and of
 power of ten labels

---
 hftools/plotting/helper.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index ff2e1b8..fda2f89 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -169,6 +169,7 @@ class UnitFormatter(FormatStrFormatter):
                 prefix = si_exp_to_prefixes.get(exponent, "q")
                 if prefix == "q":
                     prefix = ""
+                    exponent = 0
                     div = 1
                     self.fmt = "%%.%de" % self.digs
                 xlabel = self.label_template % dict(prefix=prefix,
@@ -176,6 +177,10 @@ class UnitFormatter(FormatStrFormatter):
                 self.set_label_fun(xlabel)
             return FormatStrFormatter.__call__(self, x / div, pos)
         else:
+            if self.set_label_fun and self.label_template:
+                #The ticks carry their own prefix
+                self.set_label_fun(self.label_template % dict(prefix="",
+                                                              powerprefix=0))
             self.engfmt.locs = self.locs
             return self.engfmt(x, pos)
 
@@ -229,8 +234,8 @@ class UnitFormatter(FormatStrFormatter):
                 fmt = fmt.replace("[]", u"[%(prefix)sU]")
         elif "[^]" in fmt:
             if self.get_label_unit():
-                fmt = fmt.replace("[^]", u"$[10^{{%%(powerprefix).0f" +
-                                  u"\\rm{{{unit}}}}]$")
+                fmt = fmt.replace("[^]", u"$[10^{{%(powerprefix).0f}}" +
+                                  u"\\rm{{{unit}}}]$")
             else:
                 fmt = fmt.replace("[^]", u"$[10^{{%(powerprefix).0f}}]$")
         if "{unit}" in fmt or "{default}" in fmt:
-- 
2.43.0


From bbec0f3be321f9cc892c05aadb3d9c6114d072eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:38 +0000
Subject: [PATCH 71/88] fix: MDIF reader guessed units although
 guess_unit=False was given

---
 hftools/file_formats/mdif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index c3e04f4..59c2aa4 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -155,7 +155,8 @@ class ReadMDIFFileFormat(ReadFileFormat):
             res = {}
             for k, v in objs.items():
                 res[k] = simple_merge_blocks(v)
-                res[k].guess_units()
+                if guess_unit:
+                    res[k].guess_units()
         else:
             res = objs
 
-- 
2.43.0


From 348fc8d71e291bbaab681facec1639b2c30a09d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:39 +0000
Subject: [PATCH 72/88] fix: text with underscores between digits is not a
 number

---
 hftools/utils.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/hftools/utils.py b/hftools/utils.py
index de384e9..9488ff9 100644
--- a/hftools/utils.py
+++ b/hftools/utils.py
@@ -89,19 +89,21 @@ def to_numeric(value, error=True):
     except TypeError:
         pass
     try:
-        return int(value)
-    except ValueError:
+        if "_" in str(value):  # a name, although int("1_2") is 12
+            raise ValueError("could not convert string to number: %r" % value)
         try:
-            return float(value)
+            return int(value)
         except ValueError:
-            try:
-                if dateregexp.match(value):
-                    return np.datetime64(value)
-                else:
-                    raise ValueError
-            except (ValueError, TypeError):
-                if error:
-                    raise
+            return float(value)
+    except ValueError:
+        try:
+            if dateregexp.match(value):
+                return np.datetime64(value)
+            else:
+                raise ValueError
+        except (ValueError, TypeError):
+            if error:
+                raise
     return value
 
 
-- 
2.43.0


From 6da8e65e719197ad54f45b855af66b1674eb3a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:17 +0000
Subject: [PATCH 73/88] fix: MATLAB files that are not from muwave raised
 NameError

---
 hftools/file_formats/muwave_mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/file_formats/muwave_mat.py b/hftools/file_formats/muwave_mat.py
index 6ac9cd2..c5cee92 100644
--- a/hftools/file_formats/muwave_mat.py
+++ b/hftools/file_formats/muwave_mat.py
@@ -142,7 +142,7 @@ def build_data(data):
 def read_single_muwave_matlabdata(filename, **kw):
     data = sio.loadmat(filename)
     if "swp" not in data:
-        raise MuwaveIOError("%r is not a muwave matlab file"%filename)
+        raise HFToolsIOError("%r is not a muwave matlab file"%filename)
     swpdata = data["swp"][0, 0]["data"][0, :]
     out = []
     for d in swpdata:
-- 
2.43.0


From c9049349c8cb6eff240b98be8415e67a5f96cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:14 +0000
Subject: [PATCH 74/88] fix: twin_fig_legend failed with its default location

---
 hftools/plotting/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index fda2f89..38b0fdf 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -713,7 +713,7 @@ def build_figlegend(axes=None):
     Example::
 
         (lines,labels)=build_figlegend()
-        pylab.figlegend(lines, labels, loc="best")
+        pylab.figlegend(lines, labels, loc="upper right")
 
     """
     if axes is None:
@@ -736,7 +736,7 @@ def twin_axes_legend(axes=None, loc="best", **kw):
     pylab.legend(lines, labels, loc=loc, **kw)
 
 
-def twin_fig_legend(axes=None, loc="best", **kw):
+def twin_fig_legend(axes=None, loc="upper right", **kw):
     """Skapa figur legend for alla linjer i en plot som skapats med
     dubbla y-axlar (twinx)
     """
-- 
2.43.0


From 8f99a4fea2d46d25274263cc5a9b20ea27043fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:02 +0000
Subject: [PATCH 75/88] fix: selection by a mask named the new dim like an
 existing one

---
 hftools/dataset/arrayobj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index c34f142..38aaa96 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -654,7 +654,10 @@ class _hfarray(ndarray):
                                        np.array(dim.data)[indices[0]],
                                        unit=dim.unit)
             else:
-                newdim = get_new_anonymous_dim(self, int(np.sum(indices[0])))
+                # also dims of other classes may be named like an anonymous dim
+                anon = [DimAnonymous(dim.name, 1) for dim in self.dims
+                        if dim.name[:4] == "ANON" and dim.name[4:].isdigit()]
+                newdim = get_new_anonymous_dim(anon, int(np.sum(indices[0])))
 
             dims = (reordered.dims[:len(reorder)] +
                     (newdim,) +
-- 
2.43.0


From 45d59fa9c2f179ec1b15cc00de26c3b25aa3f051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:47 +0000
Subject: [PATCH 76/88] fix: format_number failed on nan and numbers beyond the
 SI prefixes

---
 hftools/constants/si_units.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hftools/constants/si_units.py b/hftools/constants/si_units.py
index 48bcfb9..59b8a7c 100644
--- a/hftools/constants/si_units.py
+++ b/hftools/constants/si_units.py
@@ -121,7 +121,10 @@ def mantissa(x):
 
 def format_number(number, fmt="%(num)s %(unit)s",
                   unit="", digs=3, greek=False):
-    if np.isinf(number):
+    if np.isnan(number):
+        prefix = ""
+        num = "nan"
+    elif np.isinf(number):
         prefix = ""
         if number > 0:
             num = "inf"
@@ -129,15 +132,16 @@ def format_number(number, fmt="%(num)s %(unit)s",
             num = "-inf"
     else:
         num, exp = _help_format_sci(number, digs)
+        prefixes = si_exp_to_prefixes_greek if greek else si_exp_to_prefixes
+        notation = "f"
+        if exp not in prefixes:  # too large or small for the prefixes
+            num, exp, notation = number, 0, "e"
         if digs is None:
             pass
         else:
-            numfmt = "%%.%df" % digs
+            numfmt = "%%.%d%s" % (digs, notation)
             num = numfmt % num
-        if greek:
-            prefix = si_exp_to_prefixes_greek[exp]
-        else:
-            prefix = si_exp_to_prefixes[exp]
+        prefix = prefixes[exp]
     prefixedunit = "%s%s" % (prefix, unit)
     return fmt % dict(num=num, unit=prefixedunit)
 
-- 
2.43.0


From 02a925b0909651bf3dcd5fcc2ad4bd6756153e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:35 +0000
Subject: [PATCH 77/88] fix: report failed on dimension units with a space

---
 hftools/dataset/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index cfdb818..41a2fde 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -536,10 +536,10 @@ class DataBlock(object):
                 fmt = SIFormat(unit=self.ivardata[name].unit, digs=None)
             tofmt["shape"] = "<%s>" % self.ivardata[name].data.shape[0]
             if self.report_minmax:
-                value, unit = (fmt % self.ivardata[name].data.max()).split(" ")
+                value, unit = (fmt % self.ivardata[name].data.max()).split(" ", 1)
                 tofmt["maxvalue"] = value
                 tofmt["maxunit"] = unit
-                value, unit = (fmt % self.ivardata[name].data.min()).split(" ")
+                value, unit = (fmt % self.ivardata[name].data.min()).split(" ", 1)
                 tofmt["minvalue"] = value
                 tofmt["minunit"] = unit
             else:
-- 
2.43.0


From 4d4c3cf89fb666ec7b22aa526b1f3aea073561a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:48 +0000
Subject: [PATCH 78/88] fix: a dim of whole and broken numbers was written as
 integers

---
 hftools/dataset/dim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/dataset/dim.py b/hftools/dataset/dim.py
index a89e916..314861e 100644
--- a/hftools/dataset/dim.py
+++ b/hftools/dataset/dim.py
@@ -103,7 +103,7 @@ class DimBase(object):
     @property
     def outputformat(self):
         if self._outputformat is None:
-            if is_integer(self._data[0]):
+            if all(is_integer(x) for x in self._data):
                 return "%d"
             elif is_numlike(self._data[0]):
                 return "%.16e"
-- 
2.43.0


From 5acc7065ab20e62bc2ebd4cd274df5b9e6e8f26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:42 +0000
Subject: [PATCH 79/88] fix: MDIF files without VAR lines were not recognised
 by read_data

---
 hftools/file_formats/mdif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/file_formats/mdif.py b/hftools/file_formats/mdif.py
index 59c2aa4..5e6fba4 100644
--- a/hftools/file_formats/mdif.py
+++ b/hftools/file_formats/mdif.py
@@ -38,7 +38,8 @@ from hftools.file_formats.readbase import ManyOptional,\
 class MDIFError(FileFormatError):
     pass
 
-reg_mdif = re.compile(r"[\t ]*VAR[\t ]*[A-Za-z_0-9.]+[(][a-zA-Z]+[)]")
+reg_mdif = re.compile(r"[\t ]*(VAR[\t ]*[A-Za-z_0-9.]+[(][a-zA-Z]+[)]|"
+                      r"BEGIN[\t ]+[A-Za-z_0-9])")
 
 
 def is_mdif(filename, rad):
-- 
2.43.0


From 2c965ff30a796d5721d06076c623fea476285d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:28 +0000
Subject: [PATCH 80/88] fix: setting an element-like name only writes into a
 matrix, and into the variable of that name if there is one

---
 hftools/dataset/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 41a2fde..10a2157 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -350,7 +350,8 @@ class DataBlock(object):
             else:
                 self._xname = None
             mname, elem = is_matrix_name(key)
-            if mname in self.vardata and not ismatrix(value):
+            if (key not in self and mname in self.vardata and
+                    ismatrix(self.vardata[mname]) and not ismatrix(value)):
                 idx = (Ellipsis,) + elem
                 self.vardata[mname][idx] = value
             else:
-- 
2.43.0


From 951f887d336d17cf83237827eb787288aa1aba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:24 +0000
Subject: [PATCH 81/88] fix: a plain complex array on polar axes is drawn at
 its angle

---
 hftools/plotting/helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hftools/plotting/helper.py b/hftools/plotting/helper.py
index 38b0fdf..d4f4247 100644
--- a/hftools/plotting/helper.py
+++ b/hftools/plotting/helper.py
@@ -603,7 +603,7 @@ class ComplexPolarAxes(PolarAxes):
             y = vars[0]
             if projection in _projfun:
                 x, y = _projfun[projection](None, y)
-                return Axes.plot(self, y, *args, **kwargs)
+                return Axes.plot(self, x, y, *args, **kwargs)
             elif np.iscomplexobj(y):
                 return Axes.plot(self, y.real, y.imag, *args, **kwargs)
             else:
-- 
2.43.0


From 522c62758767261cb711f9c0e7c2e625a04f33a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:46 +0000
Subject: [PATCH 82/88] fix: in-place operators, // and % align operands by
 dimension name like the other operators

---
 hftools/dataset/arrayobj.py | 58 +++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 38aaa96..9a059fe 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -788,6 +788,64 @@ class _hfarray(ndarray):
     def __rpow__(self, other):
         return np.power(other, self)
 
+    @check_instance
+    def __floordiv__(self, other):
+        return ndarray.__floordiv__(self, other)
+
+    @check_instance
+    def __rfloordiv__(self, other):
+        return ndarray.__rfloordiv__(self, other)
+
+    @check_instance
+    def __mod__(self, other):
+        return ndarray.__mod__(self, other)
+
+    @check_instance
+    def __rmod__(self, other):
+        return ndarray.__rmod__(self, other)
+
+    def _inplace_operand(self, other):
+        u"""The operand *other* of an in-place operator with its axes ordered
+        as those of *self*, the result has to fit the dimensions of *self*.
+        """
+        if not isinstance(other, _hfarray):
+            return other
+        for dim in other.dims:
+            if dim not in self.dims:
+                msg = "%r not a dimension of the array changed in place"
+                raise DimensionMismatchError(msg % dim)
+        return change_shape(other, self.dims)
+
+    def __iadd__(self, other):
+        return ndarray.__iadd__(self, self._inplace_operand(other))
+
+    def __isub__(self, other):
+        return ndarray.__isub__(self, self._inplace_operand(other))
+
+    def __imul__(self, other):
+        return ndarray.__imul__(self, self._inplace_operand(other))
+
+    def __itruediv__(self, other):
+        return ndarray.__itruediv__(self, self._inplace_operand(other))
+
+    def __ifloordiv__(self, other):
+        return ndarray.__ifloordiv__(self, self._inplace_operand(other))
+
+    def __imod__(self, other):
+        return ndarray.__imod__(self, self._inplace_operand(other))
+
+    def __ipow__(self, other):
+        return ndarray.__ipow__(self, self._inplace_operand(other))
+
+    def __iand__(self, other):
+        return ndarray.__iand__(self, self._inplace_operand(other))
+
+    def __ior__(self, other):
+        return ndarray.__ior__(self, self._inplace_operand(other))
+
+    def __ixor__(self, other):
+        return ndarray.__ixor__(self, self._inplace_operand(other))
+
     def __abs__(self):
         return ndarray.__abs__(self)
 
-- 
2.43.0


From 5d4b0950d6b9d6cedab09da1d7a0b75a9e03c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:52 +0000
Subject: [PATCH 83/88] fix: add_dim with a negative axis or a dimension
 without points gave arrays that disagree with their dims

---
 hftools/dataset/arrayobj.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index 9a059fe..aaba310 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -1011,9 +1011,11 @@ class _hfarray(ndarray):
             return self
         if dim in self.dims:
             return self
+        if axis < 0:
+            axis = max(axis + self.ndim + 1, 0)
         axis = min(axis, self.ndim)
         out = self[(slice(None), ) * axis + (None, )]
-        if len(dim.data) > 1:
+        if len(dim.data) != 1:
             out = out.repeat(len(dim.data), axis)
         dims = list(self.dims)
         dims.insert(axis, dim)
-- 
2.43.0


From 13cf03a5d8179bafdea8753104cd27dd44ad3813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:18 +0000
Subject: [PATCH 84/88] fix: pickled arrays keep dims, unit, format and
 reference impedance

---
 hftools/dataset/arrayobj.py    | 10 ++++++++++
 hftools/networks/multiports.py | 14 +++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/hftools/dataset/arrayobj.py b/hftools/dataset/arrayobj.py
index aaba310..f12870c 100644
--- a/hftools/dataset/arrayobj.py
+++ b/hftools/dataset/arrayobj.py
@@ -462,6 +462,16 @@ class _hfarray(ndarray):
         self.__dict__["outputformat"] = getattr(obj, "outputformat", "%.16e")
         self.__dict__["unit"] = getattr(obj, "unit", None)
 
+    def __reduce__(self):
+        # ndarray does not pickle the dimensions, unit and output format
+        fun, args, state = ndarray.__reduce__(self)
+        return fun, args, (state, self.__dict__.copy())
+
+    def __setstate__(self, state):
+        state, attributes = state
+        ndarray.__setstate__(self, state)
+        self.__dict__.update(attributes)
+
     def verify_dimension(self):
         u"""Internal function that checks to see if the arrays dimensions match
            those of the *dims* specification.
diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index c1b3632..46f21c4 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -32,6 +32,8 @@ Twoports
 
 """
 
+import functools
+
 import numpy as np
 from numpy import array, identity, \
     zeros_like, bmat, diag, sqrt
@@ -44,17 +46,19 @@ from hftools.dataset.arrayobj import hfarray, DimSweep,\
 from hftools.utils import warn
 
 
+def _access_element(i, j, x):
+    """Matrix accessor function for zero indexed element (i,j)"""
+    return hfarray(x, copy=False)[..., i, j]
+
+
 def make_accessor(i, j):
     """Help function to define accessor for matrix elements.
 
     Return function that access element i, j of multi-matrix.
     i,j are zero indexed.
     """
-    def accessor(x):
-        """Matrix accessor function for zero indexed element (%d,%d)"""
-        return hfarray(x, copy=False)[..., i, j]
-    accessor.__doc__ = accessor.__doc__ % (i, j)
-    return accessor
+    # not a closure as that can not be pickled
+    return functools.partial(_access_element, i, j)
 
 
 def convert(fromP, toP, a):
-- 
2.43.0


From bff09c8fbadaabd8ab9f95cd29df82e73b2aa7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:18 +0000
Subject: [PATCH 85/88] fix: data dictionaries and blocks can be deep-copied
 and pickled

---
 hftools/dataset/dataset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 10a2157..ac4ebc9 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -91,6 +91,9 @@ class DataDict(dict):
         dict.__init__(self, *k, **kw)
         self.__dict__["order"] = []
 
+    def __reduce__(self):
+        return self.__class__, (), None, None, iter(self.items())
+
     @property
     def outputformat(self):
         for x in self.values():
@@ -327,6 +330,8 @@ class DataBlock(object):
             raise KeyError("No data named %r is available" % (key,))
 
     def __getattr__(self, key):
+        if key.startswith("__"):  # looked up by e.g. copy.deepcopy
+            raise AttributeError(key)
         try:
             return self.__getitem__(key)
         except KeyError as exc:
-- 
2.43.0


From 9348c22093616c5c17b15a68bba0b849484bc9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:18 +0000
Subject: [PATCH 86/88] fix: elements of network arrays by name after operators
 and copies, and only of matrices

---
 hftools/networks/multiports.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hftools/networks/multiports.py b/hftools/networks/multiports.py
index 46f21c4..eab5fef 100644
--- a/hftools/networks/multiports.py
+++ b/hftools/networks/multiports.py
@@ -166,6 +166,9 @@ class _MultiPortArray(_hfarray):
     def __array_finalize__(self, obj):
         _hfarray.__array_finalize__(self, obj)
         self.Z0 = getattr(obj, "Z0", 50.)
+        if type(obj) is type(self) and obj.shape == self.shape:
+            # __init__ is not called for copies and results of operators
+            self.__dict__["_attrfuns"] = obj._attrfuns
 
     def view(self, dtype=None, type=None):
         if type is None:
@@ -210,9 +213,12 @@ class _MultiPortArray(_hfarray):
 
     def __getattr__(self, key):
         try:
-            return (self._attrfuns[key](self))
+            accessor = self._attrfuns[key]
         except KeyError:
             raise AttributeError
+        if not self.ismatrix():
+            raise AttributeError
+        return accessor(self)
 
     def __setattr__(self, key, value):
         try:
-- 
2.43.0


From 51f287278fbbef85f02d11cc516f3193fb70e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:22 +0000
Subject: [PATCH 87/88] fix: blocks made from parts of a block get dims and
 units of their own

---
 hftools/dataset/dataset.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index ac4ebc9..83a89a7 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -41,6 +41,13 @@ class DataBlockError(Exception):
     pass
 
 
+def relabelable(v):
+    """View of *v* with dims, unit, etc. of its own"""
+    out = v.view()
+    out.__dict__.update(v.__dict__)
+    return out
+
+
 def subset_datablock_by_dims(db, dims):
     """Get subset of db with variables with matching dims."""
     out = DataBlock()
@@ -51,9 +58,9 @@ def subset_datablock_by_dims(db, dims):
         raise ValueError(msg)
     for k, v in db.vardata.items():
         if set(v.dims) == dimset:
-            out[k] = v
+            out[k] = relabelable(v)
         elif set(v.dims) == set(dims[1:]):
-            out[k] = v
+            out[k] = relabelable(v)
     return out
 
 
@@ -82,7 +89,7 @@ def convert_matrices_to_elements(db, formatelement=None):
                 for j, _ in enumerate(v.dims[v.dims_index("j")].data, 1):
                     out[formatelement(k, i, j)] = v[..., i - 1, j - 1]
         else:
-            out[k] = v
+            out[k] = relabelable(v)
     return out
 
 
@@ -244,7 +251,7 @@ class DataBlock(object):
         db.blockname = self.blockname
         for v in vars:
             if v in self:
-                db[v] = self[v]
+                db[v] = relabelable(self[v])
         return db
 
     def replace_dim(self, olddim, newdim):
@@ -728,7 +735,7 @@ class DataBlock(object):
         for k, v in self.vardata.items():
             if replacedim not in v.dims:
                 if all:
-                    out[k] = v
+                    out[k] = relabelable(v)
                 1 + 0  # coverage.py bug necessary to get coverage for
                        # continue on next line
                 continue
@@ -773,7 +780,7 @@ def interpolate(newx, y, defaultmode=None):
         else:
             newx = newx.dims[0]
     if newx not in y.dims:
-        return y
+        return relabelable(y)
     oldx = y.dims.get_matching_dim(newx)
     olddims = y.dims
     dimidx = olddims.matching_index(newx)
-- 
2.43.0


From a4deb2c857eba1a41322e064b6bda24b5097c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:35 +0000
Subject: [PATCH 88/88] fix: a block can be sorted along a dimension no
 variable uses

---
 hftools/dataset/dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hftools/dataset/dataset.py b/hftools/dataset/dataset.py
index 83a89a7..a79dd43 100644
--- a/hftools/dataset/dataset.py
+++ b/hftools/dataset/dataset.py
@@ -526,6 +526,8 @@ class DataBlock(object):
         olddim = self.ivardata[dimname]
         out.xname = self.xname
         data = self[dimname][sortorder]
+        if dimname not in out.ivardata:  # no variable is swept along it
+            out.ivardata[dimname] = olddim
         out.replace_dim(olddim, olddim.__class__(olddim, data=data))
         return out
 
-- 
2.43.0

