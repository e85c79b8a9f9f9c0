From 70821d3cc036c1f1816302cf54139da24130682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 01/22] fix: reverse the horizontal axis when synchronizing
 interfaces of multi-dimensional vectors

---
 fv3gfs/util/communicator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index a01e5c1..31d8d30 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -579,7 +579,7 @@ class CubedSphereCommunicator(Communicator):
         )
         south_data = rotate_scalar_data(
             south_data,
-            [constants.X_DIM],
+            [dim for dim in x_quantity.dims if dim != constants.Y_INTERFACE_DIM],
             x_quantity.np,
             -south_boundary.n_clockwise_rotations,
         )
@@ -595,7 +595,7 @@ class CubedSphereCommunicator(Communicator):
         )
         west_data = rotate_scalar_data(
             west_data,
-            [constants.Y_DIM],
+            [dim for dim in y_quantity.dims if dim != constants.X_INTERFACE_DIM],
             y_quantity.np,
             -west_boundary.n_clockwise_rotations,
         )
-- 
2.43.0


From 3adb1f1861cd7aa98eec4f1bcbf52fd1e2f969e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 02/22] fix: align the horizontal axis of synchronized
 interfaces with the receiving component

---
 fv3gfs/util/communicator.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 31d8d30..127d478 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -569,6 +569,8 @@ class CubedSphereCommunicator(Communicator):
     def _Isend_vector_shared_boundary(self, x_quantity, y_quantity, tag=0):
         south_boundary = self.boundaries[constants.SOUTH]
         west_boundary = self.boundaries[constants.WEST]
+        south_dims = [d for d in x_quantity.dims if d != constants.Y_INTERFACE_DIM]
+        west_dims = [d for d in y_quantity.dims if d != constants.X_INTERFACE_DIM]
         south_data = x_quantity.view.southwest.sel(
             **{
                 constants.Y_INTERFACE_DIM: 0,
@@ -579,12 +581,19 @@ class CubedSphereCommunicator(Communicator):
         )
         south_data = rotate_scalar_data(
             south_data,
-            [dim for dim in x_quantity.dims if dim != constants.Y_INTERFACE_DIM],
+            south_dims,
             x_quantity.np,
             -south_boundary.n_clockwise_rotations,
         )
         if south_boundary.n_clockwise_rotations in (3, 2):
             south_data = -south_data
+        if south_boundary.n_clockwise_rotations % 2 == 1:
+            # will be received into an edge of the y component, along its y axis
+            south_data = x_quantity.np.moveaxis(
+                south_data,
+                south_dims.index(constants.X_DIM),
+                west_dims.index(constants.Y_DIM),
+            )
         west_data = y_quantity.view.southwest.sel(
             **{
                 constants.X_INTERFACE_DIM: 0,
@@ -595,12 +604,19 @@ class CubedSphereCommunicator(Communicator):
         )
         west_data = rotate_scalar_data(
             west_data,
-            [dim for dim in y_quantity.dims if dim != constants.X_INTERFACE_DIM],
+            west_dims,
             y_quantity.np,
             -west_boundary.n_clockwise_rotations,
         )
         if west_boundary.n_clockwise_rotations in (1, 2):
             west_data = -west_data
+        if west_boundary.n_clockwise_rotations % 2 == 1:
+            # will be received into an edge of the x component, along its x axis
+            west_data = y_quantity.np.moveaxis(
+                west_data,
+                west_dims.index(constants.Y_DIM),
+                south_dims.index(constants.X_DIM),
+            )
         send_requests = [
             self._Isend(
                 x_quantity.np, south_data, dest=south_boundary.to_rank, tag=tag
-- 
2.43.0


From 1c398b03d4c4aabb1dd24fedac3faba7a056af13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 03/22] fix: compute rank extents with integer division

---
 fv3gfs/util/partitioner.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fv3gfs/util/partitioner.py b/fv3gfs/util/partitioner.py
index e27a34d..c00687a 100644
--- a/fv3gfs/util/partitioner.py
+++ b/fv3gfs/util/partitioner.py
@@ -734,10 +734,14 @@ def rank_extent_from_tile_metadata(
     Returns:
         rank_extent: the extent of one rank
     """
-    layout_factors = 1 / np.asarray(
-        utils.list_by_dims(dims, layout, non_horizontal_value=1)
-    )
-    return extent_from_metadata(dims, tile_extent, layout_factors)
+    rank_extents = []
+    layout_by_dims = utils.list_by_dims(dims, layout, non_horizontal_value=1)
+    for dim, length, n_ranks in zip(dims, tile_extent, layout_by_dims):
+        shared_points = 1 if dim in constants.INTERFACE_DIMS else 0
+        # use integer division, multiplying by a float reciprocal can round down
+        # to one point less than the exact result
+        rank_extents.append(int((length - shared_points) // n_ranks) + shared_points)
+    return tuple(rank_extents)
 
 
 def extent_from_metadata(
-- 
2.43.0


From b620bc4c909158499a2383e463c1f2acaa5e24cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 04/22] fix: keep the time of a receiving state when the
 scattered state has none

---
 fv3gfs/util/communicator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 127d478..9d474d1 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -259,7 +259,7 @@ class Communicator:
                     self.scatter(send_quantity=array, recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter(send_quantity=array)
-            recv_state["time"] = self.comm.bcast(
+            return self.comm.bcast(
                 send_state.get("time", None), root=constants.ROOT_RANK
             )
 
@@ -270,16 +270,16 @@ class Communicator:
                     self.scatter(recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter()
-            recv_state["time"] = self.comm.bcast(None, root=constants.ROOT_RANK)
+            return self.comm.bcast(None, root=constants.ROOT_RANK)
 
         if recv_state is None:
             recv_state = {}
         if self.rank == constants.ROOT_RANK:
-            scatter_root()
+            time = scatter_root()
         else:
-            scatter_client()
-        if recv_state["time"] is None:
-            recv_state.pop("time")
+            time = scatter_client()
+        if time is not None:
+            recv_state["time"] = time
         return recv_state
 
 
-- 
2.43.0


From 48df4a9e979db9bd935e49919d33c7c2787af239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 05/22] fix: gather state variables in the same order on every
 rank

---
 fv3gfs/util/communicator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 9d474d1..14199df 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -219,7 +219,8 @@ class Communicator:
         """
         if self.rank == constants.ROOT_RANK and recv_state is None:
             recv_state = {}
-        for name, quantity in send_state.items():
+        # every rank must gather the variables in the same order
+        for name, quantity in sorted(send_state.items(), key=lambda item: item[0]):
             if name == "time":
                 if self.rank == constants.ROOT_RANK:
                     recv_state["time"] = send_state["time"]
-- 
2.43.0


From 15b23069d421dd0b324539cd97e42dd7ccfb6d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 06/22] fix: raise IndexError for too many indices on a
 quantity view

---
 fv3gfs/util/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index da0caec..2897598 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -181,7 +181,7 @@ class BoundedArrayView:
         if len(index) > len(self._dims):
             raise IndexError(
                 f"{len(index)} is too many indices for a "
-                f"{len(self.dims)}-dimensional quantity"
+                f"{len(self._dims)}-dimensional quantity"
             )
         index = fill_index(index, len(self._data.shape))
         shifted_index = []
-- 
2.43.0


From 5b9cce737f4a86f4bbeeb95a474f56408f494dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 07/22] fix: allow assigning to the view of a zero-dimensional
 quantity

---
 fv3gfs/util/quantity.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 2897598..7ea13e3 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -74,7 +74,10 @@ class BoundaryArrayView:
             return self._data[self._get_array_index(index)]
 
     def __setitem__(self, index, value):
-        self._data[self._get_array_index(index)] = value
+        if len(self._origin) == 0:
+            self[index][()] = value
+        else:
+            self._data[self._get_array_index(index)] = value
 
     def _get_array_index(self, index):
         if isinstance(index, list):
@@ -173,7 +176,10 @@ class BoundedArrayView:
             return self._data[self._get_compute_index(index)]
 
     def __setitem__(self, index, value):
-        self._data[self._get_compute_index(index)] = value
+        if len(self._origin) == 0:
+            self[index][()] = value
+        else:
+            self._data[self._get_compute_index(index)] = value
 
     def _get_compute_index(self, index):
         if not isinstance(index, (tuple, list)):
-- 
2.43.0


From 5460165c05938940e05fbeea750657135ee08e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 08/22] fix: keep data writeable after reading values of a
 zero-dimensional quantity

---
 fv3gfs/util/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 7ea13e3..2e41ae8 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -448,7 +448,7 @@ class Quantity:
             "values exists only for backwards-compatibility with DataArray and will be removed, use .view[:] instead",
             DeprecationWarning,
         )
-        return_array = np.asarray(self.view[:])
+        return_array = np.asarray(self.view[:]).view()
         return_array.flags.writeable = False
         return return_array
 
-- 
2.43.0


From 8ef459498b2b1d02d23303e2a780db2a10731349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 09/22] fix: initialize a quantity from a number or list

---
 fv3gfs/util/quantity.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 2e41ae8..8d2f589 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -278,6 +278,9 @@ class Quantity:
                 storage attribute is disabled and will raise an exception. Will raise
                 a TypeError if this is given with a gt4py storage type as data
         """
+        if isinstance(data, (int, float, list)):
+            data = np.asarray(data)
+
         if origin is None:
             origin = (0,) * len(dims)  # default origin at origin of array
         else:
@@ -288,9 +291,7 @@ class Quantity:
         else:
             extent = tuple(extent)
 
-        if isinstance(data, (int, float, list)):
-            data = np.asarray(data)
-        elif gt4py is not None and isinstance(data, gt4py.storage.storage.Storage):
+        if gt4py is not None and isinstance(data, gt4py.storage.storage.Storage):
             if gt4py_backend is not None:
                 raise TypeError(
                     "cannot select gt4py backend with keyword argument "
-- 
2.43.0


From fce75ef6498a48575ca89b05c2db24a0dbda9a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 10/22] fix: stop the clock of a timed block that ends with an
 exception

---
 fv3gfs/util/_timing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/_timing.py b/fv3gfs/util/_timing.py
index d93bb8a..85d3e72 100644
--- a/fv3gfs/util/_timing.py
+++ b/fv3gfs/util/_timing.py
@@ -56,8 +56,10 @@ class Timer:
                 {'sleep': 1.0032463260000029}
         """
         self.start(name)
-        yield
-        self.stop(name)
+        try:
+            yield
+        finally:
+            self.stop(name)
 
     @property
     def times(self) -> Mapping[str, float]:
-- 
2.43.0


From 4b7b4eaec8ff5daf51fde7735e206d3f23efeb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 11/22] fix: reject an incompatible state before storing any of
 its variables

---
 fv3gfs/util/zarr_monitor.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index 3608c99..79cbfd4 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -109,6 +109,9 @@ class ZarrMonitor:
         is "time" which is stored with dimensions [time].
         """
         self._ensure_writers_are_consistent(state)
+        # reject an incompatible state before any variable has been modified
+        for name, quantity in state.items():
+            self._writers[name].check(quantity)  # type: ignore[index]
         for name, quantity in sorted(state.items(), key=lambda x: x[0]):
             self._writers[name].append(quantity)  # type: ignore[index]
 
@@ -155,6 +158,11 @@ class _ZarrVariableWriter:
             fill_value=None,
         )
 
+    def check(self, quantity):
+        """Raise ValueError if the quantity cannot be appended to what is stored."""
+        if self.array is not None:
+            self._ensure_compatible_attrs(quantity)
+
     def sync_array(self):
         self.array = self.comm.bcast(self.array, root=0)
 
@@ -171,7 +179,6 @@ class _ZarrVariableWriter:
             )
             new_shape[0] = self.i_time + 1
             self.array.resize(*new_shape)
-            self._ensure_compatible_attrs(quantity)
         self.sync_array()
 
         target_slice = (
@@ -278,6 +285,10 @@ class _ZarrTimeWriter(_ZarrVariableWriter):
             time, units=self._encoding_units, calendar=self._encoding_calendar
         )
 
+    def check(self, time):
+        if self.array is not None:
+            self._encode_time(time)
+
     def append(self, time):
         array = xr.DataArray()
         if self.array is None:
-- 
2.43.0


From e1fd381edf5a93dbc77d63814c541420be018d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 12/22] fix: reject a state whose extent differs from the
 stored one instead of resizing the stored data

---
 fv3gfs/util/zarr_monitor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index 79cbfd4..e5e19c5 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -162,6 +162,12 @@ class _ZarrVariableWriter:
         """Raise ValueError if the quantity cannot be appended to what is stored."""
         if self.array is not None:
             self._ensure_compatible_attrs(quantity)
+            tile_shape = self._partitioner.tile.global_extent(quantity.metadata)
+            if self.array.shape[len(self._prepend_shape) :] != tile_shape:
+                raise ValueError(
+                    f"value for {self.name} with tile shape {tile_shape} does not "
+                    f"match previously stored shape {self.array.shape}"
+                )
 
     def sync_array(self):
         self.array = self.comm.bcast(self.array, root=0)
-- 
2.43.0


From e42c4720505c29582abd3eeedcdf403fcfa1c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 13/22] fix: read quantities with units of time without
 decoding them as times

---
 fv3gfs/util/_xarray.py | 6 ++++++
 fv3gfs/util/io.py      | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/_xarray.py b/fv3gfs/util/_xarray.py
index 7d1d0ae..efac6bd 100644
--- a/fv3gfs/util/_xarray.py
+++ b/fv3gfs/util/_xarray.py
@@ -12,6 +12,12 @@ def open_dataset(*args, **kwargs):
     return xr.open_dataset(*args, **kwargs)
 
 
+def decode_time(data_array):
+    """Decode a DataArray of encoded times into cftime objects."""
+    name = data_array.name
+    return xr.decode_cf(data_array.to_dataset(), use_cftime=True)[name]
+
+
 def to_dataset(state):
     data_vars = {
         name: value.data_array for name, value in state.items() if name != "time"
diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index 3c7f72a..5235827 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -46,10 +46,11 @@ def read_state(filename: str) -> dict:
     """
     out_dict = {}
     with filesystem.open(filename, "rb") as f:
-        ds = xr.open_dataset(f, use_cftime=True)
+        # only "time" is a time, other variables may have units of time
+        ds = xr.open_dataset(f, decode_times=False)
         for name, value in ds.data_vars.items():
             if name == "time":
-                out_dict[name] = _extract_time(value)
+                out_dict[name] = _extract_time(xr.decode_time(value))
             else:
                 out_dict[name] = Quantity.from_data_array(value)
     return out_dict
-- 
2.43.0


From 709c4d136009274d0c83f93447e1be28c06b6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 14/22] fix: load restart variables with units of time without
 decoding them as times

---
 fv3gfs/util/_legacy_restart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fv3gfs/util/_legacy_restart.py b/fv3gfs/util/_legacy_restart.py
index 3d74740..7460a69 100644
--- a/fv3gfs/util/_legacy_restart.py
+++ b/fv3gfs/util/_legacy_restart.py
@@ -140,7 +140,7 @@ def prepend_label(filename, label=None):
 def load_partial_state_from_restart_file(
     file, restart_properties: RestartProperties, only_names=None
 ):
-    ds = xr.open_dataset(file).isel(Time=0).drop_vars("Time")
+    ds = xr.open_dataset(file, decode_times=False).isel(Time=0).drop_vars("Time")
     state = map_keys(ds.data_vars, _get_restart_standard_names(restart_properties))
     state = _apply_restart_metadata(state, restart_properties)
     if only_names is None:
-- 
2.43.0


From dc7c3b396aba28f918507dcca778a2f60deed93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 15/22] fix: write the bytes of a state file at once, so that
 it can be read back from an in-memory filesystem

---
 fv3gfs/util/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index 5235827..2851901 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -17,7 +17,7 @@ def write_state(state: dict, filename: str) -> None:
         raise ValueError('state must include a value for "time"')
     ds = xr.to_dataset(state)
     with filesystem.open(filename, "wb") as f:
-        ds.to_netcdf(f)
+        f.write(ds.to_netcdf())
 
 
 def _extract_time(value: xr.DataArray) -> cftime.datetime:
-- 
2.43.0


From 033105fe58c8cd4f00b3a1161df77c4483a511aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 16/22] fix: reject every halo update on an unsupported layout,
 not only the first

---
 fv3gfs/util/communicator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 14199df..7d681de 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -326,11 +326,12 @@ class CubedSphereCommunicator(Communicator):
     def boundaries(self) -> Mapping[int, Boundary]:
         """boundaries of this tile with neighboring tiles"""
         if self._boundaries is None:
-            self._boundaries = {}
+            boundaries = {}
             for boundary_type in constants.BOUNDARY_TYPES:
                 boundary = self.partitioner.boundary(boundary_type, self.rank)
                 if boundary is not None:
-                    self._boundaries[boundary_type] = boundary
+                    boundaries[boundary_type] = boundary
+            self._boundaries = boundaries
         return self._boundaries
 
     @property
-- 
2.43.0


From 8b0c04fdda4089398fd420338ddbff89f316cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 17/22] fix: restore a captured stream when the block raises,
 flush it and close the saved descriptor

---
 fv3gfs/util/_capture_stream.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/fv3gfs/util/_capture_stream.py b/fv3gfs/util/_capture_stream.py
index 2f472ab..c41b400 100644
--- a/fv3gfs/util/_capture_stream.py
+++ b/fv3gfs/util/_capture_stream.py
@@ -9,17 +9,28 @@ def capture_stream(stream):
 
     out_stream = io.BytesIO()
 
+    # output buffered so far belongs to the original destination
+    stream.flush()
+
     # parent process:
     # close the reading end, we won't need this
     orig_file_handle = os.dup(stream.fileno())
 
-    with tempfile.NamedTemporaryFile() as out:
-        # overwrite the streams fileno with a the pipe to be read by the forked
-        # process below
-        os.dup2(out.fileno(), stream.fileno())
-        yield out_stream
-        # restore the original file handle
-        os.dup2(orig_file_handle, stream.fileno())
-        # print logging info
-        out.seek(0)
-        out_stream.write(out.read())
+    try:
+        with tempfile.NamedTemporaryFile() as out:
+            # overwrite the streams fileno with a the pipe to be read by the forked
+            # process below
+            os.dup2(out.fileno(), stream.fileno())
+            try:
+                yield out_stream
+            finally:
+                try:
+                    stream.flush()
+                finally:
+                    # restore the original file handle
+                    os.dup2(orig_file_handle, stream.fileno())
+                # print logging info
+                out.seek(0)
+                out_stream.write(out.read())
+    finally:
+        os.close(orig_file_handle)
-- 
2.43.0


From 418eb71ceaf53f77a11c3405763e120a3951940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 18/22] fix: copy data to be sent, so that it can be modified
 before a halo update completes

---
 fv3gfs/util/communicator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index 7d681de..fd18f2d 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -656,8 +656,10 @@ class CubedSphereCommunicator(Communicator):
         # don't want to use a buffer here, because we leave this scope and can't close
         # the context manager. might figure out a way to do it later
         with self.timer.clock("pack"):
-            array = np.ascontiguousarray(
-                numpy.asnumpy(in_array) if hasattr(numpy, "asnumpy") else in_array
+            # always copy, the sent data may be modified before the request completes
+            array = np.array(
+                numpy.asnumpy(in_array) if hasattr(numpy, "asnumpy") else in_array,
+                order="C",
             )
 
         with self.timer.clock("Isend"):
-- 
2.43.0


From 49d8efbbbda521ee681a46ed162bf1631bc9e5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 19/22] fix: storages from a backend's quantity factory have
 the quantity's origin as default origin

QuantityFactory passed default_origin to an allocator that already set it
positionally; the resulting TypeError was taken as a sign that the module
does not support it, and every storage got a default origin of zero.
---
 fv3gfs/util/initialization/allocator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/initialization/allocator.py b/fv3gfs/util/initialization/allocator.py
index 9040c5f..f2c52a1 100644
--- a/fv3gfs/util/initialization/allocator.py
+++ b/fv3gfs/util/initialization/allocator.py
@@ -11,7 +11,8 @@ except ImportError:
 def _wrap_storage_call(function, backend):
     def wrapped(shape, dtype=float, **kwargs):
         kwargs["managed_memory"] = True
-        return function(backend, [0] * len(shape), shape, dtype, **kwargs)
+        kwargs.setdefault("default_origin", [0] * len(shape))
+        return function(backend, shape=shape, dtype=dtype, **kwargs)
 
     wrapped.__name__ = function.__name__
     return wrapped
-- 
2.43.0


From 43945f5968c50db0f527a6ee229251cb3e0c6795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 20/22] fix: datetime64_to_datetime keeps microseconds far from
 1970

A float timestamp rounds the microseconds of times more than about two
centuries from 1970, by up to 8 microseconds for year 1.
---
 fv3gfs/util/time.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fv3gfs/util/time.py b/fv3gfs/util/time.py
index 54ce174..075aaf7 100644
--- a/fv3gfs/util/time.py
+++ b/fv3gfs/util/time.py
@@ -18,6 +18,6 @@ FMS_TO_CFTIME_TYPE = {
 
 
 def datetime64_to_datetime(dt64: np.datetime64) -> datetime.datetime:
-    utc_start = np.datetime64(0, "s")
-    timestamp = (dt64 - utc_start) / np.timedelta64(1, "s")
-    return datetime.datetime.utcfromtimestamp(timestamp)
+    # integer arithmetic, as a float timestamp cannot hold microseconds far from 1970
+    microseconds = int(dt64.astype("datetime64[us]").astype(np.int64))
+    return datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=microseconds)
-- 
2.43.0


From f34edb8ac2f41f12997e1c61be9429e33868ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:15 +0000
Subject: [PATCH 21/22] fix: release cached boundaries together with their
 partitioner

The boundaries of every partitioner were kept in a cache of unlimited size
that also kept the partitioner itself, so that a process which makes
partitioners or communicators as needed never stopped growing.
---
 fv3gfs/util/partitioner.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/fv3gfs/util/partitioner.py b/fv3gfs/util/partitioner.py
index c00687a..623fa45 100644
--- a/fv3gfs/util/partitioner.py
+++ b/fv3gfs/util/partitioner.py
@@ -3,6 +3,7 @@ import copy
 import abc
 import functools
 import dataclasses
+import weakref
 from . import constants, utils
 from .constants import (
     NORTH,
@@ -18,10 +19,23 @@ import numpy as np
 from . import boundary as bd
 from .quantity import QuantityMetadata
 
-BOUNDARY_CACHE_SIZE = None
+__all__ = ["TilePartitioner", "CubedSpherePartitioner", "get_tile_index"]
 
 
-__all__ = ["TilePartitioner", "CubedSpherePartitioner", "get_tile_index"]
+def _cache_by_instance(method):
+    """Cache the results of a method by its arguments, for as long as the instance
+    it is called on exists.
+    """
+    caches = weakref.WeakKeyDictionary()  # type: ignore[var-annotated]
+
+    @functools.wraps(method)
+    def cached(self, *args):
+        cache = caches.setdefault(self, {})
+        if args not in cache:
+            cache[args] = method(self, *args)
+        return cache[args]
+
+    return cached
 
 
 def get_tile_index(rank: int, total_ranks: int) -> int:
@@ -205,7 +219,7 @@ class TilePartitioner(Partitioner):
         boundary = copy.copy(self._cached_boundary(boundary_type, rank))
         return boundary
 
-    @functools.lru_cache(maxsize=BOUNDARY_CACHE_SIZE)
+    @_cache_by_instance
     def _cached_boundary(
         self, boundary_type: int, rank: int
     ) -> Optional[bd.SimpleBoundary]:
@@ -365,7 +379,7 @@ class CubedSpherePartitioner(Partitioner):
         boundary = copy.copy(self._cached_boundary(boundary_type, rank))
         return boundary
 
-    @functools.lru_cache(maxsize=BOUNDARY_CACHE_SIZE)
+    @_cache_by_instance
     def _cached_boundary(
         self, boundary_type: int, rank: int
     ) -> Optional[bd.SimpleBoundary]:
-- 
2.43.0


From f6e7621e869cdd7cab4a243876a2a73745a1f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:04 +0000
Subject: [PATCH 22/22] fix: open_restart loads all requested names when given
 an iterator

only_names is documented as an iterable, but it was searched once for every
file, so that an iterator was exhausted by the first one.
---
 fv3gfs/util/_legacy_restart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fv3gfs/util/_legacy_restart.py b/fv3gfs/util/_legacy_restart.py
index 7460a69..5355962 100644
--- a/fv3gfs/util/_legacy_restart.py
+++ b/fv3gfs/util/_legacy_restart.py
@@ -41,6 +41,8 @@ def open_restart(
         restart_properties = RESTART_PROPERTIES
     else:
         restart_properties = {**tracer_properties, **RESTART_PROPERTIES}
+    if only_names is not None:
+        only_names = list(only_names)  # used for every file, may be an iterator
     rank = communicator.rank
     tile_index = communicator.partitioner.tile_index(rank)
     state = {}
-- 
2.43.0

