From ecd93945332e540d46c86f5b6eb54d97186d1ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:04 +0000
Subject: [PATCH 01/14] fix: derive XDMF file names from the .h5 extension only

A checkpoint name without .h5 was overwritten by its own XDMF description, and a
.h5 elsewhere in the path redirected the XDMF file to another directory.
---
 sopht/utils/IO.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 2026017..1bb1e19 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -419,6 +419,17 @@ class IO:
 
         return time
 
+    @staticmethod
+    def _xdmf_file_name(h5_file_name, suffix):
+        """Name of the XDMF file accompanying the given hdf5 file.
+
+        Only the trailing ".h5" extension is replaced, such that the XDMF file always
+        lies next to, and never on top of, the hdf5 file.
+        """
+        if h5_file_name.endswith(".h5"):
+            h5_file_name = h5_file_name[: -len(".h5")]
+        return f"{h5_file_name}_{suffix}.xmf"
+
     def generate_xdmf_eulerian(self, h5_file_name, time=0.0):
         """Generate XDMF description file for Eulerian fields.
 
@@ -512,7 +523,7 @@ class IO:
     </Domain>
 </Xdmf>
 """
-        with open(h5_file_name.replace(".h5", "_eulerian.xmf"), "w") as f:
+        with open(self._xdmf_file_name(h5_file_name, "eulerian"), "w") as f:
             f.write(xdmffile)
 
     def generate_xdmf_lagrangian(self, h5_file_name, time):
@@ -548,7 +559,7 @@ class IO:
             return entry
 
         for lagrangian_grid_name in self.lagrangian_grids:
-            xmf_file_name = h5_file_name.replace(".h5", f"_{lagrangian_grid_name}.xmf")
+            xmf_file_name = self._xdmf_file_name(h5_file_name, lagrangian_grid_name)
             field_entries = ""
             lagrangian_grid = self.lagrangian_grids[lagrangian_grid_name]
             lagrangian_grid_size = np.flip(np.array(lagrangian_grid.shape))
-- 
2.43.0


From 7805cdaf5cc2546d60e24e1225730136f6c85931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 02/14] fix: keep Lagrangian fields of different grids apart
 when they share a name

Fields were stored by field name alone, so a second grid's field silently replaced
the first grid's in every later save and load.
---
 sopht/utils/IO.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 1bb1e19..2378352 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -159,16 +159,18 @@ class IO:
         for field_name in fields_for_io:
             # Add each field into local dictionary
             field = fields_for_io[field_name]
-            self.lagrangian_fields[field_name] = field
+            # (fields on different grids may share a name)
+            field_key = (lagrangian_grid_name, field_name)
+            self.lagrangian_fields[field_key] = field
             self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
                 field_name
             )
 
             # Assign field types
             if field.shape[0] == lagrangian_grid.shape[1]:
-                self.lagrangian_fields_type[field_name] = "Scalar"
+                self.lagrangian_fields_type[field_key] = "Scalar"
             elif field.shape == lagrangian_grid.shape:
-                self.lagrangian_fields_type[field_name] = "Vector"
+                self.lagrangian_fields_type[field_key] = "Vector"
             else:
                 raise ValueError(
                     f"Unable to identify lagrangian field type "
@@ -282,8 +284,10 @@ class IO:
                 for field_name in self.lagrangian_fields_with_grid_name[
                     lagrangian_grid_name
                 ]:
-                    field = self.lagrangian_fields[field_name]
-                    field_type = self.lagrangian_fields_type[field_name]
+                    field = self.lagrangian_fields[lagrangian_grid_name, field_name]
+                    field_type = self.lagrangian_fields_type[
+                        lagrangian_grid_name, field_name
+                    ]
                     if field_type == "Scalar":
                         lagrangian_scalar_grp.create_dataset(field_name, data=field)
                     elif field_type == "Vector":
@@ -384,7 +388,8 @@ class IO:
                     for field_name in self.lagrangian_fields_with_grid_name[
                         lagrangian_grid_name
                     ]:
-                        field_type = self.lagrangian_fields_type[field_name]
+                        field_key = (lagrangian_grid_name, field_name)
+                        field_type = self.lagrangian_fields_type[field_key]
                         if field_type == "Scalar":
                             assert (
                                 f"Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}"
@@ -393,7 +398,7 @@ class IO:
                                 f"Unable to find scalar field {field_name} on "
                                 f"grid {lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = f["Lagrangian"][
+                            self.lagrangian_fields[field_key][...] = f["Lagrangian"][
                                 lagrangian_grid_name
                             ][field_type][field_name][...]
                         elif field_type == "Vector":
@@ -404,7 +409,7 @@ class IO:
                                 f"Unable to find vector field {field_name} on grid "
                                 f"{lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = np.moveaxis(
+                            self.lagrangian_fields[field_key][...] = np.moveaxis(
                                 f["Lagrangian"][lagrangian_grid_name][field_type][
                                     field_name
                                 ][...],
@@ -572,7 +577,9 @@ class IO:
             for field_name in self.lagrangian_fields_with_grid_name[
                 lagrangian_grid_name
             ]:
-                field_type = self.lagrangian_fields_type[field_name]
+                field_type = self.lagrangian_fields_type[
+                    lagrangian_grid_name, field_name
+                ]
 
                 if field_type == "Scalar":
                     field_grid_size_string = lagrangian_grid_size[0]
-- 
2.43.0


From f9393a0f157de37462495300708fedeb8080415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 03/14] fix: keep all fields added to one Lagrangian grid and
 give unnamed grids unused names

Adding more fields to a named grid dropped those added before, and a default name
could replace a grid the user had given that name.
---
 sopht/utils/IO.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 2378352..4b0d864 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -143,6 +143,11 @@ class IO:
         ), "Invalid lagrangian grid dimension (only 2D and 3D)"
 
         if lagrangian_grid_name is None:
+            # skip default names already taken by the user
+            while f"Lagrangian_grid_{self.lagrangian_grid_count}" in (
+                self.lagrangian_grids
+            ):
+                self.lagrangian_grid_count += 1
             lagrangian_grid_name = f"Lagrangian_grid_{self.lagrangian_grid_count}"
             self.lagrangian_grid_count += 1
 
@@ -155,16 +160,18 @@ class IO:
         self.lagrangian_grids[lagrangian_grid_name] = lagrangian_grid
         # Create a list of to store names of fields that lie on
         # grid with grid name `lagrangian_grid_name`
-        self.lagrangian_fields_with_grid_name[lagrangian_grid_name] = []
+        # (fields added earlier on the same grid are kept)
+        grid_field_names = self.lagrangian_fields_with_grid_name.setdefault(
+            lagrangian_grid_name, []
+        )
         for field_name in fields_for_io:
             # Add each field into local dictionary
             field = fields_for_io[field_name]
             # (fields on different grids may share a name)
             field_key = (lagrangian_grid_name, field_name)
             self.lagrangian_fields[field_key] = field
-            self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
-                field_name
-            )
+            if field_name not in grid_field_names:
+                grid_field_names.append(field_name)
 
             # Assign field types
             if field.shape[0] == lagrangian_grid.shape[1]:
-- 
2.43.0


From 32d30b58d2e0fd4d86d61c186178b350ba4ec9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 04/14] fix: save and load Lagrangian grids that carry no
 fields

Such grids were written to the checkpoint but not restored from it.
---
 sopht/utils/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 4b0d864..eee5ac4 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -309,7 +309,7 @@ class IO:
         # Generate xdmf files for every grid
         if self.eulerian_fields:
             self.generate_xdmf_eulerian(h5_file_name=h5_file_name, time=time)
-        if self.lagrangian_fields:
+        if self.lagrangian_grids:
             self.generate_xdmf_lagrangian(h5_file_name=h5_file_name, time=time)
 
     def load(self, h5_file_name):  # noqa: C901
@@ -376,7 +376,7 @@ class IO:
                 )
 
             # Load Lagrangian fields
-            if self.lagrangian_fields:
+            if self.lagrangian_grids:
                 # First loop over and load each of the lagrangian grids
                 for lagrangian_grid_name in self.lagrangian_grids:
                     assert (
-- 
2.43.0


From 875fcd2d427052520700e26a09c1ed8e9f546ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 05/14] fix: refuse to load a Lagrangian grid of a different
 size

A one-node grid in the file was broadcast over all nodes of the loading grid.
---
 sopht/utils/IO.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index eee5ac4..21c0e79 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -382,9 +382,15 @@ class IO:
                     assert (
                         f"Lagrangian/{lagrangian_grid_name}/Grid" in keys
                     ), f"Unable to find grid '{lagrangian_grid_name}' in loaded file!"
-                    self.lagrangian_grids[lagrangian_grid_name][...] = np.transpose(
+                    loaded_grid = np.transpose(
                         f["Lagrangian"][lagrangian_grid_name]["Grid"][...]
                     )
+                    # guard against numpy broadcasting a single node to all nodes
+                    assert (
+                        self.lagrangian_grids[lagrangian_grid_name].shape
+                        == loaded_grid.shape
+                    ), f"Size of grid '{lagrangian_grid_name}' differs in loaded file!"
+                    self.lagrangian_grids[lagrangian_grid_name][...] = loaded_grid
 
                     if f"Lagrangian/{lagrangian_grid_name}/Connection" in keys:
                         self.lagrangian_grid_connection[lagrangian_grid_name] = f[
-- 
2.43.0


From 82c9a382aa6b9adba15cb9e53fd1466e8bc4a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 06/14] fix: declare number precision in bytes and three
 origin/spacing entries in XDMF

---
 sopht/utils/IO.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 21c0e79..9bfed2e 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -35,6 +35,8 @@ class IO:
         assert self.dim == 2 or self.dim == 3, "Invalid dimension (only 2D and 3D)"
         self.real_dtype = real_dtype
         self.precision = 8 if real_dtype is np.float32 else 16
+        # XDMF measures the precision of its data items in bytes
+        self.xdmf_precision = np.dtype(real_dtype).itemsize
 
         # Initialize dictionaries for fields for IO and their
         # corresponding field_type ('Scalar' or 'Vector') Eulerian grid
@@ -493,7 +495,7 @@ class IO:
                 entry = f"""<Attribute Name="{field_name}" Active="1"
                 AttributeType="Scalar" Center="Node">
                     <DataItem Dimensions="{grid_size_string}"
-                    NumberType="Float" Precision="{self.precision}" Format="HDF">
+                    NumberType="Float" Precision="{self.xdmf_precision}" Format="HDF">
                         {file_name}:/Eulerian/{field_type}/{field_name}
                     </DataItem>
                 </Attribute>
@@ -505,7 +507,7 @@ class IO:
                     entry += f"""<Attribute Name="{field_name}_{idx_dim}"
                     Active="1" AttributeType="Scalar" Center="Node">
                     <DataItem Dimensions="{grid_size_string}" NumberType="Float"
-                    Precision="{self.precision}" Format="HDF">
+                    Precision="{self.xdmf_precision}" Format="HDF">
                         {file_name}:/Eulerian/{field_type}/{field_name}_{idx_dim}
                     </DataItem>
                 </Attribute>
@@ -526,12 +528,12 @@ class IO:
             <Time Value="{time}"/>
             <Topology TopologyType="{topology_type}" Dimensions="{grid_size_string}"/>
             <Geometry GeometryType="{geometry_type}">
-                <DataItem Name="Origin" Dimensions="{self.dim}"
-                NumberType="Float" Precision="{self.precision}" Format="XML">
+                <DataItem Name="Origin" Dimensions="{len(origin)}"
+                NumberType="Float" Precision="{self.xdmf_precision}" Format="XML">
                     {origin_string}
                 </DataItem>
-                <DataItem Name="Spacing" Dimensions="{self.dim}"
-                NumberType="Float" Precision="{self.precision}" Format="XML">
+                <DataItem Name="Spacing" Dimensions="{len(dx)}"
+                NumberType="Float" Precision="{self.xdmf_precision}" Format="XML">
                     {dx_string}
                 </DataItem>
             </Geometry>
@@ -568,7 +570,7 @@ class IO:
             entry = f"""<Attribute Name="{field_name}" Active="1"
             AttributeType="{field_type}" Center="Node">
                 <DataItem Dimensions="{field_grid_size}" NumberType="Float"
-                Precision="{self.precision}" Format="HDF">
+                Precision="{self.xdmf_precision}" Format="HDF">
                     {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}
                 </DataItem>
             </Attribute>
@@ -614,7 +616,7 @@ class IO:
             if lagrangian_grid_name in self.lagrangian_grid_connection:
                 topology = f"""<Topology TopologyType="Polyline">
                 <DataItem DataType="Int" Dimensions="1
-                {lagrangian_grid_size[0]}" Format="HDF" Precision="{self.precision}">
+                {lagrangian_grid_size[0]}" Format="HDF" Precision="8">
                     {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Connection
                 </DataItem>
             </Topology>"""
@@ -631,7 +633,7 @@ class IO:
             {topology}
             <Geometry GeometryType="{geometry_type}">
                 <DataItem Dimensions="{lagrangian_grid_size_string}"
-                NumberType="Float" Precision="{self.precision}" Format="HDF">
+                NumberType="Float" Precision="{self.xdmf_precision}" Format="HDF">
                     {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Grid
                 </DataItem>
             </Geometry>
-- 
2.43.0


From e89e55433ad289fa244c83a9797fd9c04ff96ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:56 +0000
Subject: [PATCH 07/14] fix: treat (dim, N) Lagrangian fields as vectors also
 when N equals dim

---
 sopht/utils/IO.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 9bfed2e..03385d5 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -176,10 +176,11 @@ class IO:
                 grid_field_names.append(field_name)
 
             # Assign field types
-            if field.shape[0] == lagrangian_grid.shape[1]:
-                self.lagrangian_fields_type[field_key] = "Scalar"
-            elif field.shape == lagrangian_grid.shape:
+            # (vector check goes first, since N may be equal to dim)
+            if field.shape == lagrangian_grid.shape:
                 self.lagrangian_fields_type[field_key] = "Vector"
+            elif field.shape[0] == lagrangian_grid.shape[1]:
+                self.lagrangian_fields_type[field_key] = "Scalar"
             else:
                 raise ValueError(
                     f"Unable to identify lagrangian field type "
-- 
2.43.0


From 10ec39a4a1f7fae4d6c2a01f703f2de16d7a062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 08/14] fix: allow a boundary penalisation zone of width one

The slice -1:0 taken for the back boundary is empty, so the kernels raised after
having modified part of the field.
---
 .../stencil_ops_2d/penalise_field_boundary_2d.py            | 4 ++--
 .../stencil_ops_3d/penalise_field_boundary_3d.py            | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
index bcc0448..780d5db 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
@@ -131,7 +131,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width] = field[:, (width - 1) : width]
-            field[:, -width:] = field[:, -width : (-width + 1)]
+            field[:, -width:] = field[:, -width, np.newaxis]
             penalise_field_x_front_boundary_kernel_2d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -142,7 +142,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :] = field[(width - 1) : width, :]
-            field[-width:, :] = field[-width : (-width + 1), :]
+            field[-width:, :] = field[-width, np.newaxis, :]
             penalise_field_y_front_boundary_kernel_2d(
                 field=field, y_grid_field=y_grid_field
             )
diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
index ad595f5..b635f14 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
@@ -188,7 +188,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :, :width] = field[:, :, (width - 1) : width]
-            field[:, :, -width:] = field[:, :, -width : (-width + 1)]
+            field[:, :, -width:] = field[:, :, -width, np.newaxis]
             penalise_field_x_front_boundary_kernel_3d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -199,7 +199,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width, :] = field[:, (width - 1) : width, :]
-            field[:, -width:, :] = field[:, -width : (-width + 1), :]
+            field[:, -width:, :] = field[:, -width, np.newaxis, :]
             penalise_field_y_front_boundary_kernel_3d(
                 field=field, y_grid_field=y_grid_field
             )
@@ -210,7 +210,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Z
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :, :] = field[(width - 1) : width, :, :]
-            field[-width:, :, :] = field[-width : (-width + 1), :, :]
+            field[-width:, :, :] = field[-width, np.newaxis, :, :]
             penalise_field_z_front_boundary_kernel_3d(
                 field=field, z_grid_field=z_grid_field
             )
-- 
2.43.0


From fce4aba80ae701ae5a75374aab630718e18e204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 09/14] fix: leave the field unchanged for a Laplacian filter
 of order zero

The kernel subtracted whatever the shared flux buffer held from earlier calls.
---
 .../eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py
index afa83d0..aaf1e59 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py
@@ -180,6 +180,11 @@ def gen_laplacian_filter_kernel_3d(
         scalar_field_filter_kernel_3d = scalar_field_multiplicative_filter_kernel_3d
     elif filter_type == "convolution":
         scalar_field_filter_kernel_3d = scalar_field_convolution_filter_kernel_3d
+    if filter_order == 0:
+        # nothing to filter out, the flux buffer would hold stale values
+        def scalar_field_filter_kernel_3d(scalar_field):
+            pass
+
     # Depending on the field type return the relevant filter implementation
     if field_type == "scalar":
         return scalar_field_filter_kernel_3d
-- 
2.43.0


From 110ad7b5380fccc590386493c4ad4b80d07e855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:56 +0000
Subject: [PATCH 10/14] fix: refer to the checkpoint relative to the XDMF file
 next to it

A relative checkpoint path containing a directory was written into the XDMF file as
given, where readers resolve it against the XDMF file's own directory.
---
 sopht/utils/IO.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 03385d5..164f771 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -1,4 +1,6 @@
 """Module for Input/Output via HD5 format."""
+import os
+
 import h5py
 
 import numpy as np
@@ -464,6 +466,9 @@ class IO:
             Time at which the fields are saved.
 
         """
+        # XDMF readers look the data up relative to the XDMF file
+        data_file_name = os.path.basename(h5_file_name)
+
         # We use 3DCORECTMESH for both 2D and 3D fields since paraview
         # does not render on XY plane in 2DCORECTMESH
         topology_type = "3DCORECTMesh"
@@ -519,7 +524,9 @@ class IO:
         field_entries = ""
         for field_name in self.eulerian_fields:
             field_type = self.eulerian_fields_type[field_name]
-            field_entries += generate_field_entry(h5_file_name, field_name, field_type)
+            field_entries += generate_field_entry(
+                data_file_name, field_name, field_type
+            )
 
         xdmffile = f"""<?xml version="1.0" ?>
 <!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>
@@ -560,6 +567,8 @@ class IO:
             Time at which the fields are saved.
         """
         geometry_type = "XYZ" if self.dim == 3 else "XY"
+        # XDMF readers look the data up relative to the XDMF file
+        data_file_name = os.path.basename(h5_file_name)
 
         def generate_lagrangian_field_entry(
             h5_file_name,
@@ -607,7 +616,7 @@ class IO:
                     )[1:-1]
 
                 field_entries += generate_lagrangian_field_entry(
-                    h5_file_name,
+                    data_file_name,
                     field_name,
                     field_type,
                     field_grid_size_string,
@@ -618,7 +627,7 @@ class IO:
                 topology = f"""<Topology TopologyType="Polyline">
                 <DataItem DataType="Int" Dimensions="1
                 {lagrangian_grid_size[0]}" Format="HDF" Precision="8">
-                    {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Connection
+                    {data_file_name}:/Lagrangian/{lagrangian_grid_name}/Connection
                 </DataItem>
             </Topology>"""
             else:
@@ -635,7 +644,7 @@ class IO:
             <Geometry GeometryType="{geometry_type}">
                 <DataItem Dimensions="{lagrangian_grid_size_string}"
                 NumberType="Float" Precision="{self.xdmf_precision}" Format="HDF">
-                    {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Grid
+                    {data_file_name}:/Lagrangian/{lagrangian_grid_name}/Grid
                 </DataItem>
             </Geometry>
 
-- 
2.43.0


From 8b689124fae3fb01a496b83add36c544c318e3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 11/14] fix: allow fixed grid size for the complex product of
 complex fields

---
 .../stencil_ops_2d/elementwise_ops_2d.py                 | 7 +++----
 .../stencil_ops_3d/elementwise_ops_3d.py                 | 9 +++------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py
index 6238bf2..4a2252e 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py
@@ -130,10 +130,9 @@ def gen_elementwise_complex_product_pyst_kernel_2d(
     """2D elementwise complex number product kernel generator."""
     pyst_dtype = get_pyst_dtype(real_t)
     kernel_config = get_pyst_kernel_config(real_t, num_threads)
-    # we can add dtype checks later
-    grid_info = (
-        f"{fixed_grid_size[0]}, {fixed_grid_size[1]}" if fixed_grid_size else "2D"
-    )
+    # real and imaginary parts are strided views of the complex fields, whereas
+    # fields of fixed size are assumed contiguous, hence always flexible size here
+    grid_info = "2D"
 
     @ps.kernel
     def _elementwise_complex_product_stencil_2d():
diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py
index cd8aa41..c3922fe 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py
@@ -140,12 +140,9 @@ def gen_elementwise_complex_product_pyst_kernel_3d(
     """3D elementwise complex number product kernel generator."""
     pyst_dtype = get_pyst_dtype(real_t)
     kernel_config = get_pyst_kernel_config(real_t, num_threads)
-    # we can add dtype checks later
-    grid_info = (
-        f"{fixed_grid_size[0]}, {fixed_grid_size[1]}, {fixed_grid_size[2]}"
-        if fixed_grid_size
-        else "3D"
-    )
+    # real and imaginary parts are strided views of the complex fields, whereas
+    # fields of fixed size are assumed contiguous, hence always flexible size here
+    grid_info = "3D"
 
     @ps.kernel
     def _elementwise_complex_product_stencil_3d():
-- 
2.43.0


From 86676989bb923c0abf1bb9e12816d52e41a2a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:05 +0000
Subject: [PATCH 12/14] fix: return the original grid size from the scipy
 transforms when it is odd

---
 .../eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py       | 4 +++-
 .../eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py b/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
index 6da5ece..1f8ea19 100644
--- a/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
@@ -7,4 +7,6 @@ def fft_ifft_via_scipy_kernel_2d(
 ):
     """Perform reference FFT operations via scipy."""
     fourier_field[...] = rfftn(field, workers=num_threads)
-    inv_fourier_field[...] = irfftn(fourier_field, workers=num_threads)
+    inv_fourier_field[...] = irfftn(
+        fourier_field, s=field.shape, workers=num_threads
+    )
diff --git a/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py b/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
index b682f2e..a18e24a 100644
--- a/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
@@ -7,4 +7,6 @@ def fft_ifft_via_scipy_kernel_3d(
 ):
     """Perform reference FFT operations via scipy."""
     fourier_field[...] = rfftn(field, workers=num_threads)
-    inv_fourier_field[...] = irfftn(fourier_field, workers=num_threads)
+    inv_fourier_field[...] = irfftn(
+        fourier_field, s=field.shape, workers=num_threads
+    )
-- 
2.43.0


From 3b0fcf458b7fb1e7758c4d769f7b604e758287e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 13/14] fix: refused registrations of checkpoint fields leave
 no traces

A field of a wrong shape was added to the IO object before its shape was
looked at, so that after the ValueError every save failed or held the wrong
array.  Determine the types of all fields first, then add them.
---
 sopht/utils/IO.py | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 164f771..a8575c9 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -98,22 +98,24 @@ class IO:
         """
         assert self.eulerian_grid_defined, "Eulerian mesh is not defined!"
 
+        # Assign field types (nothing is added unless all fields fit)
+        fields_type = {}
         for field_name in fields_for_io:
-            # Add each field into local dictionary
             field = fields_for_io[field_name]
-            self.eulerian_fields[field_name] = field
-
-            # Assign field types
             if field.shape == (*self.eulerian_grid_size,):
-                self.eulerian_fields_type[field_name] = "Scalar"
+                fields_type[field_name] = "Scalar"
             elif field.shape == (self.dim, *self.eulerian_grid_size):
-                self.eulerian_fields_type[field_name] = "Vector"
+                fields_type[field_name] = "Vector"
             else:
                 raise ValueError(
                     f"Unable to identify eulerian field type "
                     f"(scalar / vector) based on field dimension {field.shape}"
                 )
 
+        # Add fields into local dictionary
+        self.eulerian_fields.update(fields_for_io)
+        self.eulerian_fields_type.update(fields_type)
+
     def add_as_lagrangian_fields_for_io(
         self,
         lagrangian_grid,
@@ -146,6 +148,21 @@ class IO:
             lagrangian_grid.shape[0] == self.dim
         ), "Invalid lagrangian grid dimension (only 2D and 3D)"
 
+        # Assign field types (nothing is added unless all fields fit)
+        fields_type = {}
+        for field_name in fields_for_io:
+            field = fields_for_io[field_name]
+            # (vector check goes first, since N may be equal to dim)
+            if field.shape == lagrangian_grid.shape:
+                fields_type[field_name] = "Vector"
+            elif field.shape[0] == lagrangian_grid.shape[1]:
+                fields_type[field_name] = "Scalar"
+            else:
+                raise ValueError(
+                    f"Unable to identify lagrangian field type "
+                    f"(scalar / vector) based on field dimension {field.shape}"
+                )
+
         if lagrangian_grid_name is None:
             # skip default names already taken by the user
             while f"Lagrangian_grid_{self.lagrangian_grid_count}" in (
@@ -174,21 +191,10 @@ class IO:
             # (fields on different grids may share a name)
             field_key = (lagrangian_grid_name, field_name)
             self.lagrangian_fields[field_key] = field
+            self.lagrangian_fields_type[field_key] = fields_type[field_name]
             if field_name not in grid_field_names:
                 grid_field_names.append(field_name)
 
-            # Assign field types
-            # (vector check goes first, since N may be equal to dim)
-            if field.shape == lagrangian_grid.shape:
-                self.lagrangian_fields_type[field_key] = "Vector"
-            elif field.shape[0] == lagrangian_grid.shape[1]:
-                self.lagrangian_fields_type[field_key] = "Scalar"
-            else:
-                raise ValueError(
-                    f"Unable to identify lagrangian field type "
-                    f"(scalar / vector) based on field dimension {field.shape}"
-                )
-
     def save(self, h5_file_name, time=0.0):  # noqa: C901
         """
         This is a wrapper function to call _save function.
-- 
2.43.0


From 895302a12fd29d498d8e87888d7d2d691f3e2d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 14/14] fix: escape names that are reserved in XML in the XDMF
 files

---
 sopht/utils/IO.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index a8575c9..49bb50b 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -1,5 +1,6 @@
 """Module for Input/Output via HD5 format."""
 import os
+from xml.sax.saxutils import escape
 
 import h5py
 
@@ -459,6 +460,11 @@ class IO:
             h5_file_name = h5_file_name[: -len(".h5")]
         return f"{h5_file_name}_{suffix}.xmf"
 
+    @staticmethod
+    def _xml_escape(name):
+        """Escape the characters of a name that are reserved in XML."""
+        return escape(name, {'"': "&quot;"})
+
     def generate_xdmf_eulerian(self, h5_file_name, time=0.0):
         """Generate XDMF description file for Eulerian fields.
 
@@ -531,7 +537,9 @@ class IO:
         for field_name in self.eulerian_fields:
             field_type = self.eulerian_fields_type[field_name]
             field_entries += generate_field_entry(
-                data_file_name, field_name, field_type
+                self._xml_escape(data_file_name),
+                self._xml_escape(field_name),
+                field_type,
             )
 
         xdmffile = f"""<?xml version="1.0" ?>
@@ -557,7 +565,8 @@ class IO:
     </Domain>
 </Xdmf>
 """
-        with open(self._xdmf_file_name(h5_file_name, "eulerian"), "w") as f:
+        xmf_file_name = self._xdmf_file_name(h5_file_name, "eulerian")
+        with open(xmf_file_name, "w", encoding="utf-8") as f:
             f.write(xdmffile)
 
     def generate_xdmf_lagrangian(self, h5_file_name, time):
@@ -622,18 +631,21 @@ class IO:
                     )[1:-1]
 
                 field_entries += generate_lagrangian_field_entry(
-                    data_file_name,
-                    field_name,
+                    self._xml_escape(data_file_name),
+                    self._xml_escape(field_name),
                     field_type,
                     field_grid_size_string,
-                    lagrangian_grid_name=lagrangian_grid_name,
+                    lagrangian_grid_name=self._xml_escape(lagrangian_grid_name),
                 )
 
+            grid_reference = self._xml_escape(
+                f"{data_file_name}:/Lagrangian/{lagrangian_grid_name}"
+            )
             if lagrangian_grid_name in self.lagrangian_grid_connection:
                 topology = f"""<Topology TopologyType="Polyline">
                 <DataItem DataType="Int" Dimensions="1
                 {lagrangian_grid_size[0]}" Format="HDF" Precision="8">
-                    {data_file_name}:/Lagrangian/{lagrangian_grid_name}/Connection
+                    {grid_reference}/Connection
                 </DataItem>
             </Topology>"""
             else:
@@ -650,7 +662,7 @@ class IO:
             <Geometry GeometryType="{geometry_type}">
                 <DataItem Dimensions="{lagrangian_grid_size_string}"
                 NumberType="Float" Precision="{self.xdmf_precision}" Format="HDF">
-                    {data_file_name}:/Lagrangian/{lagrangian_grid_name}/Grid
+                    {grid_reference}/Grid
                 </DataItem>
             </Geometry>
 
@@ -660,5 +672,5 @@ class IO:
 </Xdmf>
 """
 
-            with open(xmf_file_name, "w") as f:
+            with open(xmf_file_name, "w", encoding="utf-8") as f:
                 f.write(xdmffile)
-- 
2.43.0

