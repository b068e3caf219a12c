From e99388d378b5641e78b7e0331c80db4e27ad4354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 01/12] fix: penalise field boundary kernels raised for a zone
 width of one cell

---
 .../stencil_ops_2d/penalise_field_boundary_2d.py            | 4 ++--
 .../stencil_ops_3d/penalise_field_boundary_3d.py            | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
index bcc0448..f74f2eb 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
@@ -131,7 +131,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width] = field[:, (width - 1) : width]
-            field[:, -width:] = field[:, -width : (-width + 1)]
+            field[:, -width:] = field[:, -width : (-width + 1) or None]
             penalise_field_x_front_boundary_kernel_2d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -142,7 +142,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :] = field[(width - 1) : width, :]
-            field[-width:, :] = field[-width : (-width + 1), :]
+            field[-width:, :] = field[-width : (-width + 1) or None, :]
             penalise_field_y_front_boundary_kernel_2d(
                 field=field, y_grid_field=y_grid_field
             )
diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
index ad595f5..cdc2c10 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
@@ -188,7 +188,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :, :width] = field[:, :, (width - 1) : width]
-            field[:, :, -width:] = field[:, :, -width : (-width + 1)]
+            field[:, :, -width:] = field[:, :, -width : (-width + 1) or None]
             penalise_field_x_front_boundary_kernel_3d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -199,7 +199,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width, :] = field[:, (width - 1) : width, :]
-            field[:, -width:, :] = field[:, -width : (-width + 1), :]
+            field[:, -width:, :] = field[:, -width : (-width + 1) or None, :]
             penalise_field_y_front_boundary_kernel_3d(
                 field=field, y_grid_field=y_grid_field
             )
@@ -210,7 +210,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Z
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :, :] = field[(width - 1) : width, :, :]
-            field[-width:, :, :] = field[-width : (-width + 1), :, :]
+            field[-width:, :, :] = field[-width : (-width + 1) or None, :, :]
             penalise_field_z_front_boundary_kernel_3d(
                 field=field, z_grid_field=z_grid_field
             )
-- 
2.43.0


From 43c14754960fb5192cc83adb20dbcc0ed3652aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:34 +0000
Subject: [PATCH 02/12] fix: Laplacian filter of order 0 subtracted the stale
 content of the flux buffer

---
 .../stencil_ops_3d/laplacian_filter_3d.py        | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py
index afa83d0..0a6e1cf 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py
@@ -4,7 +4,7 @@ import pystencils as ps
 from sopht.numeric.eulerian_grid_ops.stencil_ops_3d import (
     gen_elementwise_copy_pyst_kernel_3d,
     gen_elementwise_saxpby_pyst_kernel_3d,
-    gen_set_fixed_val_at_boundaries_pyst_kernel_3d,
+    gen_set_fixed_val_pyst_kernel_3d,
 )
 from sopht.utils.pyst_kernel_config import get_pyst_dtype, get_pyst_kernel_config
 from typing import Union, Tuple, Type
@@ -95,13 +95,11 @@ def gen_laplacian_filter_kernel_3d(
     elementwise_saxpby_3d = gen_elementwise_saxpby_pyst_kernel_3d(
         real_t=real_t, num_threads=num_threads, fixed_grid_size=fixed_grid_size
     )
-    # to set boundary zone = 0
-    boundary_width = 1
-    set_fixed_val_at_boundaries_3d = gen_set_fixed_val_at_boundaries_pyst_kernel_3d(
+    # to reset the flux buffer, boundary zone included, before every use
+    set_fixed_val_3d = gen_set_fixed_val_pyst_kernel_3d(
         real_t=real_t,
-        width=boundary_width,
-        # complexity of this operation is O(N^2), hence setting serial version
-        num_threads=False,
+        num_threads=num_threads,
+        fixed_grid_size=fixed_grid_size,
         field_type="scalar",
     )
 
@@ -109,7 +107,7 @@ def gen_laplacian_filter_kernel_3d(
         """
         Applies multiplicative Laplacian filter on any scalar field.
         """
-        set_fixed_val_at_boundaries_3d(field=filter_flux_buffer, fixed_val=0)
+        set_fixed_val_3d(field=filter_flux_buffer, fixed_val=0)
         elementwise_copy_3d(field=field_buffer, rhs_field=scalar_field)
         for _ in range(filter_order):
             # Laplacian filter in x direction
@@ -134,7 +132,7 @@ def gen_laplacian_filter_kernel_3d(
         """
         Applies convolution Laplacian filter on any scalar field.
         """
-        set_fixed_val_at_boundaries_3d(field=filter_flux_buffer, fixed_val=0)
+        set_fixed_val_3d(field=filter_flux_buffer, fixed_val=0)
 
         # Laplacian filter in x direction
         elementwise_copy_3d(field=field_buffer, rhs_field=scalar_field)
-- 
2.43.0


From cd084ec892e6d72b583d03e70f6df811dac3b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 03/12] fix: 2D advection flux kernel accepted unsupported real
 types

---
 .../eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
index 966922e..bf970cf 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
@@ -1,6 +1,4 @@
 """Kernels for computing advection flux in 2D."""
-import numpy as np
-
 import pystencils as ps
 
 import sympy as sp
@@ -13,10 +11,8 @@ def gen_advection_flux_conservative_eno3_pyst_kernel_2d(
 ):
     # TODO expand docs
     """2D conservative ENO3 advection flux kernel generator."""
-    pyst_dtype = "float32" if real_t == np.float32 else "float64"
-    kernel_config = ps.CreateKernelConfig(
-        data_type=pyst_dtype, default_number_float=pyst_dtype, cpu_openmp=num_threads
-    )
+    pyst_dtype = get_pyst_dtype(real_t)
+    kernel_config = get_pyst_kernel_config(real_t, num_threads)
     # we can add dtype checks later
     grid_info = (
         f"{fixed_grid_size[0]}, {fixed_grid_size[1]}" if fixed_grid_size else "2D"
-- 
2.43.0


From aced8043a491bce089b02ab2b84c9a153be7a235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:02 +0000
Subject: [PATCH 04/12] fix: 3D FFT helper objects used complex transforms for
 real fields

---
 .../eulerian_grid_ops/poisson_solver_3d/FFTPyFFTW3D.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/FFTPyFFTW3D.py b/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/FFTPyFFTW3D.py
index 04c8f0a..c5784ad 100644
--- a/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/FFTPyFFTW3D.py
+++ b/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/FFTPyFFTW3D.py
@@ -50,10 +50,10 @@ class FFTPyFFTW3D:
             flags=("FFTW_MEASURE",),
             threads=self.num_threads,
         )
-        self.pyfftw_fftn = pyfftw.builders.fftn(
+        self.pyfftw_fftn = pyfftw.builders.rfftn(
             self.field_pyfftw_buffer, threads=self.num_threads
         )
-        self.pyfftw_ifftn = pyfftw.builders.ifftn(
+        self.pyfftw_ifftn = pyfftw.builders.irfftn(
             self.fourier_field_pyfftw_buffer, threads=self.num_threads
         )
 
-- 
2.43.0


From 6897dc336097bd7f551df6874ef9ee87def8c48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:02 +0000
Subject: [PATCH 05/12] fix: classify Lagrangian IO fields by their full shape

---
 sopht/utils/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 2026017..236c3b5 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -165,7 +165,7 @@ class IO:
             )
 
             # Assign field types
-            if field.shape[0] == lagrangian_grid.shape[1]:
+            if field.shape == lagrangian_grid.shape[1:]:
                 self.lagrangian_fields_type[field_name] = "Scalar"
             elif field.shape == lagrangian_grid.shape:
                 self.lagrangian_fields_type[field_name] = "Vector"
-- 
2.43.0


From b36aa27f9356b5cde4d645f9dfa895d6a6bf65d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:17 +0000
Subject: [PATCH 06/12] fix: keep Lagrangian IO fields of the same name on
 different grids apart

---
 sopht/utils/IO.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 236c3b5..2a09731 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -159,21 +159,22 @@ class IO:
         for field_name in fields_for_io:
             # Add each field into local dictionary
             field = fields_for_io[field_name]
-            self.lagrangian_fields[field_name] = field
+            self.lagrangian_fields[lagrangian_grid_name, field_name] = field
             self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
                 field_name
             )
 
             # Assign field types
             if field.shape == lagrangian_grid.shape[1:]:
-                self.lagrangian_fields_type[field_name] = "Scalar"
+                field_type = "Scalar"
             elif field.shape == lagrangian_grid.shape:
-                self.lagrangian_fields_type[field_name] = "Vector"
+                field_type = "Vector"
             else:
                 raise ValueError(
                     f"Unable to identify lagrangian field type "
                     f"(scalar / vector) based on field dimension {field.shape}"
                 )
+            self.lagrangian_fields_type[lagrangian_grid_name, field_name] = field_type
 
     def save(self, h5_file_name, time=0.0):  # noqa: C901
         """
@@ -282,8 +283,10 @@ class IO:
                 for field_name in self.lagrangian_fields_with_grid_name[
                     lagrangian_grid_name
                 ]:
-                    field = self.lagrangian_fields[field_name]
-                    field_type = self.lagrangian_fields_type[field_name]
+                    field = self.lagrangian_fields[lagrangian_grid_name, field_name]
+                    field_type = self.lagrangian_fields_type[
+                        lagrangian_grid_name, field_name
+                    ]
                     if field_type == "Scalar":
                         lagrangian_scalar_grp.create_dataset(field_name, data=field)
                     elif field_type == "Vector":
@@ -384,7 +387,10 @@ class IO:
                     for field_name in self.lagrangian_fields_with_grid_name[
                         lagrangian_grid_name
                     ]:
-                        field_type = self.lagrangian_fields_type[field_name]
+                        field = self.lagrangian_fields[lagrangian_grid_name, field_name]
+                        field_type = self.lagrangian_fields_type[
+                            lagrangian_grid_name, field_name
+                        ]
                         if field_type == "Scalar":
                             assert (
                                 f"Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}"
@@ -393,9 +399,9 @@ class IO:
                                 f"Unable to find scalar field {field_name} on "
                                 f"grid {lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = f["Lagrangian"][
-                                lagrangian_grid_name
-                            ][field_type][field_name][...]
+                            field[...] = f["Lagrangian"][lagrangian_grid_name][
+                                field_type
+                            ][field_name][...]
                         elif field_type == "Vector":
                             assert (
                                 f"Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}"
@@ -404,7 +410,7 @@ class IO:
                                 f"Unable to find vector field {field_name} on grid "
                                 f"{lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = np.moveaxis(
+                            field[...] = np.moveaxis(
                                 f["Lagrangian"][lagrangian_grid_name][field_type][
                                     field_name
                                 ][...],
@@ -561,7 +567,9 @@ class IO:
             for field_name in self.lagrangian_fields_with_grid_name[
                 lagrangian_grid_name
             ]:
-                field_type = self.lagrangian_fields_type[field_name]
+                field_type = self.lagrangian_fields_type[
+                    lagrangian_grid_name, field_name
+                ]
 
                 if field_type == "Scalar":
                     field_grid_size_string = lagrangian_grid_size[0]
-- 
2.43.0


From 9cccfffc6a8c122d2ad25be54b3713f791cc434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:17 +0000
Subject: [PATCH 07/12] fix: keep earlier IO fields when more are added on the
 same Lagrangian grid

---
 sopht/utils/IO.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 2a09731..a2dd73a 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -155,14 +155,18 @@ class IO:
         self.lagrangian_grids[lagrangian_grid_name] = lagrangian_grid
         # Create a list of to store names of fields that lie on
         # grid with grid name `lagrangian_grid_name`
-        self.lagrangian_fields_with_grid_name[lagrangian_grid_name] = []
+        self.lagrangian_fields_with_grid_name.setdefault(lagrangian_grid_name, [])
         for field_name in fields_for_io:
             # Add each field into local dictionary
             field = fields_for_io[field_name]
             self.lagrangian_fields[lagrangian_grid_name, field_name] = field
-            self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
+            if (
                 field_name
-            )
+                not in self.lagrangian_fields_with_grid_name[lagrangian_grid_name]
+            ):
+                self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
+                    field_name
+                )
 
             # Assign field types
             if field.shape == lagrangian_grid.shape[1:]:
-- 
2.43.0


From a923e84529000a051d8dbe3ad8d87ed2d72c4c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:29 +0000
Subject: [PATCH 08/12] fix: XDMF Precision attributes give bytes per value

---
 sopht/utils/IO.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index a2dd73a..ed83620 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -34,7 +34,10 @@ class IO:
         self.dim = dim
         assert self.dim == 2 or self.dim == 3, "Invalid dimension (only 2D and 3D)"
         self.real_dtype = real_dtype
+        # digits of the numbers printed to the XDMF files
         self.precision = 8 if real_dtype is np.float32 else 16
+        # bytes per value of the data the XDMF files refer to
+        self.xdmf_precision = np.dtype(real_dtype).itemsize
 
         # Initialize dictionaries for fields for IO and their
         # corresponding field_type ('Scalar' or 'Vector') Eulerian grid
@@ -474,7 +477,7 @@ class IO:
                 entry = f"""<Attribute Name="{field_name}" Active="1"
                 AttributeType="Scalar" Center="Node">
                     <DataItem Dimensions="{grid_size_string}"
-                    NumberType="Float" Precision="{self.precision}" Format="HDF">
+                    NumberType="Float" Precision="{self.xdmf_precision}" Format="HDF">
                         {file_name}:/Eulerian/{field_type}/{field_name}
                     </DataItem>
                 </Attribute>
@@ -486,7 +489,7 @@ class IO:
                     entry += f"""<Attribute Name="{field_name}_{idx_dim}"
                     Active="1" AttributeType="Scalar" Center="Node">
                     <DataItem Dimensions="{grid_size_string}" NumberType="Float"
-                    Precision="{self.precision}" Format="HDF">
+                    Precision="{self.xdmf_precision}" Format="HDF">
                         {file_name}:/Eulerian/{field_type}/{field_name}_{idx_dim}
                     </DataItem>
                 </Attribute>
@@ -508,11 +511,11 @@ class IO:
             <Topology TopologyType="{topology_type}" Dimensions="{grid_size_string}"/>
             <Geometry GeometryType="{geometry_type}">
                 <DataItem Name="Origin" Dimensions="{self.dim}"
-                NumberType="Float" Precision="{self.precision}" Format="XML">
+                NumberType="Float" Precision="{self.xdmf_precision}" Format="XML">
                     {origin_string}
                 </DataItem>
                 <DataItem Name="Spacing" Dimensions="{self.dim}"
-                NumberType="Float" Precision="{self.precision}" Format="XML">
+                NumberType="Float" Precision="{self.xdmf_precision}" Format="XML">
                     {dx_string}
                 </DataItem>
             </Geometry>
@@ -549,7 +552,7 @@ class IO:
             entry = f"""<Attribute Name="{field_name}" Active="1"
             AttributeType="{field_type}" Center="Node">
                 <DataItem Dimensions="{field_grid_size}" NumberType="Float"
-                Precision="{self.precision}" Format="HDF">
+                Precision="{self.xdmf_precision}" Format="HDF">
                     {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}
                 </DataItem>
             </Attribute>
@@ -593,9 +596,10 @@ class IO:
                 )
 
             if lagrangian_grid_name in self.lagrangian_grid_connection:
+                connection = self.lagrangian_grid_connection[lagrangian_grid_name]
                 topology = f"""<Topology TopologyType="Polyline">
                 <DataItem DataType="Int" Dimensions="1
-                {lagrangian_grid_size[0]}" Format="HDF" Precision="{self.precision}">
+                {lagrangian_grid_size[0]}" Format="HDF" Precision="{connection.itemsize}">
                     {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Connection
                 </DataItem>
             </Topology>"""
@@ -612,7 +616,7 @@ class IO:
             {topology}
             <Geometry GeometryType="{geometry_type}">
                 <DataItem Dimensions="{lagrangian_grid_size_string}"
-                NumberType="Float" Precision="{self.precision}" Format="HDF">
+                NumberType="Float" Precision="{self.xdmf_precision}" Format="HDF">
                     {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Grid
                 </DataItem>
             </Geometry>
-- 
2.43.0


From 84c7e52bfc7103b62d4912dbb619c82b3b8b267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:30 +0000
Subject: [PATCH 09/12] fix: XDMF origin and spacing of 2D grids hold three
 values

---
 sopht/utils/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index ed83620..1050d78 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -510,11 +510,11 @@ class IO:
             <Time Value="{time}"/>
             <Topology TopologyType="{topology_type}" Dimensions="{grid_size_string}"/>
             <Geometry GeometryType="{geometry_type}">
-                <DataItem Name="Origin" Dimensions="{self.dim}"
+                <DataItem Name="Origin" Dimensions="3"
                 NumberType="Float" Precision="{self.xdmf_precision}" Format="XML">
                     {origin_string}
                 </DataItem>
-                <DataItem Name="Spacing" Dimensions="{self.dim}"
+                <DataItem Name="Spacing" Dimensions="3"
                 NumberType="Float" Precision="{self.xdmf_precision}" Format="XML">
                     {dx_string}
                 </DataItem>
-- 
2.43.0


From d0882cb58c5614eb1c1564f195464500a089da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:17 +0000
Subject: [PATCH 10/12] fix: XDMF files overwrote HDF5 files not named *.h5

---
 sopht/utils/IO.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 1050d78..dadc049 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -1,4 +1,6 @@
 """Module for Input/Output via HD5 format."""
+import os
+
 import h5py
 
 import numpy as np
@@ -525,7 +527,7 @@ class IO:
     </Domain>
 </Xdmf>
 """
-        with open(h5_file_name.replace(".h5", "_eulerian.xmf"), "w") as f:
+        with open(os.path.splitext(h5_file_name)[0] + "_eulerian.xmf", "w") as f:
             f.write(xdmffile)
 
     def generate_xdmf_lagrangian(self, h5_file_name, time):
@@ -561,7 +563,9 @@ class IO:
             return entry
 
         for lagrangian_grid_name in self.lagrangian_grids:
-            xmf_file_name = h5_file_name.replace(".h5", f"_{lagrangian_grid_name}.xmf")
+            xmf_file_name = (
+                os.path.splitext(h5_file_name)[0] + f"_{lagrangian_grid_name}.xmf"
+            )
             field_entries = ""
             lagrangian_grid = self.lagrangian_grids[lagrangian_grid_name]
             lagrangian_grid_size = np.flip(np.array(lagrangian_grid.shape))
-- 
2.43.0


From 1d3753160757d396187d9e88c98a3dc3ee7e6793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:17 +0000
Subject: [PATCH 11/12] fix: loading a one-node Lagrangian grid silently filled
 larger grids

---
 sopht/utils/IO.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index dadc049..d6bb3d6 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -383,9 +383,14 @@ class IO:
                     assert (
                         f"Lagrangian/{lagrangian_grid_name}/Grid" in keys
                     ), f"Unable to find grid '{lagrangian_grid_name}' in loaded file!"
-                    self.lagrangian_grids[lagrangian_grid_name][...] = np.transpose(
+                    saved_grid = np.transpose(
                         f["Lagrangian"][lagrangian_grid_name]["Grid"][...]
                     )
+                    assert (
+                        saved_grid.shape
+                        == self.lagrangian_grids[lagrangian_grid_name].shape
+                    ), f"Size of grid '{lagrangian_grid_name}' differs in loaded file!"
+                    self.lagrangian_grids[lagrangian_grid_name][...] = saved_grid
 
                     if f"Lagrangian/{lagrangian_grid_name}/Connection" in keys:
                         self.lagrangian_grid_connection[lagrangian_grid_name] = f[
-- 
2.43.0


From a0bbed9c56f3f178b399ca2d8b317dc5b0721611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 12/12] fix: do not keep IO fields whose registration is
 refused

---
 sopht/utils/IO.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index d6bb3d6..e863722 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -100,9 +100,7 @@ class IO:
         assert self.eulerian_grid_defined, "Eulerian mesh is not defined!"
 
         for field_name in fields_for_io:
-            # Add each field into local dictionary
             field = fields_for_io[field_name]
-            self.eulerian_fields[field_name] = field
 
             # Assign field types
             if field.shape == (*self.eulerian_grid_size,):
@@ -114,6 +112,8 @@ class IO:
                     f"Unable to identify eulerian field type "
                     f"(scalar / vector) based on field dimension {field.shape}"
                 )
+            # Add each field into local dictionary
+            self.eulerian_fields[field_name] = field
 
     def add_as_lagrangian_fields_for_io(
         self,
@@ -162,16 +162,7 @@ class IO:
         # grid with grid name `lagrangian_grid_name`
         self.lagrangian_fields_with_grid_name.setdefault(lagrangian_grid_name, [])
         for field_name in fields_for_io:
-            # Add each field into local dictionary
             field = fields_for_io[field_name]
-            self.lagrangian_fields[lagrangian_grid_name, field_name] = field
-            if (
-                field_name
-                not in self.lagrangian_fields_with_grid_name[lagrangian_grid_name]
-            ):
-                self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
-                    field_name
-                )
 
             # Assign field types
             if field.shape == lagrangian_grid.shape[1:]:
@@ -183,6 +174,15 @@ class IO:
                     f"Unable to identify lagrangian field type "
                     f"(scalar / vector) based on field dimension {field.shape}"
                 )
+            # Add each field into local dictionary
+            self.lagrangian_fields[lagrangian_grid_name, field_name] = field
+            if (
+                field_name
+                not in self.lagrangian_fields_with_grid_name[lagrangian_grid_name]
+            ):
+                self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
+                    field_name
+                )
             self.lagrangian_fields_type[lagrangian_grid_name, field_name] = field_type
 
     def save(self, h5_file_name, time=0.0):  # noqa: C901
-- 
2.43.0

