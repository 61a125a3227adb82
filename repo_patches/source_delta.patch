From 02f5cbb75f8714ecc1449ffe01fb9263de78c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 01/40] fix: so2.nearest_neighbour_distance must not count an
 element as its own neighbour

The minimum over all pairwise distances included the distance of each
element to itself, so the result was always (close to) zero and the RBF
width derived from it made SE2 and E2 group convolutions return NaN or 0.
---
 gconv/geometry/groups/so2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index e4c352b..79a664f 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -237,4 +237,5 @@ def nearest_neighbour_distance(grid: Tensor) -> Tensor:
     Arguments:
         grid: tensor of shape (N, 1) of rotation angles.
     """
-    return (geodesic_distance(grid[:, None], grid)).min(-1)[0]
+    # index 0 is the distance of each element to itself
+    return geodesic_distance(grid[:, None], grid).sort()[0][:, 1]
-- 
2.43.0


From 510a44042f8e09bba751e1b06e14df77bac0cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 02/40] fix: E3 kernels derive the default RBF width from
 rotations, not O3 vectors

The 10-dimensional O3 elements were passed as if they were quaternions;
for grids of 8 or more elements the width collapsed to about 4e-4 and the
sampled group weights vanished.
---
 gconv/gnn/kernels/kernel_en/kernel_e3.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index 3f754ed..bba4ac0 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -126,13 +126,17 @@ class GSeparableKernelE3(GSeparableKernel):
         if not group_rotation_sampling_width:
             group_rotation_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[: group_kernel_size[0]]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[: group_kernel_size[0], 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         if not group_reflection_sampling_width:
             group_reflection_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[group_kernel_size[0] :]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[group_kernel_size[0] :, 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         sample_H_kwargs = {
@@ -220,13 +224,17 @@ class GKernelE3(GKernel):
         if not group_rotation_sampling_width:
             group_rotation_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[: group_kernel_size[0]]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[: group_kernel_size[0], 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         if not group_reflection_sampling_width:
             group_reflection_sampling_width = (
                 0.8
-                * so3.nearest_neighbour_distance(grid_H[group_kernel_size[0] :]).mean()
+                * so3.nearest_neighbour_distance(
+                    grid_H[group_kernel_size[0] :, 1:].unflatten(-1, (3, 3))
+                ).mean()
             )
 
         sample_H_kwargs = {
-- 
2.43.0


From 2210fe558f4651f0d7760414c1c8d077bc28872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 03/40] fix: separable and subgroup kernels keep input and
 output group axes apart

The sampled weights are laid out output-major, but were viewed with the
input axis first, which scrambled them whenever the input and output
grids have different sizes.
---
 gconv/gnn/kernels/kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index 93cabc6..93202f9 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -274,8 +274,8 @@ class GSeparableKernel(GroupKernel):
                 **self.sample_H_kwargs,
             )
             .view(
-                num_in_H,
                 num_out_H,
+                num_in_H,
                 self.in_channels // self.groups,
                 self.out_channels,
                 *self.weight_dims,
@@ -364,8 +364,8 @@ class GSubgroupKernel(GroupKernel):
                 **self.sample_H_kwargs,
             )
             .view(
-                num_in_H,
                 num_out_H,
+                num_in_H,
                 self.in_channels // self.groups,
                 self.out_channels,
                 *self.kernel_size,
-- 
2.43.0


From ba216f66a1da6db7bfc1d6503df6b77b69155ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 04/40] fix: SE2 kernels respect mask=False

---
 gconv/gnn/kernels/kernel_sen/kernel_se2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel_sen/kernel_se2.py b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
index 0c66f67..517019a 100644
--- a/gconv/gnn/kernels/kernel_sen/kernel_se2.py
+++ b/gconv/gnn/kernels/kernel_sen/kernel_se2.py
@@ -42,7 +42,7 @@ class GLiftingKernelSE2(GLiftingKernel):
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         sample_Rn_kwargs = {
             "mode": sampling_mode,
@@ -117,7 +117,7 @@ class GSeparableKernelSE2(GSeparableKernel):
             "padding_mode": spatial_sampling_padding_mode,
         }
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         super().__init__(
             in_channels,
@@ -190,7 +190,7 @@ class GKernelSE2(GKernel):
             "padding_mode": spatial_sampling_padding_mode,
         }
 
-        mask = gF.create_spherical_mask_R2(kernel_size)
+        mask = gF.create_spherical_mask_R2(kernel_size) if mask else None
 
         super().__init__(
             in_channels,
-- 
2.43.0


From b7f6544e047a141f6543ca699af36f4cdfa8aebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 05/40] fix: GWrap must initialise nn.Module before registering
 the wrapped module

---
 gconv/gnn/modules/wrappers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gconv/gnn/modules/wrappers.py b/gconv/gnn/modules/wrappers.py
index 6388146..d62ff01 100644
--- a/gconv/gnn/modules/wrappers.py
+++ b/gconv/gnn/modules/wrappers.py
@@ -13,6 +13,8 @@ class GWrap(nn.Module):
         Arguments:
             - module: nn.Module.
         """
+        super().__init__()
+
         self.module = module
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-- 
2.43.0


From eebe2ad0be7da756e36616776a22af78adfa2ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 06/40] fix: spatial pooling layers restore the channel and
 group axes

The pooled output was viewed as (N, C, H) without its spatial axes, so
every spatial pooling layer raised a RuntimeError.
---
 gconv/gnn/modules/pooling.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gconv/gnn/modules/pooling.py b/gconv/gnn/modules/pooling.py
index 560c8e6..84952e1 100644
--- a/gconv/gnn/modules/pooling.py
+++ b/gconv/gnn/modules/pooling.py
@@ -10,7 +10,7 @@ class GMaxSpatialPool2d(nn.MaxPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GMaxSpatialPool3d(nn.MaxPool3d):
@@ -19,7 +19,7 @@ class GMaxSpatialPool3d(nn.MaxPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GMaxGroupPool(nn.Module):
@@ -46,7 +46,7 @@ class GAvgSpatialPool2d(nn.AvgPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAvgSpatialPool3d(nn.AvgPool3d):
@@ -55,7 +55,7 @@ class GAvgSpatialPool3d(nn.AvgPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAvgGroupPool(nn.Module):
@@ -82,7 +82,7 @@ class GAdaptiveMaxSpatialPool2d(nn.AdaptiveMaxPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveMaxSpatialPool3d(nn.AdaptiveMaxPool3d):
@@ -91,7 +91,7 @@ class GAdaptiveMaxSpatialPool3d(nn.AdaptiveMaxPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveAvgSpatialPool2d(nn.AdaptiveAvgPool2d):
@@ -100,7 +100,7 @@ class GAdaptiveAvgSpatialPool2d(nn.AdaptiveAvgPool2d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
 
 
 class GAdaptiveAvgSpatialPool3d(nn.AdaptiveAvgPool3d):
@@ -109,4 +109,4 @@ class GAdaptiveAvgSpatialPool3d(nn.AdaptiveAvgPool3d):
     """
 
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
-        return super().forward(x.flatten(1, 2)).view(*x.shape[:3]), H
+        return super().forward(x.flatten(1, 2)).unflatten(1, x.shape[1:3]), H
-- 
2.43.0


From 6a1c883467e7170008f6b742d15cbadfa42073b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 07/40] fix: group and global max pooling return the maxima,
 not (values, indices)

---
 gconv/gnn/modules/pooling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/modules/pooling.py b/gconv/gnn/modules/pooling.py
index 84952e1..36d8a34 100644
--- a/gconv/gnn/modules/pooling.py
+++ b/gconv/gnn/modules/pooling.py
@@ -28,7 +28,7 @@ class GMaxGroupPool(nn.Module):
     """
 
     def forward(self, x: Tensor, _: Optional[Tensor] = None) -> Tensor:
-        return x.max(dim=2)
+        return x.max(dim=2)[0]
 
 
 class GMaxGlobalPool(nn.Module):
@@ -37,7 +37,7 @@ class GMaxGlobalPool(nn.Module):
     """
 
     def forward(self, x: Tensor, _: Optional[Tensor] = None) -> Tensor:
-        return x.flatten(2, -1).max(-1, keepdim=True)
+        return x.flatten(2, -1).max(-1, keepdim=True)[0]
 
 
 class GAvgSpatialPool2d(nn.AvgPool2d):
-- 
2.43.0


From 7a39239884b10c00bb1479e7705bff4b39b5415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 08/40] fix: so3.left_apply_quat computes the quaternion
 product

The vector part was assigned a tuple (a comma in place of a product), so
every call raised a TypeError; the cross product also needs its axis.
---
 gconv/geometry/groups/so3.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 2ebe2ab..09e3d20 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -184,9 +184,10 @@ def left_apply_quat(q1: Tensor, q2: Tensor) -> Tensor:
     Returns:
         - Tensor of shape `(..., 4)`.
     """
+    q1, q2 = torch.broadcast_tensors(q1, q2)
     q = q1.new_empty(q1.shape)
 
-    cross = torch.cross(q1[..., 1:], q2[..., 1:])
+    cross = torch.cross(q1[..., 1:], q2[..., 1:], dim=-1)
 
     q[..., 0] = (
         q1[..., 0] * q2[..., 0]
@@ -194,9 +195,9 @@ def left_apply_quat(q1: Tensor, q2: Tensor) -> Tensor:
         - q1[..., 2] * q2[..., 2]
         - q1[..., 3] * q2[..., 3]
     )
-    q[..., 1] = q1[..., 0] * q2[..., 1] + q2[..., 0], q1[..., 1] + cross[..., 0]
-    q[..., 2] = q1[..., 0] * q2[..., 2] + q2[..., 0], q1[..., 2] + cross[..., 1]
-    q[..., 3] = q1[..., 0] * q2[..., 3] + q2[..., 0], q1[..., 3] + cross[..., 2]
+    q[..., 1] = q1[..., 0] * q2[..., 1] + q2[..., 0] * q1[..., 1] + cross[..., 0]
+    q[..., 2] = q1[..., 0] * q2[..., 2] + q2[..., 0] * q1[..., 2] + cross[..., 1]
+    q[..., 3] = q1[..., 0] * q2[..., 3] + q2[..., 0] * q1[..., 3] + cross[..., 2]
 
     return q
 
-- 
2.43.0


From 56d201616e1058c393e83208848373cbfd2feb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 09/40] fix: s2.spherical_to_euler_neg_gamma sets alpha to
 -gamma as a column

---
 gconv/geometry/groups/s2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/s2.py b/gconv/geometry/groups/s2.py
index e1ee67b..b0b7f59 100644
--- a/gconv/geometry/groups/s2.py
+++ b/gconv/geometry/groups/s2.py
@@ -75,7 +75,7 @@ def spherical_to_euler(g: Tensor) -> Tensor:
 
 
 def spherical_to_euler_neg_gamma(g: Tensor) -> Tensor:
-    minus_gamma = g[:, 1]
+    minus_gamma = -g[:, 1:]
     return torch.hstack((minus_gamma, g))
 
 
-- 
2.43.0


From 3cd512158fdafeb7b41ab542d962b7dafb416b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 10/40] fix: cache SO3 grids in the parameterization they are
 stored under

uniform_grid(cache_grid=True) cached the Euler angles whatever the
requested parameterization, so the next call returned Euler angles as
quaternions or matrices; caching Euler grids raised a KeyError.
---
 gconv/geometry/groups/_grid_cache.py | 3 ++-
 gconv/geometry/groups/so3.py         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index 58ddc6c..68e3a28 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -19,7 +19,8 @@ def save_grid(
             pass
         else:
             return
-    _grid_cache[grid_type.lower()][parameterization.lower()][grid.shape[0]] = grid
+    cache = _grid_cache.setdefault(grid_type.lower(), {})
+    cache.setdefault(parameterization.lower(), {})[grid.shape[0]] = grid
 
 
 def load_grid(size: str, grid_type: str, parameterization: str) -> Tensor:
diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 09e3d20..37d522f 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -606,7 +606,7 @@ def uniform_grid(
     )
 
     if cache_grid:
-        _grid_cache.save_grid(grid, "so3", parameterization)
+        _grid_cache.save_grid(param_fn(grid), "so3", parameterization)
 
     return param_fn(grid)
 
-- 
2.43.0


From 341b48261538bfc29ca706cd4d9895b8e547c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 11/40] fix: the grid cache hands out copies

Cached grids were shared with every caller and registered as buffers, so
an in-place change (load_state_dict into a layer, for one) changed the
grids of every other layer and of later calls.
---
 gconv/geometry/groups/_grid_cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index 68e3a28..6974e4b 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -20,11 +20,11 @@ def save_grid(
         else:
             return
     cache = _grid_cache.setdefault(grid_type.lower(), {})
-    cache.setdefault(parameterization.lower(), {})[grid.shape[0]] = grid
+    cache.setdefault(parameterization.lower(), {})[grid.shape[0]] = grid.clone()
 
 
 def load_grid(size: str, grid_type: str, parameterization: str) -> Tensor:
-    return _grid_cache[grid_type.lower()][parameterization.lower()][size]
+    return _grid_cache[grid_type.lower()][parameterization.lower()][size].clone()
 
 
 _grid_cache: dict[str, dict[str, dict[int, Tensor]]] = {
-- 
2.43.0


From f047aedf078f9794592f57f20052120478123a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 12/40] fix: matrix_to_quat and matrix_to_euler accept any
 batch shape

Both are documented for (..., 3, 3) but indexed fixed axes, so inputs
with more (or fewer) than one batch axis raised or were converted to the
wrong rotation; random_euler returned wrong angles for tuple shapes.
---
 gconv/geometry/groups/so3.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 37d522f..7288577 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -264,7 +264,7 @@ def matrix_to_quat(r: Tensor) -> Tensor:
     """
     q = r.new_empty(*r.shape[:-2], 4)
 
-    decision = torch.diagonal(r, 0, dim1=1, dim2=2)
+    decision = torch.diagonal(r, 0, dim1=-2, dim2=-1)
     decision = torch.cat((decision, torch.sum(decision, dim=-1, keepdim=True)), dim=-1)
 
     i = torch.argmax(decision, dim=-1)
@@ -317,13 +317,13 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     matrix_trans = torch.matmul(res, c.T)
 
     # step 4
-    matrix_trans[:, 2, 2] = torch.clamp(matrix_trans[:, 2, 2], -1, 1)
+    matrix_trans[..., 2, 2] = torch.clamp(matrix_trans[..., 2, 2], -1, 1)
 
-    g[:, 1] = torch.acos(matrix_trans[:, 2, 2])
+    g[..., 1] = torch.acos(matrix_trans[..., 2, 2])
 
     # step 5, 6
-    safe1 = torch.abs(g[:, 1]) >= eps
-    safe2 = torch.abs(g[:, 1] - pi) >= eps
+    safe1 = torch.abs(g[..., 1]) >= eps
+    safe2 = torch.abs(g[..., 1] - pi) >= eps
     safe = safe1 & safe2
 
     not_safe1 = ~safe1
@@ -344,7 +344,7 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     )
 
     # step 7
-    adjust_and_safe = ((g[:, 1] < 0) | (g[:, 1] > pi)) & safe
+    adjust_and_safe = ((g[..., 1] < 0) | (g[..., 1] > pi)) & safe
 
     g[adjust_and_safe, 0] -= pi
     g[adjust_and_safe, 1] *= -1
-- 
2.43.0


From 43edd8bb734d20b8806ce7705b9bba84716b66b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 13/40] fix: so2.angle_to_matrix accepts a single angle of
 shape (1,)

---
 gconv/geometry/groups/so2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index 79a664f..5d886ac 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -18,8 +18,8 @@ def angle_to_matrix(R: Tensor) -> Tensor:
     """
     matrices = R.new_empty((*R.shape[:-1], 2, 2))
 
-    cos_H = torch.cos(R).flatten(-2)
-    sin_H = torch.sin(R).flatten(-2)
+    cos_H = torch.cos(R).squeeze(-1)
+    sin_H = torch.sin(R).squeeze(-1)
 
     matrices[..., 0, 0] = cos_H
     matrices[..., 0, 1] = -sin_H
-- 
2.43.0


From 947c15e5ada46d6a812bc30254712735906ce90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 14/40] fix: o3.random_grid accepts a tuple size

---
 gconv/geometry/groups/o3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/o3.py b/gconv/geometry/groups/o3.py
index 9f226e7..b341099 100644
--- a/gconv/geometry/groups/o3.py
+++ b/gconv/geometry/groups/o3.py
@@ -55,7 +55,7 @@ def random_grid(size: int | tuple, device: Optional[str] = None) -> Tensor:
         Tensor of shape size of random O3 elements.
     """
     R = so3.random_matrix(size, device=device).flatten(-2, -1)
-    coeffs = ((torch.rand(size, 1) > 0.5) * 2) - 1
+    coeffs = ((torch.rand(*R.shape[:-1], 1, device=device) > 0.5) * 2) - 1
 
     return torch.cat((coeffs, R), dim=-1)
 
-- 
2.43.0


From 6b8a9cc54126682728a340e3c2f55520a600d5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 15/40] fix: group kernels with a single group element

The cached one-element SO3 matrix grid had shape (3, 3) and was taken for
three elements; a one-element SO2 grid gave an RBF width of 0 and NaN
weights, and a one-sided O2 or O3 grid failed for lack of neighbours.
---
 gconv/geometry/groups/_grid_cache.py | 2 +-
 gconv/geometry/groups/so2.py         | 4 ++++
 gconv/geometry/groups/so3.py         | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index 6974e4b..f7ee809 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -424,7 +424,7 @@ _grid_cache: dict[str, dict[str, dict[int, Tensor]]] = {
             ),
         },
         "matrix": {
-            1: Tensor([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
+            1: Tensor([[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]]),
             2: Tensor(
                 [
                     [
diff --git a/gconv/geometry/groups/so2.py b/gconv/geometry/groups/so2.py
index 5d886ac..48cf24f 100644
--- a/gconv/geometry/groups/so2.py
+++ b/gconv/geometry/groups/so2.py
@@ -237,5 +237,9 @@ def nearest_neighbour_distance(grid: Tensor) -> Tensor:
     Arguments:
         grid: tensor of shape (N, 1) of rotation angles.
     """
+    if grid.shape[0] < 2:
+        # no neighbours: use the largest distance possible
+        return grid.new_full(grid.shape[:1], math.pi)
+
     # index 0 is the distance of each element to itself
     return geodesic_distance(grid[:, None], grid).sort()[0][:, 1]
diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 7288577..eddadd5 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -668,6 +668,10 @@ def nearest_neighbour_distance(q: Tensor) -> Tensor:
     if q.ndim == 3:
         q = matrix_to_quat(q)
 
+    if q.shape[0] < 2:
+        # no neighbours: use the largest distance possible
+        return q.new_full(q.shape[:1], pi / 2)
+
     return geodesic_distance(q[:, None], q).sort()[0][:, 1]
 
 
-- 
2.43.0


From 53b72191aa37bcf331a3a80c10688f8078d90c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 16/40] fix: O2 and O3 signals without rotations or reflections
 sample as zero

Sampling the part of the group on which the signal has no elements left
those samples out of the result, so a kernel of size (n, 0) raised an
IndexError as soon as the permuted output grid contained reflections.
---
 gconv/geometry/groups/o2.py | 4 ++++
 gconv/geometry/groups/o3.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/gconv/geometry/groups/o2.py b/gconv/geometry/groups/o2.py
index e10a908..e7fca52 100644
--- a/gconv/geometry/groups/o2.py
+++ b/gconv/geometry/groups/o2.py
@@ -189,11 +189,15 @@ def grid_sample(
         so2_signal = so2.grid_sample(
             R[so2_idx], so2_signal, so2_signal_grid, mode=mode, width=rotation_width
         )
+    else:
+        so2_signal = signal.new_zeros(len(so2_idx), *signal.shape[1:])
 
     if n_reflections:
         r_signal = so2.grid_sample(
             R[r_idx], r_signal, r_signal_grid, mode=mode, width=reflection_width
         )
+    else:
+        r_signal = signal.new_zeros(len(r_idx), *signal.shape[1:])
 
     sampled_signal = torch.cat((so2_signal, r_signal), dim=0)
 
diff --git a/gconv/geometry/groups/o3.py b/gconv/geometry/groups/o3.py
index b341099..62e4d93 100644
--- a/gconv/geometry/groups/o3.py
+++ b/gconv/geometry/groups/o3.py
@@ -198,11 +198,15 @@ def grid_sample(
         so3_signal = so3.grid_sample(
             R[so3_idx], so3_signal, so3_signal_grid, mode=mode, width=rotation_width
         )
+    else:
+        so3_signal = signal.new_zeros(len(so3_idx), *signal.shape[1:])
 
     if n_reflections:
         r_signal = so3.grid_sample(
             R[r_idx], r_signal, r_signal_grid, mode=mode, width=reflection_width
         )
+    else:
+        r_signal = signal.new_zeros(len(r_idx), *signal.shape[1:])
 
     sampled_signal = torch.cat((so3_signal, r_signal), dim=0)
 
-- 
2.43.0


From abf2d25c716e0130e6f5a327c5c5bd751fa2a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 17/40] fix: separable convolutions apply stride and padding
 once

The pointwise subgroup convolution was strided and padded as well, so
stride 2 downsampled by 4 and padding was added twice.
---
 gconv/gnn/modules/gconv.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index 2bdf7ff..d5426d1 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -103,10 +103,12 @@ class GroupConvNd(nn.Module):
 
         if conv_mode == "2d":
             self._conv_forward = self._conv2d_forward
+            self._conv_pointwise = F.conv2d
             bias_shape = (1, 1, 1)
             self.padding = _pair(padding) if isinstance(self.padding, int) else padding
         elif conv_mode == "3d":
             self._conv_forward = self._conv3d_forward
+            self._conv_pointwise = F.conv3d
             bias_shape = (1, 1, 1, 1)
             self.padding = (
                 _triple(padding) if isinstance(self.padding, int) else padding
@@ -297,15 +299,15 @@ class GSeparableConvNd(GroupConvNd):
 
         weight_H, weight = self.kernel(in_H, out_H)
 
-        # subgroup conv
-        input = self._conv_forward(
+        # subgroup conv, stride and padding only apply to the spatial conv
+        input = self._conv_pointwise(
             input.reshape(N, self.in_channels * num_in_H, *input_dims),
             weight_H.reshape(
                 self.out_channels * num_out_H,
                 (self.in_channels // self.groups) * num_in_H,
                 *weight_H.shape[4:],
             ),
-            self.groups,
+            groups=self.groups,
         )
 
         # spatial conv
-- 
2.43.0


From 2d747c5ca70426ecb5b42f78b5b6f3ef3fa7be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 18/40] fix: kernels are normalised by the magnitude of the
 group determinant

The change of variables scales volumes by |det h|. Dividing by the signed
determinant negated the kernels of all reflections, so E3 and E2 features
changed sign under a reflection of the input: they were not equivariant
once passed through a nonlinearity, nor invariant once pooled.
---
 gconv/gnn/kernels/kernel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index 93202f9..e248a81 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -190,7 +190,7 @@ class GLiftingKernel(GroupKernel):
             weight = self.mask * weight
 
         if self.det_H is not None:
-            weight = weight / self.det_H(H).view(-1, 1, *self.weight_dims)
+            weight = weight / self.det_H(H).abs().view(-1, 1, *self.weight_dims)
 
         return weight
 
@@ -300,7 +300,7 @@ class GSeparableKernel(GroupKernel):
             weight = self.mask * weight
 
         if self.det_H is not None:
-            weight = weight / self.det_H(out_H).view(-1, 1, *self.weight_dims)
+            weight = weight / self.det_H(out_H).abs().view(-1, 1, *self.weight_dims)
 
         return weight_H, weight
 
@@ -479,6 +479,6 @@ class GKernel(GroupKernel):
             weight = self.mask * weight
 
         if self.det_H is not None:
-            weight = weight / self.det_H(out_H).view(-1, 1, *self.weight_dims)
+            weight = weight / self.det_H(out_H).abs().view(-1, 1, *self.weight_dims)
 
         return weight
-- 
2.43.0


From ec07ae350248bb4fea1c70b50a569bf041f5784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 19/40] fix: SE3 and E3 layers permute the output grid in the
 dtype of the grid

The random element is float32, so double precision layers raised a dtype
mismatch unless permute_output_grid was off.
---
 gconv/gnn/modules/gconv_en/gconv_e3.py   |  9 ++++++---
 gconv/gnn/modules/gconv_sen/gconv_se3.py | 13 ++++++-------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/gconv/gnn/modules/gconv_en/gconv_e3.py b/gconv/gnn/modules/gconv_en/gconv_e3.py
index 5f708fa..65a6721 100644
--- a/gconv/gnn/modules/gconv_en/gconv_e3.py
+++ b/gconv/gnn/modules/gconv_en/gconv_e3.py
@@ -89,7 +89,8 @@ class GLiftingConvE3(GLiftingConv3d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = o3.left_apply_O3(o3.random_grid(1, device=input.device), H)
+            R = o3.random_grid(1, device=input.device).to(H.dtype)
+            H = o3.left_apply_O3(R, H)
 
         return super().forward(input, H)
 
@@ -187,7 +188,8 @@ class GSeparableConvE3(GSeparableConv3d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o3.left_apply_O3(o3.random_grid(1, device=input.device), H_out)
+            R = o3.random_grid(1, device=input.device).to(H_out.dtype)
+            H_out = o3.left_apply_O3(R, H_out)
 
         return super().forward(input, H_in, H_out)
 
@@ -285,6 +287,7 @@ class GConvE3(GConv3d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o3.left_apply_O3(o3.random_grid(1, device=input.device), H_out)
+            R = o3.random_grid(1, device=input.device).to(H_out.dtype)
+            H_out = o3.left_apply_O3(R, H_out)
 
         return super().forward(input, H_in, H_out)
diff --git a/gconv/gnn/modules/gconv_sen/gconv_se3.py b/gconv/gnn/modules/gconv_sen/gconv_se3.py
index b104c7c..3fd20a3 100644
--- a/gconv/gnn/modules/gconv_sen/gconv_se3.py
+++ b/gconv/gnn/modules/gconv_sen/gconv_se3.py
@@ -84,7 +84,8 @@ class GLiftingConvSE3(GLiftingConv3d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = so3.left_apply_matrix(so3.random_matrix(1, device=input.device), H)
+            R = so3.random_matrix(1, device=input.device).to(H.dtype)
+            H = so3.left_apply_matrix(R, H)
 
         return super().forward(input, H)
 
@@ -177,9 +178,8 @@ class GSeparableConvSE3(GSeparableConv3d):
             out_H = in_H
 
         if self.permute_output_grid:
-            out_H = so3.left_apply_matrix(
-                so3.random_matrix(1, device=input.device), out_H
-            )
+            R = so3.random_matrix(1, device=input.device).to(out_H.dtype)
+            out_H = so3.left_apply_matrix(R, out_H)
 
         return super().forward(input, in_H, out_H)
 
@@ -272,8 +272,7 @@ class GConvSE3(GConv3d):
             out_H = in_H
 
         if self.permute_output_grid:
-            out_H = so3.left_apply_matrix(
-                so3.random_matrix(1, device=input.device), out_H
-            )
+            R = so3.random_matrix(1, device=input.device).to(out_H.dtype)
+            out_H = so3.left_apply_matrix(R, out_H)
 
         return super().forward(input, in_H, out_H)
-- 
2.43.0


From 04a1a0a4940691e632cbb1e7704d5ebf3f13934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 20/40] fix: a given grid_H overrides group_kernel_size in E2
 and E3 kernels

As documented, and as the SE2 and SE3 kernels do. A grid whose sizes
differed from group_kernel_size gave weights that did not match the grid.
---
 gconv/gnn/kernels/kernel_en/kernel_e2.py | 9 +++++++++
 gconv/gnn/kernels/kernel_en/kernel_e3.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/gconv/gnn/kernels/kernel_en/kernel_e2.py b/gconv/gnn/kernels/kernel_en/kernel_e2.py
index f3ba390..f000f0f 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e2.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e2.py
@@ -48,6 +48,9 @@ class GLiftingKernelE2(GLiftingKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] > 0).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
@@ -120,6 +123,9 @@ class GSeparableKernelE2(GSeparableKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] > 0).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
@@ -218,6 +224,9 @@ class GKernelE2(GKernel):
 
         if grid_H is None:
             grid_H = o2.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] > 0).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R2(kernel_size)
 
diff --git a/gconv/gnn/kernels/kernel_en/kernel_e3.py b/gconv/gnn/kernels/kernel_en/kernel_e3.py
index bba4ac0..6902300 100644
--- a/gconv/gnn/kernels/kernel_en/kernel_e3.py
+++ b/gconv/gnn/kernels/kernel_en/kernel_e3.py
@@ -48,6 +48,9 @@ class GLiftingKernelE3(GLiftingKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] > 0).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
@@ -120,6 +123,9 @@ class GSeparableKernelE3(GSeparableKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] > 0).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
@@ -218,6 +224,9 @@ class GKernelE3(GKernel):
 
         if grid_H is None:
             grid_H = o3.uniform_grid(group_kernel_size)
+        else:
+            n_rotations = int((grid_H[:, 0] > 0).sum())
+            group_kernel_size = (n_rotations, grid_H.shape[0] - n_rotations)
 
         grid_Rn = gF.create_grid_R3(kernel_size)
 
-- 
2.43.0


From 77d36fce020138cfa81b34ea7babecdb0cb619bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 21/40] fix: gconv.gnn.modules.gconv imports and exports what
 exists

It imported matplotlib, which is neither used nor a dependency, and listed
names in __all__ that are not defined.
---
 gconv/gnn/modules/gconv.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index d5426d1..398f420 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -5,8 +5,6 @@ Implements group convolution base modules.
 """
 from __future__ import annotations
 
-from matplotlib import pyplot as plt
-
 from gconv.gnn.kernels import (
     GroupKernel,
     GLiftingKernel,
@@ -27,10 +25,10 @@ from torch import Tensor
 from torch.nn.modules.utils import _reverse_repeat_tuple, _pair, _triple
 
 __all__ = [
-    "GConvLifting2d",
-    "GConvLifting3d",
-    "GConvSeparable2d",
-    "GConvSeparable3d",
+    "GLiftingConv2d",
+    "GLiftingConv3d",
+    "GSeparableConv2d",
+    "GSeparableConv3d",
     "GConv2d",
     "GConv3d",
 ]
-- 
2.43.0


From 94ee467b61b211faddb7407673695e3f7115ee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 22/40] fix: normalization layers accept non-contiguous
 (channels_last) features

---
 gconv/gnn/modules/normalization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gconv/gnn/modules/normalization.py b/gconv/gnn/modules/normalization.py
index fb514ea..c890480 100644
--- a/gconv/gnn/modules/normalization.py
+++ b/gconv/gnn/modules/normalization.py
@@ -6,13 +6,13 @@ from torch import Tensor
 class GBatchNorm2d(nn.BatchNorm2d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
 
 
 class GBatchNorm3d(nn.BatchNorm3d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
 
 
 class GLayerNorm(nn.LayerNorm):
@@ -23,10 +23,10 @@ class GLayerNorm(nn.LayerNorm):
 class GInstanceNorm2d(nn.InstanceNorm2d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
 
 
 class GInstanceNorm3d(nn.InstanceNorm3d):
     def forward(self, x: Tensor, H: Tensor) -> Tensor:
         N, C, _H, Z, *dims = x.shape
-        return super().forward(x.view(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
+        return super().forward(x.reshape(N, C, _H * Z, *dims)).view(N, C, _H, Z, *dims), H
-- 
2.43.0


From 28deeadeeb691466742e217e3c79560fb68a5cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 23/40] fix: coordinate grids of size 1 hold the center, not a
 corner

---
 gconv/gnn/functional/grid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gconv/gnn/functional/grid.py b/gconv/gnn/functional/grid.py
index 9fcdee6..bdd9d15 100644
--- a/gconv/gnn/functional/grid.py
+++ b/gconv/gnn/functional/grid.py
@@ -17,7 +17,8 @@ def create_grid_R3(size: int, device: str | None = None) -> Tensor:
     Returns:
         - Tensor containing R3 grid of shape (size, size, size, 3).
     """
-    x = torch.linspace(-1, 1, size, device=device)
+    # the single point of a grid of size 1 is its center
+    x = torch.linspace(-1, 1, size, device=device) * (size > 1)
     X, Y, Z = torch.meshgrid(x, x, x, indexing="ij")
 
     return torch.stack((Z, Y, X), dim=-1)
@@ -35,7 +36,8 @@ def create_grid_R2(size: int, device: str | None = None) -> Tensor:
     Returns:
         - Tensor containing R3 grid of shape (size, size, size, 3).
     """
-    x = torch.linspace(-1, 1, size, device=device)
+    # the single point of a grid of size 1 is its center
+    x = torch.linspace(-1, 1, size, device=device) * (size > 1)
     X, Y = torch.meshgrid((x, x), indexing="xy")
 
     return torch.stack((Y, X), dim=-1)
-- 
2.43.0


From 33063a5faf86d2df2fb0b50cc2e57e364ed90430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 24/40] fix: s2.uniform_grid_s2 rejects unknown
 parameterizations with ValueError

---
 gconv/geometry/groups/s2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gconv/geometry/groups/s2.py b/gconv/geometry/groups/s2.py
index b0b7f59..3d64579 100644
--- a/gconv/geometry/groups/s2.py
+++ b/gconv/geometry/groups/s2.py
@@ -125,6 +125,8 @@ def uniform_grid_s2(
         case "quat":
             add_alpha = True
             param_fn = so3.euler_to_quat
+        case _:
+            raise ValueError(f"unknown parameterization `{parameterization=}`.")
 
     grid = random_s2((n,), device=device)
 
-- 
2.43.0


From 66118f9ef6b973c15086e48c51c5e5596cd4efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 25/40] fix: so3_log is accurate for rotations by angles close
 to pi

---
 gconv/geometry/groups/so3.py | 32 +++++++-------------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index eddadd5..efaf9b1 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -466,34 +466,16 @@ def so3_log(R: Tensor, eps: float = 1e-7) -> Tensor:
     Returns:
         - Tensor of shape (..., 3).
     """
-    # clamping to prevent numerical instabilities
-    theta = torch.acos(
-        torch.clamp(
-            ((R[..., 0, 0] + R[..., 1, 1] + R[..., 2, 2]) - 1) / 2, -1 + eps, 1 - eps
-        )
-    )
-
-    theta_sin_inv = 0.5 * theta / torch.sin(theta)
-
-    c1 = theta_sin_inv * (R[..., 2, 1] - R[..., 1, 2])
-    c2 = theta_sin_inv * (R[..., 0, 2] - R[..., 2, 0])
-    c3 = theta_sin_inv * (R[..., 1, 0] - R[..., 0, 1])
-
-    mask = theta == 0.0
-
-    c1[mask] = 0.5 * R[mask, 2, 1] - R[mask, 1, 2]
-    c2[mask] = 0.5 * R[mask, 0, 2] - R[mask, 2, 0]
-    c3[mask] = 0.5 * R[mask, 1, 0] - R[mask, 0, 1]
-
-    mask = theta == pi
+    # quaternions stay accurate for angles near 0 and near pi
+    q = matrix_to_quat(R)
+    q = torch.where(q[..., :1] < 0, -q, q)
 
-    c1[mask] = pi
-    c2[mask] = 0.0
-    c3[mask] = 0.0
+    v_norm = torch.linalg.norm(q[..., 1:], dim=-1, keepdim=True)
+    theta = 2 * torch.atan2(v_norm, q[..., :1])
 
-    c = torch.stack((c1, c2, c3), dim=-1)
+    scale = torch.where(v_norm > eps, theta / v_norm.clamp(min=eps), 2.0)
 
-    return c
+    return scale * q[..., 1:]
 
 
 def random_quat(shape: tuple[int] | int, device: Optional[str] = None) -> Tensor:
-- 
2.43.0


From 8095f31487565b71e18eb06dc8c43f947e42fdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 26/40] fix: matrix_to_euler is accurate close to and at gimbal
 lock

---
 gconv/geometry/groups/so3.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index efaf9b1..727d3c5 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -316,31 +316,27 @@ def matrix_to_euler(r: Tensor, eps: float = 1e-5, no_warn: bool = False) -> Tens
     res = torch.matmul(c, r)
     matrix_trans = torch.matmul(res, c.T)
 
-    # step 4
-    matrix_trans[..., 2, 2] = torch.clamp(matrix_trans[..., 2, 2], -1, 1)
-
-    g[..., 1] = torch.acos(matrix_trans[..., 2, 2])
+    # step 4, acos is too inaccurate to detect a gimble lock
+    g[..., 1] = torch.atan2(
+        torch.hypot(matrix_trans[..., 0, 2], matrix_trans[..., 1, 2]),
+        matrix_trans[..., 2, 2],
+    )
 
     # step 5, 6
     safe1 = torch.abs(g[..., 1]) >= eps
     safe2 = torch.abs(g[..., 1] - pi) >= eps
     safe = safe1 & safe2
 
-    not_safe1 = ~safe1
-    not_safe2 = ~safe2
-
     # step 5b
     g[safe, 2] = torch.atan2(matrix_trans[safe, 0, 2], -matrix_trans[safe, 1, 2])
-    g[safe, 0] = torch.atan2(matrix_trans[safe, 2, 0], matrix_trans[safe, 2, 1])
-
     g[~safe, 2] = 0
-    g[not_safe1, 0] = torch.atan2(
-        matrix_trans[not_safe1, 1, 0] - matrix_trans[not_safe1, 0, 1],
-        matrix_trans[not_safe1, 0, 0] + matrix_trans[not_safe1, 1, 1],
-    )
-    g[not_safe2, 0] = -torch.atan2(
-        matrix_trans[not_safe2, 1, 0] + matrix_trans[not_safe2, 0, 1],
-        matrix_trans[not_safe2, 0, 0] - matrix_trans[not_safe2, 1, 1],
+
+    # alpha follows from the rotation that remains after undoing gamma, which
+    # holds with and without a gimble lock
+    cos_gamma, sin_gamma = torch.cos(g[..., 2]), torch.sin(g[..., 2])
+    g[..., 0] = torch.atan2(
+        cos_gamma * r[..., 1, 0] - sin_gamma * r[..., 0, 0],
+        cos_gamma * r[..., 1, 1] - sin_gamma * r[..., 0, 1],
     )
 
     # step 7
-- 
2.43.0


From 97922671f0268084d5abd3a7e26d37ac3f551e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 27/40] fix: s2.euclid_to_spherical is accurate at the poles,
 also for unit vectors up to rounding

---
 gconv/geometry/groups/s2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/s2.py b/gconv/geometry/groups/s2.py
index 3d64579..291d817 100644
--- a/gconv/geometry/groups/s2.py
+++ b/gconv/geometry/groups/s2.py
@@ -43,7 +43,7 @@ def euclid_to_spherical(x: Tensor) -> Tensor:
     """
     g = x.new_empty((*x.shape[:-1], 2))
 
-    g[..., 0] = torch.acos(x[..., 2])
+    g[..., 0] = torch.atan2(torch.hypot(x[..., 0], x[..., 1]), x[..., 2])
     g[..., 1] = torch.atan2(x[..., 1], x[..., 0])
 
     return g
-- 
2.43.0


From aa0885d095f07c8ba2c8a8d2d1d59557cc536ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 28/40] fix: SE2 and E2 layers with permute_output_grid keep
 the dtype of the grid

---
 gconv/gnn/modules/gconv_en/gconv_e2.py   | 9 ++++++---
 gconv/gnn/modules/gconv_sen/gconv_se2.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/gconv/gnn/modules/gconv_en/gconv_e2.py b/gconv/gnn/modules/gconv_en/gconv_e2.py
index 987e976..0349bea 100644
--- a/gconv/gnn/modules/gconv_en/gconv_e2.py
+++ b/gconv/gnn/modules/gconv_en/gconv_e2.py
@@ -89,7 +89,8 @@ class GLiftingConvE2(GLiftingConv2d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = o2.left_apply_angle(o2.random_grid(1, device=input.device), H)
+            R = o2.random_grid(1, device=input.device).to(H.dtype)
+            H = o2.left_apply_angle(R, H)
 
         return super().forward(input, H)
 
@@ -187,7 +188,8 @@ class GSeparableConvE2(GSeparableConv2d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o2.left_apply_angle(o2.random_grid(1, device=input.device), H_out)
+            R = o2.random_grid(1, device=input.device).to(H_out.dtype)
+            H_out = o2.left_apply_angle(R, H_out)
 
         return super().forward(input, H_in, H_out)
 
@@ -285,6 +287,7 @@ class GConvE2(GConv2d):
             H_out = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H_out = o2.left_apply_angle(o2.random_grid(1, device=input.device), H_out)
+            R = o2.random_grid(1, device=input.device).to(H_out.dtype)
+            H_out = o2.left_apply_angle(R, H_out)
 
         return super().forward(input, H_in, H_out)
diff --git a/gconv/gnn/modules/gconv_sen/gconv_se2.py b/gconv/gnn/modules/gconv_sen/gconv_se2.py
index e7f62de..9c96157 100644
--- a/gconv/gnn/modules/gconv_sen/gconv_se2.py
+++ b/gconv/gnn/modules/gconv_sen/gconv_se2.py
@@ -84,7 +84,8 @@ class GLiftingConvSE2(GLiftingConv2d):
             H = self.kernel.grid_H
 
         if self.permute_output_grid:
-            H = so2.left_apply_angle(so2.random_grid(1, device=input.device), H)
+            R = so2.random_grid(1, device=input.device).to(H.dtype)
+            H = so2.left_apply_angle(R, H)
 
         return super().forward(input, H)
 
@@ -177,7 +178,8 @@ class GSeparableConvSE2(GSeparableConv2d):
             out_H = in_H
 
         if self.permute_output_grid:
-            out_H = so2.left_apply_angle(so2.random_grid(1, device=input.device), out_H)
+            R = so2.random_grid(1, device=input.device).to(out_H.dtype)
+            out_H = so2.left_apply_angle(R, out_H)
 
         return super().forward(input, in_H, out_H)
 
@@ -270,6 +272,7 @@ class GConvSE2(GConv2d):
             out_H = in_H
 
         if self.permute_output_grid:
-            out_H = so2.left_apply_angle(so2.random_grid(1, device=input.device), out_H)
+            R = so2.random_grid(1, device=input.device).to(out_H.dtype)
+            out_H = so2.left_apply_angle(R, out_H)
 
         return super().forward(input, in_H, out_H)
-- 
2.43.0


From 2a20ec797bb859eb51411a82401c9963bdfa09b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:57 +0000
Subject: [PATCH 29/40] fix: reject inputs whose channel and group axes do not
 match the layer

---
 gconv/gnn/modules/gconv.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gconv/gnn/modules/gconv.py b/gconv/gnn/modules/gconv.py
index 398f420..f89cce8 100644
--- a/gconv/gnn/modules/gconv.py
+++ b/gconv/gnn/modules/gconv.py
@@ -295,6 +295,12 @@ class GSeparableConvNd(GroupConvNd):
         N, _, _, *input_dims = input.shape
         num_in_H, num_out_H = in_H.shape[0], out_H.shape[0]
 
+        if input.shape[1:3] != (self.in_channels, num_in_H):
+            raise ValueError(
+                f"expected input with {self.in_channels} channels and {num_in_H} group "
+                f"elements, but got {input.shape[1]} and {input.shape[2]}"
+            )
+
         weight_H, weight = self.kernel(in_H, out_H)
 
         # subgroup conv, stride and padding only apply to the spatial conv
@@ -364,6 +370,12 @@ class GConvNd(GroupConvNd):
         N, _, _, *input_dims = input.shape
         num_in_H, num_out_H = in_H.shape[0], out_H.shape[0]
 
+        if input.shape[1:3] != (self.in_channels, num_in_H):
+            raise ValueError(
+                f"expected input with {self.in_channels} channels and {num_in_H} group "
+                f"elements, but got {input.shape[1]} and {input.shape[2]}"
+            )
+
         weight = self.kernel(in_H, out_H)
 
         input = self._conv_forward(
-- 
2.43.0


From 4ceffe19ea2c9be221c0137dab9dadd6b2b6fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 30/40] fix: repulsion works where gradients are disabled

---
 gconv/geometry/repulsion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gconv/geometry/repulsion.py b/gconv/geometry/repulsion.py
index 50989c2..f43c6ea 100644
--- a/gconv/geometry/repulsion.py
+++ b/gconv/geometry/repulsion.py
@@ -27,6 +27,7 @@ def columb_energy(d: Tensor, k: int = 2) -> Tensor:
     return d ** (-k)
 
 
+@torch.enable_grad()
 def repulse(
     grid: Tensor,
     steps: int = 200,
-- 
2.43.0


From 23ab9a4447eaaacb30e7ef0fab9317cd673140c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:22 +0000
Subject: [PATCH 31/40] fix: accept any tuple, such as torch.Size, as the shape
 of random rotations

---
 gconv/geometry/groups/so3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 727d3c5..520ffdc 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -485,7 +485,7 @@ def random_quat(shape: tuple[int] | int, device: Optional[str] = None) -> Tensor
     Returns:
         - Tensor of shape `(*shape, 4)`.
     """
-    shape = shape if type(shape) is tuple else (shape,)
+    shape = shape if isinstance(shape, tuple) else (shape,)
 
     q = torch.randn(*shape, 4, device=device)
     q = q / torch.linalg.norm(q, dim=-1, keepdim=True)
-- 
2.43.0


From 728092e6a9b04599660eb8507f3f601052ed6fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 32/40] fix: draw the cosets of random O(2) elements on the
 requested device

---
 gconv/geometry/groups/o2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/o2.py b/gconv/geometry/groups/o2.py
index e7fca52..c75e398 100644
--- a/gconv/geometry/groups/o2.py
+++ b/gconv/geometry/groups/o2.py
@@ -54,7 +54,7 @@ def random_grid(size: int, device: str | None = None) -> Tensor:
     """
     angles = so2.random_grid(size, device=device)
 
-    coeffs = (2 * (torch.rand(size, 1) > 0.5)) - 1
+    coeffs = (2 * (torch.rand(size, 1, device=device) > 0.5)) - 1
 
     return torch.cat((coeffs, angles), dim=-1)
 
-- 
2.43.0


From 74591c44cd1f9ae710fea948c91b796e465c3b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 33/40] fix: create the named subgroups and the empty grid on
 the requested device

---
 gconv/geometry/groups/so3.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 520ffdc..d8c2580 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -551,7 +551,7 @@ def uniform_grid(
         - Tensor containing uniform grid on SO3.
     """
     if size == 0:
-        return torch.Tensor([], device=device)
+        return torch.tensor([], device=device)
     try:
         return _grid_cache.load_grid(size, "so3", parameterization)
     except KeyError:
@@ -714,7 +714,7 @@ def identity(device: Optional[str] = None) -> Tensor:
     Returns:
        - Tensor containing group elements.
     """
-    return torch.Tensor([[1.0, 0.0, 0.0, 0.0]], device=device)
+    return torch.tensor([[1.0, 0.0, 0.0, 0.0]], device=device)
 
 
 def klein_group(device: Optional[str] = None) -> Tensor:
@@ -727,7 +727,7 @@ def klein_group(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [1.0, 0.0, 0.0, 0.0],
             [0.0, 0.0, 0.0, 1.0],
@@ -748,7 +748,7 @@ def tetrahedral(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [0.0, 1.0, 0.0, 0.0],
             [0.0, 0.0, 1.0, 0.0],
@@ -777,7 +777,7 @@ def octahedral(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [0.0, 1.0, 0.0, 0.0],
             [0.0, 0.0, 1.0, 0.0],
@@ -818,7 +818,7 @@ def icosahedral(device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor containing group elements.
     """
-    return torch.Tensor(
+    return torch.tensor(
         [
             [0.0, 1.0, 0.0, 0.0],
             [0.0, 0.0, 1.0, 0.0],
-- 
2.43.0


From 0029f40d4167710890b0606d904e2f04d38a015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 34/40] fix: create cyclic groups on the requested device

---
 gconv/geometry/groups/so3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index d8c2580..6702d04 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -896,7 +896,7 @@ def cyclic_x(n: int, device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor of shape (n, 4).
     """
-    return matrix_to_quat(matrix_x(torch.linspace(0, 2 * pi, n + 1)[:-1]))
+    return matrix_to_quat(matrix_x(torch.linspace(0, 2 * pi, n + 1, device=device)[:-1]))
 
 
 def cyclic_y(n: int, device: Optional[str] = None) -> Tensor:
@@ -910,7 +910,7 @@ def cyclic_y(n: int, device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor of shape (n, 4).
     """
-    return matrix_to_quat(matrix_y(torch.linspace(0, 2 * pi, n + 1)[:-1]))
+    return matrix_to_quat(matrix_y(torch.linspace(0, 2 * pi, n + 1, device=device)[:-1]))
 
 
 def cyclic_z(n: int, device: Optional[str] = None) -> Tensor:
@@ -924,7 +924,7 @@ def cyclic_z(n: int, device: Optional[str] = None) -> Tensor:
     Returns:
         - Tensor of shape (n, 4).
     """
-    return matrix_to_quat(matrix_z(torch.linspace(0, 2 * pi, n + 1)[:-1]))
+    return matrix_to_quat(matrix_z(torch.linspace(0, 2 * pi, n + 1, device=device)[:-1]))
 
 
 def cyclic(n: int, axis: str, device: Optional[str] = None) -> Tensor:
-- 
2.43.0


From 63048e1f7387d1ffcc8b841a764a72720a6682ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 35/40] fix: return cached SO(3) grids on the requested device

---
 gconv/geometry/groups/so3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 6702d04..28532dc 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -553,7 +553,8 @@ def uniform_grid(
     if size == 0:
         return torch.tensor([], device=device)
     try:
-        return _grid_cache.load_grid(size, "so3", parameterization)
+        grid = _grid_cache.load_grid(size, "so3", parameterization)
+        return grid.to(torch.empty(0, device=device).device)
     except KeyError:
         pass
 
-- 
2.43.0


From a4fc06367171465a62b6d2007acb0ece5f3569e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:24 +0000
Subject: [PATCH 36/40] fix: precomputed SO(3) grids follow the default dtype

---
 gconv/geometry/groups/so3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index 28532dc..cb69865 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -554,7 +554,7 @@ def uniform_grid(
         return torch.tensor([], device=device)
     try:
         grid = _grid_cache.load_grid(size, "so3", parameterization)
-        return grid.to(torch.empty(0, device=device).device)
+        return grid.to(torch.empty(0, device=device))
     except KeyError:
         pass
 
-- 
2.43.0


From 066555225bcf0e98631b797c45e88b05cb32c4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:44 +0000
Subject: [PATCH 37/40] fix: saved SO(3) grids keep their precision when it
 exceeds the default dtype

---
 gconv/geometry/groups/so3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index cb69865..d9a9eb0 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -554,7 +554,8 @@ def uniform_grid(
         return torch.tensor([], device=device)
     try:
         grid = _grid_cache.load_grid(size, "so3", parameterization)
-        return grid.to(torch.empty(0, device=device))
+        dtype = torch.promote_types(grid.dtype, torch.get_default_dtype())
+        return grid.to(torch.empty(0, device=device).device, dtype)
     except KeyError:
         pass
 
-- 
2.43.0


From de6afc0a9c42eba9f5f5a463646763bb35372678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:03 +0000
Subject: [PATCH 38/40] fix: cached grids are values, detached from the saver's
 graph

---
 gconv/geometry/groups/_grid_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gconv/geometry/groups/_grid_cache.py b/gconv/geometry/groups/_grid_cache.py
index f7ee809..db1cf98 100644
--- a/gconv/geometry/groups/_grid_cache.py
+++ b/gconv/geometry/groups/_grid_cache.py
@@ -20,7 +20,7 @@ def save_grid(
         else:
             return
     cache = _grid_cache.setdefault(grid_type.lower(), {})
-    cache.setdefault(parameterization.lower(), {})[grid.shape[0]] = grid.clone()
+    cache.setdefault(parameterization.lower(), {})[grid.shape[0]] = grid.detach().clone()
 
 
 def load_grid(size: str, grid_type: str, parameterization: str) -> Tensor:
-- 
2.43.0


From a8d877ff8293a60dc35163732936b221d6270f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:39 +0000
Subject: [PATCH 39/40] fix: grids are generated in inference mode too

---
 gconv/geometry/groups/s2.py  | 1 +
 gconv/geometry/groups/so3.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gconv/geometry/groups/s2.py b/gconv/geometry/groups/s2.py
index 291d817..169293f 100644
--- a/gconv/geometry/groups/s2.py
+++ b/gconv/geometry/groups/s2.py
@@ -79,6 +79,7 @@ def spherical_to_euler_neg_gamma(g: Tensor) -> Tensor:
     return torch.hstack((minus_gamma, g))
 
 
+@torch.inference_mode(False)
 def uniform_grid_s2(
     n: int,
     parameterization: str = "euclidean",
diff --git a/gconv/geometry/groups/so3.py b/gconv/geometry/groups/so3.py
index d9a9eb0..5cac944 100644
--- a/gconv/geometry/groups/so3.py
+++ b/gconv/geometry/groups/so3.py
@@ -521,6 +521,7 @@ def random_euler(shape: tuple[int] | int, device: Optional[str] = None) -> Tenso
     return quat_to_euler(random_quat(shape, device=device))
 
 
+@torch.inference_mode(False)
 def uniform_grid(
     size: int,
     parameterization: str = "quat",
-- 
2.43.0


From b5c5f0952a4c21384ee503c9f61833d36a927c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:50 +0000
Subject: [PATCH 40/40] fix: plugged-in group functions may return tensors of
 any memory layout

---
 gconv/gnn/kernels/kernel.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gconv/gnn/kernels/kernel.py b/gconv/gnn/kernels/kernel.py
index e248a81..b221abf 100644
--- a/gconv/gnn/kernels/kernel.py
+++ b/gconv/gnn/kernels/kernel.py
@@ -182,7 +182,7 @@ class GLiftingKernel(GroupKernel):
             self.weight.repeat_interleave(H.shape[0], dim=0),
             H_product.repeat(self.out_channels, *product_dims),
             **self.sample_Rn_kwargs,
-        ).view(
+        ).reshape(
             self.out_channels, num_H, self.in_channels // self.groups, *self.kernel_size
         )
 
@@ -268,12 +268,12 @@ class GSeparableKernel(GroupKernel):
         # sample SO3
         weight_H = (
             self.sample_H(
-                H_product_H.view(-1, *H_dims),
+                H_product_H.reshape(-1, *H_dims),
                 self.weight_H.reshape(self._group_kernel_dim, -1),
                 self.grid_H,
                 **self.sample_H_kwargs,
             )
-            .view(
+            .reshape(
                 num_out_H,
                 num_in_H,
                 self.in_channels // self.groups,
@@ -289,7 +289,7 @@ class GSeparableKernel(GroupKernel):
             self.weight.repeat_interleave(num_out_H, dim=0),
             H_product_Rn.repeat(self.out_channels, *product_dims),
             **self.sample_Rn_kwargs,
-        ).view(
+        ).reshape(
             self.out_channels,
             num_out_H,
             1,
@@ -358,12 +358,12 @@ class GSubgroupKernel(GroupKernel):
         # sample SO3
         weight = (
             self.sample_H(
-                H_product_H.view(-1, *H_dims),
+                H_product_H.reshape(-1, *H_dims),
                 self.weight.reshape(self._group_kernel_dim, -1),
                 self.grid_H,
                 **self.sample_H_kwargs,
             )
-            .view(
+            .reshape(
                 num_out_H,
                 num_in_H,
                 self.in_channels // self.groups,
@@ -447,11 +447,11 @@ class GKernel(GroupKernel):
 
         # sample SO3
         weight = self.sample_H(
-            H_product_H.view(-1, *H_dims),
+            H_product_H.reshape(-1, *H_dims),
             self.weight.reshape(self._group_kernel_dim, -1),
             self.grid_H,
             **self.sample_H_kwargs,
-        ).view(
+        ).reshape(
             num_out_H * num_in_H,
             (self.in_channels // self.groups) * self.out_channels,
             *self.kernel_size,
@@ -464,7 +464,7 @@ class GKernel(GroupKernel):
                 H_product_Rn.repeat_interleave(num_in_H, dim=0),
                 **self.sample_Rn_kwargs,
             )
-            .view(
+            .reshape(
                 num_out_H,
                 num_in_H,
                 self.in_channels // self.groups,
-- 
2.43.0

