From 50cedb644cb294e576d4c020c95ad394fbc6e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:15 +0000
Subject: [PATCH 01/21] fix: process at least one row when max_buffer is
 smaller than a row

The temporary buffer limit was rounded down to zero if it was smaller than
kdim * in_conv, causing a ZeroDivisionError in octree convolutions.
---
 ocnn/nn/octree_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_conv.py b/ocnn/nn/octree_conv.py
index 88be7ba..d00e99a 100644
--- a/ocnn/nn/octree_conv.py
+++ b/ocnn/nn/octree_conv.py
@@ -87,7 +87,7 @@ class OctreeConvBase:
     ideal_size = self.buffer_h * self.kdim * self.in_conv
     if ideal_size > self.max_buffer:
       kc = self.kdim * self.in_conv            # make `max_buffer` be divided
-      max_buffer = self.max_buffer // kc * kc  # by `kc` with no remainder
+      max_buffer = max(self.max_buffer // kc, 1) * kc  # by `kc` (at least 1 row)
       self.buffer_n = (ideal_size + max_buffer - 1) // max_buffer
       self.buffer_h = (self.buffer_h + self.buffer_n - 1) // self.buffer_n
     self.buffer_shape = (self.buffer_h, self.kdim, self.in_conv)
-- 
2.43.0


From 5ff27910ec4dbb041d479d75cfbc6dd971323d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:25 +0000
Subject: [PATCH 02/21] fix: upsampling must not wrap around the volume
 boundary

Cell centres next to the boundary have interpolation corners outside the
volume, whose keys wrap to the opposite face without the bound check.
---
 ocnn/nn/octree_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index afdfafa..db3393c 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -187,7 +187,7 @@ class OctreeUpsample(torch.nn.Module):
     xyzb = octree.xyzb(target_depth, self.nempty)
     pts = torch.stack(xyzb, dim=1).float()
     pts[:, :3] = (pts[:, :3] + 0.5) * (2**(depth - target_depth))  # !!! rescale
-    return self.func(data, octree, depth, pts, self.nempty)
+    return self.func(data, octree, depth, pts, self.nempty, bound_check=True)
 
   def extra_repr(self) -> str:
     r''' Sets the extra representation of the module.
-- 
2.43.0


From fc95a14f5c82eae581eee56ae04a4c332e2db325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 03/21] fix: Points.flip must not modify the tensors of the
 caller

---
 ocnn/octree/points.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index a23d061..e1de9f9 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -149,6 +149,10 @@ class Points:
     '''
 
     axis_map = {'x': 0, 'y': 1, 'z': 2}
+    # clone first: the tensors may be shared with the caller
+    self.points = self.points.clone()
+    if self.normals is not None:
+      self.normals = self.normals.clone()
     for x in axis:
       idx = axis_map[x]
       self.points[:, idx] *= -1.0
-- 
2.43.0


From aec5a349eea191e136dbdd5eb7a55a2627158519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 04/21] fix: Points.orient_normal must not modify the tensor of
 the caller

---
 ocnn/octree/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index e1de9f9..f4e59b0 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -89,7 +89,7 @@ class Points:
       flags = flags.float() * 2.0 - 1.0  # [0, 1] -> [-1, 1]
       self.normals = self.normals * flags.unsqueeze(1)
     else:
-      self.normals.abs_()
+      self.normals = self.normals.abs()
 
   def scale(self, factor: torch.Tensor):
     r''' Rescales the point cloud.
-- 
2.43.0


From ddbf705a0647d2a637af6e005e34fe0df05daeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 05/21] fix: Points.to must keep the batch size

---
 ocnn/octree/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index f4e59b0..2cb4d61 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -243,7 +243,7 @@ class Points:
       return self
 
     # Construct a new Points on the specified device
-    points = Points(torch.zeros(1, 3, device=device))
+    points = Points(torch.zeros(1, 3, device=device), batch_size=self.batch_size)
     points.batch_npt = self.batch_npt
     points.points = self.points.to(device, non_blocking=non_blocking)
     if self.normals is not None:
-- 
2.43.0


From cb9bca3e0c62c9c6279b1829c43a26e71954e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 06/21] fix: accept the one dimensional batch_id that
 check_input provides for

---
 ocnn/octree/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index 2cb4d61..16e1578 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -63,9 +63,9 @@ class Points:
     if self.batch_id is not None:
       assert self.batch_id.dim() == 2 or self.batch_id.dim() == 1
       assert self.batch_id.size(0) == self.points.size(0)
-      assert self.batch_id.size(1) == 1
       if self.batch_id.dim() == 1:
         self.batch_id = self.batch_id.unsqueeze(1)
+      assert self.batch_id.size(1) == 1
 
   @property
   def npt(self):
-- 
2.43.0


From ae3b5e4e0977c400939b701ef1d0531a92eb31f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 07/21] fix: Points.rotate must work with the data type of the
 points

---
 ocnn/octree/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index 16e1578..9eca569 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -126,7 +126,7 @@ class Points:
     rotz = torch.Tensor([[cos[2], sin[2], 0], [-sin[2], cos[2], 0], [0, 0, 1]])
     rot = rotx @ roty @ rotz
 
-    rot = rot.to(self.device)
+    rot = rot.to(self.points)  # same device and dtype
     self.points = self.points @ rot
     if self.normals is not None:
       self.normals = self.normals @ rot
-- 
2.43.0


From c7a29ae423c826ead41b82f33fdd1871e40d9a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 08/21] fix: build_octree must place the lookup tables on the
 device of the points

---
 ocnn/octree/octree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/octree.py b/ocnn/octree/octree.py
index 6801adb..5284717 100644
--- a/ocnn/octree/octree.py
+++ b/ocnn/octree/octree.py
@@ -154,7 +154,9 @@ class Octree:
       Currently, the batch size of the point cloud must be 1.
     '''
 
-    self.device = point_cloud.device
+    if torch.device(self.device) != point_cloud.device:
+      self.device = point_cloud.device
+      self.reset()   # the lookup tables must be on the device of the points
     assert point_cloud.batch_size == self.batch_size, 'Inconsistent batch_size'
 
     # normalize points from [-1, 1] to [0, 2^depth]. #[L:Scale]
-- 
2.43.0


From c98c1a48f6f3b4a3b7e3f28d2d5516f9c7ac5970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 09/21] fix: OctreeInterp must not rescale the query points of
 the caller in place

---
 ocnn/nn/octree_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index db3393c..dd14693 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -121,7 +121,7 @@ class OctreeInterp(torch.nn.Module):
     # rescale points from [-1, 1] to [0, 2^depth]
     if self.rescale_pts:
       scale = 2 ** (depth - 1)
-      pts[:, :3] = (pts[:, :3] + 1.0) * scale
+      pts = torch.cat([(pts[:, :3] + 1.0) * scale, pts[:, 3:]], dim=1)
 
     return self.func(data, octree, depth, pts, self.nempty, self.bound_check)
 
-- 
2.43.0


From 18c85862338de234e96cf98fdbc253a802bb1598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:02 +0000
Subject: [PATCH 10/21] fix: octree_linear_pts must work with the data type of
 the features

---
 ocnn/nn/octree_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_interp.py b/ocnn/nn/octree_interp.py
index dd14693..0c92c75 100644
--- a/ocnn/nn/octree_interp.py
+++ b/ocnn/nn/octree_interp.py
@@ -86,7 +86,7 @@ def octree_linear_pts(data: torch.Tensor, octree: Octree, depth: int,
 
   frac = (1.0 - grid) - frac.unsqueeze(dim=1)  # (8, 3) - (N, 1, 3) -> (N, 8, 3)
   weight = frac.prod(dim=2).abs().view(-1)     # (8*N,)
-  weight = weight[valid]
+  weight = weight[valid].to(data.dtype)
 
   h = data.shape[0]
   mat = torch.sparse_coo_tensor(indices, weight, [npt, h], device=device)
-- 
2.43.0


From 33b7c89160edc3809346a454a51c7c5baa13badc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 11/21] fix: octree_avg_pool must work with the data type of
 the features

---
 ocnn/nn/octree_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_pool.py b/ocnn/nn/octree_pool.py
index c4c6f75..73bc9df 100644
--- a/ocnn/nn/octree_pool.py
+++ b/ocnn/nn/octree_pool.py
@@ -89,7 +89,7 @@ def octree_avg_pool(data: torch.Tensor, octree: Octree, depth: int,
   val = 1.0 / (torch.sum(mask, dim=1) + 1e-8)
   mask = mask.view(-1)
   val = val.unsqueeze(1).repeat(1, K).reshape(-1)
-  val = val[mask]
+  val = val[mask].to(data.dtype)
 
   row = torch.arange(N2, device=neigh.device)
   row = row.unsqueeze(1).repeat(1, K).view(-1)
-- 
2.43.0


From c27c0f64e0f5471d9089db60ac2d8a3adf2dc424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 12/21] fix: search_value must keep the data type of the values

---
 ocnn/nn/octree_align.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_align.py b/ocnn/nn/octree_align.py
index ec3bc74..5e7ad8b 100644
--- a/ocnn/nn/octree_align.py
+++ b/ocnn/nn/octree_align.py
@@ -30,7 +30,8 @@ def search_value(value: torch.Tensor, key: torch.Tensor, query: torch.Tensor):
   found = key[idx] == query
 
   # assign the found value to the output
-  out = torch.zeros(query.shape[0], value.shape[1], device=value.device)
+  out = torch.zeros(query.shape[0], value.shape[1], dtype=value.dtype,
+                    device=value.device)
   out[found] = value[idx[found]]
   return out
 
-- 
2.43.0


From 23da6340c9c58cdd9898840471cc5765060c59b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 13/21] fix: resize_with_last_val must not modify the list of
 the caller

---
 ocnn/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ocnn/utils.py b/ocnn/utils.py
index b1436f7..26f0b64 100644
--- a/ocnn/utils.py
+++ b/ocnn/utils.py
@@ -173,9 +173,7 @@ def resize_with_last_val(list_in: list, num: int = 3):
   '''
 
   assert (type(list_in) is list and len(list_in) < num + 1)
-  for _ in range(len(list_in), num):
-    list_in.append(list_in[-1])
-  return list_in
+  return list_in + [list_in[-1]] * (num - len(list_in))
 
 
 def list2str(list_in: list):
-- 
2.43.0


From 629b047607f769cd73f1648230d46b87b1c46aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 14/21] fix: the bottleneck of SegNet must respect the argument
 nempty

---
 ocnn/models/segnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/models/segnet.py b/ocnn/models/segnet.py
index cedcc90..e6fe642 100644
--- a/ocnn/models/segnet.py
+++ b/ocnn/models/segnet.py
@@ -31,7 +31,8 @@ class SegNet(torch.nn.Module):
     self.pools = torch.nn.ModuleList(
         [ocnn.nn.OctreeMaxPool(nempty, return_indices) for i in range(stages)])
 
-    self.bottleneck = ocnn.modules.OctreeConvBnRelu(channels[-1], channels[-1])
+    self.bottleneck = ocnn.modules.OctreeConvBnRelu(
+        channels[-1], channels[-1], nempty=nempty)
 
     channels = channels_stages[::-1] + [channels_stages[0]]
     self.deconvs = torch.nn.ModuleList(
-- 
2.43.0


From eaeb360b1cf6ca4457575e54cf8df6af9c0a39a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 15/21] fix: OctreeResBlock2 with stride 2 cannot be
 constructed

---
 ocnn/modules/resblocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/modules/resblocks.py b/ocnn/modules/resblocks.py
index df6a994..49075a1 100644
--- a/ocnn/modules/resblocks.py
+++ b/ocnn/modules/resblocks.py
@@ -76,7 +76,7 @@ class OctreeResBlock2(torch.nn.Module):
     channelb = int(out_channels / bottleneck)
 
     if self.stride == 2:
-      self.maxpool = OctreeMaxPool(self.depth)
+      self.maxpool = OctreeMaxPool(nempty)
     self.conv3x3a = OctreeConvBnRelu(in_channels, channelb, nempty=nempty)
     self.conv3x3b = OctreeConvBn(channelb, out_channels, nempty=nempty)
     if self.in_channels != self.out_channels:
-- 
2.43.0


From 0fee46c1568f04ca02014767b3a584f69ed66204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 16/21] fix: OUNet cannot be constructed and encoded

---
 ocnn/models/autoencoder.py | 15 ++++++++++-----
 ocnn/models/ounet.py       |  3 ++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ocnn/models/autoencoder.py b/ocnn/models/autoencoder.py
index 82be70e..9156eb5 100644
--- a/ocnn/models/autoencoder.py
+++ b/ocnn/models/autoencoder.py
@@ -23,10 +23,13 @@ class AutoEncoder(torch.nn.Module):
     full_depth (int): The full depth of the octree.
     feature (str): The feature type of the input signal. For details of this
         argument, please refer to :class:`ocnn.modules.InputFeature`.
+    code_channel (int): The channel of the shape code. If it is not positive,
+        the features are not projected to a shape code.
   '''
 
   def __init__(self, channel_in: int, channel_out: int, depth: int,
-               full_depth: int = 2, feature: str = 'ND'):
+               full_depth: int = 2, feature: str = 'ND',
+               code_channel: int = 64):
     super().__init__()
     self.channel_in = channel_in
     self.channel_out = channel_out
@@ -34,7 +37,7 @@ class AutoEncoder(torch.nn.Module):
     self.full_depth = full_depth
     self.feature = feature
     self.resblk_num = 2
-    self.code_channel = 64  # dim-of-code = code_channel * 2**(3*full_depth)
+    self.code_channel = code_channel  # dim-of-code = code_channel * 2**(3*full_depth)
     self.channels = [512, 512, 256, 256, 128, 128, 32, 32, 16, 16]
 
     # encoder
@@ -46,11 +49,13 @@ class AutoEncoder(torch.nn.Module):
     self.downsample = torch.nn.ModuleList([ocnn.modules.OctreeConvBnRelu(
         self.channels[d], self.channels[d-1], kernel_size=[2], stride=2,
         nempty=False) for d in range(depth, full_depth, -1)])
-    self.proj = torch.nn.Linear(
-        self.channels[full_depth], self.code_channel, bias=True)
+    if code_channel > 0:
+      self.proj = torch.nn.Linear(
+          self.channels[full_depth], self.code_channel, bias=True)
 
     # decoder
-    self.channels[full_depth] = self.code_channel  # update `channels`
+    if code_channel > 0:
+      self.channels[full_depth] = self.code_channel  # update `channels`
     self.upsample = torch.nn.ModuleList([ocnn.modules.OctreeDeconvBnRelu(
         self.channels[d-1], self.channels[d], kernel_size=[2], stride=2,
         nempty=False) for d in range(full_depth+1, depth+1)])
diff --git a/ocnn/models/ounet.py b/ocnn/models/ounet.py
index 0dd81aa..e8bcdd6 100644
--- a/ocnn/models/ounet.py
+++ b/ocnn/models/ounet.py
@@ -28,7 +28,8 @@ class OUNet(AutoEncoder):
 
     convs = dict()
     depth, full_depth = self.depth, self.full_depth
-    data = self.get_input_feature(octree)
+    data = octree.get_input_feature(self.feature, nempty=False)
+    assert data.size(1) == self.channel_in
     convs[depth] = self.conv1(data, octree, depth)
     for i, d in enumerate(range(depth, full_depth-1, -1)):
       convs[d] = self.encoder_blks[i](convs[d], octree, d)
-- 
2.43.0


From d16de78c6c903eccba3956289444c2f13e0ef5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:59 +0000
Subject: [PATCH 17/21] fix: points on the upper boundary of [-1, 1] wrap to
 the opposite side of the octree

---
 ocnn/octree/octree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/octree.py b/ocnn/octree/octree.py
index 5284717..31ff8ba 100644
--- a/ocnn/octree/octree.py
+++ b/ocnn/octree/octree.py
@@ -164,7 +164,8 @@ class Octree:
     points = (point_cloud.points + 1.0) * scale
 
     # get the shuffled key and sort
-    x, y, z = points[:, 0], points[:, 1], points[:, 2]
+    # points on the upper boundary of the cube belong to the last voxels
+    x, y, z = points.long().clamp(max=2 ** self.depth - 1).unbind(dim=1)
     b = None if self.batch_size == 1 else point_cloud.batch_id.view(-1)
     key = xyz2key(x, y, z, b, self.depth)
     node_key, idx, counts = torch.unique(
-- 
2.43.0


From ccfb913bd815c42da76208f836c01bf41fe4d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:09 +0000
Subject: [PATCH 18/21] fix: xyz2key rejects the documented integer batch index

---
 ocnn/octree/shuffled_key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/octree/shuffled_key.py b/ocnn/octree/shuffled_key.py
index 449d882..3ac2348 100644
--- a/ocnn/octree/shuffled_key.py
+++ b/ocnn/octree/shuffled_key.py
@@ -84,7 +84,7 @@ def xyz2key(x: torch.Tensor, y: torch.Tensor, z: torch.Tensor,
     key = key16 << 24 | key
 
   if b is not None:
-    b = b.long()
+    b = b.long() if isinstance(b, torch.Tensor) else b
     key = b << 48 | key
 
   return key
-- 
2.43.0


From 0181d796a005f2955b73f5ab734c594a0b8613ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 19/21] fix: search_value returns zeros if there are no keys to
 search in

---
 ocnn/nn/octree_align.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocnn/nn/octree_align.py b/ocnn/nn/octree_align.py
index 5e7ad8b..b2611bb 100644
--- a/ocnn/nn/octree_align.py
+++ b/ocnn/nn/octree_align.py
@@ -20,6 +20,9 @@ def search_value(value: torch.Tensor, key: torch.Tensor, query: torch.Tensor):
     query (torch.Tensor): The query tensor, which also contains shuffled keys.
   '''
 
+  if key.shape[0] == 0:   # there is nothing to be found
+    return value.new_zeros(query.shape[0], value.shape[1])
+
   # deal with out-of-bound queries, the indices of these queries
   # returned by torch.searchsorted equal to `key.shape[0]`
   out_of_bound = query > key[-1]
-- 
2.43.0


From ea431ac3b3397ab45e2f79964435fc1b08ac6514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:06 +0000
Subject: [PATCH 20/21] fix: OctreeDeconv with direct_method fails on levels
 without nodes

---
 ocnn/nn/octree_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocnn/nn/octree_conv.py b/ocnn/nn/octree_conv.py
index d00e99a..26dbcb2 100644
--- a/ocnn/nn/octree_conv.py
+++ b/ocnn/nn/octree_conv.py
@@ -415,7 +415,7 @@ class OctreeDeconv(OctreeConv):
 
     if self.direct_method:
       col = torch.mm(data, self.weights.flatten(0, 1).t())
-      col = col.view(col.shape[0], self.kdim, -1)
+      col = col.view(-1, self.kdim, self.out_channels)
       out = col2octree(
           col, octree, depth_col, self.kernel, self.stride, self.nempty)
     else:
-- 
2.43.0


From 61d13767c46c30e2b1896083a919503e1568208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:11 +0000
Subject: [PATCH 21/21] fix: reverse the normals when a point cloud is scaled
 by a negative factor

---
 ocnn/octree/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocnn/octree/points.py b/ocnn/octree/points.py
index 9eca569..694b37b 100644
--- a/ocnn/octree/points.py
+++ b/ocnn/octree/points.py
@@ -106,7 +106,8 @@ class Points:
 
     factor = factor.to(self.device)
     self.points = self.points * factor
-    if self.normals is not None and non_uniform:
+    # a mirroring reverses normals, so negative factors also change them
+    if self.normals is not None and (non_uniform or (factor < 0).any()):
       ifactor = 1.0 / factor
       self.normals = self.normals * ifactor
       norm2 = torch.sqrt(torch.sum(self.normals ** 2, dim=1, keepdim=True))
-- 
2.43.0

