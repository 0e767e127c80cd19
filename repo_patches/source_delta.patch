From 4df0f8df701c0212d01365cbc6322279bbdbe255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 01/21] fix: pad the spatial axes of channels_first inputs in
 group layers

---
 groco/layers/group_transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index d4d231c..3f3741f 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -53,6 +53,7 @@ class GroupTransforms:
             allow_non_equivariance=allow_non_equivariance,
             kernel_size=kernel_size,
             dimensions=dimensions,
+            data_format=data_format,
             transpose=transpose,
             **kwargs,
         )
-- 
2.43.0


From c4d1b39681182b690d0a8fd2d114e995d5f80ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 02/21] fix: restore kernel, bias and filters when a layer call
 raises

---
 groco/utils/misc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index 992e9e1..828981a 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -6,10 +6,11 @@ def backup_and_restore(attribute_names):
     def decorator(function):
         def wrapper(self, inputs):
             backup = {name: getattr(self, name) for name in attribute_names}
-            result = function(self, inputs)
-            for name in attribute_names:
-                setattr(self, name, backup[name])
-            return result
+            try:
+                return function(self, inputs)
+            finally:
+                for name in attribute_names:
+                    setattr(self, name, backup[name])
 
         return wrapper
 
-- 
2.43.0


From ad4ec5f1b6e496b088651adb7336ee46e111f89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 03/21] fix: raise the padding parity ValueError for same_equiv
 instead of AttributeError

---
 groco/layers/padding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 80716c9..c6b49fb 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -178,6 +178,6 @@ class EquivariantPadding(Layer):
             f"strides: {tuple(self.strides)},\n"
         )
         if self.padding_option == "SAME_EQUIV":
-            same_padding = self.compute_same_padding(spatial_shape)
+            same_padding = self.compute_built_in_padding(spatial_shape)
             message += f"built-in same padding: {tuple(same_padding)}"
         return message
-- 
2.43.0


From a62f8a7b2135e468e332132ab7d0a9f59ce1b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 04/21] fix: pad group pooling for the default strides, which
 Keras takes equal to pool_size

---
 groco/layers/pooling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 94bdcc4..39fc0bd 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -37,6 +37,9 @@ class GroupPooling(Layer):
         super().__init__()
 
         self.dimensions = dimensions
+        # Keras pooling layers default to strides equal to the pool size
+        if kwargs.get("strides") is None:
+            kwargs["strides"] = pool_size
         self.group_transforms = GroupTransforms(
             allow_non_equivariance=allow_non_equivariance,
             kernel_size=pool_size,
-- 
2.43.0


From 45a1c36988dfa6da9fa4aada6857d9bb21bfa4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 05/21] fix: take dilation_rate into account in equivariant
 padding

---
 groco/layers/padding.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index c6b49fb..0f2986a 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -23,6 +23,7 @@ class EquivariantPadding(Layer):
         kernel_size: int or tuple of int, the size of the kernel.
         dimensions: int, the number of spatial dimensions.
         strides: int or tuple of int, the stride of the convolution.
+        dilation_rate: int or tuple of int, the dilation rate of the kernel.
         padding: string, one of 'valid_equiv', 'same_equiv', 'valid', 'same'.
         allow_non_equivariance: bool, whether to allow non-equivariant padding.
         data_format: string, one of 'channels_last', 'channels_first'.
@@ -38,6 +39,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance=False,
         data_format="channels_last",
         transpose=False,
+        dilation_rate=1,
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
@@ -57,6 +59,14 @@ class EquivariantPadding(Layer):
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
+        # a dilated kernel covers (kernel_size - 1) * dilation_rate + 1 pixels
+        dilation_rates = ops.cast(
+            dilation_rate
+            if isinstance(dilation_rate, tuple)
+            else tuple(dilation_rate for _ in range(self.dimensions)),
+            "int32",
+        )
+        self.kernel_sizes = (self.kernel_sizes - 1) * dilation_rates + 1
         self.data_format = data_format
         self.transpose = transpose
         # set during build
-- 
2.43.0


From 5e07a05eee76aeb1e972aa47e5c9f5a62b7b91d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:18 +0000
Subject: [PATCH 06/21] fix: accept lists of sizes and any capitalization of
 padding, as Keras and the padding check do

---
 groco/layers/padding.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 0f2986a..41d026b 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -43,26 +43,26 @@ class EquivariantPadding(Layer):
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
-        self.built_in_padding_option = padding[:-6] if padding.endswith("_equiv") else padding
+        self.built_in_padding_option = self.padding_option.removesuffix("_EQUIV").lower()
 
         self.allow_non_equivariance = allow_non_equivariance
         self.dimensions = dimensions
         self.strides = ops.cast(
-            strides
-            if isinstance(strides, tuple)
+            tuple(strides)
+            if isinstance(strides, (tuple, list))
             else tuple(strides for _ in range(self.dimensions)),
             "int32",
         )
         self.kernel_sizes = ops.cast(
-            kernel_size
-            if isinstance(kernel_size, tuple)
+            tuple(kernel_size)
+            if isinstance(kernel_size, (tuple, list))
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
         # a dilated kernel covers (kernel_size - 1) * dilation_rate + 1 pixels
         dilation_rates = ops.cast(
-            dilation_rate
-            if isinstance(dilation_rate, tuple)
+            tuple(dilation_rate)
+            if isinstance(dilation_rate, (tuple, list))
             else tuple(dilation_rate for _ in range(self.dimensions)),
             "int32",
         )
-- 
2.43.0


From dc683beb515f7fdaede940e25f008d24349e9b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 07/21] fix: let D4 and D4h act on cuboids, whose depth differs
 from height and width

---
 groco/groups/space_groups.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/groco/groups/space_groups.py b/groco/groups/space_groups.py
index 7748923..da992b3 100644
--- a/groco/groups/space_groups.py
+++ b/groco/groups/space_groups.py
@@ -1,4 +1,5 @@
 import itertools
+from functools import partial
 
 from keras import ops
 
@@ -9,13 +10,13 @@ Oh_permutation_tuples = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0),
 Oh_parameters = list(itertools.product(Oh_permutation_tuples, Oh_flip_axes))
 
 
-def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3):
+def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3, elements=range(48)):
     offset = spatial_axes[0]
     prefix = tuple(range(offset))
     suffix = tuple(range(offset + 3, ops.ndim(signal)))
     Oh_params = [
         (prefix + tuple(p + offset for p in perm) + suffix, [f + offset for f in flip])
-        for (perm, flip) in Oh_parameters
+        for (perm, flip) in [Oh_parameters[e] for e in elements]
     ]
     transformed_signals = []
     for perm, flip in Oh_params:
@@ -2486,9 +2487,17 @@ Oh = Group(
     action=Oh_action,
 )
 
-O = Group(name="O", order=24, parent=Oh)
-D4h = Group(name="D4h", order=16, parent=Oh)
-D4 = Group(name="D4", order=8, parent=Oh)
+# only act with the elements of the subgroup: those outside of it may not preserve the grid,
+# e.g. exchanging depth and height on a cuboid
+O = Group(
+    name="O", order=24, parent=Oh, action=partial(Oh_action, elements=Oh.subgroup["O"])
+)
+D4h = Group(
+    name="D4h", order=16, parent=Oh, action=partial(Oh_action, elements=Oh.subgroup["D4h"])
+)
+D4 = Group(
+    name="D4", order=8, parent=Oh, action=partial(Oh_action, elements=Oh.subgroup["D4"])
+)
 
 
 space_group_dict = {"Oh": Oh, "O": O, "D4h": D4h, "D4": D4}
-- 
2.43.0


From 0ca4c4d5d90fbb497f77e4aec378ebc371ab7b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 08/21] fix: make same_equiv pooling equivariant when the same
 padding is odd

---
 groco/layers/padding.py | 9 +++++++++
 groco/layers/pooling.py | 1 +
 2 files changed, 10 insertions(+)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 41d026b..552dd54 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -28,6 +28,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance: bool, whether to allow non-equivariant padding.
         data_format: string, one of 'channels_last', 'channels_first'.
         transpose: bool, whether the layer is a transposed convolution.
+        pooling: bool, whether the layer is a pooling layer.
     """
 
     def __init__(
@@ -40,6 +41,7 @@ class EquivariantPadding(Layer):
         data_format="channels_last",
         transpose=False,
         dilation_rate=1,
+        pooling=False,
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
@@ -69,6 +71,7 @@ class EquivariantPadding(Layer):
         self.kernel_sizes = (self.kernel_sizes - 1) * dilation_rates + 1
         self.data_format = data_format
         self.transpose = transpose
+        self.pooling = pooling
         # set during build
         self.equivariant_padding = None
         self.needs_padding = None
@@ -102,6 +105,12 @@ class EquivariantPadding(Layer):
         if ops.any(total_padding % 2 != 0):
             raise self.padding_parity_error(spatial_shape)
 
+        if self.pooling and self.padding_option == "SAME_EQUIV":
+            # the built-in padding of pooling layers is ignored rather than filled with zeros, so
+            # an uneven mix of both isn't equivariant: do all of the padding here
+            self.built_in_padding_option = "valid"
+            extra_padding = total_padding
+
         self.equivariant_padding = self.split_padding(extra_padding)
 
     def compute_equivariant_padding(self, spatial_shape):
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 39fc0bd..900462e 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -68,6 +68,7 @@ class GroupPooling(Layer):
 
     def build(self, input_shape):
         self.group_transforms.build(input_shape)
+        self.pooling.padding = self.group_transforms.equivariant_padding.built_in_padding_option
         self.pooling.build(self.group_transforms.reshaped_input)
         self.group_transforms.build_pool()
 
-- 
2.43.0


From 62057038c9d364d86d3791b756f6429862f3b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 09/21] fix: compute the actual output shape of group
 convolutions

---
 groco/layers/conv2d.py           |  4 ++--
 groco/layers/conv2d_transpose.py |  4 ++--
 groco/layers/conv3d.py           |  4 ++--
 groco/layers/conv3d_transpose.py |  4 ++--
 groco/layers/group_transforms.py | 14 +++++++++++---
 groco/layers/padding.py          |  6 ++++++
 6 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index 60dc8b9..d49f62e 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -81,8 +81,8 @@ class GroupConv2D(Conv2D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        input_shape = self.group_transforms.merge_group_axis_and_pad_shape(input_shape)
+        output_shape = super().compute_output_shape(input_shape)
         return self.group_transforms.correct_output_shape(output_shape)
 
 
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index b5c12e6..b645a4c 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -79,6 +79,6 @@ class GroupConv2DTranspose(Conv2DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        input_shape = self.group_transforms.merge_group_axis_and_pad_shape(input_shape)
+        output_shape = super().compute_output_shape(input_shape)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index edb1485..41b2b67 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -81,8 +81,8 @@ class GroupConv3D(Conv3D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        input_shape = self.group_transforms.merge_group_axis_and_pad_shape(input_shape)
+        output_shape = super().compute_output_shape(input_shape)
         return self.group_transforms.correct_output_shape(output_shape)
 
 
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 2445d47..7ad9eac 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -85,6 +85,6 @@ class GroupConv3DTranspose(Conv3DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        input_shape = self.group_transforms.merge_group_axis_and_pad_shape(input_shape)
+        output_shape = super().compute_output_shape(input_shape)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 3f3741f..17f8df8 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -215,12 +215,20 @@ class GroupTransforms:
 
         return indices
 
+    def merge_group_axis_and_pad_shape(self, input_shape):
+        """Compute the shape resulting from `merge_group_axis_and_pad`."""
+        # Keras also calls this during build, with the group axis already merged
+        if len(input_shape) == self.dimensions + 3:
+            input_shape = utils.merge_shapes(
+                input_shape, merged_axis=self.group_axis, target_axis=self.channels_axis
+            )
+        return self.equivariant_padding.compute_output_shape(input_shape)
+
     def correct_output_shape(self, output_shape):
         """Insert the group axis in the correct place."""
         output_shape = list(output_shape)
-        return (
-            output_shape[: self.group_axis] + [self.group.order] + output_shape[self.group_axis :]
-        )
+        order = len(self.group.subgroup[self.acting_group])
+        return output_shape[: self.group_axis] + [order] + output_shape[self.group_axis :]
 
     def get_config(self):
         config = {"group": self.group, "subgroup": self.subgroup.name}
diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 552dd54..726357d 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -113,6 +113,12 @@ class EquivariantPadding(Layer):
 
         self.equivariant_padding = self.split_padding(extra_padding)
 
+    def compute_output_shape(self, input_shape):
+        if not self.needs_padding:
+            return tuple(input_shape)
+        paddings = ops.convert_to_numpy(self.equivariant_padding).sum(axis=1)
+        return tuple(s if s is None else s + int(p) for s, p in zip(input_shape, paddings))
+
     def compute_equivariant_padding(self, spatial_shape):
         built_in_padding = self.compute_built_in_padding(spatial_shape)
         extra_padding = self.compute_extra_padding(spatial_shape, built_in_padding)
-- 
2.43.0


From d5b8028083e525cd9f4602caa2f7e72d18286c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 10/21] fix: make layer configs complete and serializable, so
 layers can be rebuilt from them

---
 groco/layers/group_transforms.py |  9 ++++++---
 groco/layers/padding.py          | 11 +++++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 17f8df8..8c183c3 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -231,9 +231,12 @@ class GroupTransforms:
         return output_shape[: self.group_axis] + [order] + output_shape[self.group_axis :]
 
     def get_config(self):
-        config = {"group": self.group, "subgroup": self.subgroup.name}
-        config.update(self.equivariant_padding.get_config())
-        return config
+        return {
+            "group": self.group.name,
+            "subgroup": self.subgroup.name,
+            "padding": self.equivariant_padding.padding,
+            "allow_non_equivariance": self.equivariant_padding.allow_non_equivariance,
+        }
 
     def prepare_call(self, kernel, bias, filters, inputs, use_bias):
         inputs = self.merge_group_axis_and_pad(inputs)
diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 726357d..afff414 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -44,6 +44,9 @@ class EquivariantPadding(Layer):
         pooling=False,
         **kwargs,
     ):
+        self.padding = padding
+        self.kernel_size = kernel_size
+        self.dilation_rate = dilation_rate
         self.padding_option = self.format_padding_option(padding)
         self.built_in_padding_option = self.padding_option.removesuffix("_EQUIV").lower()
 
@@ -160,10 +163,14 @@ class EquivariantPadding(Layer):
     def get_config(self):
         return {
             "kernel_size": self.kernel_size,
-            "strides": self.strides,
+            "dimensions": self.dimensions,
+            "strides": tuple(int(s) for s in self.strides),
             "padding": self.padding,
             "allow_non_equivariance": self.allow_non_equivariance,
-            "dimensions": self.dimensions,
+            "data_format": self.data_format,
+            "transpose": self.transpose,
+            "dilation_rate": self.dilation_rate,
+            "pooling": self.pooling,
         }
 
     @staticmethod
-- 
2.43.0


From c10900e70471f9b83f9917e6ab62e372356083a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 11/21] fix: follow the Keras default data format in group
 layers

---
 groco/layers/group_transforms.py | 7 +++++--
 groco/layers/pooling.py          | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 8c183c3..8b54d9d 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -1,4 +1,4 @@
-from keras import ops
+from keras import config, ops
 from keras.layers import Layer
 
 from groco import utils
@@ -30,7 +30,7 @@ class GroupTransforms:
         group,
         kernel_size,
         dimensions: int,
-        data_format="channels_last",
+        data_format=None,
         allow_non_equivariance: bool = False,
         subgroup="",
         transpose=False,
@@ -39,6 +39,9 @@ class GroupTransforms:
     ):
         super().__init__()
 
+        # same default as in the Keras layers
+        data_format = data_format or config.image_data_format()
+
         self.dimensions = dimensions
         self.transpose = transpose
         self.separable = separable
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 900462e..5e70685 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -95,7 +95,7 @@ class GlobalGroupPooling(Layer):
             pool_layer = GlobalMaxPooling3D if self.pool_type == "max" else GlobalAveragePooling3D
         self.pooling = pool_layer(**kwargs)
 
-        if "data_format" in kwargs and kwargs["data_format"] == "channels_first":
+        if self.pooling.data_format == "channels_first":
             self.group_axis = self.dimensions + 2
             self.channels_axis = 1
         else:
-- 
2.43.0


From 8181098632c9c60359f9e1460659404477027283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 12/21] fix: merge and move axes counted from opposite ends in
 the right order

---
 groco/utils/tensor_manips.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/groco/utils/tensor_manips.py b/groco/utils/tensor_manips.py
index 20d41cc..272b2b6 100644
--- a/groco/utils/tensor_manips.py
+++ b/groco/utils/tensor_manips.py
@@ -32,6 +32,9 @@ def move_axis_to_left_of(tensor: KerasTensor, moved_axis: int, target_axis: int)
     Returns:
         The tensor with its axes moved.
     """
+    # count both axes from the front, so they can be compared
+    rank = len(tensor.shape)
+    moved_axis, target_axis = moved_axis % rank, target_axis % rank
     # in this case after removing moved_axis, target_axis shifts left by one
     if moved_axis < target_axis:
         target_axis -= 1
-- 
2.43.0


From 1a7c6702f35402c9a2ceb0b4b91afb938b37d6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:15 +0000
Subject: [PATCH 13/21] fix: fill transposed kernels with zero outside of the
 subgroup, not with their first entry

---
 groco/layers/group_transforms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 8b54d9d..cf265b0 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -11,7 +11,7 @@ class GroupTransforms:
     Helper layer meant only for use within other layers involving group operations.
     Takes care of all group related transformations.
 
-    All public methods involve at most a single ops.take and ops.reshape call, using precomputed indices.
+    All public methods involve at most a single ops.pad, ops.take and ops.reshape call, using precomputed indices.
 
     Methods:
         merge_group_axis_and_pad
@@ -104,7 +104,9 @@ class GroupTransforms:
         (height, width, domain_group.order * channels_in, channels_out) ->
         (height, width, domain_group.order * channels_in, acting_group.order * channels_out)
         """
-        return ops.take(ops.reshape(kernel, [-1]), indices=self._transformed_kernel_indices, axis=0)
+        # index 0 is a zero, for the entries outside of the domain group
+        kernel = ops.pad(ops.reshape(kernel, [-1]), [[1, 0]])
+        return ops.take(kernel, indices=self._transformed_kernel_indices, axis=0)
 
     def restore_group_axis(self, outputs):
         """
@@ -184,7 +186,8 @@ class GroupTransforms:
         if self.transpose:
             kernel = ops.swapaxes(kernel, -1, -2)
 
-        indices = utils.get_index_tensor(kernel)
+        # leave index 0 to the zeros that the action fills in outside of the domain group
+        indices = utils.get_index_tensor(kernel) + 1
 
         kwargs = {
             "new_group_axis": self.dimensions,
-- 
2.43.0


From 876c58c349f90a61b03a98617d0de5d9659f1b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:15 +0000
Subject: [PATCH 14/21] fix: gather transposed kernels in the axis order they
 are stored in

---
 groco/layers/group_transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index cf265b0..c81f8d2 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -183,12 +183,12 @@ class GroupTransforms:
         """
         Compute a tensor of indices used to gather from the kernel to produce the group action on it.
         """
-        if self.transpose:
-            kernel = ops.swapaxes(kernel, -1, -2)
-
         # leave index 0 to the zeros that the action fills in outside of the domain group
         indices = utils.get_index_tensor(kernel) + 1
 
+        if self.transpose:
+            indices = ops.swapaxes(indices, -1, -2)
+
         kwargs = {
             "new_group_axis": self.dimensions,
             "spatial_axes": tuple(d for d in range(self.dimensions)),
-- 
2.43.0


From d0563e57d97eff5528680556364d219c66e52a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 15/21] fix: refuse signals on another group instead of
 convolving or pooling them

A built convolution took signals whose group axis is a multiple of the expected
one as channel groups, pooling layers gave garbage for any other group axis and
took the channels of signals on the grid as group elements.
---
 groco/layers/conv2d.py           | 2 ++
 groco/layers/conv2d_transpose.py | 2 ++
 groco/layers/conv3d.py           | 2 ++
 groco/layers/conv3d_transpose.py | 2 ++
 groco/layers/pooling.py          | 5 +++++
 5 files changed, 13 insertions(+)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index d49f62e..7082dbd 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -74,6 +74,8 @@ class GroupConv2D(Conv2D):
             else:
                 channel_axis = -1
             self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes[group_axis] = input_shape[group_axis]
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index b645a4c..1e6fe86 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -72,6 +72,8 @@ class GroupConv2DTranspose(Conv2DTranspose):
             else:
                 channel_axis = -1
             self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes[group_axis] = input_shape[group_axis]
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index 41b2b67..064ac17 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -74,6 +74,8 @@ class GroupConv3D(Conv3D):
             else:
                 channel_axis = -1
             self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes[group_axis] = input_shape[group_axis]
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 7ad9eac..2820924 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -78,6 +78,8 @@ class GroupConv3DTranspose(Conv3DTranspose):
             else:
                 channel_axis = -1
             self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+            group_axis = self.group_transforms.group_axis
+            self.input_spec.axes[group_axis] = input_shape[group_axis]
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 5e70685..9f2a251 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -9,6 +9,7 @@ from keras.layers import (
     GlobalMaxPooling1D,
     GlobalMaxPooling2D,
     GlobalMaxPooling3D,
+    InputSpec,
     Layer,
     MaxPooling1D,
     MaxPooling2D,
@@ -50,6 +51,10 @@ class GroupPooling(Layer):
             **kwargs
         )
         kwargs["padding"] = self.group_transforms.built_in_padding_option
+        self.input_spec = InputSpec(
+            ndim=dimensions + 3,
+            axes={self.group_transforms.group_axis: self.group_transforms.group.order},
+        )
 
         self.pool_type = pool_type
         if self.dimensions == 1:
-- 
2.43.0


From 346eb43e1006a42dcbae3361ac903e564072e2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 16/21] fix: group layers with a dtype other than the global
 policy failed

The padding layer cast their inputs back to the dtype of the global policy.
---
 groco/layers/padding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index afff414..7fa284b 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -79,7 +79,8 @@ class EquivariantPadding(Layer):
         self.equivariant_padding = None
         self.needs_padding = None
 
-        super().__init__()
+        # leave the dtype to the layer this is used in
+        super().__init__(autocast=False)
 
     def call(self, inputs):
         if self.needs_padding:
-- 
2.43.0


From f4eefb019f39975977a2236542bc34d5a8129e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 17/21] fix: group pooling layers ignored name, trainable and
 dtype

---
 groco/layers/pooling.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 9f2a251..d7cbe18 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -35,7 +35,7 @@ class GroupPooling(Layer):
         pool_size=2,
         **kwargs
     ):
-        super().__init__()
+        super().__init__(**self.layer_arguments(kwargs))
 
         self.dimensions = dimensions
         # Keras pooling layers default to strides equal to the pool size
@@ -79,9 +79,15 @@ class GroupPooling(Layer):
 
     def get_config(self):
         config = self.pooling.get_config()
+        config.update(super().get_config())
         config.update(self.group_transforms.get_config())
         return config
 
+    @staticmethod
+    def layer_arguments(kwargs):
+        """The arguments of any Keras layer, these concern the group pooling layer itself too."""
+        return {key: kwargs[key] for key in ("name", "trainable", "dtype") if key in kwargs}
+
 
 class GlobalGroupPooling(Layer):
     """
@@ -89,7 +95,7 @@ class GlobalGroupPooling(Layer):
     """
 
     def __init__(self, dimensions: int, pool_type: str, **kwargs):
-        super().__init__()
+        super().__init__(**GroupPooling.layer_arguments(kwargs))
         self.dimensions = dimensions
         self.pool_type = pool_type
         if self.dimensions == 1:
@@ -135,6 +141,7 @@ class GlobalGroupPooling(Layer):
 
     def get_config(self):
         config = self.pooling.get_config()
+        config.update(super().get_config())
         return config
 
 
-- 
2.43.0


From 5affe00d652977478551b916acb9396978accee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 18/21] fix: calls changed kernel, bias and filters on the
 layer, visible to other threads and failing on copies

---
 groco/utils/misc.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index 828981a..18a5a0e 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -1,16 +1,19 @@
 def backup_and_restore(attribute_names):
     """
-    Decorator that backs up given attributes, runs the function, and then restores the backed up values.
+    Decorator that runs the function on a shallow copy of the object, so that the given attributes
+    can be changed during the call while the object keeps its values, also for other threads.
     """
 
     def decorator(function):
         def wrapper(self, inputs):
-            backup = {name: getattr(self, name) for name in attribute_names}
-            try:
-                return function(self, inputs)
-            finally:
-                for name in attribute_names:
-                    setattr(self, name, backup[name])
+            backup = dict(vars(self))
+            local = object.__new__(type(self))
+            vars(local).update(backup)
+            outputs = function(local, inputs)
+            for name, value in vars(local).items():
+                if name not in attribute_names and backup.get(name) is not value:
+                    setattr(self, name, value)
+            return outputs
 
         return wrapper
 
-- 
2.43.0


From 888434ea0eaf0ffd6d29b5f5449f6bb5b10f152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 19/21] fix: act along axes counted from the end or apart from
 each other, instead of giving wrong results

---
 groco/groups/group.py        |  7 +++++++
 groco/groups/space_groups.py | 13 ++++++-------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/groco/groups/group.py b/groco/groups/group.py
index 8a6e856..c6a3b1c 100644
--- a/groco/groups/group.py
+++ b/groco/groups/group.py
@@ -73,6 +73,13 @@ class Group:
             Tensor of the signal acted on by the group.
         """
         acting_group, domain_group = self.parse_subgroups(acting_group, domain_group)
+        # count all axes from the front, as the position of the new axis changes their count from the end
+        rank = len(signal.shape)
+        spatial_axes = tuple(axis + rank if axis < 0 else axis for axis in spatial_axes)
+        if group_axis is not None and group_axis < 0:
+            group_axis += rank
+        if new_group_axis < 0:
+            new_group_axis += rank + 1
         action = self._action_on_group if domain_group else self._action_on_grid
         signal = action(
             signal,
diff --git a/groco/groups/space_groups.py b/groco/groups/space_groups.py
index da992b3..3e5d1cb 100644
--- a/groco/groups/space_groups.py
+++ b/groco/groups/space_groups.py
@@ -11,13 +11,12 @@ Oh_parameters = list(itertools.product(Oh_permutation_tuples, Oh_flip_axes))
 
 
 def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3, elements=range(48)):
-    offset = spatial_axes[0]
-    prefix = tuple(range(offset))
-    suffix = tuple(range(offset + 3, ops.ndim(signal)))
-    Oh_params = [
-        (prefix + tuple(p + offset for p in perm) + suffix, [f + offset for f in flip])
-        for (perm, flip) in [Oh_parameters[e] for e in elements]
-    ]
+    Oh_params = []
+    for perm, flip in [Oh_parameters[e] for e in elements]:
+        axes = list(range(ops.ndim(signal)))
+        for axis, p in zip(spatial_axes, perm):
+            axes[axis] = spatial_axes[p]
+        Oh_params.append((axes, [spatial_axes[f] for f in flip]))
     transformed_signals = []
     for perm, flip in Oh_params:
         transformed_signal = signal
-- 
2.43.0


From f33bd74dd1a8a2a57b9304fc4ddc77630a0bf3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:58 +0000
Subject: [PATCH 20/21] fix: acting on a signal without naming a group axis
 failed, rather than act on the grid as documented

---
 groco/groups/group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/groco/groups/group.py b/groco/groups/group.py
index c6a3b1c..d767f63 100644
--- a/groco/groups/group.py
+++ b/groco/groups/group.py
@@ -72,6 +72,9 @@ class Group:
         Returns:
             Tensor of the signal acted on by the group.
         """
+        # a signal without group axis is one on the grid only
+        if group_axis is None and domain_group == "":
+            domain_group = None
         acting_group, domain_group = self.parse_subgroups(acting_group, domain_group)
         # count all axes from the front, as the position of the new axis changes their count from the end
         rank = len(signal.shape)
-- 
2.43.0


From 1992e9128eec429974d9310559ae31dea7da203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:02 +0000
Subject: [PATCH 21/21] fix: the configuration of transposed layers lost
 output_padding

---
 groco/layers/conv2d_transpose.py | 2 ++
 groco/layers/conv3d_transpose.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index 1e6fe86..6c0675c 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -77,6 +77,8 @@ class GroupConv2DTranspose(Conv2DTranspose):
 
     def get_config(self):
         config = super().get_config()
+        # not part of the configuration of the Keras layer
+        config["output_padding"] = self.output_padding
         config.update(self.group_transforms.get_config())
         return config
 
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 2820924..26b2399 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -83,6 +83,8 @@ class GroupConv3DTranspose(Conv3DTranspose):
 
     def get_config(self):
         config = super().get_config()
+        # not part of the configuration of the Keras layer
+        config["output_padding"] = self.output_padding
         config.update(self.group_transforms.get_config())
         return config
 
-- 
2.43.0

