From 26fb3e1b705e427b3b09b9c98773ec7e1b1a1920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 01/96] fix: do not record gradients (and update) frozen analog
 contexts behind trainable layers

---
 src/aihwkit/simulator/tiles/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/functions.py b/src/aihwkit/simulator/tiles/functions.py
index 84938a8..99112c0 100644
--- a/src/aihwkit/simulator/tiles/functions.py
+++ b/src/aihwkit/simulator/tiles/functions.py
@@ -100,8 +100,9 @@ class AnalogFunction(Function):
             else:
                 analog_tile.update(input_, grad_output)
             analog_tile.reset_delta_weights()
-        else:
-            # Store activation and errors for optimizer (for analog training)
+        elif ctx.needs_input_grad[0]:
+            # Store activation and errors for optimizer (for analog training),
+            # except if the analog context is frozen (``requires_grad=False``)
             analog_ctx.analog_input.append(input_)
 
             if runtime.offload_gradient:
-- 
2.43.0


From e7f7843ed80da8d2780eb0e704d723c8bef95de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 02/96] fix: keep the options of the parameter group when
 regrouping analog parameters

---
 src/aihwkit/optim/analog_optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 347693b..f377f39 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -37,10 +37,10 @@ class AnalogOptimizerMixin:
             rm_lst = []
             for param in group["params"]:
                 if isinstance(param, AnalogContext):
-                    param.analog_tile.set_learning_rate(
-                        self.defaults["lr"]  # type: ignore[attr-defined]
-                    )
-                    analog_param_groups.append({"params": [param]})
+                    # keep the options of the original group
+                    options = {key: value for key, value in group.items() if key != "params"}
+                    param.analog_tile.set_learning_rate(options["lr"])
+                    analog_param_groups.append({**options, "params": [param]})
                     rm_lst.append(id(param))
 
             group["params"] = [p for p in group["params"] if id(p) not in rm_lst]
-- 
2.43.0


From e3f8573306bd3aae7632996c853aa2b6b97f3c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 03/96] fix: no output bound in the gradient of a perfect
 forward pass

---
 src/aihwkit/simulator/tiles/rpucuda.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/rpucuda.py b/src/aihwkit/simulator/tiles/rpucuda.py
index 639a925..739f370 100644
--- a/src/aihwkit/simulator/tiles/rpucuda.py
+++ b/src/aihwkit/simulator/tiles/rpucuda.py
@@ -121,6 +121,9 @@ class RPUCudaSimulatorTileWrapper(SimulatorTileWrapper):
         gradients using the AnalogFunction.
         """
         if hasattr(self.rpu_config, "forward") and self.rpu_config.forward.out_bound > 0:
+            if self.rpu_config.forward.is_perfect:
+                # the output is not bounded
+                return None
             return self.rpu_config.forward.out_scale * self.rpu_config.forward.out_bound * 0.999
         return None
 
-- 
2.43.0


From 611d89df1d153c95247aba2dc4d4af3b15300340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 04/96] fix: analog context keeps its own copy of the gradient
 trace

The bias gradient of autograd can share the memory of the stored output
gradient (batch size 1) and is accumulated in place.
---
 src/aihwkit/simulator/tiles/functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/functions.py b/src/aihwkit/simulator/tiles/functions.py
index 99112c0..d6047c4 100644
--- a/src/aihwkit/simulator/tiles/functions.py
+++ b/src/aihwkit/simulator/tiles/functions.py
@@ -103,13 +103,14 @@ class AnalogFunction(Function):
         elif ctx.needs_input_grad[0]:
             # Store activation and errors for optimizer (for analog training),
             # except if the analog context is frozen (``requires_grad=False``)
-            analog_ctx.analog_input.append(input_)
+            # (own copies as the user or autograd might re-use the memory)
+            analog_ctx.analog_input.append(input_.clone())
 
             if runtime.offload_gradient:
                 store_gradients = grad_output.cpu()
             else:
                 store_gradients = grad_output
-            analog_ctx.analog_grad_output.append(store_gradients)
+            analog_ctx.analog_grad_output.append(store_gradients.clone())
 
         ctx.saved_analog_tensors = []
         return None, None, grad_input, shared_weights_grad, None
-- 
2.43.0


From 92c7b43329f6a4d1c0f6bbe34d0b82fa60ae48d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 05/96] fix: loading a state keeps the analog context object an
 optimizer refers to

---
 src/aihwkit/simulator/tiles/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index b39a084..6a1e580 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -793,7 +793,13 @@ class SimulatorTileWrapper:
                 self.tile.load_extra(extra, False)
 
         # map location should be applied to tensors in state_dict
-        self.analog_ctx = AnalogContext(self)
+        current_ctx = self.__dict__.get("_parameters", {}).get("analog_ctx")
+        if isinstance(current_ctx, AnalogContext) and current_ctx.analog_tile is self:
+            # Keep the object (e.g. an optimizer might already refer to it)
+            current_ctx._replace_raw_data(self._get_tile_weights_ref())
+            current_ctx.reset(self)
+        else:
+            self.analog_ctx = AnalogContext(self)
 
         if analog_ctx is not None:
             # Keep the object ID and device
-- 
2.43.0


From 47d9bb9e13f0a4e749452ed4b13af32e58280220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 06/96] fix: variable sample shapes when accumulating the
 analog gradient trace

---
 src/aihwkit/optim/analog_optimizer.py | 28 ++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index f377f39..240b76d 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -7,9 +7,9 @@
 """Analog-aware inference optimizer."""
 
 from types import new_class
-from typing import Any, Callable, Dict, Optional, Type
+from typing import Any, Callable, Dict, List, Optional, Type
 
-from torch import cat
+from torch import cat, Tensor
 from torch.optim import Optimizer, SGD, Adam
 from torch.autograd import no_grad
 
@@ -56,6 +56,21 @@ class AnalogOptimizerMixin:
         for group in analog_param_groups:
             self.add_param_group(group)  # type: ignore[attr-defined]
 
+    @staticmethod
+    def _cat_samples(tensors: List[Tensor], trans: bool) -> Tensor:
+        """Concatenate the samples of the given tensors to a matrix.
+
+        Args:
+            tensors: list of tensors of shape ``[..., features]``
+            trans: whether the shape is ``[features, ...]`` instead
+
+        Returns:
+            tensor of shape ``[samples, features]`` (``[features, samples]`` if ``trans``).
+        """
+        if trans:
+            return cat([tensor.reshape(tensor.size(0), -1) for tensor in tensors], axis=-1)
+        return cat([tensor.reshape(-1, tensor.size(-1)) for tensor in tensors], axis=0)
+
     @no_grad()
     def step(self, closure: Optional[Callable] = None, **kwargs: Any) -> Optional[float]:
         """Perform an analog-aware single optimization step.
@@ -122,11 +137,10 @@ class AnalogOptimizerMixin:
                                 ),
                             )
                     else:
-                        x_input = cat(
-                            analog_ctx.analog_input, axis=-1 if analog_tile.in_trans else 0
-                        )
-                        d_input = cat(
-                            analog_ctx.analog_grad_output, axis=-1 if analog_tile.out_trans else 0
+                        # flatten all but the feature dim as the other dims might vary
+                        x_input = self._cat_samples(analog_ctx.analog_input, analog_tile.in_trans)
+                        d_input = self._cat_samples(
+                            analog_ctx.analog_grad_output, analog_tile.out_trans
                         )
                         analog_tile.update(
                             x_input.to(analog_tile.device) if runtime.offload_input else x_input,
-- 
2.43.0


From 773aa217693f4cb9e35bd7e590b420bfae0f8662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 07/96] fix: compute the weight gradient also if the learning
 rate of the tile is zero

---
 src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
index bf8a1c0..c349ae7 100644
--- a/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
+++ b/src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp
@@ -544,7 +544,7 @@ void declare_rpu_tiles(py::module &m, std::string type_name_add) {
              bool bias = false, bool x_trans = false, bool d_trans = false,
              bool non_blocking = false) {
             T_RPU lr = self.getLearningRate();
-            if (lr == (T_RPU)0.0) {
+            if (lr == (T_RPU)0.0 && !self.getDeltaWeights()) {
               return;
             }
 
-- 
2.43.0


From 35e05692b209c94f70da4b03dd38dabb49c2f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 08/96] fix: programming of weights from the reference or with
 given input values

---
 src/aihwkit/simulator/tiles/periphery.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 4747399..4587101 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -278,12 +278,12 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         if not from_reference or self.reference_combined_weights is None:
             self.reference_combined_weights = self.tile.get_weights()
-            target_weights = self.reference_combined_weights
+        target_weights = self.reference_combined_weights
 
         if x_values is None:
             x_values = eye(self.tile.get_x_size())
-            x_values = x_values.to(self.device)
-            target_values = x_values @ target_weights.to(self.device).T
+        x_values = x_values.to(self.device)
+        target_values = x_values @ target_weights.to(self.device).T
 
         target_max = target_values.abs().max().item()
         if isinstance(w_init, Tensor):
-- 
2.43.0


From c4505150eb1320c2493131a955a748f30f72839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 09/96] fix: setting existing mapping scales to a float value

---
 src/aihwkit/simulator/tiles/periphery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 4587101..810e6a4 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -524,7 +524,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         if isinstance(mapping_scales, float):
             if self.mapping_scales is None:
                 self.mapping_scales = ones((1,), dtype=self.get_dtype(), device=self.device)
-                self.mapping_scales[:] = mapping_scales
+            self.mapping_scales[:] = mapping_scales
         elif isinstance(self.mapping_scales, Tensor) and len(mapping_scales) == 1:
             self.mapping_scales[:] = mapping_scales.to(self.device)
         else:
-- 
2.43.0


From 35fbb3339502ff9a5559fe8c3ce7d55a47655e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 10/96] fix: reading weights with analog bias and given input
 values

---
 src/aihwkit/simulator/tiles/periphery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 810e6a4..a7216ba 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -416,7 +416,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         # calculate pseudo inverse (with bias, if necessary)
         if self.analog_bias:
-            ones_column = ones(self.in_size * over_sampling, 1, device=self.device, dtype=dtype)
+            ones_column = ones(x_values.size(0), 1, device=self.device, dtype=dtype)
             x_values = cat([x_values, ones_column], axis=1)
 
         est_weight = lstsq(x_values, y_values).solution.T.cpu()  # pylint: disable=not-callable
-- 
2.43.0


From 69b0b98f96d42c00c9565d885584aac8178f1f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 11/96] fix: initialize the column-wise mapping scales

---
 src/aihwkit/simulator/tiles/periphery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index a7216ba..d7e0d5e 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -559,7 +559,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                 mapping_scales = ones(
                     (1,), dtype=self.get_dtype(), device=self.device, requires_grad=False
                 )
-                self.set_mapping_scales(mapping_scales)
+            self.set_mapping_scales(mapping_scales)
 
     @no_grad()
     def init_input_processing(self) -> bool:
-- 
2.43.0


From f08c45c696b8a70b8b9240d2ce53d1a531633196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 12/96] fix: setting weights without weight scaling resets
 previous scales

---
 src/aihwkit/simulator/tiles/periphery.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index d7e0d5e..60644c2 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -17,6 +17,7 @@ from torch import (
     as_tensor,
     cat,
     ones,
+    ones_like,
     where,
     from_numpy,
     full,
@@ -493,6 +494,11 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
             combined_weights = combined_weights / alpha
 
             self.set_scales(alpha)
+        else:
+            # No scaling: previous scales do not apply to the given weights
+            if self.mapping_scales is not None:
+                self.set_mapping_scales(ones_like(self.mapping_scales))
+            self.set_learned_out_scales(1.0)
         return combined_weights
 
     @no_grad()
-- 
2.43.0


From 6a712b0e119bc5e785d97e9b316168b78c387713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 13/96] fix: gradient compensation of the torch inference tile
 is kept when copying or loading

---
 .../simulator/tiles/inference_torch.py        | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index 305e6b6..36880d1 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -170,17 +170,40 @@ class TorchInferenceTile(TileModule, InferenceTileWithPeriphery, SimulatorTileWr
         """
 
         super().set_scales(scales)
+        self._register_backward_hook()
+
+    def _register_backward_hook(self) -> None:
+        """Register the hook that compensates the mapping scales in the gradient."""
 
         # - Remove old hook
         if self._backward_hook_handle is not None:
             self._backward_hook_handle.remove()
+            self._backward_hook_handle = None
 
         def hook(grad: Tensor) -> Tensor:
+            scales = self.get_mapping_scales()
+            if scales is None:
+                return grad
             return grad / scales.to(grad.device).view(-1, 1) ** 2
 
         if self.tile.weight.requires_grad:
             self._backward_hook_handle = self.tile.register_weight_hook(hook)
 
+    def __getstate__(self) -> Dict:
+        """Get the state without the hook, which is not serializable."""
+        state = super().__getstate__()
+        if "_backward_hook_handle" in state:
+            state["_backward_hook_handle"] = None
+        return state
+
+    def __setstate__(self, state: Dict) -> None:
+        """Set the state and register the hook to the (new) weight."""
+        state = state.copy()
+        state.pop("_backward_hook_handle", None)
+        self.__dict__.setdefault("_backward_hook_handle", None)
+        super().__setstate__(state)
+        self._register_backward_hook()
+
     def pre_forward(
         self, x_input: Tensor, dim: int, is_test: bool = False, ctx: Any = None
     ) -> Tensor:
-- 
2.43.0


From 6f8eb5802a4e6109627a3663f8d7f5d2e4fb2e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 14/96] fix: mapping scales are never the same parameter as the
 learned output scales

---
 src/aihwkit/simulator/tiles/periphery.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 60644c2..abb9e49 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -534,7 +534,8 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         elif isinstance(self.mapping_scales, Tensor) and len(mapping_scales) == 1:
             self.mapping_scales[:] = mapping_scales.to(self.device)
         else:
-            self.mapping_scales = mapping_scales.flatten().to(self.device)
+            # own copy (never the learned scales or the tensor of the caller)
+            self.mapping_scales = mapping_scales.detach().clone().flatten().to(self.device)
 
         if getattr(self.rpu_config.mapping, "weight_scaling_lr_compensation", False):
             self.mapping_lr_scale = 1.0 / self.mapping_scales.mean().item()
-- 
2.43.0


From d9241b4487519556c9750cb87580e5b812ee4af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 15/96] fix: weight scaling learning rate compensation only if
 the tile learning rate is used

---
 src/aihwkit/simulator/tiles/periphery.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index abb9e49..29b178d 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1206,9 +1206,11 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         if self.mapping_scales is not None:
             tensor_view = self.get_tensor_view(d_input.dim(), d_dim)
-            return x_input, d_input / (
-                self.get_mapping_scales().view(tensor_view) * self.mapping_lr_scale
-            )
+            scales = self.get_mapping_scales().view(tensor_view)
+            if not self.analog_ctx.use_torch_update:
+                # the learning rate of the tile is compensated
+                scales = scales * self.mapping_lr_scale
+            return x_input, d_input / scales
         return x_input, d_input
 
     def update(self, x_input: Tensor, d_input: Tensor) -> None:
-- 
2.43.0


From cd2157edfcf31b78c7b9166b3cd5fb8736993204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 16/96] fix: load mapping scales of any shape from a checkpoint

---
 src/aihwkit/simulator/tiles/module.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 7f94187..2fee5bd 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -425,3 +425,14 @@ class TileModule(Module, TileModuleBase):
 
             analog_state["rpu_config"] = analog_tile.rpu_config
         analog_tile.__setstate__(analog_state)
+
+        # the shape (and existence) of the mapping scales depends on how the
+        # weights were set and not only on the configuration
+        if hasattr(analog_tile, "set_mapping_scales"):
+            scales = state_dict.get(prefix + "mapping_scales")
+            mapping = getattr(analog_tile.rpu_config, "mapping", None)
+            if isinstance(scales, Tensor):
+                analog_tile.mapping_scales = None
+                analog_tile.set_mapping_scales(scales)
+            elif not getattr(mapping, "weight_scaling_omega", 0.0):
+                analog_tile.set_mapping_scales(None)
-- 
2.43.0


From f1659bd6f96e3ea21409bbc66454c331d9576901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 17/96] fix: hidden weights of compounds are kept when copying
 or loading

---
 src/aihwkit/simulator/tiles/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index 6a1e580..5bb7be8 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -760,6 +760,9 @@ class SimulatorTileWrapper:
             if not isinstance(weights, Tensor):
                 weights = from_numpy(array(weights))
             self.tile.set_weights(weights)
+            if len(names) > 0:
+                # setting the weights changes hidden weights of compounds
+                self.tile.set_hidden_parameters(hidden_parameters)
             self._copy_weights_to_shared_tensors(weights)
 
             # set_weights() fills the fresh CPU C++ tile from the serialized raw
-- 
2.43.0


From 7bbad3abbcc44bfef3b20a2423f53c714491521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 18/96] fix: shape of the drift compensation buffer stays
 loadable

---
 src/aihwkit/simulator/tiles/inference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index ccc5c4a..5ac8009 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -263,7 +263,8 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
             if isinstance(self, Module):
                 # somehow legacy is incompatible with torch buffers
                 self.__dict__.pop("alpha", None)
-            self.alpha = alpha
+            # keep the shape of the buffer (for loading of checkpoints)
+            self.alpha = alpha.view(1) if alpha.dim() == 0 else alpha
 
     def post_forward(
         self, x_output: Tensor, dim: int, is_test: bool = False, ctx: Any = None
-- 
2.43.0


From ad39b74c60123ea0fc8094fc95e66735e2f62d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 19/96] fix: weights hidden in the mixed precision compound are
 kept when copying or loading

---
 src/rpucuda/rpu_mixedprec_device_base.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_mixedprec_device_base.cpp b/src/rpucuda/rpu_mixedprec_device_base.cpp
index 3e94f35..207b487 100644
--- a/src/rpucuda/rpu_mixedprec_device_base.cpp
+++ b/src/rpucuda/rpu_mixedprec_device_base.cpp
@@ -425,7 +425,19 @@ void MixedPrecRPUDeviceBase<T>::setDeviceParameter(
     T **out_weights, const std::vector<T *> &data_ptrs) {
 
   CHECK_RPU_DEVICE_INIT;
-  rpu_device_->setDeviceParameter(out_weights, data_ptrs);
+
+  std::vector<std::string> names;
+  getDPNames(names);
+
+  if (data_ptrs.size() < names.size()) {
+    RPU_FATAL("Expected " << names.size() << " data pointers!");
+  }
+
+  std::vector<T *> v(data_ptrs.begin(), data_ptrs.end() - 1);
+  rpu_device_->setDeviceParameter(out_weights, v);
+
+  // "hidden weights Chi"
+  setChi(data_ptrs[names.size() - 1]);
 };
 
 template <typename T> void MixedPrecRPUDeviceBase<T>::printDP(int x_count, int d_count) const {
-- 
2.43.0


From 8b6fef598a95bda1a3b0c4a887b4ae4ec7d22d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 20/96] fix: copied analog context stays the parameter of a
 jointly copied optimizer

---
 src/aihwkit/optim/context.py        | 2 +-
 src/aihwkit/simulator/tiles/base.py | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index 0fc0b88..7a6035d 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -438,7 +438,7 @@ class AnalogContext(Parameter):
 
     def __deepcopy__(self, memo: Any) -> Parameter:
         """Turn off deep copying. Context will be re-created when tile is created"""
-        return Parameter(self._raw_data())
+        return Parameter(self._raw_data(), requires_grad=self.requires_grad)
 
     def cuda(self, device: Optional[Union[torch_device, str, int]] = None) -> "AnalogContext":
         """Move the context to a cuda device.
diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index 5bb7be8..c3f5e5f 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -16,6 +16,7 @@ from numpy.typing import ArrayLike
 
 from torch import Tensor, from_numpy, float32, unsqueeze, cat, empty, stack, dtype, zeros
 from torch import device as torch_device
+from torch.nn import Parameter
 from torch.cuda import device as cuda_device
 from torch.autograd import no_grad
 
@@ -801,6 +802,11 @@ class SimulatorTileWrapper:
             # Keep the object (e.g. an optimizer might already refer to it)
             current_ctx._replace_raw_data(self._get_tile_weights_ref())
             current_ctx.reset(self)
+        elif type(current_ctx) is Parameter:  # pylint: disable=unidiomatic-typecheck
+            # Copied or unpickled: keep the object, because an optimizer that was
+            # copied together with the tile refers to it
+            self.analog_ctx = AnalogContext(self, current_ctx)
+            self.analog_ctx._replace_raw_data(self._get_tile_weights_ref())
         else:
             self.analog_ctx = AnalogContext(self)
 
-- 
2.43.0


From 9d838cdc6645df7f0ff32180bbbde727f8a0ee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 21/96] fix: drift reference of programmed inference tiles is
 part of the state dict

---
 src/aihwkit/simulator/tiles/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index c3f5e5f..92d8868 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -57,6 +57,13 @@ class AnalogTileStateNames:
     ANALOG_STATE_NAME = "analog_tile_state"
     EXTRA = "state_extra"
 
+    # reference for the drift (only set for programmed inference tiles)
+    REFERENCE_WEIGHTS = "reference_combined_weights"
+    PROGRAMMED_WEIGHTS = "programmed_weights"
+    DRIFT_NOISE_PARAMETERS = "drift_noise_parameters"
+    DRIFT_BASELINE = "drift_baseline"
+    DRIFT_READOUT_TENSOR = "drift_readout_tensor"
+
     @staticmethod
     def get_field_names() -> List[str]:
         """Returns expected field names."""
-- 
2.43.0


From 7db521cc5ea81a1f49fae06faa98bc9b23efbab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 22/96] fix: transfer with reset only resets the column that
 was just read

---
 src/rpucuda/rpu_transfer_device.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index db8c7fd..3f1dbb5 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -466,7 +466,8 @@ void TransferRPUDevice<T>::readAndUpdate(
       // potentially reset here (because of possible same device to-from):
       // NOTE that with_reset_prob is COL-wise prob (elem device prob is 1)
       T **W_from = getDeviceWeights(from_device_idx);
-      this->rpu_device_vec_[from_device_idx]->resetCols(W_from, i_slice, n_vec, 1, this->rw_rng_);
+      this->rpu_device_vec_[from_device_idx]->resetCols(
+          W_from, i_slice + (int)i, 1, 1, this->rw_rng_);
     }
 
     // update according to device
-- 
2.43.0


From 885f1cffef1804f94570331e9e849dd76970b63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 23/96] fix: default transfer cycles of higher devices scale
 with the number of transferred vectors

---
 src/rpucuda/rpu_transfer_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_transfer_device.cpp b/src/rpucuda/rpu_transfer_device.cpp
index 3f1dbb5..ec75ac3 100644
--- a/src/rpucuda/rpu_transfer_device.cpp
+++ b/src/rpucuda/rpu_transfer_device.cpp
@@ -184,7 +184,7 @@ void TransferRPUDeviceMetaParameter<T>::initializeWithSize(int x_size, int d_siz
     T n = transfer_every;
     for (size_t i = 0; i < n_devices; i++) {
       transfer_every_vec.push_back(n);
-      n *= (T)_out_size / (T)n_reads_per_transfer;
+      n *= (T)_in_size / (T)n_reads_per_transfer;
     }
     if (no_self_transfer) {
       transfer_every_vec[n_devices - 1] = 0;
-- 
2.43.0


From dae84399f60818fed1f3b42b5f350aa14d50de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 24/96] fix: chopper signs of the reduced weight use the layout
 of the weights

---
 src/rpucuda/rpu_chopped_transfer_device.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/rpucuda/rpu_chopped_transfer_device.cpp b/src/rpucuda/rpu_chopped_transfer_device.cpp
index 6db1e4e..e63530f 100644
--- a/src/rpucuda/rpu_chopped_transfer_device.cpp
+++ b/src/rpucuda/rpu_chopped_transfer_device.cpp
@@ -545,11 +545,14 @@ void ChoppedTransferRPUDevice<T>::reduceToWeights(T **weights) const {
   T *A = *this->weights_vec_[0];
   int size = this->x_size_ * this->d_size_;
 
-  // Layout: W[x_idx * d_size + d_idx] (column-major, d as inner dimension)
+  const auto &d_chopper = (par.transfer_columns) ? out_chopper_ : in_chopper_;
+  const auto &x_chopper = (par.transfer_columns) ? in_chopper_ : out_chopper_;
+
+  // Layout: W[d_idx * x_size + x_idx] (row-major, x as inner dimension)
   for (int idx = 0; idx < size; idx++) {
-    int d_idx = idx % this->d_size_;
-    int x_idx = idx / this->d_size_;
-    T chop = (in_chopper_[x_idx] != out_chopper_[d_idx]) ? (T)-1.0 : (T)1.0;
+    int d_idx = idx / this->x_size_;
+    int x_idx = idx % this->x_size_;
+    T chop = (x_chopper[x_idx] != d_chopper[d_idx]) ? (T)-1.0 : (T)1.0;
     weights[0][idx] += gamma * (chop - (T)1.0) * A[idx];
   }
 }
-- 
2.43.0


From 6de2297853f5b2ee9dffcf18048a3e970ef438ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 25/96] fix: buffered transfer of rows needs a buffer of the
 row size

---
 src/rpucuda/rpu_buffered_transfer_device.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpucuda/rpu_buffered_transfer_device.cpp b/src/rpucuda/rpu_buffered_transfer_device.cpp
index 4e71de7..47e9876 100644
--- a/src/rpucuda/rpu_buffered_transfer_device.cpp
+++ b/src/rpucuda/rpu_buffered_transfer_device.cpp
@@ -109,7 +109,7 @@ template <typename T>
 BufferedTransferRPUDevice<T> &
 BufferedTransferRPUDevice<T>::operator=(BufferedTransferRPUDevice<T> &&other) noexcept {
   TransferRPUDevice<T>::operator=(std::move(other));
-  transfer_buffer_vec_ = std::move(transfer_buffer_vec_);
+  transfer_buffer_vec_ = std::move(other.transfer_buffer_vec_);
 
   return *this;
 }
@@ -156,10 +156,10 @@ void BufferedTransferRPUDevice<T>::readAndUpdate(
     return;
   }
 
-  this->transfer_tmp_.resize(this->d_size_);
   const auto &par = getPar();
   int in_size = par.getInSize();
   int out_size = par.getOutSize();
+  this->transfer_tmp_.resize(out_size);
 
   T weight_granularity = this->rpu_device_vec_[to_device_idx]->getWeightGranularity();
   T buffer_granularity = par.thres_scale * weight_granularity;
-- 
2.43.0


From 6eaa2f297eca034b9a207e088315070181a103ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 26/96] fix: chopped and dynamic transfers ignore the self
 transfer of the last device

---
 src/rpucuda/rpu_chopped_transfer_device.cpp | 5 +++++
 src/rpucuda/rpu_dynamic_transfer_device.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/rpucuda/rpu_chopped_transfer_device.cpp b/src/rpucuda/rpu_chopped_transfer_device.cpp
index e63530f..acf6a09 100644
--- a/src/rpucuda/rpu_chopped_transfer_device.cpp
+++ b/src/rpucuda/rpu_chopped_transfer_device.cpp
@@ -371,6 +371,11 @@ void ChoppedTransferRPUDevice<T>::readAndUpdate(
     return;
   }
 
+  if (to_device_idx == from_device_idx) {
+    // self update not supported
+    return;
+  }
+
   if (to_device_idx != 1 && from_device_idx != 1) {
     RPU_FATAL("Only 2 devices supported");
   }
diff --git a/src/rpucuda/rpu_dynamic_transfer_device.cpp b/src/rpucuda/rpu_dynamic_transfer_device.cpp
index c723dd8..fae460e 100644
--- a/src/rpucuda/rpu_dynamic_transfer_device.cpp
+++ b/src/rpucuda/rpu_dynamic_transfer_device.cpp
@@ -215,6 +215,11 @@ void DynamicTransferRPUDevice<T>::readAndUpdate(
     RPU_FATAL("Only single row transfer supported.");
   }
 
+  if (to_device_idx == from_device_idx) {
+    // self update not supported
+    return;
+  }
+
   if (to_device_idx != 1 && from_device_idx != 1) {
     RPU_FATAL("Only 2 devices supported");
   }
-- 
2.43.0


From fdf61c0f52dce22674dbea99d4c4b75d9ee30507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 27/96] fix: keep the sign of negative learning rates in dense
 pulsed updates

---
 src/rpucuda/dense_bit_line_maker.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/dense_bit_line_maker.cpp b/src/rpucuda/dense_bit_line_maker.cpp
index c66f0be..7f3e7b2 100644
--- a/src/rpucuda/dense_bit_line_maker.cpp
+++ b/src/rpucuda/dense_bit_line_maker.cpp
@@ -280,7 +280,9 @@ int *DenseBitLineMaker<T>::makeCoincidences(
   T A = 0;
   T B = 0;
   int BL = 0;
-  // negative lr allowed in the below, thus (T)fabsf(lr)
+  // negative lr allowed in the below, thus (T)fabsf(lr). The sign of
+  // lr is only applied to x (otherwise it would cancel in the product)
+  const T d_lr = (T)fabsf((float)lr);
   if (up.update_bl_management || up.update_management) {
 
     T x_abs_max = Find_Absolute_Max<T>(x_in, x_size_, x_inc);
@@ -305,7 +307,7 @@ int *DenseBitLineMaker<T>::makeCoincidences(
         x_counts_, x_in, x_inc, x_size_, x_noz, B, rng, BL, up.res, up.sto_round, lr);
     // d counts
     generateCountsMean(
-        d_counts_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.res, up.sto_round, lr);
+        d_counts_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.res, up.sto_round, d_lr);
 
     generateCoincidences(coincidences_, x_counts_, x_size_, d_counts_, d_size_, BL);
     break;
@@ -319,7 +321,7 @@ int *DenseBitLineMaker<T>::makeCoincidences(
 
     // d counts
     generateDetImplicit(
-        d_values_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.d_res_implicit, up.sto_round, lr);
+        d_values_, d_in, d_inc, d_size_, d_noz, A, rng, BL, up.d_res_implicit, up.sto_round, d_lr);
 
     generateCoincidencesDetI(coincidences_, x_values_, x_size_, d_values_, d_size_, BL);
   } break;
-- 
2.43.0


From c6bfa4a940cbdd9351283852b0a089a5e09821ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 28/96] fix: index of the quantized error when only one side of
 the mixed precision update is quantized

---
 src/rpucuda/rpu_mixedprec_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_mixedprec_device.cpp b/src/rpucuda/rpu_mixedprec_device.cpp
index 117cf00..99ddf16 100644
--- a/src/rpucuda/rpu_mixedprec_device.cpp
+++ b/src/rpucuda/rpu_mixedprec_device.cpp
@@ -279,7 +279,7 @@ void MixedPrecRPUDevice<T>::doDirectVectorUpdate(
         d = RPU_ROUNDFUNF(d / d_width + stoch_value);
         d = MIN(MAX(d, -half_d_bins), half_d_bins) * d_width;
       }
-      qd_[i] = d;
+      qd_[j] = d;
     }
 
     RPU::math::ger<T>(
-- 
2.43.0


From 9f5cf8088c62bf08349d48cba131dd8523f87b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 29/96] fix: update resolutions given as number of steps are
 converted

---
 src/rpucuda/rpu_pulsed_meta_parameter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_meta_parameter.cpp b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
index 8bff996..a0b9590 100644
--- a/src/rpucuda/rpu_pulsed_meta_parameter.cpp
+++ b/src/rpucuda/rpu_pulsed_meta_parameter.cpp
@@ -139,9 +139,9 @@ template <typename T> void PulsedUpdateMetaParameter<T>::initialize() {
     // always turn on UM for UBL management
     update_management = update_management || update_bl_management;
 
-    detail::checkRes(res);
-    detail::checkRes(x_res_implicit);
-    detail::checkRes(d_res_implicit);
+    res = detail::checkRes(res);
+    x_res_implicit = detail::checkRes(x_res_implicit);
+    d_res_implicit = detail::checkRes(d_res_implicit);
   }
 
   if (_currently_tuning) {
-- 
2.43.0


From 8c95b5436c4427891e4c2e8dcba07c7654eadedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 30/96] fix: restore the drift and clip state of floating point
 tiles from a checkpoint

---
 src/rpucuda/rpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu.cpp b/src/rpucuda/rpu.cpp
index 8057803..acdce8d 100644
--- a/src/rpucuda/rpu.cpp
+++ b/src/rpucuda/rpu.cpp
@@ -466,21 +466,21 @@ void RPUSimple<T>::loadExtra(const RPU::state_t &extra, const std::string prefix
     }
   }
 
-  if (state.count("wdrifter")) {
+  if (!RPU::selectWithPrefix(state, "wdrifter").empty()) {
     if (!wdrifter_) {
       wdrifter_ = RPU::make_unique<WeightDrifter<T>>(this->x_size_ * this->d_size_, getPar().drift);
     }
     wdrifter_->loadExtra(state, "wdrifter", strict);
   }
 
-  if (state.count("wclipper")) {
+  if (!RPU::selectWithPrefix(state, "wclipper").empty()) {
     if (!wclipper_) {
       wclipper_ = RPU::make_unique<WeightClipper<T>>(this->x_size_, this->d_size_);
     }
     wclipper_->loadExtra(state, "wclipper", strict);
   }
 
-  if (state.count("wremapper")) {
+  if (!RPU::selectWithPrefix(state, "wremapper").empty()) {
     if (!wremapper_) {
       wremapper_ = RPU::make_unique<WeightRemapper<T>>(this->x_size_, this->d_size_);
     }
-- 
2.43.0


From 5f96a7179180a1c48f8c9832d232e2f658e842d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 31/96] fix: restore the state of the weight modifier from a
 checkpoint

---
 src/rpucuda/rpu.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rpucuda/rpu.cpp b/src/rpucuda/rpu.cpp
index acdce8d..d8c00f7 100644
--- a/src/rpucuda/rpu.cpp
+++ b/src/rpucuda/rpu.cpp
@@ -463,6 +463,7 @@ void RPUSimple<T>::loadExtra(const RPU::state_t &extra, const std::string prefix
         fb_weight_modifier_ = RPU::make_unique<WeightModifier<T>>(this->x_size_, this->d_size_);
       }
       RPU::math::copy<T>(tmp.size(), tmp.data(), 1, fb_weights_[0], 1);
+      fb_weight_modifier_->loadExtra(state, "fb_weight_modifier", strict);
     }
   }
 
-- 
2.43.0


From 7d63f2b02129102573eb9544f29b942c78d637d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:16 +0000
Subject: [PATCH 32/96] fix: setting hidden parameters keeps the persistent
 weights of devices with write noise

---
 src/rpucuda/rpu_pulsed_device.cpp | 13 +++++++++++--
 src/rpucuda/rpu_pulsed_device.h   |  1 -
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/rpucuda/rpu_pulsed_device.cpp b/src/rpucuda/rpu_pulsed_device.cpp
index bb4ae5c..c3c9730 100644
--- a/src/rpucuda/rpu_pulsed_device.cpp
+++ b/src/rpucuda/rpu_pulsed_device.cpp
@@ -333,8 +333,17 @@ void PulsedRPUDevice<T>::setDeviceParameter(T **out_weights, const std::vector<T
     this->setWeightGranularity(getPar().calcWeightGranularity());
   }
 
-  // update the weights according to the bounds
-  this->onSetWeights(out_weights);
+  if (getPar().usesPersistentWeight()) {
+    // the persistent weights are given, they must not be replaced by the (noisy) apparent weights
+    PRAGMA_SIMD
+    for (int i = 0; i < this->size_; ++i) {
+      w_persistent_[0][i] = MIN(w_persistent_[0][i], w_max_bound_[0][i]);
+      w_persistent_[0][i] = MAX(w_persistent_[0][i], w_min_bound_[0][i]);
+    }
+  } else {
+    // update the weights according to the bounds
+    this->onSetWeights(out_weights);
+  }
 };
 
 template <typename T> int PulsedRPUDevice<T>::getHiddenWeightsCount() const {
diff --git a/src/rpucuda/rpu_pulsed_device.h b/src/rpucuda/rpu_pulsed_device.h
index dfcc270..8fa22e8 100644
--- a/src/rpucuda/rpu_pulsed_device.h
+++ b/src/rpucuda/rpu_pulsed_device.h
@@ -412,7 +412,6 @@ public:
     std::vector<std::string> names;                                                                \
     PulsedRPUDevice<T>::getDPNames(names);                                                         \
     {V2DP_BODY};                                                                                   \
-    this->onSetWeights(out_weights);                                                               \
   }
 
 #define BUILD_PULSED_DEVICE_META_PARAMETER(                                                        \
-- 
2.43.0


From 2ae45daa9972c3473d5cadc68fee0a53faf43e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:16 +0000
Subject: [PATCH 33/96] fix: discretizing the weights per batch sample in the
 torch tile

---
 src/aihwkit/simulator/tiles/torch_tile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 6bae2a2..d3c3660 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -240,7 +240,7 @@ class TorchSimulatorTile(SimulatorTile, Module):
 
         if modifier.type == WeightModifierType.DISCRETIZE:
             # - Discretize the weights on the fly and backprob through them
-            out_weight = inp_weight.clone().view(target_shape)
+            out_weight = inp_weight.expand(target_shape)
             out_weight = UniformQuantize.apply(
                 out_weight, modifier.res, assumed_wmax, modifier.sto_round
             )
-- 
2.43.0


From 19ac8e322b5de597cfc06bc183c5d000171bf81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:38 +0000
Subject: [PATCH 34/96] fix: remapping zero weights in the torch tile

---
 src/aihwkit/simulator/tiles/torch_tile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index d3c3660..dc8e25e 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -8,7 +8,7 @@
 
 from typing import Callable, Any, Type, TYPE_CHECKING
 
-from torch import Tensor, zeros, clamp, randn
+from torch import Tensor, zeros, clamp, randn, where, ones_like
 from torch.nn import Parameter, Module
 from torch.autograd import no_grad
 
@@ -128,10 +128,12 @@ class TorchSimulatorTile(SimulatorTile, Module):
         scaled_weights = self.weight * scales.view(-1, 1)
         if remap.type == WeightRemapType.LAYERWISE_SYMMETRIC:
             new_scale = scaled_weights.abs().max()
+            new_scale = where(new_scale > 0, new_scale, ones_like(new_scale))
             self.weight.data = scaled_weights / new_scale
             return new_scale.view(-1)
         if remap.type == WeightRemapType.CHANNELWISE_SYMMETRIC:
             new_scale, _ = scaled_weights.abs().max(1)
+            new_scale = where(new_scale > 0, new_scale, ones_like(new_scale))
             self.weight.data = scaled_weights / new_scale.view(-1, 1)
             return new_scale
 
-- 
2.43.0


From a474a4f66dd9d59ba0d30909739bd33d4b02421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:11 +0000
Subject: [PATCH 35/96] fix: discretizing zero weights in the torch tile

---
 src/aihwkit/simulator/tiles/torch_tile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index dc8e25e..4c5458b 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -239,6 +239,7 @@ class TorchSimulatorTile(SimulatorTile, Module):
         assumed_wmax = modifier.assumed_wmax
         if modifier.rel_to_actual_wmax:
             assumed_wmax = inp_weight.abs().max()
+            assumed_wmax = where(assumed_wmax > 0, assumed_wmax, ones_like(assumed_wmax))
 
         if modifier.type == WeightModifierType.DISCRETIZE:
             # - Discretize the weights on the fly and backprob through them
-- 
2.43.0


From 67e9ee1e88c1f19ccc7a78bf226165aadf8e10a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 36/96] fix: drift compensation of tiles with transposed input

---
 src/aihwkit/simulator/tiles/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index 5ac8009..7e938c3 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -129,7 +129,7 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
                 .to(self.device)
             )
             if self.in_trans:
-                self.drift_readout_tensor = self.drift_readout_tensor.tranpose(
+                self.drift_readout_tensor = self.drift_readout_tensor.transpose(
                     0, 1
                 ).clone()
         else:
-- 
2.43.0


From b3da459c48083ce6654be00e3cd9f64c906f20b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 37/96] fix: applying the noise at the time of programming

---
 src/aihwkit/inference/noise/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aihwkit/inference/noise/base.py b/src/aihwkit/inference/noise/base.py
index b20bf89..c34c3d7 100644
--- a/src/aihwkit/inference/noise/base.py
+++ b/src/aihwkit/inference/noise/base.py
@@ -66,6 +66,8 @@ class BaseNoiseModel:
                 noisy_conductances.append(
                     self.apply_drift_noise_to_conductance(g_prog, nu_drift, t_inference)
                 )
+            else:
+                noisy_conductances.append(g_prog)
 
         noisy_weights = self.g_converter.convert_back_to_weights(noisy_conductances, params)
 
-- 
2.43.0


From 69cb745743e0fcaae091a330ca9e2938059496b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 38/96] fix: reference conductance of given programming
 coefficients

---
 src/aihwkit/inference/noise/pcm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aihwkit/inference/noise/pcm.py b/src/aihwkit/inference/noise/pcm.py
index fbaa4c5..ae72943 100644
--- a/src/aihwkit/inference/noise/pcm.py
+++ b/src/aihwkit/inference/noise/pcm.py
@@ -80,6 +80,7 @@ class PCMLikeNoiseModel(BaseNoiseModel):
         if self.g_max is None:
             raise ValueError("g_max cannot be established from g_converter")
 
+        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
         if prog_coeff_g_max_reference is None:
             self.prog_coeff_g_max_reference = self.g_max
 
-- 
2.43.0


From b32ea8fe79f516229ec5cfde9aeba01d74ef78d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 39/96] fix: programming the weights of layers without
 inference tiles

---
 src/aihwkit/nn/modules/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/nn/modules/base.py b/src/aihwkit/nn/modules/base.py
index 3f346b3..2c29ee4 100644
--- a/src/aihwkit/nn/modules/base.py
+++ b/src/aihwkit/nn/modules/base.py
@@ -348,7 +348,10 @@ class AnalogLayerBase:
         if self.training:  # type: ignore
             raise ModuleError("program_analog_weights can only be applied in evaluation mode")
         for analog_tile in self.analog_tiles():
-            analog_tile.program_weights(noise_model=noise_model)
+            if isinstance(analog_tile, InferenceTileWithPeriphery):
+                analog_tile.program_weights(noise_model=noise_model)
+            else:
+                analog_tile.program_weights()
 
     def extra_repr(self) -> str:
         """Set the extra representation of the module.
-- 
2.43.0


From 4c0c963859916b5bb1f2958de720502082978ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:54 +0000
Subject: [PATCH 40/96] fix: reference conductance of the coefficients of the
 Hermes and ReRAM noise models

---
 src/aihwkit/inference/noise/hermes.py | 1 +
 src/aihwkit/inference/noise/reram.py  | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/noise/hermes.py b/src/aihwkit/inference/noise/hermes.py
index c7a84ff..82605c0 100644
--- a/src/aihwkit/inference/noise/hermes.py
+++ b/src/aihwkit/inference/noise/hermes.py
@@ -132,6 +132,7 @@ class HermesNoiseModel(BaseNoiseModel):
         if self.g_max is None:
             raise ValueError("g_max cannot be established from g_converter")
 
+        self.prog_coeff_g_max_reference = prog_coeff_g_max_reference
         if prog_coeff_g_max_reference is None:
             self.prog_coeff_g_max_reference = self.g_max
 
diff --git a/src/aihwkit/inference/noise/reram.py b/src/aihwkit/inference/noise/reram.py
index d154953..db5af74 100644
--- a/src/aihwkit/inference/noise/reram.py
+++ b/src/aihwkit/inference/noise/reram.py
@@ -79,6 +79,7 @@ class ReRamWan2022NoiseModel(BaseNoiseModel):
         if self.g_max is None:
             raise ValueError("g_max cannot be established from g_converter")
 
+        self.coeff_g_max_reference = coeff_g_max_reference
         if coeff_g_max_reference is None:
             self.coeff_g_max_reference = self.g_max
 
@@ -91,7 +92,7 @@ class ReRamWan2022NoiseModel(BaseNoiseModel):
                 3600 * 24.0: [-16.458, 47.095, -50.773, 22.086, 0.701][::-1],
                 3600 * 24.0 * 2: [-11.934, 37.062, -43.507, 20.274, 0.782][::-1],
             }
-            self.prog_coeff_g_max_reference = 40.0
+            self.coeff_g_max_reference = 40.0
         self.coeff_dic = coeff_dic
         self.noise_scale = noise_scale
 
-- 
2.43.0


From ec63076d2cb387699439044a37e55f6cff24508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:54 +0000
Subject: [PATCH 41/96] fix: conductances of constant weights with a single
 device

---
 src/aihwkit/inference/converter/conductance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/converter/conductance.py b/src/aihwkit/inference/converter/conductance.py
index bf19ea0..f1c79c6 100644
--- a/src/aihwkit/inference/converter/conductance.py
+++ b/src/aihwkit/inference/converter/conductance.py
@@ -376,7 +376,7 @@ class SingleDeviceConductanceConverter(BaseConductanceConverter):
     def convert_to_conductances(self, weights: Tensor) -> Tuple[List[Tensor], Dict]:
         w_min = weights.min()
         w_max = weights.max()
-        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min)
+        scale_ratio = (self.g_max - self.g_min) / (w_max - w_min).clamp(min=_ZERO_CLIP)
         scaled_weights = (weights - w_min) * scale_ratio
         conductance = scaled_weights + self.g_min
         params = {"scale_ratio": scale_ratio, "min": w_min}
-- 
2.43.0


From 3e79a8f4252a1af72c8e0da917ca51147581a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 42/96] fix: programming the weights resets the drift
 compensation

---
 src/aihwkit/simulator/tiles/inference.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/inference.py b/src/aihwkit/simulator/tiles/inference.py
index 7e938c3..12fc519 100644
--- a/src/aihwkit/simulator/tiles/inference.py
+++ b/src/aihwkit/simulator/tiles/inference.py
@@ -11,7 +11,7 @@
 from typing import Optional, Union, Any, Tuple, List, Dict, TYPE_CHECKING
 
 from torch import device as torch_device
-from torch import ones, Tensor
+from torch import ones, ones_like, Tensor
 from torch.nn import Module
 from torch.autograd import no_grad
 
@@ -214,6 +214,8 @@ class InferenceTileWithPeriphery(TileWithPeriphery):
             and self.rpu_config.drift_compensation is not None
         ):
             self.drift_baseline = self.rpu_config.drift_compensation.init_baseline(self)
+            # the newly programmed weights have not drifted yet
+            self.alpha = ones_like(self.alpha)
 
     @no_grad()
     def drift_weights(self, t_inference: float = 0.0) -> None:
-- 
2.43.0


From 5f6676416ffca776db9b0c87cced0acee9ebcb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:58 +0000
Subject: [PATCH 43/96] fix: loading the drift compensation factor of each
 output

---
 src/aihwkit/simulator/tiles/module.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/module.py b/src/aihwkit/simulator/tiles/module.py
index 2fee5bd..bb33706 100644
--- a/src/aihwkit/simulator/tiles/module.py
+++ b/src/aihwkit/simulator/tiles/module.py
@@ -436,3 +436,9 @@ class TileModule(Module, TileModuleBase):
                 analog_tile.set_mapping_scales(scales)
             elif not getattr(mapping, "weight_scaling_omega", 0.0):
                 analog_tile.set_mapping_scales(None)
+
+        # likewise for the drift compensation (eg. one factor per output)
+        alpha = state_dict.get(prefix + "alpha")
+        if isinstance(alpha, Tensor) and isinstance(getattr(analog_tile, "alpha", None), Tensor):
+            if alpha.shape != analog_tile.alpha.shape:
+                analog_tile.alpha = alpha.detach().clone().to(analog_tile.alpha.device)
-- 
2.43.0


From 7214b51d85283c107aecdb208fe66750170d8f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 44/96] fix: indexed convolutions of varying image sizes

---
 src/aihwkit/nn/modules/conv.py           |  8 +++-----
 src/aihwkit/nn/modules/conv_mapped.py    |  5 ++---
 src/aihwkit/optim/analog_optimizer.py    | 10 ++++++++--
 src/aihwkit/optim/context.py             |  2 ++
 src/aihwkit/simulator/tiles/base.py      |  1 +
 src/aihwkit/simulator/tiles/functions.py |  8 ++++++++
 src/aihwkit/simulator/tiles/periphery.py |  6 ++++++
 7 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/aihwkit/nn/modules/conv.py b/src/aihwkit/nn/modules/conv.py
index 6859e95..973205d 100644
--- a/src/aihwkit/nn/modules/conv.py
+++ b/src/aihwkit/nn/modules/conv.py
@@ -128,9 +128,8 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
     def _recalculate_indexes(self, x_input: Tensor) -> None:
         """Calculate and set the indexes of the analog tile."""
 
-        self.fold_indices, image_sizes, self.input_size = self._calculate_indexes(
-            x_input, self.in_channels
-        )
+        self.fold_indices, image_sizes, _ = self._calculate_indexes(x_input, self.in_channels)
+        self.input_size = x_input.shape[1:]
         self.analog_module.set_indexed(self.fold_indices, image_sizes)
 
     @no_grad()
@@ -164,8 +163,7 @@ class _AnalogConvNd(AnalogLayerBase, _ConvNd):
         if not use_indexed and self.NEEDS_INDEXED:
             raise ModuleError("Tile module does not support indexed computation.")
         if use_indexed:
-            input_size = x_input.numel() / x_input.size(0)
-            if self.input_size != input_size or not self.analog_module.is_indexed():
+            if self.input_size != x_input.shape[1:] or not self.analog_module.is_indexed():
                 self._recalculate_indexes(x_input)
             return self.analog_module(x_input, tensor_view=self.tensor_view)
 
diff --git a/src/aihwkit/nn/modules/conv_mapped.py b/src/aihwkit/nn/modules/conv_mapped.py
index 65caa2f..ba6f16a 100644
--- a/src/aihwkit/nn/modules/conv_mapped.py
+++ b/src/aihwkit/nn/modules/conv_mapped.py
@@ -194,7 +194,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
             dimensional
 
         """
-        self.input_size = x_input.numel() / x_input.size(0)
+        self.input_size = x_input.shape[1:]
         if x_input.ndim < 3:
             raise ModuleError("Expect >2-dim inputs to convolutions")
         channel_dim = 1
@@ -234,8 +234,7 @@ class _AnalogConvNdMapped(AnalogLayerBase, _ConvNd):
         use_indexed = self.use_indexed and analog_tile.supports_indexed
 
         if use_indexed:
-            input_size = x_input.numel() / x_input.size(0)
-            if self.input_size != input_size or not analog_tile.is_indexed():
+            if self.input_size != x_input.shape[1:] or not analog_tile.is_indexed():
                 self._recalculate_indexes(x_input)
 
         if self.analog_tile_count() == 1:
diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index 240b76d..ff5bd50 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -121,9 +121,14 @@ class AnalogOptimizerMixin:
 
                     runtime = analog_tile.get_runtime()
                     if analog_ctx.use_indexed:
-                        for x_input, d_input in zip(
-                            analog_ctx.analog_input, analog_ctx.analog_grad_output
+                        indexed = analog_tile.get_indexed()
+                        for x_input, d_input, used_indexed in zip(
+                            analog_ctx.analog_input,
+                            analog_ctx.analog_grad_output,
+                            analog_ctx.analog_indexed,
                         ):
+                            # image sizes might vary
+                            analog_tile.set_indexed(*used_indexed)
                             analog_tile.update_indexed(
                                 (
                                     x_input.to(analog_tile.device)
@@ -136,6 +141,7 @@ class AnalogOptimizerMixin:
                                     else d_input
                                 ),
                             )
+                        analog_tile.set_indexed(*indexed)
                     else:
                         # flatten all but the feature dim as the other dims might vary
                         x_input = self._cat_samples(analog_ctx.analog_input, analog_tile.in_trans)
diff --git a/src/aihwkit/optim/context.py b/src/aihwkit/optim/context.py
index 7a6035d..2cd60a1 100644
--- a/src/aihwkit/optim/context.py
+++ b/src/aihwkit/optim/context.py
@@ -145,6 +145,7 @@ class AnalogContext(Parameter):
         self._data_buffer = None  # type: Optional[Tensor]
         self.analog_input = []  # type: list
         self.analog_grad_output = []  # type: list
+        self.analog_indexed = []  # type: list
         self.reset(analog_tile)
 
     @classmethod
@@ -426,6 +427,7 @@ class AnalogContext(Parameter):
 
         self.analog_input = []
         self.analog_grad_output = []
+        self.analog_indexed = []
 
     def has_gradient(self) -> bool:
         """Return whether a gradient trace was stored."""
diff --git a/src/aihwkit/simulator/tiles/base.py b/src/aihwkit/simulator/tiles/base.py
index 92d8868..65959ce 100644
--- a/src/aihwkit/simulator/tiles/base.py
+++ b/src/aihwkit/simulator/tiles/base.py
@@ -677,6 +677,7 @@ class SimulatorTileWrapper:
 
         # this is should not be saved.
         current_dict.pop("image_sizes", None)
+        current_dict.pop("matrix_indices", None)
         # Shared weight tensor is rebuilt by _bind_shared_weights().
         current_dict.pop("_shared_weight_tensor", None)
 
diff --git a/src/aihwkit/simulator/tiles/functions.py b/src/aihwkit/simulator/tiles/functions.py
index d6047c4..b5eb40c 100644
--- a/src/aihwkit/simulator/tiles/functions.py
+++ b/src/aihwkit/simulator/tiles/functions.py
@@ -51,6 +51,7 @@ class AnalogFunction(Function):
 
         # Invoke the forward pass in the tile instance.
         if use_indexed:
+            ctx.indexed = analog_tile.get_indexed()
             out = analog_tile.joint_forward_indexed(input_, is_test, ctx)
         else:
             out = analog_tile.joint_forward(input_, is_test, ctx)
@@ -84,6 +85,9 @@ class AnalogFunction(Function):
 
         # Call the backward function in the tile instance.
         if use_indexed:
+            # the image size might have changed since the forward pass
+            indexed = analog_tile.get_indexed()
+            analog_tile.set_indexed(*ctx.indexed)
             grad_input = analog_tile.backward_indexed(grad_output, ctx)
         else:
             grad_input = analog_tile.backward(grad_output, ctx)
@@ -111,6 +115,10 @@ class AnalogFunction(Function):
             else:
                 store_gradients = grad_output
             analog_ctx.analog_grad_output.append(store_gradients.clone())
+            analog_ctx.analog_indexed.append(ctx.indexed if use_indexed else None)
+
+        if use_indexed:
+            analog_tile.set_indexed(*indexed)
 
         ctx.saved_analog_tensors = []
         return None, None, grad_input, shared_weights_grad, None
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 29b178d..9685977 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -85,6 +85,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         self.bias_quantizer = None  # type: Optional[QuantizationManager]
 
         self.image_sizes = []  # type: List[int]
+        self.matrix_indices = None  # type: Optional[Tensor]
 
         if self.digital_bias:
             # Note that the bias needs to be handled on the module level
@@ -1301,8 +1302,13 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
             raise TileError("Transposed indexed versions not supported (assumes NC(D)HW)")
         self.analog_ctx.set_indexed()
         self.image_sizes = image_sizes
+        self.matrix_indices = indices
         self.tile.set_matrix_indices(indices)
 
+    def get_indexed(self) -> Tuple[Tensor, List]:
+        """Return the index matrix and image sizes given in :meth:`set_indexed`."""
+        return self.matrix_indices, self.image_sizes
+
     @no_grad()
     def joint_forward_indexed(
         self, x_input: Tensor, is_test: bool = False, ctx: Any = None
-- 
2.43.0


From 7ce2aa00bc94b9bef51064f147d28c90e2d9305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 45/96] fix: reading the weights of indexed tiles after loading

---
 src/aihwkit/simulator/tiles/periphery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 9685977..e6a26b8 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -403,7 +403,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
         # forward pass in eval mode
         was_training = self.training
-        is_indexed = self.is_indexed()
+        is_indexed = self.analog_ctx.use_indexed
         self.eval()
         if is_indexed:
             self.analog_ctx.set_indexed(False)
-- 
2.43.0


From 5656a8469c531e3d36cee16912ad48aabd28180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 46/96] fix: return a copy of the digital bias from get_weights
 and read_weights

---
 src/aihwkit/simulator/tiles/array.py     | 2 +-
 src/aihwkit/simulator/tiles/periphery.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index 8469312..c175dbe 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -149,7 +149,7 @@ class TileModuleArray(Module, TileModuleBase):
         weight = cat(weight_lst, 1)
 
         if self.bias is not None:
-            return weight, self.bias.data
+            return weight, self.bias.detach().cpu().clone()
         return weight, None
 
     def forward(self, x_input: Tensor, tensor_view: Optional[Tuple] = None) -> Tensor:
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index e6a26b8..f1ea3b9 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -232,7 +232,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         weight, bias = self._separate_weights(combined_weights)
 
         if self.digital_bias:
-            bias = self.bias.detach().cpu()
+            bias = self.bias.detach().cpu().clone()
 
         if not apply_weight_scaling:
             return weight, bias
@@ -425,7 +425,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
         weight, bias = self._separate_weights(est_weight)
 
         if self.digital_bias:
-            bias = self.bias.detach().cpu()
+            bias = self.bias.detach().cpu().clone()
 
         if not apply_weight_scaling:
             # we de-apply all scales
-- 
2.43.0


From 2fc35abef00b9708549e971d80061611be201067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 47/96] fix: update the weights of the custom tile in place so
 that the analog context stays current

---
 src/aihwkit/simulator/tiles/custom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/custom.py b/src/aihwkit/simulator/tiles/custom.py
index 22c19b4..f12011a 100644
--- a/src/aihwkit/simulator/tiles/custom.py
+++ b/src/aihwkit/simulator/tiles/custom.py
@@ -132,7 +132,8 @@ class CustomSimulatorTile(SimulatorTile, Module):
         if self._update.gradient_noise:
             delta_w += self._update.gradient_noise * randn_like(delta_w)
 
-        self._analog_weight = self._analog_weight - self.learning_rate * delta_w  # type: ignore
+        # in-place, as the analog context shares the memory
+        self._analog_weight.data.sub_(self.learning_rate * delta_w)
 
     def set_config(self, rpu_config: "CustomRPUConfig") -> None:
         """Updated the configuration to allow on-the-fly changes.
-- 
2.43.0


From 11ce19f97028412e2ec8966f5872b5a1ec4b6a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 48/96] fix: set_weights_uniform_random of the custom tile
 respects the given bounds

---
 src/aihwkit/simulator/tiles/custom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/custom.py b/src/aihwkit/simulator/tiles/custom.py
index f12011a..d48debe 100644
--- a/src/aihwkit/simulator/tiles/custom.py
+++ b/src/aihwkit/simulator/tiles/custom.py
@@ -214,7 +214,7 @@ class CustomSimulatorTile(SimulatorTile, Module):
         """
         if bmin >= bmax:
             raise TileError("Bmin should be smaller than bmax")
-        self.set_weights(rand_like(self.get_weights()) / (bmax - bmin) - bmin)
+        self.set_weights(rand_like(self.get_weights()) * (bmax - bmin) + bmin)
 
     def get_meta_parameters(self) -> Any:
         """Returns meta parameters."""
-- 
2.43.0


From d05b593eb1dbd1480a82cb291075bc6b0d8d9b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:40 +0000
Subject: [PATCH 49/96] fix: clip and remap the weights of the torch tile in
 place so that the analog context stays current

---
 src/aihwkit/simulator/tiles/torch_tile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/torch_tile.py b/src/aihwkit/simulator/tiles/torch_tile.py
index 4c5458b..520e970 100644
--- a/src/aihwkit/simulator/tiles/torch_tile.py
+++ b/src/aihwkit/simulator/tiles/torch_tile.py
@@ -129,12 +129,12 @@ class TorchSimulatorTile(SimulatorTile, Module):
         if remap.type == WeightRemapType.LAYERWISE_SYMMETRIC:
             new_scale = scaled_weights.abs().max()
             new_scale = where(new_scale > 0, new_scale, ones_like(new_scale))
-            self.weight.data = scaled_weights / new_scale
+            self.weight.data.copy_(scaled_weights / new_scale)
             return new_scale.view(-1)
         if remap.type == WeightRemapType.CHANNELWISE_SYMMETRIC:
             new_scale, _ = scaled_weights.abs().max(1)
             new_scale = where(new_scale > 0, new_scale, ones_like(new_scale))
-            self.weight.data = scaled_weights / new_scale.view(-1, 1)
+            self.weight.data.copy_(scaled_weights / new_scale.view(-1, 1))
             return new_scale
 
         raise TorchTileConfigError(f"Unknown weight remap type {remap.type}")
@@ -152,12 +152,12 @@ class TorchSimulatorTile(SimulatorTile, Module):
         """
 
         if clip.type == WeightClipType.FIXED_VALUE:
-            self.weight.data = clamp(self.weight, -clip.fixed_value, clip.fixed_value)
+            self.weight.data.copy_(clamp(self.weight, -clip.fixed_value, clip.fixed_value))
         elif clip.type == WeightClipType.LAYER_GAUSSIAN:
             alpha = self.weight.std() * clip.sigma
             if clip.fixed_value > 0:
                 alpha = min(clip.fixed_value, alpha)
-            self.weight.data = clamp(self.weight, -alpha, alpha)
+            self.weight.data.copy_(clamp(self.weight, -alpha, alpha))
 
         elif clip.type == WeightClipType.AVERAGE_CHANNEL_MAX:
             raise NotImplementedError
-- 
2.43.0


From 7e188f24a59a5e553948483885c18887b4b45657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:26 +0000
Subject: [PATCH 50/96] fix: modules registered several times stay in converted
 models and stay shared

---
 src/aihwkit/nn/conversion.py        | 39 ++++++++++++++++++++++++-----
 src/aihwkit/nn/modules/container.py |  5 ++--
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/aihwkit/nn/conversion.py b/src/aihwkit/nn/conversion.py
index f148a62..fdb24cd 100644
--- a/src/aihwkit/nn/conversion.py
+++ b/src/aihwkit/nn/conversion.py
@@ -88,6 +88,7 @@ def convert_to_analog(
     exclude_modules: Optional[List[str]] = None,
     inplace: bool = False,
     verbose: bool = False,
+    memo: Optional[Dict] = None,
 ) -> Module:
     """Convert a given digital model to its analog counterpart.
 
@@ -138,6 +139,8 @@ def convert_to_analog(
 
         verbose: Increase verbosity. Will print converted layers.
 
+        memo: Modules converted already (used internally), so that
+            modules registered multiple times stay shared.
 
     Returns:
         Module where all the digital layers are replaced with analog
@@ -151,6 +154,9 @@ def convert_to_analog(
     if exclude_modules is None:
         exclude_modules = []
 
+    if memo is None:
+        memo = {}
+
     if not inplace:
         module = deepcopy(module)
 
@@ -175,15 +181,21 @@ def convert_to_analog(
 
     # Convert children.
     convert_dic = {}
-    for name, mod in module.named_children():
+    for name, mod in module._modules.items():  # pylint: disable=protected-access
+        if mod is None:
+            continue
         full_name = module_name + "." + name if module_name else name
 
         if full_name in exclude_modules:
             continue
 
+        if mod in memo:
+            convert_dic[name] = memo[mod]
+            continue
+
         n_grand_children = len(list(mod.named_children()))
         if n_grand_children > 0:
-            convert_dic[name] = convert_to_analog(
+            convert_dic[name] = memo[mod] = convert_to_analog(
                 mod,
                 rpu_config,
                 tile_module_class,
@@ -194,6 +206,7 @@ def convert_to_analog(
                 exclude_modules,
                 True,
                 verbose,
+                memo,
             )
             continue
 
@@ -201,7 +214,7 @@ def convert_to_analog(
             continue
         if verbose:
             print(f"Converted '{full_name}' to '{conversion_map[mod.__class__].__name__}'.")
-        convert_dic[name] = conversion_map[mod.__class__].from_digital(
+        convert_dic[name] = memo[mod] = conversion_map[mod.__class__].from_digital(
             mod, specific_rpu_config_fun(full_name, mod, deepcopy(rpu_config)), tile_module_class
         )
 
@@ -220,6 +233,7 @@ def convert_to_digital(
     conversion_set: Optional[Set] = None,
     module_name: str = "",
     inplace: bool = False,
+    memo: Optional[Dict] = None,
 ) -> Module:
     """Convert a given analog model to digital counter parts.
 
@@ -247,6 +261,9 @@ def convert_to_digital(
 
         inplace: Whether to for in place conversion (without deepcopy)
 
+        memo: Modules converted already (used internally), so that
+            modules registered multiple times stay shared.
+
     Returns:
         Module where all the analog layers are replaced with digital
         layers
@@ -257,6 +274,9 @@ def convert_to_digital(
     """
     # pylint: disable=too-many-branches
 
+    if memo is None:
+        memo = {}
+
     if not inplace:
         module = deepcopy(module)
 
@@ -277,12 +297,19 @@ def convert_to_digital(
 
     # Convert children.
     convert_dic = {}
-    for name, mod in module.named_children():
+    for name, mod in module._modules.items():  # pylint: disable=protected-access
+        if mod is None:
+            continue
+        if mod in memo:
+            convert_dic[name] = memo[mod]
+            continue
         full_name = module_name + "." + name if module_name else name
         n_grand_children = len(list(mod.named_children()))
 
         if n_grand_children > 0:
-            convert_dic[name] = convert_to_digital(mod, conversion_set, full_name, inplace=True)
+            convert_dic[name] = memo[mod] = convert_to_digital(
+                mod, conversion_set, full_name, inplace=True, memo=memo
+            )
             continue
 
         if mod.__class__ not in conversion_set:
@@ -293,7 +320,7 @@ def convert_to_digital(
                 "The conversion set should only contain "
                 "analog layers that support `to_digital` conversion."
             )
-        convert_dic[name] = mod.to_digital(mod)  # type: ignore
+        convert_dic[name] = memo[mod] = mod.to_digital(mod)  # type: ignore
 
     for name, new_mod in convert_dic.items():
         module._modules[name] = new_mod  # pylint: disable=protected-access
diff --git a/src/aihwkit/nn/modules/container.py b/src/aihwkit/nn/modules/container.py
index 7f5d36b..4768a80 100644
--- a/src/aihwkit/nn/modules/container.py
+++ b/src/aihwkit/nn/modules/container.py
@@ -77,12 +77,13 @@ class AnalogSequential(AnalogContainerBase, Sequential):
     @classmethod
     def from_digital(cls, module: Sequential, *args: Any, **kwargs: Any) -> "AnalogSequential":
         """Construct AnalogSequential in-place from Sequential."""
-        return cls(OrderedDict(mod for mod in module.named_children()))
+        return cls(OrderedDict(module._modules.items()))  # pylint: disable=protected-access
 
     @classmethod
     def to_digital(cls, module: "AnalogSequential", *args: Any, **kwargs: Any) -> Sequential:
         """Construct Sequential in-place from AnalogSequential."""
-        return Sequential(OrderedDict(mod for mod in module.named_children()))
+        # pylint: disable=protected-access
+        return Sequential(OrderedDict(module._modules.items()))
 
 
 class AnalogWrapper(AnalogContainerBase):
-- 
2.43.0


From 85ee545073c753f7c9eb2ac1b6b4adb0ca3f8b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 51/96] fix: wrapper classes of models and optimizers are told
 apart by class and not by name

---
 src/aihwkit/nn/modules/container.py   |  9 +++++----
 src/aihwkit/optim/analog_optimizer.py | 11 ++++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/aihwkit/nn/modules/container.py b/src/aihwkit/nn/modules/container.py
index 4768a80..0fb8aa6 100644
--- a/src/aihwkit/nn/modules/container.py
+++ b/src/aihwkit/nn/modules/container.py
@@ -101,7 +101,7 @@ class AnalogWrapper(AnalogContainerBase):
          model: model to wrap with the analog wrapper.
     """
 
-    SUBCLASSES = {}  # type: Dict[str, Type]
+    SUBCLASSES = {}  # type: Dict[Tuple[Type, Type], Type]
     """Registry of the created subclasses."""
 
     def __new__(cls, module: Optional[Module] = None, **__: Any) -> "AnalogWrapper":
@@ -115,10 +115,11 @@ class AnalogWrapper(AnalogContainerBase):
         # Retrieve or create a new subclass, that inherits both from
         # `AnalogModuleBase` and for the specific torch module
         # (`module_cls`).
-        if subclass_name not in cls.SUBCLASSES:
-            cls.SUBCLASSES[subclass_name] = new_class(subclass_name, (cls, module_cls), {})
+        key = (cls, module_cls)
+        if key not in cls.SUBCLASSES:
+            cls.SUBCLASSES[key] = new_class(subclass_name, (cls, module_cls), {})
 
-        return super().__new__(cls.SUBCLASSES[subclass_name])
+        return super().__new__(cls.SUBCLASSES[key])
 
     def __init__(self, module: Module):
         self.__dict__.update(module.__dict__)
diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index ff5bd50..a444fa9 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -7,7 +7,7 @@
 """Analog-aware inference optimizer."""
 
 from types import new_class
-from typing import Any, Callable, Dict, List, Optional, Type
+from typing import Any, Callable, Dict, List, Optional, Tuple, Type
 
 from torch import cat, Tensor
 from torch.optim import Optimizer, SGD, Adam
@@ -213,7 +213,7 @@ class AnalogOptimizer(AnalogOptimizerMixin, Optimizer):
         >>> optimizer = AnalogOptimizer(SGD, model.parameters(), lr=0.02)
     """
 
-    SUBCLASSES = {}  # type: Dict[str, Type]
+    SUBCLASSES = {}  # type: Dict[Tuple[Type, Type], Type]
     """Registry of the created subclasses."""
 
     def __new__(cls, optimizer_cls: Type, *_: Any, **__: Any) -> "AnalogOptimizer":
@@ -222,10 +222,11 @@ class AnalogOptimizer(AnalogOptimizerMixin, Optimizer):
         # Retrieve or create a new subclass, that inherits both from
         # `AnalogOptimizer` and for the specific torch optimizer
         # (`optimizer_cls`).
-        if subclass_name not in cls.SUBCLASSES:
-            cls.SUBCLASSES[subclass_name] = new_class(subclass_name, (cls, optimizer_cls), {})
+        key = (cls, optimizer_cls)
+        if key not in cls.SUBCLASSES:
+            cls.SUBCLASSES[key] = new_class(subclass_name, (cls, optimizer_cls), {})
 
-        return super().__new__(cls.SUBCLASSES[subclass_name])
+        return super().__new__(cls.SUBCLASSES[key])
 
     def __init__(
         self, optimizer_cls: Type, *args: Any, **kwargs: Any  # pylint: disable=unused-argument
-- 
2.43.0


From c5dd31317c8c3b6cb98c1759946d68f3df0ad0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 52/96] fix: converted layers keep the training mode of the
 original layers

---
 src/aihwkit/nn/conversion.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/aihwkit/nn/conversion.py b/src/aihwkit/nn/conversion.py
index fdb24cd..2ee662f 100644
--- a/src/aihwkit/nn/conversion.py
+++ b/src/aihwkit/nn/conversion.py
@@ -16,6 +16,7 @@ from copy import deepcopy
 from torch.nn import Module, Linear, Conv1d, Conv2d, Conv3d, Sequential
 
 from aihwkit.exceptions import ArgumentError
+from aihwkit.simulator.tiles.base import TileModuleBase
 from aihwkit.simulator.tiles.module import TileModule
 from aihwkit.nn.modules.container import AnalogWrapper
 from aihwkit.nn.modules.base import AnalogLayerBase
@@ -77,6 +78,15 @@ def specific_rpu_config_id(
     return rpu_config
 
 
+def _keep_training_mode(new_module: Module, old_module: Module) -> Module:
+    """Put the converted module into the mode of the original module (the
+    children of containers keep their modes)."""
+    if all(isinstance(mod, TileModuleBase) for mod in new_module.children()):
+        return new_module.train(old_module.training)
+    new_module.training = old_module.training
+    return new_module
+
+
 def convert_to_analog(
     module: Module,
     rpu_config: RPUConfigGeneric,
@@ -173,10 +183,13 @@ def convert_to_analog(
     if module.__class__ in conversion_map and module_name not in exclude_modules:
         if verbose:
             print(f"Converted '{module_name}' to '{conversion_map[module.__class__].__name__}'.")
-        module = conversion_map[module.__class__].from_digital(
+        module = _keep_training_mode(
+            conversion_map[module.__class__].from_digital(
+                module,
+                specific_rpu_config_fun(module_name, module, deepcopy(rpu_config)),
+                tile_module_class,
+            ),
             module,
-            specific_rpu_config_fun(module_name, module, deepcopy(rpu_config)),
-            tile_module_class,
         )
 
     # Convert children.
@@ -214,8 +227,11 @@ def convert_to_analog(
             continue
         if verbose:
             print(f"Converted '{full_name}' to '{conversion_map[mod.__class__].__name__}'.")
-        convert_dic[name] = memo[mod] = conversion_map[mod.__class__].from_digital(
-            mod, specific_rpu_config_fun(full_name, mod, deepcopy(rpu_config)), tile_module_class
+        convert_dic[name] = memo[mod] = _keep_training_mode(
+            conversion_map[mod.__class__].from_digital(
+                mod, specific_rpu_config_fun(full_name, mod, deepcopy(rpu_config)), tile_module_class
+            ),
+            mod,
         )
 
     for name, new_mod in convert_dic.items():
@@ -293,7 +309,7 @@ def convert_to_digital(
                 "The conversion set should only contain "
                 "analog layers that support `to_digital` conversion."
             )
-        module = module.__class__.to_digital(module)
+        module = _keep_training_mode(module.__class__.to_digital(module), module)
 
     # Convert children.
     convert_dic = {}
@@ -320,7 +336,7 @@ def convert_to_digital(
                 "The conversion set should only contain "
                 "analog layers that support `to_digital` conversion."
             )
-        convert_dic[name] = memo[mod] = mod.to_digital(mod)  # type: ignore
+        convert_dic[name] = memo[mod] = _keep_training_mode(mod.to_digital(mod), mod)
 
     for name, new_mod in convert_dic.items():
         module._modules[name] = new_mod  # pylint: disable=protected-access
-- 
2.43.0


From 5f4128ca0f1a36e1416ba2e6554e242189084599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 53/96] fix: calibration of only the layers with enabled input
 range

With force_all_layers=False layers with disabled input range were enabled
after the forward passes, without calibration, and raised a KeyError.
---
 .../inference/calibration/calibration.py        | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index 793d5c5..2fbf50e 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -249,23 +249,12 @@ def calibrate_input_ranges(
     for handle in handles:
         handle.remove()
 
-    # now create the input range fields
     for tile_name, tile in model.named_analog_tiles():
-        rpu_config = tile.rpu_config
-        if not rpu_config.pre_post.input_range.enable:
-            rpu_config.pre_post.input_range.enable = True
-            rpu_config.pre_post.input_range.learn_input_range = False
-            tile.init_input_processing()
-
-    for tile_name, tile in model.named_analog_tiles():
-        rpu_config = tile.rpu_config
-
-        if not isinstance(rpu_config, PrePostProcessingRPU) or not hasattr(rpu_config, "forward"):
-            continue
-
-        if not force_all_layers and not rpu_config.pre_post.input_range.enable:
+        if tile_name not in cache:
+            # not calibrated
             continue
 
+        rpu_config = tile.rpu_config
         inputs = cache[tile_name]
         if inputs.numel() == 0:
             if verbose:
-- 
2.43.0


From d9fd6dbf533645d381a2e87892c52610f7f250fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 54/96] fix: calibration with inputs that are all zero

Batches with only zero inputs raised an error and tiles which have not seen any
other inputs were left with a perfect forward pass.
---
 .../inference/calibration/calibration.py      | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index 2fbf50e..cf7b424 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -78,6 +78,9 @@ def _calibration_pre_forward(
     x_input = input_args[0]
     x_input = x_input.reshape(-1, x_input.size(-1))
     x_input = x_input[~(x_input == 0.0).all(-1)]
+    if x_input.numel() == 0:
+        # nothing to learn from
+        return
 
     ir_params = mod.rpu_config.pre_post.input_range  # type: ignore
     cache = global_cache[cache_key]
@@ -255,6 +258,14 @@ def calibrate_input_ranges(
             continue
 
         rpu_config = tile.rpu_config
+        # Restore the tile if necessary
+        if rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
+            tile_state = tile.__getstate__()
+            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
+                tile_name
+            ]
+            tile.__setstate__(tile_state)
+
         inputs = cache[tile_name]
         if inputs.numel() == 0:
             if verbose:
@@ -269,14 +280,6 @@ def calibrate_input_ranges(
         elif calibration_type == InputRangeCalibrationType.MAX:
             input_range = inputs.item()
 
-        # Restore the tile if necessary
-        if rpu_config.forward.is_perfect != is_perfect_dic[tile_name]:
-            tile_state = tile.__getstate__()
-            tile_state[AnalogTileStateNames.RPU_CONFIG].forward.is_perfect = is_perfect_dic[
-                tile_name
-            ]
-            tile.__setstate__(tile_state)
-
         # set the input range
         tile.set_input_range(input_range)
         if verbose:
-- 
2.43.0


From 0a1c5920a6b8a89e2051a224f8e0892a64db821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 55/96] fix: moving averages of the input range calibration
 start anew

The averages were continued from the former training or calibration, and the
calibration info was not stored.
---
 src/aihwkit/inference/calibration/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index cf7b424..bbb185d 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -203,6 +203,7 @@ def calibrate_input_ranges(
             tile.init_input_processing()
 
         rpu_config.pre_post.input_range.init_from_data = 0  # turn off on-the-fly mechanism
+        tile.input_range_update_idx.data.zero_()  # start anew, if averaged
 
         if std_alpha is not None:
             rpu_config.pre_post.input_range.init_std_alpha = std_alpha
@@ -267,7 +268,7 @@ def calibrate_input_ranges(
             tile.__setstate__(tile_state)
 
         inputs = cache[tile_name]
-        if inputs.numel() == 0:
+        if inputs.numel() == 0 and tile.input_range_update_idx.item() == 0:
             if verbose:
                 print(f"Warning: Tile {tile_name} cached inputs is empty")
             continue
-- 
2.43.0


From d80db56977bc0c3d1947048dc75f1bb08979384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 56/96] fix: input range calibration uses the quantile of the
 magnitude of the inputs

The input range clips symmetrically, the quantile of the signed inputs could
clip most of the inputs (e.g. if all are negative).
---
 src/aihwkit/inference/calibration/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index bbb185d..cf328a7 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -110,7 +110,7 @@ def _calibration_pre_forward(
             val = (
                 x_input.abs().max()
                 if ir_quantile == 1.0
-                else x_input.flatten().quantile(ir_quantile)
+                else x_input.abs().flatten().quantile(ir_quantile)
             ).item()
         else:
             if idx < max_samples:
@@ -277,7 +277,7 @@ def calibrate_input_ranges(
         # Compute on the cache
 
         if calibration_type == InputRangeCalibrationType.CACHE_QUANTILE:
-            input_range = inputs.flatten().quantile(quantile).item()
+            input_range = inputs.abs().flatten().quantile(quantile).item()
         elif calibration_type == InputRangeCalibrationType.MAX:
             input_range = inputs.item()
 
-- 
2.43.0


From ccc56c977191fbab8f45fc2bd6051bacdeb27423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 57/96] fix: calibration keeps the training modes of all
 submodules

---
 src/aihwkit/inference/calibration/calibration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index cf328a7..c1d7357 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -180,7 +180,7 @@ def calibrate_input_ranges(
     if not isinstance(model, AnalogLayerBase) or not isinstance(model, Module):
         raise ArgumentError("Expect an analog module")
 
-    was_training = cast(Module, model).training
+    was_training = [mod for mod in cast(Module, model).modules() if mod.training]
     model = cast(Module, model).eval()
     handles = []
     is_perfect_dic = {}
@@ -290,8 +290,8 @@ def calibrate_input_ranges(
         rpu_config.pre_post.input_range.init_value = tile.input_range.item()
         rpu_config.pre_post.input_range.calibration_info = calibration_type.value
 
-    if was_training:
-        model = cast(Module, model).train()
+    for mod in was_training:
+        mod.training = True
 
 
 def calibrate_quantization_ranges(
-- 
2.43.0


From cb99f714f09c7a47905639106e1b98f4935ba964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 58/96] fix: gradient scale of the input range applies also to
 absolute gradients

---
 src/aihwkit/simulator/tiles/inference_torch.py | 2 +-
 src/aihwkit/simulator/tiles/periphery.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/inference_torch.py b/src/aihwkit/simulator/tiles/inference_torch.py
index 36880d1..950d818 100644
--- a/src/aihwkit/simulator/tiles/inference_torch.py
+++ b/src/aihwkit/simulator/tiles/inference_torch.py
@@ -56,7 +56,7 @@ class InputRangeForward(Function):
 
             if ir_params.gradient_relative:
                 ir_grad *= input_range
-                ir_grad *= ir_params.gradient_scale
+            ir_grad *= ir_params.gradient_scale
 
             if ir_params.manage_output_clipping:
                 raise NotImplementedError
diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index f1ea3b9..7603a8a 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1131,7 +1131,7 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
 
             if ir_params.gradient_relative:
                 grad *= self.input_range
-                grad *= ir_params.gradient_scale
+            grad *= ir_params.gradient_scale
 
             zero_grad_msk = (
                 None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
-- 
2.43.0


From 0758bd530f8c69de78e3576f5a8cbbdd7750ea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 59/96] fix: percentage of clipped outputs is relative to the
 number of outputs

---
 src/aihwkit/simulator/tiles/periphery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/periphery.py b/src/aihwkit/simulator/tiles/periphery.py
index 7603a8a..652206d 100644
--- a/src/aihwkit/simulator/tiles/periphery.py
+++ b/src/aihwkit/simulator/tiles/periphery.py
@@ -1137,7 +1137,9 @@ class TileWithPeriphery(BaseTile, SimulatorTileWrapper):
                 None if len(ctx.saved_analog_tensors) < 2 else ctx.saved_analog_tensors[1]
             )
             if ir_params.manage_output_clipping and zero_grad_msk is not None:
-                output_percentage = 1.0 - zero_grad_msk.count_nonzero().item() / d_output.numel()
+                output_percentage = (
+                    1.0 - zero_grad_msk.count_nonzero().item() / zero_grad_msk.numel()
+                )
                 grad -= (
                     (1.0 - output_percentage)
                     * self.input_range
-- 
2.43.0


From 60515f5f550afeee9a118ade7d9b5fb43aa03197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 60/96] fix: refused calibration leaves the model as it was

The error because of noise management left the model in evaluation mode,
with hooks registered.
---
 .../inference/calibration/calibration.py       | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index c1d7357..2893105 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -180,6 +180,20 @@ def calibrate_input_ranges(
     if not isinstance(model, AnalogLayerBase) or not isinstance(model, Module):
         raise ArgumentError("Expect an analog module")
 
+    if not force_all_layers:
+        # check before anything is changed
+        for tile in model.analog_tiles():
+            rpu_config = tile.rpu_config
+            if (
+                isinstance(rpu_config, PrePostProcessingRPU)
+                and hasattr(rpu_config, "forward")
+                and rpu_config.pre_post.input_range.enable
+                and rpu_config.forward.noise_management != NoiseManagementType.NONE
+            ):
+                raise ConfigError(
+                    "Noise management should be turned off for input_range calibration."
+                )
+
     was_training = [mod for mod in cast(Module, model).modules() if mod.training]
     model = cast(Module, model).eval()
     handles = []
@@ -212,10 +226,6 @@ def calibrate_input_ranges(
 
         io_pars = rpu_config.forward  # type: IOParameters
         if io_pars.noise_management != NoiseManagementType.NONE:
-            if not force_all_layers:
-                raise ConfigError(
-                    "Noise management should be turned off for input_range calibration."
-                )
             io_pars.noise_management = NoiseManagementType.NONE
             needs_set_state = True
 
-- 
2.43.0


From ba847aaccf1dcc937d255c286cc544032b2e7ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:07 +0000
Subject: [PATCH 61/96] fix: output clipped at the negative bound does not undo
 the failed bound test of others

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index 329d62b..bbaee99 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -705,7 +705,7 @@ inline bool finalizeOutputImplStage5(ARGS) {
         bound_test_passed = false;
       } else if (value < -bound) {
         value = -bound;
-        bound_test_passed = !io.bm_test_negative_bound;
+        bound_test_passed = bound_test_passed && !io.bm_test_negative_bound;
       }
     } else {
       value = value > bound ? bound : value;
-- 
2.43.0


From d105b6d9d1b9771cab66572a75e57aab90da9dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:07 +0000
Subject: [PATCH 62/96] fix: running average of the noise management is kept
 separately for forward and backward pass

---
 src/rpucuda/rpu_forward_backward_pass.cpp | 6 +++++-
 src/rpucuda/rpu_forward_backward_pass.h   | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rpucuda/rpu_forward_backward_pass.cpp b/src/rpucuda/rpu_forward_backward_pass.cpp
index bbaee99..371833f 100644
--- a/src/rpucuda/rpu_forward_backward_pass.cpp
+++ b/src/rpucuda/rpu_forward_backward_pass.cpp
@@ -187,6 +187,7 @@ ForwardBackwardPassIOManaged<T>::ForwardBackwardPassIOManaged(
     : ForwardBackwardPass<T>(x_size, d_size) {
   rng_ = rng;
   aux_nm_value_ = (T)-1.0;
+  aux_nm_value_bwd_ = (T)-1.0;
 }
 
 // dtor
@@ -1001,7 +1002,7 @@ void ForwardBackwardPassIOManaged<T>::backwardVector(
   // io managed version
   b_io_.bound_management = BoundManagementType::None; // not supported
   T nm_scale_value = computeNoiseManagement(
-      d_input, this->d_size_, d_inc, b_io_.noise_management, aux_nm_value_, b_io_);
+      d_input, this->d_size_, d_inc, b_io_.noise_management, aux_nm_value_bwd_, b_io_);
   bool nm = b_io_.noise_management != NoiseManagementType::None;
   T out_scale = b_io_.out_scale * alpha;
   bool scaling = nm && nm_scale_value > (T)0.0;
@@ -1034,6 +1035,7 @@ void ForwardBackwardPassIOManaged<T>::dumpExtra(RPU::state_t &extra, const std::
 
   RPU::state_t state;
   RPU::insert(state, "aux_nm_value", aux_nm_value_);
+  RPU::insert(state, "aux_nm_value_bwd", aux_nm_value_bwd_);
   RPU::insertWithPrefix(extra, state, prefix);
 }
 
@@ -1045,6 +1047,8 @@ void ForwardBackwardPassIOManaged<T>::loadExtra(
 
   auto state = RPU::selectWithPrefix(extra, prefix);
   RPU::load(state, "aux_nm_value", aux_nm_value_, strict);
+  // not present in older states
+  RPU::load(state, "aux_nm_value_bwd", aux_nm_value_bwd_, false);
 }
 
 template class ForwardBackwardPassIOManaged<float>;
diff --git a/src/rpucuda/rpu_forward_backward_pass.h b/src/rpucuda/rpu_forward_backward_pass.h
index e4bb949..ff3295d 100644
--- a/src/rpucuda/rpu_forward_backward_pass.h
+++ b/src/rpucuda/rpu_forward_backward_pass.h
@@ -239,6 +239,7 @@ private:
   T **neg_weights_ = nullptr;
 
   T aux_nm_value_ = -1.0;
+  T aux_nm_value_bwd_ = -1.0;
   IOMetaParameter<T> f_io_;
   IOMetaParameter<T> b_io_;
   bool checked_implemented_ = false;
-- 
2.43.0


From f033ff88a08d426db215cff215bf11187adfa767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 63/96] fix: cached parameters of quantized layers keep their
 data type

They were converted to float32, so that the second evaluation of a double or
half precision model raised an error.
---
 src/aihwkit/simulator/digital_low_precision/hijacker.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/hijacker.py b/src/aihwkit/simulator/digital_low_precision/hijacker.py
index cc7c65d..067cebb 100644
--- a/src/aihwkit/simulator/digital_low_precision/hijacker.py
+++ b/src/aihwkit/simulator/digital_low_precision/hijacker.py
@@ -6,13 +6,11 @@
 
 from copy import deepcopy
 
-import torch
 from torch import nn
 
 from aihwkit.simulator.digital_low_precision.base_quantized_classes import QuantizedModule
 from aihwkit.simulator.digital_low_precision.quantization_manager import QuantizationManager
 from aihwkit.simulator.digital_low_precision.range_estimators import RangeEstimators
-from aihwkit.simulator.digital_low_precision.utils import to_numpy
 
 
 activations_list = [nn.ReLU, nn.ReLU6, nn.Hardtanh, nn.Sigmoid, nn.Tanh, nn.PReLU, nn.GELU]
@@ -84,8 +82,8 @@ class QuantizationHijacker(QuantizedModule):
 
         if self._caching and not self.training and self.cached_params is None:
             self.cached_params = (
-                torch.Tensor(to_numpy(weight)).to(weight.device),
-                torch.Tensor(to_numpy(bias)).to(bias.device) if bias is not None else None,
+                weight.detach().clone(),
+                bias.detach().clone() if bias is not None else None,
             )
         return weight, bias
 
-- 
2.43.0


From 59e7db0553a9e47f992be1708bc280fadad1de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 64/96] fix: loading a state dict drops the cached parameters
 of quantized layers

In evaluation mode the layer continued to use the previous weights.
---
 .../simulator/digital_low_precision/base_quantized_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py b/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
index 7abcb51..79f0624 100644
--- a/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
+++ b/src/aihwkit/simulator/digital_low_precision/base_quantized_classes.py
@@ -138,6 +138,10 @@ class QuantizedModule(nn.Module):
         self.cached_params = None
         return super(QuantizedModule, self)._apply(*args, **kwargs)
 
+    def _load_from_state_dict(self, *args, **kwargs):
+        self.cached_params = None
+        super()._load_from_state_dict(*args, **kwargs)
+
     def extra_repr(self):
         quant_state = "weight_quant={}, act_quant={}".format(self._quant_w, self._quant_a)
         parent_repr = super().extra_repr()
-- 
2.43.0


From fcf6814ac5301965e12b2f7c76f7832d1e390e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 65/96] fix: weight ranges are estimated in evaluation in spite
 of cached parameters

After a forward pass in evaluation mode estimate_ranges, and thus the
calibration, had no effect on the weight ranges.
---
 src/aihwkit/simulator/digital_low_precision/hijacker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/hijacker.py b/src/aihwkit/simulator/digital_low_precision/hijacker.py
index 067cebb..9df75ab 100644
--- a/src/aihwkit/simulator/digital_low_precision/hijacker.py
+++ b/src/aihwkit/simulator/digital_low_precision/hijacker.py
@@ -9,7 +9,7 @@ from copy import deepcopy
 from torch import nn
 
 from aihwkit.simulator.digital_low_precision.base_quantized_classes import QuantizedModule
-from aihwkit.simulator.digital_low_precision.quantization_manager import QuantizationManager
+from aihwkit.simulator.digital_low_precision.quantization_manager import QuantizationManager, Qstates
 from aihwkit.simulator.digital_low_precision.range_estimators import RangeEstimators
 
 
@@ -72,6 +72,10 @@ class QuantizationHijacker(QuantizedModule):
         return res
 
     def get_params(self):
+        if self._quant_w and self.weight_quantizer.state == Qstates.estimate_ranges:
+            # ranges are updated in evaluation mode as well
+            self.cached_params = None
+
         if not self.training and self.cached_params:
             return self.cached_params
 
-- 
2.43.0


From 7b022472dab73e3e7fe7a6e13d21746a98ae6a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 66/96] fix: quantization ranges are only trainable while they
 are learned

After learn_ranges the ranges stayed trainable in the other states, so that the
optimizer changed fixed ranges and a new estimation raised an error.
---
 .../digital_low_precision/quantization_manager.py      |  3 +++
 .../simulator/digital_low_precision/quantizers.py      | 10 +++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
index d5f5710..f0e47af 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
@@ -99,10 +99,12 @@ class QuantizationManager(nn.Module):
         return self.quantizer.n_bits
 
     def estimate_ranges(self):
+        self.quantizer.make_range_trainable(False)
         self.state = Qstates.estimate_ranges
 
     def fix_ranges(self):
         if self.quantizer.is_initialized:
+            self.quantizer.make_range_trainable(False)
             self.state = Qstates.fix_ranges
         else:
             raise QuantizerNotInitializedError()
@@ -112,6 +114,7 @@ class QuantizationManager(nn.Module):
         self.state = Qstates.learn_ranges
 
     def estimate_ranges_train(self):
+        self.quantizer.make_range_trainable(False)
         self.state = Qstates.estimate_ranges_train
 
     def is_learning(self) -> bool:
diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index 422619d..a818f25 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -339,9 +339,9 @@ class AsymmetricUniformQuantizer(QuantizerBase):
         if self.scale_domain == "log":
             self._delta.copy_(torch.log(new_delta_val))
 
-    def make_range_trainable(self):
-        self._delta.requires_grad_(True)
-        self._zero_float.requires_grad_(True)
+    def make_range_trainable(self, mode=True):
+        self._delta.requires_grad_(mode)
+        self._zero_float.requires_grad_(mode)
 
     def reset(self):
         self._delta = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
@@ -573,8 +573,8 @@ class SymmetricUniformQuantizer(QuantizerBase):
         if self.scale_domain == "log":
             self._delta.copy_(torch.log(new_delta_val))
 
-    def make_range_trainable(self):
-        self._delta.requires_grad_(True)
+    def make_range_trainable(self, mode=True):
+        self._delta.requires_grad_(mode)
 
     def reset(self):
         self._delta = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
-- 
2.43.0


From c02f15c648a268eebdcc5bb883221952fe48c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 67/96] fix: quantizers do not share their state with the
 loaded state dict

A later load into the same module wrote into the module the first state dict
came from.
---
 src/aihwkit/simulator/digital_low_precision/quantizers.py     | 2 +-
 .../simulator/digital_low_precision/range_estimators.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index a818f25..9f764a5 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -457,7 +457,7 @@ class SymmetricUniformQuantizer(QuantizerBase):
 
         # Fix the shape of the signed_key to be loaded
         if signed_key in state_dict:
-            self._signed = state_dict[signed_key]
+            self._signed = state_dict[signed_key].clone()
 
         super(SymmetricUniformQuantizer, self)._load_from_state_dict(
             state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs
diff --git a/src/aihwkit/simulator/digital_low_precision/range_estimators.py b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
index eecdb3c..21bff30 100644
--- a/src/aihwkit/simulator/digital_low_precision/range_estimators.py
+++ b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
@@ -61,10 +61,10 @@ class RangeEstimatorBase(nn.Module):
         xmax_key = prefix + "current_xmax"
         if xmin_key in state_dict:
             if self.current_xmin is None or state_dict[xmin_key].shape != self.current_xmin.shape:
-                self.current_xmin = state_dict[xmin_key]
+                self.current_xmin = state_dict[xmin_key].clone()
         if xmax_key in state_dict:
             if self.current_xmax is None or state_dict[xmax_key].shape != self.current_xmax.shape:
-                self.current_xmax = state_dict[xmax_key]
+                self.current_xmax = state_dict[xmax_key].clone()
 
         super(RangeEstimatorBase, self)._load_from_state_dict(
             state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs
-- 
2.43.0


From 94d64100579da5bfc037b839049c73f9640fe771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 68/96] fix: models with per-channel quantizers can be pickled

The quantizer kept a local lambda once it was used.
---
 .../simulator/digital_low_precision/quantizers.py   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index 9f764a5..5f72bd2 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -13,6 +13,7 @@
 
 from collections import namedtuple
 from enum import Enum
+from functools import partial
 
 import torch
 from torch.autograd import Function
@@ -43,6 +44,10 @@ round_ste_func = RoundStraightThrough.apply
 floor_ste_func = FloorStraightThrough.apply
 
 
+def view_as_shape(x, shape):
+    return x.view(shape)
+
+
 class QuantizerBase(nn.Module):
     def __init__(self, n_bits, per_channel=False, axis=None, *args, **kwargs):
         super().__init__(*args, **kwargs)
@@ -264,7 +269,7 @@ class AsymmetricUniformQuantizer(QuantizerBase):
     def _adjust_params_per_axis(self, x_float):
         r = len(x_float.size())
         new_shape = [1] * self.axis + [-1] + [1] * (r - self.axis - 1)
-        self.view_func = lambda x: x.view(new_shape)
+        self.view_func = partial(view_as_shape, shape=new_shape)
         # self._delta = self._delta.view(new_shape)
         # self._zero_float = self._zero_float.view(new_shape)
 
@@ -279,7 +284,7 @@ class AsymmetricUniformQuantizer(QuantizerBase):
         """
         if self.view_func is None and x.ndim != self.delta.ndim:
             new_shape = [-1] + [1] * (len(x.shape) - 1)
-            self.view_func = lambda x: x.view(new_shape)
+            self.view_func = partial(view_as_shape, shape=new_shape)
             # self._delta = self.delta.view(new_shape)
             # if self._zero_float is not None:
             #     self._zero_float = self._zero_float.view(new_shape)
@@ -516,7 +521,7 @@ class SymmetricUniformQuantizer(QuantizerBase):
     def _adjust_params_per_axis(self, x_float):
         r = len(x_float.size())
         new_shape = [1] * self.axis + [-1] + [1] * (r - self.axis - 1)
-        self.view_func = lambda x: x.view(new_shape)
+        self.view_func = partial(view_as_shape, shape=new_shape)
 
     def _adjust_params_per_channel(self, x):
         """
@@ -529,7 +534,7 @@ class SymmetricUniformQuantizer(QuantizerBase):
         """
         if self.view_func is None and x.ndim != self.delta.ndim:
             new_shape = [-1] + [1] * (len(x.shape) - 1)
-            self.view_func = lambda x: x.view(new_shape)
+            self.view_func = partial(view_as_shape, shape=new_shape)
 
     def _tensorize_min_max(self, x_min, x_max):
         """
-- 
2.43.0


From 1dd627711f95bd58249cbcd995688fdf63c9b510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 69/96] fix: quantization manager with given ranges can be used

It has no range estimator, but its forward accessed it.
---
 .../simulator/digital_low_precision/quantization_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
index f0e47af..3acd94c 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantization_manager.py
@@ -75,7 +75,7 @@ class QuantizationManager(nn.Module):
 
         # define quantizer
         self.quantizer: QuantizerBase = self.qmethod.cls(
-            per_channel=per_channel, axis=axis, **qparams
+            per_channel=per_channel, axis=axis, **self.qparams
         )
 
         # define range estimation method for quantizer initialisation
@@ -126,6 +126,10 @@ class QuantizationManager(nn.Module):
         self.estimate_ranges_train()
 
     def forward(self, x):
+        if self.range_estimator is None:
+            # ranges are given
+            return self.quantizer(x)
+
         if self.range_estimator.per_group_range_estimation:
             self.range_estimator(x)
             return x
-- 
2.43.0


From 56ed81a9c5acdc5fd7de9e32861166535c6179a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 70/96] fix: reset of the MSE range estimator forgets the sign
 of the data

Ranges which were estimated from non-negative data clipped all negative values
after a reset and a new estimation.
---
 src/aihwkit/simulator/digital_low_precision/range_estimators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aihwkit/simulator/digital_low_precision/range_estimators.py b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
index 21bff30..136778f 100644
--- a/src/aihwkit/simulator/digital_low_precision/range_estimators.py
+++ b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
@@ -509,6 +509,7 @@ class MSE_Estimator(RangeEstimatorBase):
     def reset(self):
         super().reset()
         self.loss_array = None
+        self.one_sided_dist = None
 
 
 class CrossEntropyEstimator(MSE_Estimator):
-- 
2.43.0


From f72358ab61dcb6fa513a6dc66594457fc6925139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 71/96] fix: per-channel ranges of non-contiguous tensors

For instance of convolutions in channels-last memory format.
---
 .../simulator/digital_low_precision/range_estimators.py   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/range_estimators.py b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
index 136778f..734e927 100644
--- a/src/aihwkit/simulator/digital_low_precision/range_estimators.py
+++ b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
@@ -137,7 +137,7 @@ class CurrentMinMaxEstimator(RangeEstimatorBase):
 
         elif self.per_channel:
             # Along 1st dim
-            x_flattened = x.view(x.shape[0], -1)
+            x_flattened = x.reshape(x.shape[0], -1)
             if self.percentile:
                 data_np = to_numpy(x_flattened)
                 x_min, x_max = np.percentile(
@@ -172,7 +172,7 @@ class AllMinMaxEstimator(RangeEstimatorBase):
     def forward(self, x):
         if self.per_channel:
             # Along 1st dim
-            x_flattened = x.view(x.shape[0], -1)
+            x_flattened = x.reshape(x.shape[0], -1)
             x_min = x_flattened.min(-1)[0].detach()
             x_max = x_flattened.max(-1)[0].detach()
         else:
@@ -218,7 +218,7 @@ class RunningMinMaxEstimator(RangeEstimatorBase):
 
         elif self.per_channel:
             # Along 1st dim
-            x_flattened = x.view(x.shape[0], -1)
+            x_flattened = x.reshape(x.shape[0], -1)
             x_min = x_flattened.min(-1)[0].detach()
             x_max = x_flattened.max(-1)[0].detach()
 
@@ -268,7 +268,7 @@ class MSE_Estimator(RangeEstimatorBase):
 
     def loss_fx(self, data, neg_thr, pos_thr, per_channel_loss=False):
         y = self.quantize(data, x_min=neg_thr, x_max=pos_thr)
-        temp_sum = torch.sum(((data - y) ** 2).view(len(data), -1), dim=1)
+        temp_sum = torch.sum(((data - y) ** 2).reshape(len(data), -1), dim=1)
         # if we want to return the MSE loss of each channel separately, speeds up the per-channel
         # grid search
         if per_channel_loss:
-- 
2.43.0


From 310ce5598c9488450ade7c09f3b9d6ed539de32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 72/96] fix: percentile of the per-tensor range estimation
 applies to both ends

As it does for the per-channel estimation.
---
 src/aihwkit/simulator/digital_low_precision/range_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/range_estimators.py b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
index 734e927..e7a4320 100644
--- a/src/aihwkit/simulator/digital_low_precision/range_estimators.py
+++ b/src/aihwkit/simulator/digital_low_precision/range_estimators.py
@@ -153,7 +153,7 @@ class CurrentMinMaxEstimator(RangeEstimatorBase):
             if self.percentile:
                 device = x.device
                 data_np = to_numpy(x)
-                x_min, x_max = np.percentile(data_np, (self.percentile, 100))
+                x_min, x_max = np.percentile(data_np, (self.percentile, 100 - self.percentile))
                 x_min = np.atleast_1d(x_min)
                 x_max = np.atleast_1d(x_max)
                 self.current_xmin = torch.Tensor(x_min).to(device).detach()
-- 
2.43.0


From 4402a58c62d4b12f38da19cd79a1f86ce6b569cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 73/96] fix: range estimator without parameters accepts None as
 parameters

---
 src/aihwkit/simulator/parameters/quantization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/parameters/quantization.py b/src/aihwkit/simulator/parameters/quantization.py
index 8f30c15..8f273cc 100644
--- a/src/aihwkit/simulator/parameters/quantization.py
+++ b/src/aihwkit/simulator/parameters/quantization.py
@@ -119,7 +119,7 @@ class BaseQuantConfig(_PrintableMixin):
             raise TypeError(
                 "Range estimator 'allminmax' does not accept a range_estimator params object"
             )
-        if not isinstance(new_params, expected_type):
+        if expected_type is not None and not isinstance(new_params, expected_type):
             raise TypeError(
                 f"Expected parameters of type {expected_type.__name__}, "
                 + f"got {type(new_params).__name__}"
-- 
2.43.0


From bc00dbfba86898aa3145d4fb63128989efda48de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 74/96] fix: layer norms without affine parameters can be
 quantized

---
 src/aihwkit/nn/low_precision_conversion.py                  | 3 ++-
 src/aihwkit/nn/low_precision_modules/conversion_utils.py    | 6 +++++-
 .../nn/low_precision_modules/quantized_base_modules.py      | 4 ++--
 src/aihwkit/simulator/digital_low_precision/hijacker.py     | 4 ++--
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/nn/low_precision_conversion.py b/src/aihwkit/nn/low_precision_conversion.py
index b35fdd0..285d6ba 100644
--- a/src/aihwkit/nn/low_precision_conversion.py
+++ b/src/aihwkit/nn/low_precision_conversion.py
@@ -116,7 +116,8 @@ def quantize_model(
             kwargs = get_module_args(model, None)
             quant_model = q_model(**kwargs, **convert_configs_to_kwargs_dict(q_config))
 
-            quant_model.weight.data = model.weight.data
+            if model.weight is not None:
+                quant_model.weight.data = model.weight.data
             if getattr(model, "bias", None) is not None:
                 quant_model.bias.data = model.bias.data
 
diff --git a/src/aihwkit/nn/low_precision_modules/conversion_utils.py b/src/aihwkit/nn/low_precision_modules/conversion_utils.py
index 33bbd45..c67bace 100644
--- a/src/aihwkit/nn/low_precision_modules/conversion_utils.py
+++ b/src/aihwkit/nn/low_precision_modules/conversion_utils.py
@@ -92,7 +92,11 @@ def get_module_args(module: Module, activation: Optional[Module] = None) -> dict
 
     def get_layernorm_args(module: Module) -> Dict[str, Any]:
         """Quantization arguments for `QuantLayerNorm`"""
-        args = dict(normalized_shape=module.normalized_shape, eps=module.eps)
+        args = dict(
+            normalized_shape=module.normalized_shape,
+            eps=module.eps,
+            elementwise_affine=module.elementwise_affine,
+        )
         return args
 
     def get_embedding_args(module: Module) -> Dict[str, Any]:
diff --git a/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py b/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
index 1a604ef..676c8a9 100644
--- a/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
+++ b/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
@@ -59,8 +59,8 @@ class QuantLayerNorm(QuantizationHijacker, nn.LayerNorm):
         return layer_norm(
             input=x.contiguous(),
             normalized_shape=self.normalized_shape,
-            weight=weight.contiguous(),
-            bias=bias.contiguous(),
+            weight=weight.contiguous() if weight is not None else None,
+            bias=bias.contiguous() if bias is not None else None,
             eps=self.eps,
         )
 
diff --git a/src/aihwkit/simulator/digital_low_precision/hijacker.py b/src/aihwkit/simulator/digital_low_precision/hijacker.py
index 9df75ab..e4c88fa 100644
--- a/src/aihwkit/simulator/digital_low_precision/hijacker.py
+++ b/src/aihwkit/simulator/digital_low_precision/hijacker.py
@@ -81,12 +81,12 @@ class QuantizationHijacker(QuantizedModule):
 
         weight, bias = self.get_weight_bias()
 
-        if self._quant_w:
+        if self._quant_w and weight is not None:
             weight = self.weight_quantizer(weight)
 
         if self._caching and not self.training and self.cached_params is None:
             self.cached_params = (
-                weight.detach().clone(),
+                weight.detach().clone() if weight is not None else None,
                 bias.detach().clone() if bias is not None else None,
             )
         return weight, bias
-- 
2.43.0


From 35b0fe94cd9ef0fcce1e2ef588feae9ba6a32ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 75/96] fix: quantized convolutions respect the padding mode

---
 .../nn/low_precision_modules/quantized_base_modules.py    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py b/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
index 676c8a9..a031adb 100644
--- a/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
+++ b/src/aihwkit/nn/low_precision_modules/quantized_base_modules.py
@@ -14,7 +14,7 @@
 
 from typing import Any, Optional
 from torch import Tensor, nn
-from torch.nn.functional import linear, conv2d, layer_norm, embedding
+from torch.nn.functional import linear, conv2d, layer_norm, embedding, pad
 
 from aihwkit.simulator.digital_low_precision.base_quantized_classes import (
     FP32Acts,
@@ -39,12 +39,16 @@ class QuantConv2d(QuantizationHijacker, nn.Conv2d):
     def run_forward(
         self, x: Tensor, weight: Tensor, bias: Tensor, offsets: Optional[Any] = None
     ) -> Tensor:
+        padding = self.padding
+        if self.padding_mode != "zeros":
+            x = pad(x, self._reversed_padding_repeated_twice, mode=self.padding_mode)
+            padding = 0
         return conv2d(
             x.contiguous(),
             weight.contiguous(),
             bias,
             self.stride,
-            self.padding,
+            padding,
             self.dilation,
             self.groups,
         )
-- 
2.43.0


From 9e5ea6422d41c1587f940b7fe2f0fc477f2837c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 76/96] fix: quantized layers keep the parameters of the
 converted ones

Frozen parameters became trainable and tied ones were untied.
---
 src/aihwkit/nn/low_precision_conversion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/nn/low_precision_conversion.py b/src/aihwkit/nn/low_precision_conversion.py
index 285d6ba..33abb54 100644
--- a/src/aihwkit/nn/low_precision_conversion.py
+++ b/src/aihwkit/nn/low_precision_conversion.py
@@ -116,10 +116,11 @@ def quantize_model(
             kwargs = get_module_args(model, None)
             quant_model = q_model(**kwargs, **convert_configs_to_kwargs_dict(q_config))
 
+            # the parameters might be frozen or shared with other modules
             if model.weight is not None:
-                quant_model.weight.data = model.weight.data
+                quant_model.weight = model.weight
             if getattr(model, "bias", None) is not None:
-                quant_model.bias.data = model.bias.data
+                quant_model.bias = model.bias
 
         elif isinstance(model, AnalogLayerBase):
             # If the module is an analog layer, then use the convert_to_digital first, to
-- 
2.43.0


From fb52b56f63ead425b8e978f5fd0c3f4da21fb888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 77/96] fix: range calibration uses at most max_num_batches
 batches

---
 src/aihwkit/inference/calibration/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/inference/calibration/calibration.py b/src/aihwkit/inference/calibration/calibration.py
index 2893105..c7c5d61 100644
--- a/src/aihwkit/inference/calibration/calibration.py
+++ b/src/aihwkit/inference/calibration/calibration.py
@@ -348,7 +348,7 @@ def calibrate_quantization_ranges(
         model.eval()
         device = next(model.parameters()).device
         for i, data in enumerate(loader):
-            if i > max_num_batches:
+            if i >= max_num_batches:
                 break
 
             if isinstance(data, (tuple, list)):
-- 
2.43.0


From 11e78602a5f615a27395519aea5c1021aaf17a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 78/96] fix: quantized tile array with learned quantization
 parameters

The array has no device attribute.
---
 src/aihwkit/simulator/tiles/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index c175dbe..03fc41f 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -251,7 +251,7 @@ class QuantizedTileModuleArray(TileModuleArray):
                 )
                 if periph_quant.learn_quant_params:
                     self.bias_quant_update_idx = Parameter(
-                        full((1,), 0.0, device=self.device), requires_grad=False
+                        full((1,), 0.0, device=self.bias.device), requires_grad=False
                     )
             else:
                 self.bias_quantizer = None
-- 
2.43.0


From 89229425ca47b2e72cce2777211a443d38ad3f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:21 +0000
Subject: [PATCH 79/96] fix: bias range of a quantized tile array is estimated
 in training after an evaluation

As for a single tile: an evaluation before the training fixed the range, often
of zero biases, for good.
---
 src/aihwkit/simulator/tiles/array.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/array.py b/src/aihwkit/simulator/tiles/array.py
index 03fc41f..195b109 100644
--- a/src/aihwkit/simulator/tiles/array.py
+++ b/src/aihwkit/simulator/tiles/array.py
@@ -296,16 +296,17 @@ class QuantizedTileModuleArray(TileModuleArray):
                     result += q_bias.view(*tensor_view)
 
                 else:
-                    if (
-                        self.training
-                        and self.periph_quant.learn_quant_params
-                        and not self.bias_quantizer.is_learning()
-                    ):
+                    if self.training and not self.periph_quant.learn_quant_params:
+                        self.bias_quantizer.estimate_ranges_train()  # estimate if no learned
+                    elif self.training and not self.bias_quantizer.is_learning():
                         # If learning is enabled, estimate till `init_learning_after`
                         # before switching to learned
                         self.bias_quant_update_idx.data += 1  # count up to the desired batch
                         if self.bias_quant_update_idx > self.periph_quant.init_learning_after:
                             self.bias_quantizer.learn_ranges()  # Switch to learned
+                        else:
+                            # Remain/switch to estimate ranges
+                            self.bias_quantizer.estimate_ranges_train()
 
                     # Add to the result the quantized bias
                     result += self.bias_quantizer(self.bias).view(*tensor_view)
-- 
2.43.0


From 1da573b95533314e7b0d370a68c1903a8fe84685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:49 +0000
Subject: [PATCH 80/96] fix: modules used with several names are quantized for
 all of them

Only the first name was replaced, with the others the module stayed digital.
---
 src/aihwkit/nn/low_precision_conversion.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/nn/low_precision_conversion.py b/src/aihwkit/nn/low_precision_conversion.py
index 33abb54..01dd0c1 100644
--- a/src/aihwkit/nn/low_precision_conversion.py
+++ b/src/aihwkit/nn/low_precision_conversion.py
@@ -7,6 +7,7 @@
 """Functions to convert a given model to a quantized counterpart"""
 
 from copy import deepcopy
+from typing import Dict
 
 from torch.nn import Module, Linear, Conv2d
 
@@ -146,11 +147,17 @@ def quantize_model(
     else:
         # If the conversion is not defined, recursively call the function on the children
         quant_model = model
-        for name, mod in quant_model.named_children():
+        converted = {}  # type: Dict[Module, Module]
+        for name, mod in list(quant_model._modules.items()):
             full_name = model_name + "." + name if model_name else name
-            if full_name in quantization_map.excluded_modules:
+            if mod is None or full_name in quantization_map.excluded_modules:
                 continue
-            new_mod = quantize_model(mod, quantization_map, model_name=full_name)
+            if mod in converted and full_name not in quantization_map.instance_qconfig_map:
+                # The same module with another name
+                new_mod = converted[mod]
+            else:
+                new_mod = quantize_model(mod, quantization_map, model_name=full_name)
+                converted[mod] = new_mod
 
             # If the returned module is not None, wrap it with an input quantizer
             # if such a selection is defined and swap it with the original module
-- 
2.43.0


From 5d37b47e09ce20ef9c7f8da5ed6f2620050f7d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:20 +0000
Subject: [PATCH 81/96] fix: state dicts can be loaded while quantization
 ranges are learned

The in-place copy into the trainable range raised an error.
---
 .../simulator/digital_low_precision/quantizers.py  | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index 5f72bd2..0379e72 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -203,14 +203,16 @@ class AsymmetricUniformQuantizer(QuantizerBase):
         if delta_key in state_dict:
             loaded_delta = state_dict[delta_key]
             if loaded_delta.shape != self._delta.shape:
-                self._delta.resize_(loaded_delta.shape)
-            self._delta.copy_(loaded_delta)
+                self._delta.data = self._delta.data.new_empty(loaded_delta.shape)
+            self._delta.data.copy_(loaded_delta)
 
         if zero_float_key in state_dict:
             loaded_zero_float = state_dict[zero_float_key]
             if loaded_zero_float.shape != self._zero_float.shape:
-                self._zero_float.resize_(loaded_zero_float.shape)
-            self._zero_float.copy_(loaded_zero_float)
+                self._zero_float.data = self._zero_float.data.new_empty(
+                    loaded_zero_float.shape
+                )
+            self._zero_float.data.copy_(loaded_zero_float)
 
         super(AsymmetricUniformQuantizer, self)._load_from_state_dict(
             state_dict, prefix, local_metadata, strict, missing_keys, unexpected_keys, error_msgs
@@ -457,8 +459,8 @@ class SymmetricUniformQuantizer(QuantizerBase):
         if delta_key in state_dict:
             loaded_delta = state_dict[delta_key]
             if loaded_delta.shape != self._delta.shape:
-                self._delta.resize_(loaded_delta.shape)
-            self._delta.copy_(loaded_delta)
+                self._delta.data = self._delta.data.new_empty(loaded_delta.shape)
+            self._delta.data.copy_(loaded_delta)
 
         # Fix the shape of the signed_key to be loaded
         if signed_key in state_dict:
-- 
2.43.0


From eb73fb29fe48d41366b6b0c1b6dc17f358aab54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 82/96] fix: ranges of unpickled quantizers can be estimated

The storage of an unpickled parameter is not resizable, so that the first range
estimate of a loaded per-channel quantized model raised an error.
---
 src/aihwkit/simulator/digital_low_precision/quantizers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index 0379e72..920410d 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -337,8 +337,8 @@ class AsymmetricUniformQuantizer(QuantizerBase):
         new_zero_float = (-x_min / new_delta_val).detach()
 
         if not self.is_initialized:
-            self._delta.resize_(new_delta_val.shape)
-            self._zero_float.resize_(new_zero_float.shape)
+            self._delta.data = self._delta.data.new_empty(new_delta_val.shape)
+            self._zero_float.data = self._zero_float.data.new_empty(new_zero_float.shape)
 
         self._delta.copy_(new_delta_val)
         self._zero_float.copy_(new_zero_float)
@@ -574,7 +574,7 @@ class SymmetricUniformQuantizer(QuantizerBase):
         x_absmax = torch.max(x_min.abs(), x_max)
         new_delta_val = x_absmax / self.int_max
         if not self.is_initialized:
-            self._delta.resize_(new_delta_val.shape)
+            self._delta.data = self._delta.data.new_empty(new_delta_val.shape)
         self._delta.copy_(new_delta_val)
 
         if self.scale_domain == "log":
-- 
2.43.0


From 3257f08637b1d1f17e92139f9a20a11603d01631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:46 +0000
Subject: [PATCH 83/96] fix: reset of a quantizer keeps its device and data
 type

The parameters went back to single precision on the CPU.
---
 src/aihwkit/simulator/digital_low_precision/quantizers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/digital_low_precision/quantizers.py b/src/aihwkit/simulator/digital_low_precision/quantizers.py
index 920410d..7cb6997 100644
--- a/src/aihwkit/simulator/digital_low_precision/quantizers.py
+++ b/src/aihwkit/simulator/digital_low_precision/quantizers.py
@@ -351,8 +351,10 @@ class AsymmetricUniformQuantizer(QuantizerBase):
         self._zero_float.requires_grad_(mode)
 
     def reset(self):
-        self._delta = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
-        self._zero_float = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
+        self._delta = nn.Parameter(self._delta.data.new_tensor(torch.nan), requires_grad=False)
+        self._zero_float = nn.Parameter(
+            self._zero_float.data.new_tensor(torch.nan), requires_grad=False
+        )
 
 
 class SymmetricUniformQuantizer(QuantizerBase):
@@ -584,7 +586,7 @@ class SymmetricUniformQuantizer(QuantizerBase):
         self._delta.requires_grad_(mode)
 
     def reset(self):
-        self._delta = nn.Parameter(torch.tensor(torch.nan), requires_grad=False)
+        self._delta = nn.Parameter(self._delta.data.new_tensor(torch.nan), requires_grad=False)
         self._signed = None
 
 
-- 
2.43.0


From 7e4af0cf21fc4c50f8cf18992f6eaff3544314ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:13 +0000
Subject: [PATCH 84/96] fix: transfers of the torch transfer tile use the
 learning rate of the slow device

---
 src/aihwkit/simulator/tiles/transfer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index b110393..8c9ba30 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -104,8 +104,8 @@ class TransferSimulatorTile(SimulatorTile, Module):
             dtype
         ).calc_weight_granularity()
 
-        lr_w = self.device_config.step * self.to_weight_granularity
-        self.weight_tile.set_learning_rate(lr_w)
+        self.lr_w = self.device_config.step * self.to_weight_granularity
+        self.weight_tile.set_learning_rate(self.lr_w)
 
         transfer_columns = self.device_config.transfer_columns
         self.t_in_size = self.x_size if transfer_columns else self.d_size
@@ -292,6 +292,9 @@ class TransferSimulatorTile(SimulatorTile, Module):
 
             # write to weight
             if not write_values.abs().sum() == 0.0:
+                # the optimizer sets the learning rate of all tiles
+                self.weight_tile.set_learning_rate(self.lr_w)
+
                 if cfg.transfer_columns:
                     self.weight_tile.tile.update(
                         self._transfer_vec[k],
-- 
2.43.0


From 86eb7d0bc67d2808e0a9af8adbbb6903d38a6d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:13 +0000
Subject: [PATCH 85/96] fix: chopper of the torch transfer tile does not change
 the input of the user

---
 src/aihwkit/simulator/tiles/transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 8c9ba30..8226192 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -214,7 +214,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
         self.grad_tile.set_learning_rate(lr_a)
 
         if self.chopper is not None:
-            x_input *= self.chopper
+            x_input = x_input * self.chopper
 
         self.grad_tile.tile.update(x_input, d_input, bias, in_trans, out_trans, non_blocking)
         self.update_counter += m_batch
-- 
2.43.0


From f73bc034358aec8d63f91a3cab51cd29f5ee9164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:13 +0000
Subject: [PATCH 86/96] fix: chopper of the torch transfer tile when rows are
 transferred

---
 src/aihwkit/simulator/tiles/transfer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 8226192..4a27a05 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -120,7 +120,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
             reference_weight = zeros([self.t_in_size, self.t_out_size], dtype=dtype.as_torch())
             self.register_buffer("reference_weight", reference_weight)
 
-        chopper = ones([self.x_size], dtype=dtype.as_torch())
+        chopper = ones([self.t_in_size], dtype=dtype.as_torch())
         self.register_buffer("chopper", chopper)
 
         # set auto-scale base scale
@@ -214,7 +214,10 @@ class TransferSimulatorTile(SimulatorTile, Module):
         self.grad_tile.set_learning_rate(lr_a)
 
         if self.chopper is not None:
-            x_input = x_input * self.chopper
+            if cfg.transfer_columns:
+                x_input = x_input * self.chopper
+            else:
+                d_input = d_input * self.chopper
 
         self.grad_tile.tile.update(x_input, d_input, bias, in_trans, out_trans, non_blocking)
         self.update_counter += m_batch
-- 
2.43.0


From 9ecf47e737a5409b3e856c1b4fe8f9300d0d8f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:13 +0000
Subject: [PATCH 87/96] fix: momentum of forgotten buffers of the torch
 transfer tile scales the buffer

---
 src/aihwkit/simulator/tiles/transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 4a27a05..2b13f06 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -276,7 +276,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
             # compute update weight
             write_values = -trunc(self.hidden_weight[k])  # negative because of update LR
             if cfg.forget_buffer:
-                self.hidden_weight[k][write_values != 0] = cfg.momentum
+                self.hidden_weight[k][write_values != 0] *= cfg.momentum
             else:
                 self.hidden_weight[k] += write_values * (1 - cfg.momentum)
 
-- 
2.43.0


From 860b0bfba0d6b29afebcf15e25e752684391ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:13 +0000
Subject: [PATCH 88/96] fix: torch transfer tile keeps the part of the buffer
 that is not transferred

---
 src/aihwkit/simulator/tiles/transfer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 2b13f06..8275210 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -274,7 +274,9 @@ class TransferSimulatorTile(SimulatorTile, Module):
                 self.hidden_weight[k] += lr_h * self.chopper[k] * omega
 
             # compute update weight
-            write_values = -trunc(self.hidden_weight[k])  # negative because of update LR
+            max_steps = cfg.transfer_update.desired_bl
+            # negative because of update LR
+            write_values = -trunc(self.hidden_weight[k]).clamp(-max_steps, max_steps)
             if cfg.forget_buffer:
                 self.hidden_weight[k][write_values != 0] *= cfg.momentum
             else:
-- 
2.43.0


From f957ebf18da059bcce32cbdfed04deb963a9b3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:13 +0000
Subject: [PATCH 89/96] fix: extra states of the torch transfer tile can be
 loaded

---
 src/aihwkit/simulator/tiles/transfer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 8275210..a2604ec 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -480,8 +480,8 @@ class TransferSimulatorTile(SimulatorTile, Module):
 
         if "grad_tile" not in extra or "weight_tile" not in extra:
             raise RuntimeError("Wrong keys")
-        self.weight_tile.load_extra(extra["weight_tile"], strict)
-        self.grad_tile.load_extra(extra["grad_tile"], strict)
+        self.weight_tile.tile.load_extra(extra["weight_tile"], strict)
+        self.grad_tile.tile.load_extra(extra["grad_tile"], strict)
 
     def set_weights_uniform_random(self, bmin: float, bmax: float) -> None:
         """Sets the weights to uniform random numbers.
-- 
2.43.0


From e7b39e73a8cb5b60f1b6219a5ef344dc177b7be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:35 +0000
Subject: [PATCH 90/96] fix: torch transfer tile without transfers

---
 src/aihwkit/simulator/tiles/transfer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index a2604ec..03152d7 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -222,6 +222,9 @@ class TransferSimulatorTile(SimulatorTile, Module):
         self.grad_tile.tile.update(x_input, d_input, bias, in_trans, out_trans, non_blocking)
         self.update_counter += m_batch
 
+        if transfer_every == 0:
+            return  # no transfer
+
         # handle transfer (Note that it will only update once for the m_batch!)
         rest_count = ((self.update_counter - m_batch) % transfer_every) + m_batch
         if rest_count >= transfer_every:
-- 
2.43.0


From 57c444303c767468878af231a51ea989c7713d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:35 +0000
Subject: [PATCH 91/96] fix: post update steps of the torch transfer tile are
 done once

---
 src/aihwkit/simulator/tiles/transfer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 03152d7..d596cf5 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -446,8 +446,7 @@ class TransferSimulatorTile(SimulatorTile, Module):
             If no analog optimizer is used, the post update steps will
             not be performed.
         """
-        self.grad_tile.post_update_step()
-        self.weight_tile.post_update_step()
+        # The grad tile and the weight tile have their own analog contexts.
 
     def dump_extra(self) -> Optional[Dict]:
         """Dumps any extra states / attributed necessary for
-- 
2.43.0


From ca25bf3e9b1f8d84ebf77573e481e825c7164ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:35 +0000
Subject: [PATCH 92/96] fix: state dicts of the torch transfer tile contain the
 state of the transfer

---
 src/aihwkit/simulator/tiles/transfer.py | 27 +++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index d596cf5..58f9172 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -57,6 +57,15 @@ class TransferSimulatorTile(SimulatorTile, Module):
 
     """
 
+    _extra_state_names = (
+        "update_counter",
+        "chop_counter",
+        "transfer_idx",
+        "learning_rate",
+        "m_x",
+        "m_d",
+    )
+
     def __init__(
         self, x_size: int, d_size: int, rpu_config: "UnitCellRPUConfig", dtype: RPUDataType
     ):
@@ -448,6 +457,24 @@ class TransferSimulatorTile(SimulatorTile, Module):
         """
         # The grad tile and the weight tile have their own analog contexts.
 
+    def get_extra_state(self) -> Dict:
+        """Returns the state of the transfer for the state dict."""
+        return {key: getattr(self, key) for key in self._extra_state_names}
+
+    def set_extra_state(self, state: Dict) -> None:
+        """Sets the state of the transfer from the state dict.
+
+        Args:
+            state: dictionary from `get_extra_state`.
+        """
+        for key in self._extra_state_names:
+            setattr(self, key, state[key])
+
+    def _load_from_state_dict(self, state_dict: Dict, prefix: str, *args: Any) -> None:
+        # older state dicts do not have the extra state
+        state_dict.setdefault(prefix + "_extra_state", self.get_extra_state())
+        super()._load_from_state_dict(state_dict, prefix, *args)
+
     def dump_extra(self) -> Optional[Dict]:
         """Dumps any extra states / attributed necessary for
         checkpointing.
-- 
2.43.0


From 5ef0370e9130d15e32e3dc6d4524f9f1d8ec37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:10 +0000
Subject: [PATCH 93/96] fix: unit cells without devices are refused with a
 ConfigError

OneSidedUnitCell and TransferCompound raised an IndexError.
---
 src/aihwkit/simulator/configs/compounds.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/aihwkit/simulator/configs/compounds.py b/src/aihwkit/simulator/configs/compounds.py
index 26eab3b..09da1e5 100644
--- a/src/aihwkit/simulator/configs/compounds.py
+++ b/src/aihwkit/simulator/configs/compounds.py
@@ -275,12 +275,12 @@ class OneSidedUnitCell(UnitCell):
         if not isinstance(self.unit_cell_devices, list):
             raise ConfigError("unit_cell_devices should be a list of devices")
 
-        onesided_parameters = parameters_to_bindings(self, data_type)
-        device_parameter0 = self.unit_cell_devices[0].as_bindings(data_type)
-
         if len(self.unit_cell_devices) == 0 or len(self.unit_cell_devices) > 2:
             raise ConfigError("Need 1 or 2 unit_cell_devices")
 
+        onesided_parameters = parameters_to_bindings(self, data_type)
+        device_parameter0 = self.unit_cell_devices[0].as_bindings(data_type)
+
         if len(self.unit_cell_devices) == 1:
             device_parameter1 = device_parameter0
         else:
@@ -513,6 +513,8 @@ class TransferCompound(UnitCell):
             raise ConfigError("unit_cell_devices should be a list of devices")
 
         n_devices = len(self.unit_cell_devices)
+        if n_devices < 2:
+            raise ConfigError("Need at least 2 unit_cell_devices")
 
         transfer_parameters = parameters_to_bindings(self, data_type)
 
-- 
2.43.0


From 234ee51f2a20a79d77fab41a31a3621f83bd5be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:10 +0000
Subject: [PATCH 94/96] fix: conversion of a ReferenceUnitCell does not change
 its list of devices

---
 src/aihwkit/simulator/configs/compounds.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/aihwkit/simulator/configs/compounds.py b/src/aihwkit/simulator/configs/compounds.py
index 09da1e5..3e80504 100644
--- a/src/aihwkit/simulator/configs/compounds.py
+++ b/src/aihwkit/simulator/configs/compounds.py
@@ -8,7 +8,6 @@
 
 """Compound configuration for Analog (Resistive Device) tiles."""
 
-from copy import deepcopy
 from dataclasses import dataclass, field
 from typing import ClassVar, List, Union, Any, TYPE_CHECKING
 from warnings import warn
@@ -160,17 +159,11 @@ class ReferenceUnitCell(UnitCell):
         if not isinstance(self.unit_cell_devices, list):
             raise ConfigError("unit_cell_devices should be a list of devices")
 
-        if len(self.unit_cell_devices) > 2:
-            self.unit_cell_devices = self.unit_cell_devices[:2]
-        elif len(self.unit_cell_devices) == 1:
-            self.unit_cell_devices = [
-                self.unit_cell_devices[0],
-                deepcopy(self.unit_cell_devices[0]),
-            ]
-        elif len(self.unit_cell_devices) != 2:
+        if len(self.unit_cell_devices) == 0:
             raise ConfigError("ReferenceUnitCell expects two unit_cell_devices")
 
-        for param in self.unit_cell_devices:
+        # exactly two devices: the same device twice, if only one is given
+        for param in [self.unit_cell_devices[0], self.unit_cell_devices[:2][-1]]:
             device_parameters = param.as_bindings(data_type)
             if not vector_parameters.append_parameter(device_parameters):
                 raise ConfigError("Could not add unit cell device parameter")
-- 
2.43.0


From f4804f1eac000ce2b27947552e829307de0e1227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:10 +0000
Subject: [PATCH 95/96] fix: unknown bindings class raises the ConfigError

---
 src/aihwkit/simulator/parameters/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aihwkit/simulator/parameters/helpers.py b/src/aihwkit/simulator/parameters/helpers.py
index 9c6a9a2..d277d6e 100644
--- a/src/aihwkit/simulator/parameters/helpers.py
+++ b/src/aihwkit/simulator/parameters/helpers.py
@@ -57,7 +57,7 @@ def get_bindings_class(params: Any, data_type: RPUDataType) -> Optional[Type]:
         module = getattr(module, data_type.value)
     param_class = getattr(module, class_name, None)
     if param_class is None:
-        ConfigError(f"Cannot find requested class '{class_name}' in rpu_base module. ")
+        raise ConfigError(f"Cannot find requested class '{class_name}' in rpu_base module. ")
     return param_class
 
 
-- 
2.43.0


From 0def0fe452ba342546a0b813efe4c8b38eeb63da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:24 +0000
Subject: [PATCH 96/96] fix: optimizer leaves the post update step of nested
 tiles to the outer tile

---
 src/aihwkit/optim/analog_optimizer.py   | 20 ++++++++++++++++----
 src/aihwkit/simulator/tiles/transfer.py |  3 ++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/aihwkit/optim/analog_optimizer.py b/src/aihwkit/optim/analog_optimizer.py
index a444fa9..57ed74f 100644
--- a/src/aihwkit/optim/analog_optimizer.py
+++ b/src/aihwkit/optim/analog_optimizer.py
@@ -157,10 +157,22 @@ class AnalogOptimizerMixin:
 
         # Apply post-update step operations (diffuse, decay, etc).
         # (only here because of unknown params order and shared weights)
-        for group in self.param_groups:
-            for param in group["params"]:
-                if isinstance(param, AnalogContext):
-                    param.analog_tile.post_update_step()
+        analog_tiles = [
+            param.analog_tile
+            for group in self.param_groups
+            for param in group["params"]
+            if isinstance(param, AnalogContext)
+        ]
+        # tiles within other tiles are handled by these
+        inner = {
+            id(module)
+            for analog_tile in analog_tiles
+            for module in analog_tile.modules()
+            if module is not analog_tile
+        }
+        for analog_tile in analog_tiles:
+            if id(analog_tile) not in inner:
+                analog_tile.post_update_step()
         return ret
 
     def set_learning_rate(self, learning_rate: float = 0.1) -> None:
diff --git a/src/aihwkit/simulator/tiles/transfer.py b/src/aihwkit/simulator/tiles/transfer.py
index 58f9172..6933275 100644
--- a/src/aihwkit/simulator/tiles/transfer.py
+++ b/src/aihwkit/simulator/tiles/transfer.py
@@ -455,7 +455,8 @@ class TransferSimulatorTile(SimulatorTile, Module):
             If no analog optimizer is used, the post update steps will
             not be performed.
         """
-        # The grad tile and the weight tile have their own analog contexts.
+        self.grad_tile.post_update_step()
+        self.weight_tile.post_update_step()
 
     def get_extra_state(self) -> Dict:
         """Returns the state of the transfer for the state dict."""
-- 
2.43.0

