From 2a4512ca1badaa4a9c0bea59df836b4d1d0d9d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:38 +0000
Subject: [PATCH 01/20] fix: use collections.abc for the ABCs removed from
 collections in Python 3.10

setup.py declares python>=3.6, but hk.jit/grad/scan/cond/..., the convolutions
and the norms raised AttributeError on Python 3.10 and later.
---
 haiku/_src/group_norm.py | 4 ++--
 haiku/_src/layer_norm.py | 4 ++--
 haiku/_src/stateful.py   | 3 ++-
 haiku/_src/utils.py      | 4 ++--
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 55c7956..213707a 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Group normalization implementation for Haiku."""
 
-import collections
+import collections.abc
 import types
 from typing import Optional, Sequence, Union
 
@@ -109,7 +109,7 @@ class GroupNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = axis
     else:
diff --git a/haiku/_src/layer_norm.py b/haiku/_src/layer_norm.py
index 257f28c..8df833f 100644
--- a/haiku/_src/layer_norm.py
+++ b/haiku/_src/layer_norm.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Layer Norm."""
 
-import collections
+import collections.abc
 import types
 from typing import Optional, Sequence, Union
 
@@ -75,7 +75,7 @@ class LayerNorm(hk.Module):
       self.axis = axis
     elif isinstance(axis, int):
       self.axis = (axis,)
-    elif (isinstance(axis, collections.Iterable) and
+    elif (isinstance(axis, collections.abc.Iterable) and
           all(isinstance(ax, int) for ax in axis)):
       self.axis = tuple(axis)
     else:
diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 7d73dca..bd76b0b 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -15,6 +15,7 @@
 """Wrappers for JAX transformations that respect Haiku internal state."""
 
 import collections
+import collections.abc
 import functools
 import inspect
 from typing import Any, Callable, Mapping, MutableMapping, Optional, Tuple, TypeVar
@@ -45,7 +46,7 @@ def internal_state(*, params=True) -> InternalState:
 
 def update_recursive(dst: MutableMapping[Any, Any], src: Mapping[Any, Any]):
   for k, v in src.items():
-    if isinstance(v, collections.Mapping):
+    if isinstance(v, collections.abc.Mapping):
       dst.setdefault(k, {})
       update_recursive(dst[k], v)
     else:
diff --git a/haiku/_src/utils.py b/haiku/_src/utils.py
index c28ad21..0bfbcb7 100644
--- a/haiku/_src/utils.py
+++ b/haiku/_src/utils.py
@@ -14,7 +14,7 @@
 # ==============================================================================
 """Misc utility functions."""
 
-import collections
+import collections.abc
 import decimal
 import inspect
 import pprint
@@ -119,7 +119,7 @@ def replicate(
 ) -> Tuple[T]:
   """Replicates entry in `element` `num_times` if needed."""
   if (isinstance(element, (str, bytes)) or
-      not isinstance(element, collections.Sequence)):
+      not isinstance(element, collections.abc.Sequence)):
     return (element,) * num_times
   elif len(element) == 1:
     return tuple(element * num_times)
-- 
2.43.0


From 71645db6c1bb36fac900d0bb5aea1fe0e1f1d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:40 +0000
Subject: [PATCH 02/20] fix: do not require jax.tree_multimap, which recent jax
 removed

setup.py declares jax>=0.1.71; hk.jit, hk.grad, hk.scan (init), the RNN unrolls,
ResetCore and DeepRNN with skip connections raised AttributeError on jax 0.4.
---
 haiku/_src/recurrent.py | 14 ++++++++------
 haiku/_src/stateful.py  | 11 ++++++-----
 haiku/_src/utils.py     |  3 +++
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/haiku/_src/recurrent.py b/haiku/_src/recurrent.py
index 306c518..8159cda 100644
--- a/haiku/_src/recurrent.py
+++ b/haiku/_src/recurrent.py
@@ -24,6 +24,7 @@ from haiku._src import conv
 from haiku._src import initializers
 from haiku._src import module
 from haiku._src import stateful
+from haiku._src import utils
 import jax
 import jax.nn
 import jax.numpy as jnp
@@ -129,7 +130,7 @@ def static_unroll(core, input_sequence, initial_state, time_major=True):
     output_sequence.append(outputs)
 
   # Stack outputs along the time axis.
-  output_sequence = jax.tree_multimap(
+  output_sequence = utils.tree_multimap(
       lambda *args: jnp.stack(args, axis=time_axis),
       *output_sequence)
   return output_sequence, state
@@ -670,14 +671,15 @@ class ResetCore(RNNCore):
     # >> batch_entry 1:
     # >>  [[0. 0.]
     # >>  [0. 0.]]
-    should_reset = jax.tree_multimap(_validate_and_conform, should_reset, state)
+    should_reset = utils.tree_multimap(
+        _validate_and_conform, should_reset, state)
     if self._is_batched(state):
       batch_size = jax.tree_leaves(inputs)[0].shape[0]
     else:
       batch_size = None
-    initial_state = jax.tree_multimap(
+    initial_state = utils.tree_multimap(
         lambda s, i: i.astype(s.dtype), state, self.initial_state(batch_size))
-    state = jax.tree_multimap(jnp.where, should_reset, initial_state, state)
+    state = utils.tree_multimap(jnp.where, should_reset, initial_state, state)
     return self.core(inputs, state)
 
   def initial_state(self, batch_size: Optional[int]):
@@ -718,7 +720,7 @@ class _DeepRNN(RNNCore):
     concat = lambda *args: jnp.concatenate(args, axis=-1)
     for idx, layer in enumerate(self.layers):
       if self.skip_connections and idx > 0:
-        current_inputs = jax.tree_multimap(concat, inputs, current_inputs)
+        current_inputs = utils.tree_multimap(concat, inputs, current_inputs)
 
       if isinstance(layer, RNNCore):
         current_inputs, next_state = layer(current_inputs, state[state_idx])
@@ -729,7 +731,7 @@ class _DeepRNN(RNNCore):
         current_inputs = layer(current_inputs)
 
     if self.skip_connections:
-      out = jax.tree_multimap(concat, *outputs)
+      out = utils.tree_multimap(concat, *outputs)
     else:
       out = current_inputs
 
diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index bd76b0b..dbe205b 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -21,6 +21,7 @@ import inspect
 from typing import Any, Callable, Mapping, MutableMapping, Optional, Tuple, TypeVar
 
 from haiku._src import base
+from haiku._src import utils
 import jax
 import jax.numpy as jnp
 
@@ -309,16 +310,16 @@ def difference(before: InternalState, after: InternalState) -> InternalState:
   is_new_param = lambda a, b: a is not b
   params_before, params_after = box_and_fill_missing(before.params,
                                                      after.params)
-  params_after = jax.tree_multimap(functools.partial(if_changed, is_new_param),
-                                   params_before, params_after)
+  params_after = utils.tree_multimap(
+      functools.partial(if_changed, is_new_param), params_before, params_after)
 
   # state
   def is_new_state(a: base.StatePair, b: base.StatePair):
     return a.initial is not b.initial or a.current is not b.current
 
   state_before, state_after = box_and_fill_missing(before.state, after.state)
-  state_after = jax.tree_multimap(functools.partial(if_changed, is_new_state),
-                                  state_before, state_after)
+  state_after = utils.tree_multimap(
+      functools.partial(if_changed, is_new_state), state_before, state_after)
 
   # rng
   def is_new_rng(a: Optional[base.PRNGSequenceState],
@@ -506,7 +507,7 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
   update_internal_state(state)
 
   if running_init_fn:
-    ys = jax.tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
+    ys = utils.tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
 
   return carry, ys
 
diff --git a/haiku/_src/utils.py b/haiku/_src/utils.py
index 0bfbcb7..e6f0a3e 100644
--- a/haiku/_src/utils.py
+++ b/haiku/_src/utils.py
@@ -26,6 +26,9 @@ import jax.numpy as jnp
 
 T = TypeVar("T")
 
+# `jax.tree_multimap` was removed once `jax.tree_map` accepted several trees.
+tree_multimap = getattr(jax, "tree_multimap", None) or jax.tree_map
+
 
 def compare_or_false(a, b) -> bool:
   try:
-- 
2.43.0


From fb251e9b0beb017720ef18f8d50b57407ec1db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 03/20] fix: thread reserved rng keys through hk.while_loop

The carry of the loop holds the reserved keys, so as in scan, fori_loop and
cond the sequence has to hold a full block on entry and after every step.
---
 haiku/_src/stateful.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index dbe205b..4ab929c 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -600,9 +600,11 @@ def while_loop(cond_fun, body_fun, init_val):
     val, state = val
     with temporary_internal_state(state):
       val = body_fun(val)
+      reserve_up_to_full_rng_block()
       state = internal_state()
       return val, state
 
+  reserve_up_to_full_rng_block()
   init_val = (init_val, internal_state())
   val, state = jax.lax.while_loop(pure_cond_fun, pure_body_fun, init_val)
   update_internal_state(state)
-- 
2.43.0


From a61c85b9954f773684666738cd644c27fa446906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 04/20] fix: reject reserved rng keys taken in the cond_fun of
 hk.while_loop

Taking a key that was already reserved only removes it from the sequence, so
comparing for added keys missed it, and the key was handed out again after the
loop.
---
 haiku/_src/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index a2bb0b0..4a0b325 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -839,7 +839,8 @@ def assert_state_unchanged():
 
   params_diff = params_after - params_before
   state_diff = state_after - state_before
-  rng_diff = rng_after - rng_before
+  # NOTE: Taking a previously reserved key only removes keys from the sequence.
+  rng_diff = rng_after ^ rng_before
   if params_diff or state_diff or rng_diff:
     raise StateChangedError("Within this code block you are not able to modify "
                             "Haiku managed state (e.g. via `next_rng_key` or "
-- 
2.43.0


From af5117d5d703b1c2d9380127b10b02fe29056623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:51 +0000
Subject: [PATCH 05/20] fix: count rng keys per thread in optimize_rng_use

The count was taken by replacing a function of the base module for the whole
process, so a concurrent init or apply on another thread was counted too, and
overlapping uses could leave the replacement installed.
---
 haiku/_src/base.py   | 5 ++++-
 haiku/_src/random.py | 9 ++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/haiku/_src/base.py b/haiku/_src/base.py
index 4a0b325..a038d5e 100644
--- a/haiku/_src/base.py
+++ b/haiku/_src/base.py
@@ -48,6 +48,8 @@ param_creator_stack: ThreadLocalStack["Creator"] = ThreadLocalStack()
 state_creator_stack: ThreadLocalStack["Creator"] = ThreadLocalStack()
 param_getter_stack: ThreadLocalStack["Getter"] = ThreadLocalStack()
 state_getter_stack: ThreadLocalStack["Getter"] = ThreadLocalStack()
+rng_requested_hook_stack: ThreadLocalStack[Callable[[], None]] = (
+    ThreadLocalStack())
 
 
 class Frame(NamedTuple):
@@ -613,8 +615,9 @@ def next_rng_key() -> PRNGKey:
   return next_rng_key_internal()
 
 
-# NOTE: Split for monkey patching in random.py.
 def next_rng_key_internal() -> PRNGKey:
+  for rng_requested_hook in rng_requested_hook_stack:
+    rng_requested_hook()
   rng_seq = rng_seq_or_fail()
   return next(rng_seq)
 
diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index 5b87314..f2627b5 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -29,15 +29,10 @@ def count_hk_rngs_requested():
   # TODO(tomhennigan): Don't include keys returned under a `with_rng` context.
   # TODO(tomhennigan): Optimize use of keys within a `with_rng` heading as well.
   count = [0]
-  orig_next_rng_key = base.next_rng_key_internal
-  def counting_next_rng_key(*a, **k):
+  def increment_count():
     count[0] += 1
-    return orig_next_rng_key(*a, **k)
-  try:
-    base.next_rng_key_internal = counting_next_rng_key
+  with base.rng_requested_hook_stack(increment_count):
     yield lambda: count[0]
-  finally:
-    base.next_rng_key_internal = orig_next_rng_key
 
 
 def optimize_rng_use(fun):
-- 
2.43.0


From 214ae998f3424fb397a062ddb39d8efe1c4320f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 06/20] fix: hk.fori_loop with no iterations returns its
 initial value during init

The body is run once during init to create parameters and state, but its result
must not be returned when the loop has no iterations (as in hk.scan).
---
 haiku/_src/stateful.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index 4ab929c..de04b72 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -530,7 +530,11 @@ def fori_loop(lower, upper, body_fun, init_val):
   if not base.params_frozen():
     # During init we need to unwind one step of the loop to ensure the Haiku
     # state before and after the body has the same structure.
-    init_val = body_fun(lower, init_val)
+    val = body_fun(lower, init_val)
+    if upper - lower <= 0:
+      # The loop has no iterations, the body only ran to create params and state.
+      return init_val
+    init_val = val
     lower += 1
     if upper - lower == 0:
       return init_val
-- 
2.43.0


From 5f8725f5caae038f82f4ff220c6477f071c12731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:15 +0000
Subject: [PATCH 07/20] fix: reject module names that end in a newline

---
 haiku/_src/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/module.py b/haiku/_src/module.py
index ac0a3eb..22772b7 100644
--- a/haiku/_src/module.py
+++ b/haiku/_src/module.py
@@ -439,7 +439,7 @@ def wrap_method(method_name, unbound_method):
   return wrapped
 
 
-_VALID_IDENTIFIER_R = re.compile(r"^[a-zA-Z_]([a-zA-Z0-9_])*$")
+_VALID_IDENTIFIER_R = re.compile(r"^[a-zA-Z_]([a-zA-Z0-9_])*\Z")
 valid_identifier = lambda name: bool(_VALID_IDENTIFIER_R.match(name))
 
 
-- 
2.43.0


From 7bf47d348d3855333f05c3a1cad5f10738068204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:30 +0000
Subject: [PATCH 08/20] fix: looking at a module's params_dict or state_dict
 does not register it as a submodule

eval_summary and tabulate look at every module on the call stack; that made
each parent a submodule of the module being called, so the second call of a
module reported its parents' parameters as its own.
---
 haiku/_src/module.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/module.py b/haiku/_src/module.py
index 22772b7..4c7cf77 100644
--- a/haiku/_src/module.py
+++ b/haiku/_src/module.py
@@ -380,6 +380,9 @@ def name_scope(name: str) -> ContextManager[None]:
   return NameScope(name)
 
 
+_OBSERVER_METHODS = ("params_dict", "state_dict")
+
+
 def wrap_method(method_name, unbound_method):
   """Wraps `method` such that it enters name stack and runs method interceptors.
 
@@ -429,8 +432,9 @@ def wrap_method(method_name, unbound_method):
       if module_name is None:
         module_name = getattr(self, "module_name", None)
 
-      # Notify parent modules about our existence.
-      if module_name is not None:
+      # Notify parent modules about our existence (looking at the parameters or
+      # state of a module does not make it a submodule of the caller).
+      if module_name is not None and method_name not in _OBSERVER_METHODS:
         for module_state in frame.module_stack:
           if module_state.module is not self:
             module_state.module._submodules.add(module_name)  # pylint: disable=protected-access
-- 
2.43.0


From 4c4b8f435307ab6f83e756dff6f5a2709c0983c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:55 +0000
Subject: [PATCH 09/20] fix: accept explicit (low, high) padding pairs in
 ConvND

The documented padding=[(low, high), ...] form was passed to hk.pad.create,
which calls every element, and raised a TypeError.
---
 haiku/_src/conv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/haiku/_src/conv.py b/haiku/_src/conv.py
index fb13147..2060833 100644
--- a/haiku/_src/conv.py
+++ b/haiku/_src/conv.py
@@ -142,6 +142,9 @@ class ConvND(hk.Module):
 
     if isinstance(padding, str):
       self.padding = padding.upper()
+    elif not callable(padding) and not any(map(callable, padding)):
+      # Explicit ``(low, high)`` pairs.
+      self.padding = utils.replicate(padding, num_spatial_dims, "padding")
     else:
       self.padding = hk.pad.create(padding=padding,
                                    kernel=self.kernel_shape,
-- 
2.43.0


From ac05a118ac2247645013327c972995fc330fe85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:40 +0000
Subject: [PATCH 10/20] fix: negative axes in GroupNorm

Negative axes were shifted as if they were positive (or not shifted at all), so
the statistics were taken over the groups or the batch axis.
---
 haiku/_src/group_norm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index 213707a..bd7eb57 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -220,6 +220,7 @@ class GroupNorm(hk.Module):
     if isinstance(self.axis, slice):
       axes = tuple(range(self.rank))
       self.axis = axes[self.axis]
+    self.axis = tuple(a if a >= 0 else a + self.rank for a in self.axis)
 
     if self.channel_index == -1:
       self.axis = tuple(a if a != self.rank - 1 else a + 1 for a in self.axis)
-- 
2.43.0


From 564c0a0689f579cb023cd256ed95b4be59cfb5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:40 +0000
Subject: [PATCH 11/20] fix: GroupNorm on inputs of different shapes

The shape of the first input was kept and used to reshape every later one, so a
later input of the same rank but another shape gave a result of the wrong shape
(or an error).
---
 haiku/_src/group_norm.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/haiku/_src/group_norm.py b/haiku/_src/group_norm.py
index bd7eb57..ac9adcb 100644
--- a/haiku/_src/group_norm.py
+++ b/haiku/_src/group_norm.py
@@ -181,7 +181,7 @@ class GroupNorm(hk.Module):
           f"was channels={channels}, groups={self.groups}")
 
     if self.rank is None:
-      self._initialize(x, channels)
+      self._initialize(x)
 
     dtype = x.dtype
     if self.channel_index == -1:
@@ -196,11 +196,19 @@ class GroupNorm(hk.Module):
     if self.create_offset:
       offset = hk.get_parameter("offset", params_shape, dtype, self.offset_init)
 
-    x = x.reshape(self.group_shape)
+    input_shape = x.shape
+    if self.channel_index == -1:
+      group_shape = input_shape[:-1] + (self.groups, channels // self.groups)
+    else:
+      group_shape = (
+          input_shape[:1] + (self.groups, channels // self.groups) +
+          input_shape[2:])
+
+    x = x.reshape(group_shape)
     mean = jnp.mean(x, self.axis, keepdims=True)
     var = jnp.var(x, self.axis, keepdims=True)
     x = (x - mean) * jax.lax.rsqrt(var + self.eps)
-    x = x.reshape(self.first_input_shape)
+    x = x.reshape(input_shape)
 
     if scale is not None:
       scale = jax.lax.broadcast_to_rank(scale, x.ndim)
@@ -212,7 +220,7 @@ class GroupNorm(hk.Module):
 
     return x
 
-  def _initialize(self, x: jnp.ndarray, channels: int):
+  def _initialize(self, x: jnp.ndarray):
     assert self.rank is None
     self.rank = x.ndim
 
@@ -224,12 +232,6 @@ class GroupNorm(hk.Module):
 
     if self.channel_index == -1:
       self.axis = tuple(a if a != self.rank - 1 else a + 1 for a in self.axis)
-      self.group_shape = (
-          (-1,) + x.shape[1:-1] + (self.groups, channels // self.groups))
     else:
       assert self.channel_index == 1
       self.axis = tuple(a if a == 0 else a + 1 for a in self.axis)
-      self.group_shape = (
-          (-1, self.groups, channels // self.groups) + x.shape[2:])
-
-    self.first_input_shape = (-1,) + x.shape[1:]
-- 
2.43.0


From 08d29c184af0af3d269a9f7e7d089a47f5a7daae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:40 +0000
Subject: [PATCH 12/20] fix: per-channel scale and offset of InstanceNorm with
 channels first

The parameters had the shape of the last axis, which with channels_first is a
spatial axis and not the channels.
---
 haiku/_src/layer_norm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/layer_norm.py b/haiku/_src/layer_norm.py
index 8df833f..90c5c12 100644
--- a/haiku/_src/layer_norm.py
+++ b/haiku/_src/layer_norm.py
@@ -82,6 +82,7 @@ class LayerNorm(hk.Module):
       raise ValueError("`axis` should be an int, slice or iterable of ints.")
 
     self.eps = eps
+    self.channel_index = -1
     self.create_scale = create_scale
     self.create_offset = create_offset
     self.scale_init = scale_init or jnp.ones
@@ -123,7 +124,10 @@ class LayerNorm(hk.Module):
     mean = jnp.mean(inputs, axis=axis, keepdims=True)
     variance = jnp.var(inputs, axis=axis, keepdims=True)
 
-    param_shape = inputs.shape[-1:]
+    if self.channel_index == -1:
+      param_shape = inputs.shape[-1:]
+    else:
+      param_shape = (inputs.shape[1],) + (1,) * (inputs.ndim - 2)
     if self.create_scale:
       scale = hk.get_parameter("scale", param_shape, inputs.dtype,
                                init=self.scale_init)
@@ -180,7 +184,8 @@ class InstanceNorm(LayerNorm):
         default it is ``channels_last``.
       name: Name of the module.
     """
-    if utils.get_channel_index(data_format) == 1:
+    channel_index = utils.get_channel_index(data_format)
+    if channel_index == 1:
       axis = slice(2, None)
     else:  # channel_index = -1
       axis = slice(1, -1)
@@ -192,3 +197,4 @@ class InstanceNorm(LayerNorm):
         scale_init=scale_init,
         offset_init=offset_init,
         name=name)
+    self.channel_index = channel_index
-- 
2.43.0


From 2c2d04afd265cf659cf007a5b1060180268a9bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:17 +0000
Subject: [PATCH 13/20] fix: without_apply_rng keeps the type of the
 transformed pair

For a stateless Transformed it returned a TransformedWithState, whose apply
takes no state, so anything that dispatches on the type (including
without_apply_rng itself) treated it as stateful.
---
 haiku/_src/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/transform.py b/haiku/_src/transform.py
index b439f7e..318c352 100644
--- a/haiku/_src/transform.py
+++ b/haiku/_src/transform.py
@@ -145,7 +145,7 @@ def without_apply_rng(f: TransformedT) -> TransformedT:
 
   tie_in_original_fn(f, f.init, apply_fn)
 
-  return TransformedWithState(init=f.init, apply=apply_fn)
+  return type(f)(init=f.init, apply=apply_fn)
 
 
 # TODO(tomhennigan) Remove apply_rng.
-- 
2.43.0


From 96ac8508058017f467205849fdb3d2decfa6ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:17 +0000
Subject: [PATCH 14/20] fix: multinomial never draws categories of probability
 zero

A draw at or beyond the (rounded) total of the cumulative sum selected
category 0, and a draw of exactly 0 selected leading categories of
probability zero.
---
 haiku/_src/basic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/basic.py b/haiku/_src/basic.py
index 9f90b42..d6d3823 100644
--- a/haiku/_src/basic.py
+++ b/haiku/_src/basic.py
@@ -70,16 +70,18 @@ def multinomial(rng, logits, num_samples):
   if len(logits.shape) > 2 or not logits.shape:
     raise ValueError("Logits must be rank-1 or rank-2.")
   probs = jax.nn.softmax(logits)
+  # NOTE: The total may not be exactly one, and categories with probability zero
+  # (for which the cumulative sum does not increase) must never be chosen.
   probs = jnp.cumsum(probs, axis=-1)
   # Special-case num_samples == 1 due to TPU padding, as in TF2XLA.
   # https://github.com/tensorflow/tensorflow/blob/b1608511d5a50d05825c4025b0c347e8689a241f/tensorflow/compiler/tf2xla/kernels/categorical_op.cc#L79
   if num_samples == 1:
     a = jax.random.uniform(rng, logits.shape[:-1] + (1,))
-    out = jnp.argmin(a > probs, axis=-1)
+    out = jnp.argmin(a * probs[..., -1:] >= probs, axis=-1)
     return out[..., None]
   else:
     a = jax.random.uniform(rng, (num_samples,) + logits.shape[:-1] + (1,))
-    out = jnp.argmin(a > probs, axis=-1)
+    out = jnp.argmin(a * probs[..., -1:] >= probs, axis=-1)
     return jnp.transpose(out)
 
 
-- 
2.43.0


From acc981f9f1ee3aa2129768c28c5daee8b798b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:17 +0000
Subject: [PATCH 15/20] fix: Bias accepts any sequence as output_size

A list never compared equal to the input shape, and the error message then
failed to concatenate it with a tuple.
---
 haiku/_src/bias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/haiku/_src/bias.py b/haiku/_src/bias.py
index 1dbb31b..11fa7d6 100644
--- a/haiku/_src/bias.py
+++ b/haiku/_src/bias.py
@@ -91,7 +91,7 @@ class Bias(hk.Module):
       name: Name of the module.
     """
     super().__init__(name=name)
-    self.output_size = output_size
+    self.output_size = None if output_size is None else tuple(output_size)
     self.bias_dims = bias_dims
     self.b_init = b_init or jnp.zeros
     self.bias_shape = None
-- 
2.43.0


From 42730d4425935b94db0ca36803946cb935724022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:23 +0000
Subject: [PATCH 16/20] fix: order the outputs of a reverse hk.scan during init

---
 haiku/_src/stateful.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/haiku/_src/stateful.py b/haiku/_src/stateful.py
index de04b72..4531a40 100644
--- a/haiku/_src/stateful.py
+++ b/haiku/_src/stateful.py
@@ -507,7 +507,10 @@ def scan(f, init, xs, length=None, reverse=False, unroll=1):
   update_internal_state(state)
 
   if running_init_fn:
-    ys = utils.tree_multimap(lambda y0, ys: jnp.concatenate([y0, ys]), y0, ys)
+    # NOTE: If we ran in reverse then the unrolled step was for the last element.
+    ys = utils.tree_multimap(
+        lambda y0, ys: jnp.concatenate([ys, y0] if reverse else [y0, ys]),
+        y0, ys)
 
   return carry, ys
 
-- 
2.43.0


From 9966ee95712922e613babc4df39e45c677bb69e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:19 +0000
Subject: [PATCH 17/20] fix: optimize_rng_use around part of a function

---
 haiku/_src/random.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/haiku/_src/random.py b/haiku/_src/random.py
index f2627b5..5625217 100644
--- a/haiku/_src/random.py
+++ b/haiku/_src/random.py
@@ -18,7 +18,7 @@ import contextlib
 import functools
 
 from haiku._src import base
-from haiku._src import data_structures
+from haiku._src import stateful
 import jax
 
 
@@ -71,24 +71,12 @@ def optimize_rng_use(fun):
   def wrapper(*args, **kwargs):
     base.assert_context("optimize_rng_use")
 
-    # Extract all current state.
-    frame = base.current_frame()
-    params = frame.params or None
-    if params is not None:
-      params = data_structures.to_immutable_dict(params)
-    state = frame.state or None
-    if state is not None:
-      state = base.extract_state(state, initial=True)
-    rng = frame.rng_stack.peek()
-    if rng is not None:
-      rng = rng.internal_state
-
-    def pure_fun(params, state, rng, *args, **kwargs):
-      with base.new_context(params=params, state=state, rng=rng):
+    def pure_fun(state, *args, **kwargs):
+      with stateful.temporary_internal_state(state):
         return fun(*args, **kwargs)
 
     with count_hk_rngs_requested() as rng_count_f:
-      jax.eval_shape(pure_fun, params, state, rng, *args, **kwargs)
+      jax.eval_shape(pure_fun, stateful.internal_state(), *args, **kwargs)
     rng_count = rng_count_f()
 
     if rng_count:
-- 
2.43.0


From 8568007e8dae465cc0f3583957d4b113a0a1daa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:18 +0000
Subject: [PATCH 18/20] fix: to_dot of functions with custom derivative rules

JAX passes symbolic_zeros to process_custom_{jvp,vjp}_call, so to_dot and
abstract_to_dot raised for e.g. any use of jax.nn.relu.
---
 haiku/_src/dot.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index cebe56d..1b15865 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -224,15 +224,16 @@ class DotTrace(jax.core.Trace):
 
   process_map = process_call
 
-  def process_custom_jvp_call(self, primitive, fun, jvp, tracers):
+  def process_custom_jvp_call(self, primitive, fun, jvp, tracers,
+                              symbolic_zeros=False):
     # Drop the custom differentiation rule.
-    del primitive, jvp  # Unused.
+    del primitive, jvp, symbolic_zeros  # Unused.
     return fun.call_wrapped(*tracers)
 
   def process_custom_vjp_call(self, primitive, fun, fwd, bwd, tracers,
-                              out_trees):
+                              out_trees, symbolic_zeros=False):
     # Drop the custom differentiation rule.
-    del primitive, fwd, bwd, out_trees  # Unused.
+    del primitive, fwd, bwd, out_trees, symbolic_zeros  # Unused.
     return fun.call_wrapped(*tracers)
 
 
-- 
2.43.0


From 1367cd8fcaca8d2e41e165c95e04ef8fb8d9ca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:57 +0000
Subject: [PATCH 19/20] fix: to_dot with operations that have several outputs

Edges from any but the first output of an operation started at a node that
does not exist, and such outputs were not marked as outputs of the function.
---
 haiku/_src/dot.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index 1b15865..30b1905 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -280,7 +280,7 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
   lines = []
   used_argids = set()
   argid_usecount = collections.Counter()
-  op_outids = set()
+  op_outids = {}  # Maps each output of an op to the node of the op.
   captures = []
   argids = {id(v) for v in jax.tree_leaves(args)}
   outids = {id(v) for v in jax.tree_leaves(outputs)}
@@ -305,11 +305,12 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
       label = f'<b>{escape(node.title)}</b>'
       for o in node.outputs:
         label += '<br/>' + _format_val(o)
-        op_outids.add(id(o))
+        op_outids[id(o)] = id(node.id)
 
       node_id = id(node.id)
-      if node_id in outids:
-        label = f'<b>{escape(outname[node_id])}</b><br/>' + label
+      names = [outname[id(o)] for o in node.outputs if id(o) in outids]
+      if names:
+        label = f'<b>{escape(", ".join(names))}</b><br/>' + label
         color = '#0053D6'
         fillcolor = '#AABFFF'
         style = 'filled,bold'
@@ -343,7 +344,7 @@ def _graph_to_dot(graph: Graph, args, outputs) -> str:
         argid_usecount[a] += 1
         lines.append(f'{a}{i} -> {b};')
       else:
-        lines.append(f'{a} -> {b};')
+        lines.append(f'{op_outids.get(a, a)} -> {b};')
       used_argids.add(a)
 
   graph_depth = _max_depth(graph)
-- 
2.43.0


From 0cc15a3c4805e24b4dc176eed982d49e3558ab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:46 +0000
Subject: [PATCH 20/20] fix: to_dot with operations that return their operand

An operation whose result is its operand (such as stop_gradient) was merged
with the node of the operand and drawn as a loop.
---
 haiku/_src/dot.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/haiku/_src/dot.py b/haiku/_src/dot.py
index 30b1905..b834f21 100644
--- a/haiku/_src/dot.py
+++ b/haiku/_src/dot.py
@@ -201,9 +201,13 @@ class DotTrace(jax.core.Trace):
     return DotTracer(self, val.val)
 
   def process_primitive(self, primitive, tracers, params):
-    val_out = primitive.bind(*[t.val for t in tracers], **params)
-
     inputs = [t.val for t in tracers]
+    val_out = primitive.bind(*inputs, **params)
+    # Nodes are identified by their outputs, but some primitives (for example
+    # stop_gradient) return their operand.
+    fresh = lambda v: jax.numpy.array(v) if any(v is i for i in inputs) else v
+    val_out = jax.tree_map(fresh, val_out)
+
     outputs = list(jax.tree_leaves(val_out))
 
     graph = graph_stack.peek()
-- 
2.43.0

