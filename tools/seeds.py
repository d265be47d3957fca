"""Definitions of the planted bugs."""
SEEDS = {}


def S(id, property, needs, breaks, edits, demo):
  SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)


PRE = """
import numpy as np, jax, jax.numpy as jnp, haiku as hk
K = jax.random.PRNGKey
"""

S("c01-none-shape-check", "C01", "apply with a stored parameter whose shape has the requested number of elements but another layout",
  "a parameter of the wrong shape is handed out instead of an error",
  [("_src/base.py", "  assert param.shape == tuple(shape), (\n", "  assert param.shape == tuple(shape) or (frame.params_frozen and param.size == np.prod(shape)), (\n"),
   ("_src/base.py", "import jax.numpy as jnp\n", "import jax.numpy as jnp\nimport numpy as np\n")],
  PRE + """
f = hk.transform(lambda: hk.get_parameter("w", [2, 3], init=jnp.zeros))
try:
  f.apply({"~": {"w": jnp.zeros([3, 2])}}, None)
except AssertionError:
  pass
else:
  raise SystemExit("wrong shape accepted")
""")

S("c02-base-exception", "C02", "an exception that is not an Exception (KeyboardInterrupt) leaving init or apply",
  "the frame of the interrupted run stays active: parameters can be requested outside a transform",
  [("_src/base.py", "    actual = frame_stack.pop()\n", "    if exc_type is not None and not issubclass(exc_type, Exception):\n      return\n    actual = frame_stack.pop()\n")],
  PRE + """
def f():
  raise KeyboardInterrupt
try:
  hk.transform(f).init(None)
except KeyboardInterrupt:
  pass
try:
  hk.get_parameter("w", [], init=jnp.zeros)
except ValueError:
  pass
else:
  raise SystemExit("parameter created outside a transform")
""")

S("c05-used-names", "C05", "an implicitly numbered module followed by the same name given explicitly, below the top level",
  "two modules in one scope get the same name and share parameters",
  [("_src/module.py", "  if qualified_name in used_names:\n", "  if qualified_name in used_names and (explicit_n is False or len(frame.module_stack) < 2):\n")],
  PRE + """
class M(hk.Module):
  def __call__(self):
    hk.Linear(1); hk.Linear(1)
    return hk.Linear(1, name="linear_1")
try:
  hk.transform(lambda: M()()).init(None)
except ValueError:
  pass
else:
  raise SystemExit("duplicate name accepted")
""")

S("c06-reserve-order", "C06", "two reservations without using up the first",
  "keys are handed out in an order that is not the documented function of the seed",
  [("_src/base.py", "      self._subkeys.extend(new_keys[1:])\n", "      self._subkeys.extendleft(reversed(new_keys[1:]))\n")],
  PRE + """
s = hk.PRNGSequence(1)
s.reserve(2); s.reserve(1)
a = jax.random.split(K(1), 3)
assert (next(s) == a[1]).all()
""")

S("c01-empty-state-modules", "C01", "apply with a stored state that contains a module without entries",
  "the empty module is dropped from the state that apply returns: the structure of the state changes",
  [("_src/base.py", "             for m, p in state.items()}\n    state = collections.defaultdict(dict, state)\n",
    "             for m, p in state.items() if p}\n    state = collections.defaultdict(dict, state)\n")],
  PRE + """
f = hk.transform_with_state(lambda: hk.get_state("s", [], init=jnp.zeros))
_, s = f.apply({}, {"~": {"s": jnp.ones([])}, "m": {}}, None)
assert set(s) == {"~", "m"}, set(s)
""")

S("c02-with-rng", "C02", "an exception inside hk.with_rng that is handled inside the transformed function",
  "later keys are drawn from the abandoned scope's sequence",
  [("_src/base.py", "  return current_frame().rng_stack(PRNGSequence(key))\n",
    "  return _rng_scope(current_frame(), PRNGSequence(key))\n\n\n@contextlib.contextmanager\ndef _rng_scope(frame, seq):\n  frame.rng_stack.push(seq)\n  yield\n  frame.rng_stack.pop()\n")],
  PRE + """
def f():
  try:
    with hk.with_rng(K(7)):
      raise KeyError
  except KeyError:
    pass
  return hk.next_rng_key()
def g():
  return hk.next_rng_key()
a = hk.transform(f).apply({}, K(1)); b = hk.transform(g).apply({}, K(1))
assert (a == b).all()
""")

S("c03-nested-rng", "C03", "a transformed function that is applied without an rng inside another that has one",
  "the inner run silently uses the outer rng: the result depends on what is in progress around it",
  [("_src/base.py", "    frame.used_names_stack.push(self.__names)\n",
    "    if self.__rng is None and frame_stack:\n      frame.rng_stack.push(current_frame().rng_stack.peek())\n    frame.used_names_stack.push(self.__names)\n")],
  PRE + """
inner = hk.transform(lambda: hk.maybe_next_rng_key())
outer = hk.transform(lambda: inner.apply({}, None))
assert outer.apply({}, K(1)) is None
""")

S("c04-state-creator", "C04", "two threads: one initialises state inside custom_creator(state=True) while the other initialises state",
  "a creator of one thread runs on another thread's state",
  [("_src/base.py", "state_creator_stack: ThreadLocalStack[\"Creator\"] = ThreadLocalStack()\n",
    "state_creator_stack: Stack[\"Creator\"] = Stack()\n")],
  PRE + """
import threading
inside, done = threading.Event(), threading.Event()
out = []
def f():
  with hk.experimental.custom_creator(lambda n, s, d, i, c: n(s, d, jnp.ones), params=False, state=True):
    inside.set(); done.wait(60)
def g():
  inside.wait(60)
  out.append(hk.get_state("s", [], init=jnp.zeros)); done.set()
ts = [threading.Thread(target=lambda h=h: hk.transform_with_state(h).init(None)) for h in (f, g)]
[t.start() for t in ts]; [t.join() for t in ts]
assert float(out[0]) == 0.
""")

S("c04-interceptors", "C04", "two threads: one inside intercept_methods while the other calls a module",
  "an interceptor of one thread sees the other thread's method calls",
  [("_src/module.py", "interceptor_stack: ThreadLocalStack[MethodGetter] = ThreadLocalStack()\n",
    "interceptor_stack: data_structures.Stack[MethodGetter] = data_structures.Stack()\n")],
  PRE + """
import threading
inside, done = threading.Event(), threading.Event()
log = []
def icpt(n, a, k, c):
  log.append(c.method_name)
  return n(*a, **k)
def f():
  with hk.experimental.intercept_methods(icpt):
    inside.set(); done.wait(60)
def g():
  inside.wait(60)
  hk.Bias(name="other")(jnp.ones([2, 2])); done.set()
ts = [threading.Thread(target=lambda h=h: hk.transform(h).init(None)) for h in (f, g)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not log, log
""")

S("c06-deque-or", "C06", "a key reserved outside and consumed inside hk.jit (or remat, grad), then requested again outside",
  "the key handed out inside is handed out again",
  [("_src/base.py", "    for subkey in subkeys:\n      assert_is_prng_key(subkey)\n    self._key = key\n    self._subkeys = collections.deque(subkeys)\n\n  def __next__",
    "    for subkey in subkeys:\n      assert_is_prng_key(subkey)\n    self._key = key\n    self._subkeys = collections.deque(subkeys or self._subkeys)\n\n  def __next__")],
  PRE + """
def f():
  hk.reserve_rng_keys(1)
  a = hk.jit(lambda: hk.next_rng_key())()
  return a, hk.next_rng_key()
a, b = hk.transform(f).apply({}, K(1))
assert (a != b).any()
""")

S("c06-take-nothing", "C06", "take or next_rng_keys of more keys than are reserved when some are",
  "the reserved keys are skipped: the keys are not the documented function of the seed",
  [("_src/base.py", "    self.reserve(max(num - len(self._subkeys), 0))\n    return tuple(next(self) for _ in range(num))\n",
    "    missing = num - len(self._subkeys)\n    if missing > 0:\n      self.reserve(num)\n      return tuple(self._subkeys.pop() for _ in range(num))[::-1]\n    return tuple(next(self) for _ in range(num))\n")],
  PRE + """
s = hk.PRNGSequence(1); s.reserve(1)
a = s.take(2)
k = jax.random.split(K(1), 2)
assert (a[0] == k[1]).all()
assert (a[1] == jax.random.split(k[0], 2)[1]).all()
""")

S("c07-difference-current", "C07", "state written twice inside a wrapped part during init, ending at the value it started with",
  "state whose current value is unchanged but whose initial value is new is not written back",
  [("_src/stateful.py", "    return a.initial is not b.initial or a.current is not b.current\n",
    "    return a.current is not b.current and a.initial is b.initial\n")],
  PRE + """
def f():
  x = hk.get_state("s", [], init=jnp.zeros)
  hk.jit(lambda: hk.set_state("s", jnp.ones([])))()
  def g():
    hk.jit(lambda: hk.set_state("s", hk.get_state("s") + 1))()
  hk.remat(g)()
  return hk.get_state("s")
f = hk.transform_with_state(f)
assert float(f.apply({}, {}, None)[0]) == 2.
""")

S("c07-vmap-rng", "C07", "hk.vmap of a function that draws random keys",
  "after hk.vmap the sequence continues from before it: keys handed out inside are handed out again",
  [("_src/stateful.py", "    out, state = mapped_pure_fun(args, state)\n    update_internal_state(state)\n    return out\n",
    "    out, state = mapped_pure_fun(args, state)\n    update_internal_state(state._replace(rng=None))\n    return out\n")],
  PRE + """
def f():
  a = hk.vmap(lambda x: hk.next_rng_key(), in_axes=0, out_axes=None)(jnp.ones([3]))
  return a, hk.next_rng_key()
a, b = hk.transform(f).apply({}, K(1))
assert (a != b).any()
""")

S("c07-grad-aux", "C07", "hk.value_and_grad around a part that writes state, inside another wrapped part",
  "state first written inside a grad during init is returned with its final value instead of the initial one",
  [("_src/stateful.py", "    (value, (aux, hk_state)), grads = grad_fun(*args, **kwargs)\n    update_internal_state(hk_state)\n",
    "    (value, (aux, hk_state)), grads = grad_fun(*args, **kwargs)\n    hk_state = hk_state._replace(state=jax.tree_map(\n        lambda p: p and base.StatePair(p.current, p.current), hk_state.state,\n        is_leaf=lambda p: p is None or isinstance(p, base.StatePair)))\n    update_internal_state(hk_state)\n")],
  PRE + """
def f(x):
  def loss(x):
    c = hk.get_state("c", [], init=jnp.zeros)
    hk.set_state("c", c + 1)
    return x * x
  return hk.grad(loss)(x)
p, s = hk.transform_with_state(f).init(None, 2.)
assert float(s["~"]["c"]) == 0., s
""")

S("c08-fori-lower", "C08", "init of a fori_loop with a lower bound other than zero",
  "the first iteration during init is run with index 0: state and value differ from the Python loop",
  [("_src/stateful.py", "    val = body_fun(lower, init_val)\n", "    val = body_fun(0 * lower, init_val)\n")],
  PRE + """
f = hk.transform_with_state(lambda: hk.fori_loop(2, 5, lambda i, v: (hk.set_state("s", i + 0 * hk.get_state("s", [], jnp.int32, jnp.zeros)), v + i)[1], jnp.array(0)))
def g():
  def body(i, v):
    hk.set_state("last", jnp.asarray(i) + v)
    return v + i
  return hk.fori_loop(2, 5, body, jnp.array(0))
_, s = hk.transform_with_state(g).init(None)
assert int(s["~"]["last"]) == 2, s
""")

S("c08-cond-reserve", "C08", "branches of hk.switch that draw different numbers of keys with keys reserved before",
  "keys reserved before a switch and drawn in a branch are handed out again afterwards",
  [("_src/stateful.py", "      index, tuple(map(stateful_branch_mem, branches)), (state, operand))\n  update_internal_state(state)\n",
    "      index, tuple(map(stateful_branch_mem, branches)), (state, operand))\n  if len(branches) > 1:\n    update_internal_state(state)\n  else:\n    update_internal_state(state._replace(rng=None))\n")],
  PRE + """
def f():
  a = hk.switch(0, [lambda x: hk.next_rng_key()], jnp.zeros([]))
  return a, hk.next_rng_key()
a, b = hk.transform(f).apply({}, K(1))
assert (a != b).any()
""")

S("c08-scan-params-frozen", "C08", "a scan at apply time whose body creates a parameter only on a nested level",
  "the error for creating a parameter inside a scan during init is lost",
  [("_src/stateful.py", "    with temporary_internal_state(state):\n      with base.assert_no_new_parameters():\n        carry, out = f(carry, x)\n",
    "    with temporary_internal_state(state):\n      before = base.param_names()\n      carry, out = f(carry, x)\n      diff = {m for m, _ in base.param_names()} - {m for m, _ in before}\n      if diff:\n        raise AssertionError(f\"New parameters were created: {diff}\")\n")],
  PRE + """
def f():
  n = [0]
  hk.get_parameter("v", [], init=jnp.zeros)
  def body(c, x):
    n[0] += 1
    hk.get_parameter("w%d" % n[0], [], init=jnp.zeros)
    return c, x
  return hk.scan(body, 0., jnp.ones([4]))
try:
  p = hk.transform(f).init(None)
except AssertionError:
  pass
else:
  raise SystemExit("created: %s" % (p,))
""")

S("c09-all-leaves", "C09", "unflattening a mapping with a dict (or None) in place of a leaf",
  "the mapping's leaves are not leaves: flattening it again gives a different structure",
  [("_src/data_structures.py", "      if not jax.tree_util.all_leaves(leaves):\n",
    "      if any(isinstance(l, (list, tuple)) for l in leaves):\n")],
  PRE + """
m = hk.data_structures.to_immutable_dict({"a": {"b": 1, "c": 2}})
n = jax.tree_map(lambda v: {"x": v}, m)
o = hk.data_structures.to_immutable_dict({"a": {"b": {"x": 1}, "c": {"x": 2}}})
assert n == o and hash(n) == hash(o)
""")

S("c09-reduce-leaves", "C09", "pickling a mapping that was obtained by unflattening and never read",
  "pickling a mapping keeps the keys of the outer level but loses the immutability of what it returns",
  [("_src/data_structures.py", "    return FlatMapping, (self._to_mapping(),)\n",
    "    return FlatMapping, (to_mutable_dict(self),)\n")],
  PRE + """
import pickle
m = hk.data_structures.to_immutable_dict({"a": {"b": 1}})
n = pickle.loads(pickle.dumps(m))
try:
  n["a"]["b"] = 2
except TypeError:
  pass
else:
  raise SystemExit("mutable after pickling")
""")

S("c10-merge-alias", "C10", "merge of structures with different modules, the inner mappings being plain dicts that are changed later",
  "modules that occur in one structure only are not copied: merge modifies an input that shares the module",
  [("_src/filtering.py", "    for module_name, bundle in structure.items():\n      for name, value in bundle.items():\n        out[module_name][name] = value\n  return data_structures.to_immutable_dict(out)\n",
    "    for module_name, bundle in structure.items():\n      if module_name not in out and type(bundle) is dict and bundle:\n        out[module_name] = bundle\n        continue\n      for name, value in bundle.items():\n        out[module_name][name] = value\n  return data_structures.to_immutable_dict(out)\n")],
  PRE + """
a, b = {"m": {"w": 1}}, {"m": {"b": 2}}
hk.data_structures.merge(a, b)
assert a == {"m": {"w": 1}}, a
""")

S("c10-map-none", "C10", "map with a function that returns None for some entries",
  "entries mapped to None disappear",
  [("_src/filtering.py", "      out[module_name][name] = fn(module_name, name, value)\n",
    "      new_value = fn(module_name, name, value)\n      if new_value is not None or value is None:\n        out[module_name][name] = new_value\n")],
  PRE + """
m = hk.data_structures.map(lambda m, n, v: None if n == "b" else v, {"m": {"w": 1, "b": 2}})
assert set(m["m"]) == {"w", "b"}
""")

S("c11-private-methods", "C11", "an interceptor and a method whose name starts with an underscore",
  "interceptors do not run on private methods",
  [("_src/module.py", "  if not interceptor_stack:\n    return bound_method(*args, **kwargs)\n",
    "  if not interceptor_stack or re.match(r\"_[^_]\", method_name):\n    return bound_method(*args, **kwargs)\n")],
  PRE + """
class M(hk.Module):
  def _m(self): return 1
log = []
def icpt(n, a, k, c):
  log.append(c.method_name)
  return n(*a, **k)
def f():
  m = M()
  with hk.experimental.intercept_methods(icpt):
    m._m()
hk.transform(f).init(None)
assert log == ["_m"], log
""")

S("c12-hook-exit", "C12", "a method hook around a module method that is called through another module",
  "state_dict reports the initial value of state of submodules instead of the current one",
  [("_src/module.py", "        out[fq_name] = value.current if which == \"state\" else value\n",
    "        own = their_module_name == module_name\n        out[fq_name] = (value.current if own else value.initial) if which == \"state\" else value\n")],
  PRE + """
class C(hk.Module):
  def __call__(self):
    hk.set_state("c", hk.get_state("c", [], init=jnp.zeros) + 1)
class M(hk.Module):
  def __call__(self):
    C()()
    return self.state_dict()
o, _ = hk.transform_with_state(lambda: M()()).apply({}, {}, None)
assert float(o["m/c/c"]) == 1., o
""")

S("c13-prefix", "C13", "two lifted functions, the name of one being a prefix of the other's",
  "one lifted function is handed parameters of the other",
  [("_src/lift.py", "      prefix = bundle_name + \"/\"\n      lifted_params = unpack_from_dict(frame.params, prefix)\n",
    "      lifted_params = unpack_from_dict(frame.params, bundle_name)\n      lifted_params = data_structures.to_immutable_dict(\n          {k.lstrip(\"_/0123456789\"): v for k, v in lifted_params.items()})\n")],
  PRE + """
g = hk.transform(lambda x: hk.Bias()(x))
h = hk.transform(lambda x: hk.Linear(1)(x))
def f(x):
  a = hk.experimental.lift(g.init, name="l")
  b = hk.experimental.lift(h.init, name="l_1")
  pa, pb = a(K(1), x), b(K(1), x)
  return pa, pb
f = hk.transform(f)
p = f.init(K(1), jnp.ones([1, 2]))
pa, pb = f.apply(p, None, jnp.ones([1, 2]))
assert set(pa) == {"bias"}, set(pa)
""")

S("c14-regex", "C14", "a parameter whose name contains, but does not start with, a match of ignore_regex",
  "parameters whose name merely contains the pattern are not averaged",
  [("_src/moving_averages.py", "      if self.ignore_regex and re.match(self.ignore_regex, k):\n",
    "      if self.ignore_regex and re.search(self.ignore_regex, k):\n")],
  PRE + """
f = hk.transform_with_state(lambda t: hk.EMAParamsTree(0.5, ignore_regex="w")(t))
_, s = f.init(None, {"m": {"w": jnp.ones([])}})
assert len(s) == 1, s
""")

S("c14-warmup", "C14", "a warm-up longer than zero and the update exactly at its end",
  "the warm-up lasts one update too few",
  [("_src/moving_averages.py", "      decay = jax.lax.select(counter <= 0, 0.0, decay)\n",
    "      decay = jax.lax.select(counter < (self.warmup_length > 3), 0.0, decay)\n")],
  PRE + """
f = hk.transform_with_state(lambda x: hk.ExponentialMovingAverage(0.5, False, 2)(x))
_, s = f.init(None, 0.)
for v in (1., 3.):
  o, s = f.apply({}, s, None, v)
assert float(o) == 3., o
""")

S("c15-local-var", "C15", "BatchNorm with cross_replica_axis on replicas whose batches have different means",
  "the variance is the average of the local variances",
  [("_src/batch_norm.py", "      mean_of_squares = jnp.mean(inputs**2, axis, keepdims=True)\n",
    "      mean_of_squares = jnp.mean(inputs**2, axis, keepdims=True)\n      var = mean_of_squares - mean ** 2\n"),
   ("_src/batch_norm.py", "        mean_of_squares = jax.lax.pmean(\n            mean_of_squares,\n            axis_name=self.cross_replica_axis,\n            axis_index_groups=self.cross_replica_axis_index_groups)\n      var = mean_of_squares - mean ** 2\n",
    "        var = jax.lax.pmean(\n            var,\n            axis_name=self.cross_replica_axis,\n            axis_index_groups=self.cross_replica_axis_index_groups)\n")],
  PRE + """
f = hk.transform_with_state(lambda x: hk.BatchNorm(False, False, 0.9, cross_replica_axis="i")(x, True))
x = jnp.array([[[0.], [2.]], [[10.], [12.]]])
_, s = jax.vmap(lambda x: f.init(None, x), axis_name="i")(x)
o, _ = jax.vmap(lambda x: f.apply({}, jax.tree_map(lambda v: v[0], s), None, x), axis_name="i")(x)
v = x.reshape(-1)
assert np.allclose(o.reshape(-1), (v - v.mean()) / v.std(), atol=1e-3), o
""")

S("c15-sn-eval", "C15", "SpectralNorm with several steps, evaluated with update_stats=False",
  "an evaluation call changes the stored sigma",
  [("_src/spectral_norm.py", "    if update_stats:\n      hk.set_state(\"u0\", u0)\n      hk.set_state(\"sigma\", sigma)\n",
    "    if update_stats:\n      hk.set_state(\"u0\", u0)\n    if update_stats or self.n_steps > 1:\n      hk.set_state(\"sigma\", sigma)\n")],
  PRE + """
f = hk.transform_with_state(lambda x, u: hk.SpectralNorm(n_steps=2)(x, update_stats=u))
x = jnp.array([[1., 2.], [3., 5.]])
_, s = f.init(K(1), x, True)
_, s2 = f.apply({}, s, None, 3 * x, False)
assert all((a == b).all() for a, b in zip(jax.tree_util.tree_leaves(s), jax.tree_util.tree_leaves(s2)))
""")

S("c16-skip-order", "C16", "a deep core with skip connections and inputs of another width than the layers",
  "the skip connection concatenates the layer output before the input",
  [("_src/recurrent.py", "        current_inputs = utils.tree_multimap(concat, inputs, current_inputs)\n",
    "        current_inputs = utils.tree_multimap(concat, *(\n            (inputs, current_inputs) if idx == 1 else (current_inputs, inputs)))\n")],
  PRE + """
class C(hk.RNNCore):
  def __init__(self, log): super().__init__(); self.log = log
  def __call__(self, x, s): self.log.append(x); return x[..., :1] * 2, s
  def initial_state(self, b): return jnp.zeros([1])
log = []
def f():
  c = hk.deep_rnn_with_skip_connections([C(log), C(log), C(log)])
  c(jnp.array([[1., 5.]]), c.initial_state(1))
hk.transform(f).apply({}, None)
assert np.asarray(log[2]).tolist() == [[1., 5., 2.]], log
""")

S("c16-reset-batch", "C16", "a reset core around a core whose initial state is not zero, with unbatched state",
  "the state is reset to zero instead of the core's initial state",
  [("_src/recurrent.py", "    initial_state = utils.tree_multimap(\n        lambda s, i: i.astype(s.dtype), state, self.initial_state(batch_size))\n",
    "    initial_state = self.initial_state(batch_size)\n    initial_state = utils.tree_multimap(\n        lambda s, i: i.astype(s.dtype) if s.ndim > 1 else jnp.zeros_like(s), state, initial_state)\n")],
  PRE + """
class C(hk.RNNCore):
  def __call__(self, x, s): return s, s + x
  def initial_state(self, b):
    s = jnp.full([1], 7.)
    return s if b is None else jnp.broadcast_to(s, [b, 1])
def f():
  c = hk.ResetCore(C())
  return c((jnp.array([1.]), jnp.array(True)), jnp.array([3.]))[0]
assert float(hk.transform(f).apply({}, None)[0]) == 7.
""")

S("c16-batch-major", "C16", "a batch-major static unroll over a nested input sequence whose leaves have different lengths of axis 0",
  "the number of steps is taken from the batch axis of unequal leaves",
  [("_src/recurrent.py", "  num_steps = jax.tree_leaves(input_sequence)[0].shape[time_axis]\n",
    "  num_steps = min(x.shape[time_axis] if x.ndim > 1 + time_axis else x.shape[0]\n                  for x in jax.tree_leaves(input_sequence))\n")],
  PRE + """
class C(hk.RNNCore):
  def __call__(self, x, s): return x + s, s + 1
  def initial_state(self, b): return jnp.zeros([b])
def f(x):
  c = C()
  return hk.static_unroll(c, x, c.initial_state(2), time_major=False)[0]
o = hk.transform(f).apply({}, None, jnp.ones([2, 3]))
assert o.shape == (2, 3), o.shape
""")

S("c17-squeeze", "C17", "an unbatched convolution with an output axis of length one",
  "axes of length one of an unbatched output are dropped",
  [("_src/conv.py", "    if unbatched:\n      out = jnp.squeeze(out, axis=0)\n    return out\n\n\nclass Conv1D(ConvND):",
    "    if unbatched:\n      out = jnp.squeeze(out, axis=0 if self.output_channels > 1 else None)\n      out = out[..., None] if self.channel_index == -1 and self.output_channels == 1 else out\n    return out\n\n\nclass Conv1D(ConvND):")],
  PRE + """
f = hk.transform(lambda x: hk.Conv2D(1, 3, padding="VALID")(x))
x = jnp.ones([3, 4, 1])
assert f.apply(f.init(K(1), x), None, x).shape == (1, 2, 1)
""")

S("c18-same-counts", "C18", "average pooling with SAME padding when the stride divides the input but the window reaches past it",
  "padding counts towards the mean",
  [("_src/pool.py", "  if padding == \"VALID\":\n    # Avoid", "  exact = all(d % s == 0 for d, s in zip(value.shape, strides)) and max(strides) > 2\n  if padding == \"VALID\" or exact:\n    # Avoid")],
  PRE + """
o = hk.avg_pool(jnp.ones([1, 6, 1]), (1, 5, 1), (1, 3, 1), "SAME")
assert np.allclose(o, 1.), o
""")

S("c18-infer-negative", "C18", "an integer window with channel_axis given as a negative number other than -1",
  "the window is applied over the channel axis and not over a spatial one",
  [("_src/pool.py", "      channel_axis = x.ndim + channel_axis\n", "      channel_axis = x.ndim + max(channel_axis, -2)\n")],
  PRE + """
x = jnp.arange(16.).reshape(1, 2, 2, 4)
o = hk.max_pool(x, 2, 1, "VALID", channel_axis=-3)
assert o.shape == (1, 2, 1, 3), o.shape
""")

S("c19-eps", "C19", "LayerNorm on values whose variance is comparable to eps",
  "epsilon is added after the square root",
  [("_src/layer_norm.py", "    inv = scale * jax.lax.rsqrt(variance + self.eps)\n",
    "    inv = scale / (jnp.sqrt(variance) + self.eps)\n")],
  PRE + """
f = hk.transform(lambda x: hk.LayerNorm(-1, False, False, eps=1.)(x))
x = jnp.array([[0., 2.]])
assert np.allclose(f.apply({}, None, x), np.array([[-1., 1.]]) / np.sqrt(2), atol=1e-3)
""")

S("c19-slice", "C19", "LayerNorm with an axis slice with negative bounds on inputs of more than three dimensions",
  "the wrong axes are normalised",
  [("_src/layer_norm.py", "      axis = tuple(range(inputs.ndim)[axis])\n",
    "      axis = tuple(range(*axis.indices(inputs.ndim)))[:3]\n")],
  PRE + """
f = hk.transform(lambda x: hk.LayerNorm(slice(1, None), False, False)(x))
x = jax.random.normal(K(1), [1, 2, 2, 2, 3])
o = f.apply({}, None, x)
y = np.asarray(x)
assert np.allclose(o, (y - y.mean()) / y.std(), atol=1e-2)
""")

S("c20-traced-cache", "C20", "a module applied inside jit, then used again in a direct call of the same transformed function",
  "a value of one trace is kept in the initializer and used by a later call: a leaked tracer",
  [("_src/initializers.py", "    return jnp.broadcast_to(self.constant, shape).astype(dtype)\n",
    "    key = (tuple(shape), jnp.dtype(dtype))\n    cache = self.__dict__.setdefault(\"_cache\", {})\n    if key not in cache:\n      cache[key] = jnp.broadcast_to(self.constant, shape).astype(dtype)\n    return cache[key]\n")],
  PRE + """
init = hk.initializers.Constant(2.)
f = hk.transform(lambda: hk.get_parameter("w", [2], init=init))
jax.jit(f.init)(None)
p = f.init(None)
assert float(p["~"]["w"].sum()) == 4.
""")

S("c21-fans", "C21", "variance scaling with fan-out for kernels with two or more spatial dimensions",
  "the fan-out is computed from one spatial dimension only",
  [("_src/initializers.py", "    fan_out = shape[-1] * receptive_field_size\n",
    "    fan_out = shape[-1] * (receptive_field_size if len(shape) < 5 else shape[0])\n")],
  PRE + """
i = hk.initializers.VarianceScaling(1., "fan_out", "uniform")
f = hk.transform(lambda: i([2, 3, 4, 5, 6], jnp.float32))
o = f.apply({}, K(1))
assert np.abs(o).max() <= np.sqrt(3 / (6 * 24)) + 1e-6, np.abs(o).max()
""")

S("c22-mask", "C22", "attention with a mask and logits larger than ten thousand",
  "masked positions influence the output",
  [("_src/attention.py", "      attention_logits -= 1e10 * (1. - mask)\n", "      attention_logits -= 1e4 * (1. - mask)\n")],
  PRE + """
f = hk.transform(lambda q, k, v, m: hk.MultiHeadAttention(1, 4, 1.)(q, k, v, m))
q = jnp.full([1, 1, 2], 30.); k = jnp.array([[[1., 2.], [3e3, 5e3]]]); k2 = jnp.array([[[1., 2.], [-3e3, -5e3]]])
v = jnp.array([[[1., 2.], [3., 4.]]]); m = jnp.array([[[[1., 0.]]]])
p = f.init(K(1), q, k, v, m)
for i in range(4):
  p = f.init(K(i), q, k, v, m)
  assert np.allclose(f.apply(p, None, q, k, v, m), f.apply(p, None, q, k2, v, m))
""")

S("c22-one-hot", "C22", "embedding look-up by one-hot with ids out of a batch of rank two or more",
  "the one-hot look-up of ids of higher rank uses the wrong axis",
  [("_src/basic.py", "  return jax.nn.one_hot(x, num_classes).astype(dtype)\n",
    "  x = jnp.where(x < 0, x + num_classes, x)\n  return jax.nn.one_hot(x, num_classes).astype(dtype)\n")],
  PRE + """
assert hk.one_hot(jnp.array([-1]), 3).sum() == 0
""")

S("c23-shortcut-stats", "C23", "evaluation with local statistics through a V1 projection block",
  "the projection's normalisation ignores test_local_stats",
  [("_src/nets/resnet.py", "      shortcut = self.proj_batchnorm(shortcut, is_training, test_local_stats)\n",
    "      shortcut = self.proj_batchnorm(shortcut, is_training)\n")],
  PRE + """
def f(x, t, l): return hk.nets.ResNet([1, 1, 1, 1], 2, bottleneck=False, channels_per_group=(4, 4, 4, 4), use_projection=(True,) * 4)(x, t, l)
f = hk.transform_with_state(f)
x = jax.random.normal(K(2), [2, 32, 32, 3]) + 3
p, s = f.init(K(1), x, True, False)
p = jax.tree_map(lambda v: v + 0.1, p)
a, _ = f.apply(p, s, None, x, True, False)
b, _ = f.apply(p, s, None, x, False, True)
assert np.allclose(a, b, atol=1e-3), (a, b)
""")

S("c23-v2-shortcut", "C23", "a V2 projection block",
  "the projection is taken from the raw input instead of the normalised one",
  [("_src/nets/resnet.py", "        shortcut = self.proj_conv(x)\n", "        shortcut = self.proj_conv(inputs)\n")],
  PRE + """
from haiku._src.nets import resnet
def f(x): return resnet.BlockV2(4, 1, True, dict(decay_rate=0.9), False)(x, True, False)
f = hk.transform_with_state(f)
x = jax.random.normal(K(2), [2, 4, 4, 3]) * 5
p, s = f.init(K(1), x)
p = {m: {k: (v * 0 if m.endswith("conv_1") else v) for k, v in d.items()} for m, d in p.items()}
a, _ = f.apply(p, s, None, x)
b, _ = f.apply(p, s, None, x * 2)
assert np.allclose(a, b, atol=1e-3)
""")

S("c24-scopes-after-raise", "C24", "to_dot of a function that raises, with profiler name scopes on",
  "the exception leaves the profiler name scopes switched off for the rest of the process",
  [("_src/dot.py", "    try:\n      module.profiler_name_scopes(enabled=False)\n      return _graph_to_dot(*graph_fun(*args))\n    finally:\n      module.profiler_name_scopes(enabled=current_setting)\n",
    "    module.profiler_name_scopes(enabled=False)\n    graph, inputs, outputs = graph_fun(*args)\n    module.profiler_name_scopes(enabled=current_setting)\n    return _graph_to_dot(graph, inputs, outputs)\n")],
  PRE + """
from haiku._src import module
hk.experimental.profiler_name_scopes()
assert module.modules_with_named_call
def f(x):
  raise KeyError
try:
  hk.experimental.to_dot(f)(jnp.ones([2]))
except KeyError:
  pass
assert module.modules_with_named_call
""")

S("c24-arg-path", "C24", "an argument that is a structure nested more than one level deep",
  "input nodes are labelled with the last part of the path only: different leaves get the same label",
  [("_src/dot.py", "        label += ': ' + '/'.join(map(str, path[1:]))\n      label += '</b>'\n", "        label += f': {path[-1]}'\n      label += '</b>'\n")],
  PRE + """
x = {"a": {"w": jnp.ones([2])}, "b": {"w": jnp.zeros([2])}}
s = hk.experimental.to_dot(lambda x: jnp.add(x["a"]["w"], x["b"]["w"]))(x)
assert "args[0]: a/w" in s and "args[0]: b/w" in s, s
""")

S("c24-nested-cluster", "C24", "a module method that raises inside another method that handles it, which then goes on",
  "operations executed after the handled exception are drawn in the cluster of the method that failed",
  [("_src/dot.py", "      with graph_stack(subg):\n        yield\n", "      graph_stack.push(subg)\n      yield\n      graph_stack.pop()\n")],
  PRE + """
class A(hk.Module):
  def __call__(self, x):
    raise KeyError
class B(hk.Module):
  def __call__(self, x):
    try:
      A()(x)
    except KeyError:
      pass
    return jax.lax.sin(x)
f = hk.transform(lambda x: jax.lax.cos(B()(x)))
s = hk.experimental.to_dot(f.apply)({}, None, jnp.ones([2]))
assert "sin" in s and "cos" in s, s
""")
