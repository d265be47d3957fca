"""Thread isolation: all interleavings with a bounded number of preemptions."""
import os
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk
from mc import jx, sched
from mc.core import Violation, REPO
from mc.prog import Interp, Real, norm, val, flat_keys, I32
from mc.traced import KEY, keyf

LEVEL = "model_checking"
BOUNDS = {"quick": "24 scenarios of 2 threads (3 of 3 threads): all schedules with one preemption at any library source line (either thread first); "
                   "5 short scenarios also with two preemptions at any pair of lines",
          "thorough": "two preemptions in every 2-thread scenario, three on the shortest, one preemption at every bytecode instruction"}
ASSUMPTIONS = ["library source lines (bytecode instructions in one part of the thorough tier) are the scheduling points; code between two of them, and JAX itself, is atomic",
               "jax.random.split is replaced by a memoised equivalent while exploring"]
CASE_TIMEOUT = 600
CHUNK = 1
ROOT = os.path.join(os.path.realpath(REPO), "haiku") + os.sep

_split = jax.random.split


def split(key, num=2, **kw):
  if isinstance(key, jax.core.Tracer) or kw or not isinstance(num, int):
    return _split(key, num, **kw)
  k = np.asarray(key, np.uint32)
  c = (k.tobytes(), num)
  r = jx._split_cache.get(c)
  if r is None:
    r = jx._split_cache[c] = np.asarray(_split(jnp.asarray(k), num))
  return r


CL = {"A": {"__init__": [["MC", "B"]], "__call__": [["P", "w", 3], ["I", "c"], ["MC", "B"], ["K"]], "meth": [["MC", "B"], ["I", "c"]]},
      "B": {"__call__": [["P", "w", 2], ["G", "c", 2]]},
      "S": {"__call__": [["P", "w", 2]]}}


def prog(main):
  return {"classes": CL, "main": main}


def shared(it):
  return it.main()


T = hk.transform_with_state(shared)


def res(p, s):
  return norm(p), norm(s)


def fruit(o, s):
  return val(o[0]), flat_keys(o[1]), norm(s)


def init(main, k=1):
  def f():
    return res(*T.init(keyf(k), Interp(prog(main), Real(hk, keyf), x0=k)))
  return f


def apply(main, k=1, ptype="flat"):
  """Prepared outside the exploration; the thread only runs apply."""
  it = Interp(prog(main), Real(hk, keyf), x0=k)
  p, s = T.init(keyf(k), it)
  p = jax.tree_util.tree_map(lambda v: np.asarray(v) + np.asarray(v).dtype.type(k), p)
  if ptype == "dict":
    p = {a: dict(b.items()) for a, b in p.items()}
  return lambda: fruit(*T.apply(p, s, keyf(k), it))


def refused():
  """Code outside a transform."""
  out = []
  for f in (lambda: hk.get_parameter("w", (), np.int32, init=jnp.zeros), hk.next_rng_key, hk.running_init, lambda: hk.Linear(1),
            lambda: hk.get_state("c"), lambda: hk.experimental.name_scope("a")):
    try:
      f()
      out.append("accepted")
    except ValueError as e:
      out.append("ValueError")
  return out


def raw(k):
  """A function using the library directly: names, hooks, rng scopes."""
  def f():
    log = []
    def g():
      with hk.experimental.name_scope("n%d" % k):
        a = hk.get_parameter("w", (), np.int32, init=lambda s, d: np.int32(k))
      with hk.with_rng(keyf(k + 5)):
        b = hk.next_rng_key()
      return a, b, hk.running_init()
    t = hk.transform(g)
    p = t.init(keyf(k))
    a, b, r = t.apply(p, keyf(k))
    return norm(p), val(a), val(b), r
  return f


def hooks(k):
  def f():
    seen = []
    def creator(nxt, shape, dtype, init, ctx):
      seen.append(("c", ctx.full_name))
      return nxt(shape, dtype, init) + I32(k)
    def getter(nxt, v, ctx):
      seen.append(("g", ctx.full_name))
      return nxt(v * I32(10 + k))
    def inter(nxt, args, kwargs, ctx):
      seen.append(("i", ctx.method_name, type(ctx.module).__name__))
      return nxt(*args, **kwargs)
    it = Interp(prog([["MC", "B"]]), Real(hk, keyf), x0=k)
    def g():
      with hk.experimental.custom_creator(creator, state=True), hk.experimental.custom_getter(getter, state=True), hk.experimental.intercept_methods(inter):
        return it.main()
    t = hk.transform_with_state(g)
    p, s = t.init(None)
    o, s = t.apply(p, s, None)
    return norm(p), val(o[0]), seen
  return f


def lifted(k):
  def f():
    inner = hk.transform(lambda: hk.get_parameter("w", (), np.int32, init=lambda s, d: np.int32(k)))
    def g():
      p = hk.experimental.lift(inner.init, name="l%d" % k)(None)
      return inner.apply(p, None)
    t = hk.transform(g)
    p = t.init(keyf(k))
    return norm(p), val(t.apply(p, keyf(k)))
  return f


def observed(k):
  def f():
    it = Interp(prog([["N", "m", "A"], ["C", "m"]]), Real(hk, keyf), x0=k)
    def g():
      it.main()
      m = it.slots["m"]
      return sorted(m.params_dict().items()), sorted(m.state_dict().items())
    t = hk.transform_with_state(g)
    p, s = t.init(keyf(k))
    return repr(t.apply(p, s, keyf(k))[0])
  return f


def optimised(k, n):
  def f():
    def g():
      return [hk.next_rng_key() for _ in range(n)]
    t = hk.transform(hk.experimental.optimize_rng_use(g))
    return [val(v) for v in t.apply({}, keyf(k))]
  return f


def summary(k):
  def f():
    it = Interp(prog([["N", "m", "S"], ["C", "m"]]), Real(hk, keyf), x0=k)
    rows = hk.experimental.eval_summary(lambda: it.main()[0])()
    return [(r.module_details.module.module_name, r.module_details.method_name, sorted(r.module_details.params)) for r in rows]
  return f


class Mixed(hk.Module):
  def __init__(self, k, name=None):
    super().__init__(name=name)
    self.k = k

  def __call__(self):
    return hk.get_parameter("w", (), np.int32, init=lambda s, d: np.int32(self.k))


def wrapped(kind, k):
  def f():
    def g(x):
      f1 = lambda x: x + hk.get_parameter("w", (), np.int32, init=lambda s, d: np.int32(k))
      if kind == "vmap":
        return hk.vmap(f1)(np.arange(2, dtype=np.int32))
      if kind == "remat":
        return hk.remat(f1)(x)
      return hk.eval_shape(f1, x).shape
    t = hk.transform(g)
    p = t.init(None, np.int32(3))
    if kind == "eval_shape":
      return norm(p)
    return norm(p), val(t.apply(p, None, np.int32(3)))
  return f


def flatmap():
  """Two threads read the same lazily built mapping."""
  def make():
    m = hk.data_structures.to_immutable_dict({"a": {"x": 1, "y": None}, "b": {}, "c": {"z": [1, 2]}})
    leaves, tree = jax.tree_util.tree_flatten(m)
    m = jax.tree_util.tree_unflatten(tree, leaves)
    def a():
      return sorted(m), [sorted(m[k]) for k in sorted(m)], len(m), {k: dict(v) for k, v in m.items()}
    def b():
      ls, tr = jax.tree_util.tree_flatten(m)
      c = hk.data_structures.to_mutable_dict(m)
      return ls, str(tr), c, m == {"a": {"x": 1, "y": None}, "b": {}, "c": {"z": [1, 2]}}
    return [a, b]
  return make


def raising(k):
  def f():
    return init([["P", "w", 1], ["MC", "A"], ["X"]], k)()
  return f


def nested(k):
  def f():
    return init([["P", "w", k], ["TR", [["P", "w", 9], ["MC", "S"]]], ["MC", "S"], ["K"]], k)()
  return f


SMALL = [["P", "w", 3], ["MC", "S"]]
RICH = [["P", "w", 3], ["N", "m", "A"], ["C", "m"], ["NS", "ns", [["C", "m", "meth"]]], ["W", 3, [["K"]]], ["Kr", 2], ["K"]]
ONE = [["P", "w", 3]]
SC = {
    # name: (builder of the thread bodies, preemption bound in quick, in thorough)
    "init/init": (lambda: [init(SMALL, 1), init(SMALL, 2)], 1, 2),
    "one": (lambda: [init(ONE, 1), apply(ONE, 2)], 2, 3),
    "rich init/init": (lambda: [init(RICH, 1), init(RICH, 2)], 1, 1),
    "rich init/apply": (lambda: [init(RICH, 1), apply(RICH, 2)], 1, 1),
    "rich apply/apply": (lambda: [apply(RICH, 1), apply(RICH, 2, "dict")], 1, 1),
    "apply/apply": (lambda: [apply(SMALL, 1), apply(SMALL, 2)], 1, 2),
    "state": (lambda: [apply([["I", "c"]], 1), apply([["I", "c"]], 2)], 2, 3),
    "rng": (lambda: [apply([["K"], ["Kr", 1], ["K"], ["Kn", 2]], 1), apply([["K"], ["Km"]], 2)], 2, 3),
    "names": (lambda: [init([["NS", "a", [["MC", "S"]]], ["MC", "S"]], 1), init([["MC", "S"], ["MC", "S"]], 2)], 1, 2),
    "scopes": (lambda: [raw(1), raw(2)], 1, 2),
    "hooks/plain": (lambda: [hooks(1), init([["MC", "B"]], 2)], 1, 2),
    "hooks/hooks": (lambda: [hooks(1), hooks(2)], 1, 1),
    "outside": (lambda: [init(RICH, 1), refused], 1, 1),
    "outside small": (lambda: [apply(ONE, 1), refused], 2, 2),
    "raising": (lambda: [raising(1), init(SMALL, 2)], 1, 2),
    "nested": (lambda: [nested(1), nested(2)], 1, 1),
    "lift": (lambda: [lifted(1), lifted(2)], 1, 1),
    "observe": (lambda: [observed(1), observed(2)], 1, 1),
    "optimise": (lambda: [optimised(1, 2), optimised(2, 3)], 1, 2),
    "optimise/rng": (lambda: [optimised(1, 2), apply([["K"], ["K"], ["K"]], 2)], 1, 2),
    "summary": (lambda: [summary(1), init(SMALL, 2)], 1, 1),
    "vmap": (lambda: [wrapped("vmap", 1), wrapped("vmap", 2)], 1, 1),
    "eval_shape": (lambda: [wrapped("eval_shape", 1), init(SMALL, 2)], 1, 1),
    "mapping": (flatmap(), 2, 2),
    "3 threads": (lambda: [init(SMALL, 1), apply(SMALL, 2), init(SMALL, 3)], 1, 2),
    "3 threads rng": (lambda: [apply([["K"]], 1), apply([["K"]], 2), apply([["K"]], 3)], 1, 2),
    "3 threads hooks": (lambda: [hooks(1), apply(SMALL, 2), refused], 1, 1),
}
BLOCKS = 24


def cases(tier):
  out = []
  for name, (_, q, t) in SC.items():
    bound = q if tier == "quick" else t
    nb = 4 if bound == 1 else BLOCKS if bound == 2 else 200
    for b in range(nb):
      out.append({"scenario": name, "bound": bound, "block": b, "of": nb, "opcodes": False})
    if tier == "thorough":
      for b in range(16):
        out.append({"scenario": name, "bound": 1, "block": b, "of": 16, "opcodes": True})
  return sorted(out, key=lambda c: (c["bound"], c["opcodes"]))


def schedules(n, steps, bound, block, of):
  """All schedules with at most `bound` preemptions whose first segment length is in this block."""
  import itertools
  orders = list(itertools.permutations(range(n)))
  for order in orders:
    for i in range(steps[order[0]] + 1):
      if i % of != block:
        continue
      first = (order[0], i)
      if bound == 1:
        if n == 2:
          yield [first]+ [(order[1], None)]
        else:
          yield [first, (order[1], None), (order[2], None)]
          yield [first, (order[1], None), (order[0], None)]
      elif bound == 2:
        for j in range(1, steps[order[1]] + 1):
          yield [first, (order[1], j), (order[0], None)]
          if n == 3:
            yield [first, (order[1], j), (order[2], None), (order[0], None)]
      else:
        for j in range(1, steps[order[1]] + 1):
          for k in range(1, steps[order[0]] - i + 1):
            yield [first, (order[1], j), (order[0], k), (order[1], None)]


def run_case(case, rec):
  jax.random.split = split
  try:
    build = SC[case["scenario"]][0]
    opc = case["opcodes"]
    probe = build()
    n = len(probe)
    # What each thread does alone (twice: caches of JAX are warm the second time).
    solo, steps = [], []
    for i in range(n):
      for _ in range(2):
        bodies = build()
        r = sched.Run(ROOT, [bodies[i]], [(0, None)], opc)
        out = r.go()[0]
      solo.append(out)
      steps.append(r.steps[0])
      if r.steps[0] == 0:
        raise Violation("harness: no library line was observed")
    if case["block"] == 0:
      rec.state((case["scenario"], "solo", repr(solo)))
    for s in schedules(n, steps, case["bound"], case["block"], case["of"]):
      r = sched.Run(ROOT, build() if case["scenario"] == "mapping" else probe, s, opc)
      try:
        out = r.go()
      except sched.Stuck:
        raise Violation("schedule %r of %r: deadlock" % (s, case["scenario"]))
      rec.trace()
      rec.step(sum(r.steps))
      rec.state((case["scenario"], opc, repr(s)))
      if out != solo:
        raise Violation("schedule %r of scenario %r (thread, lines): results %r, alone %r" % (s, case["scenario"], out, solo))
      rec.outcome((case["scenario"], repr(out)))
  finally:
    jax.random.split = _split
