"""Lifting: all bounded outer programs that lift inner functions in every kind of scope."""
import contextlib, itertools
import jax, jax.numpy as jnp, numpy as np
import haiku as hk
from mc import jx
from mc.core import Violation
from mc.ref import Ref, Seq, camel
from mc.traced import KEY

TECHNIQUE = "explicit-state enumeration of all bounded outer programs with lifts x inner functions; names from the reference naming model, inner results compared with the inner function run on its own"
LEVEL = "model_checking"
BOUNDS = {"quick": "7 inner functions (no parameters, one, shared names, module tree, module named like the lift, random keys, itself lifting); all outer programs of <=3 of 16 statements with <=3 lifts "
                   "(top level, name scope, module call, constructor, method, same and other names, same prefix, under jit) plus outer parameters, modules and keys; init, apply on initial, on changed and on extended parameters",
          "thorough": "outer programs of <=4 statements over 9"}
ASSUMPTIONS = ["a lifted function is called once per run (the library rejects a second call at init)", "inner functions are stateless (documented)"]
I = np.int32


def const(v):
  return lambda s, d: np.full(s, v, d)


class In(hk.Module):
  def __call__(self, x):
    w = hk.get_parameter("w", (2,), I, const(3))
    return x * 3 + w.sum()


class Tree(hk.Module):
  def __init__(self, name=None):
    super().__init__(name=name)
    self.k = In()

  def __call__(self, x):
    return In(name="lifted")(self.k(x)) + hk.get_parameter("b", (), I, const(5))


def f_none(x):
  return x + 1


def f_one(x):
  return x * hk.get_parameter("w", (), I, const(2)) + 1


def f_mods(x):
  return In()(In()(x)) + hk.get_parameter("w", (3,), I, const(1)).sum()


def f_tree(x):
  return Tree()(x)


def f_named(x):
  m = In(name="lifted")
  return m(x) + In(name="outer")(x)


def f_key(x):
  return x + hk.get_parameter("k", (2,), np.uint32, lambda s, d: hk.next_rng_key()).astype(I).sum() % 7 + In()(x)


def f_lift(x):
  t = hk.transform(f_named)
  p = hk.experimental.lift(t.init, name="lifted")(hk.next_rng_key() if hk.running_init() else None, x)
  return t.apply(p, None, x) + In()(x)


INNER = [f_none, f_one, f_mods, f_tree, f_named, f_key, f_lift]
# statements: ["L", inner, name] at the place given by the wrapper
ST = [["L", i, None] for i in range(7)] + [["L", 1, "other"], ["L", 2, "lift"], ["NS", "lifted", [["L", 1, None]]], ["M", "__call__", ["L", 3, None]], ["M", "__init__", ["L", 5, None]], ["M", "meth", ["L", 1, "other"]],
      ["P", "lifted"], ["IN", "lifted"], ["K"]]
CORE = [1, 3, 5, 6, 8, 9, 10, 11, 14]


class Model(Ref):
  pass


def names(prog):
  """Module names given to the lifts, in order, by the naming model, and the names of the outer modules' parameters."""
  r = Ref(jx.real_split)
  lifts, own = [], []
  def go(s):
    if s[0] == "L":
      lifts.append((r.unique_name(s[2] or "lifted"), s[1]))
    elif s[0] == "NS":
      with r.name_scope(s[1]):
        for t in s[2]:
          go(t)
        own.append((r.bundle(), "n"))
    elif s[0] == "M":
      n = r.unique_name("outer")
      if s[1] == "__init__":
        with r.scope(n, "__init__"):
          go(s[2])
      with r.scope(n, s[1] if s[1] != "__init__" else "__call__"):
        if s[1] != "__init__":
          go(s[2])
        own.append((n, "w"))
    elif s[0] == "P":
      own.append(("~", s[1]))
    elif s[0] == "IN":
      own.append((r.unique_name(s[1]), "w"))
    elif s[0] == "jit":
      go(s[1])
  r.init(lambda: [go(s) for s in prog], None)
  return lifts, own


class Outer(hk.Module):
  def __init__(self, it, s):
    super().__init__(name="outer")
    self.it, self.s = it, s
    if s[1] == "__init__":
      it.stmt(s[2])

  def __call__(self):
    if self.s[1] == "__call__":
      self.it.stmt(self.s[2])
    hk.get_parameter("w", (), I, const(8))

  def meth(self):
    self.it.stmt(self.s[2])
    hk.get_parameter("w", (), I, const(8))


class Run:
  def __init__(self, prog):
    self.prog = prog

  def main(self):
    self.got, self.keys = [], []
    for s in self.prog:
      self.stmt(s)
    return None

  def key(self):
    k = hk.next_rng_key()
    self.keys.append(tuple(map(int, np.asarray(k))))
    return k

  def stmt(self, s):
    if s[0] == "L":
      t = hk.transform(INNER[s[1]])
      lifted = hk.experimental.lift(t.init, **({"name": s[2]} if s[2] else {}))
      k = self.key()
      p = lifted(k, I(4))
      self.got.append((s[1], lifted.module_name, np.asarray(k), p, t.apply(p, None, I(4))))
    elif s[0] == "NS":
      with hk.experimental.name_scope(s[1]):
        for t in s[2]:
          self.stmt(t)
        hk.get_parameter("n", (), I, const(6))
    elif s[0] == "M":
      m = Outer(self, s)
      (m.meth if s[1] == "meth" else m)()
    elif s[0] == "P":
      hk.get_parameter(s[1], (), I, const(9))
    elif s[0] == "IN":
      In(name=s[1])(I(1))
    elif s[0] == "K":
      self.key()


def norm(t):
  return {m: {k: (str(np.asarray(v).dtype), np.shape(v), np.asarray(v).tolist()) for k, v in b.items()} for m, b in t.items()}


_alone = {}


def alone(i, key):
  """Inner init on its own."""
  k = (i, tuple(map(int, key)))
  if k not in _alone:
    _alone[k] = norm(hk.transform(INNER[i]).init(np.asarray(key), I(4)))
  return _alone[k]


FM = type(hk.data_structures.to_immutable_dict({}))


def check(prog, rec):
  lifts, own = names(prog)
  r = Run(prog)
  t = hk.transform(r.main)
  params = t.init(KEY)
  got, keys = list(r.got), list(r.keys)
  want_keys = []
  seq = Seq(KEY, jx.real_split)
  nk = sum(1 for s in flat(prog) if s[0] in ("L", "K"))
  want_keys = [tuple(map(int, seq.next())) for _ in range(nk)]
  def fail(msg):
    raise Violation("outer program %r: %s" % (prog, msg))
  if keys != want_keys:
    fail("keys drawn at init %r, expected %r" % (keys, want_keys))
  if [g[1] for g in got] != [n for n, _ in lifts]:
    fail("lifted modules are named %r, expected %r" % ([g[1] for g in got], [n for n, _ in lifts]))
  want = {}
  for (i, name, key, p, out) in got:
    inner = alone(i, key)
    if norm(p) != inner:
      fail("init of %s under lift returns %r, on its own %r" % (INNER[i].__name__, norm(p), inner))
    for m, b in inner.items():
      if name + "/" + m in want:
        fail("model: clash")
      want[name + "/" + m] = b
    o = np.asarray(hk.transform(INNER[i]).apply({m: {k: np.asarray(v[2], v[0]) for k, v in b.items()} for m, b in inner.items()}, None, I(4)))
    if np.asarray(out) != o:
      fail("inner output %r, on its own %r" % (out, o))
  for m, n in own:
    want.setdefault(m, {})[n] = {"lifted": ("int32", (), 9), "n": ("int32", (), 6), "w": ("int32", (), 8)}[n] if n != "w" or not m.startswith("lifted") else ("int32", (2,), [3, 3])
  if norm(params) != want:
    fail("parameters %r, expected %r" % (norm(params), want))
  rec.step(2)
  rec.state(repr(sorted(want)))

  def run_apply(what, ps, expect):
    r.got, r.keys = [], []
    before = norm(ps)
    t.apply(ps, KEY)
    if norm(ps) != before:
      fail("apply changed its parameters")
    if r.keys != want_keys:
      fail("%s: keys drawn %r, expected %r" % (what, r.keys, want_keys))
    for (i, name, key, p, out), (n, j) in zip(r.got, lifts):
      exp = {m[len(n) + 1:]: b for m, b in expect.items() if m.startswith(n + "/")}
      if name != n or norm(p) != exp:
        fail("%s: the lift %s hands back %r, stored was %r" % (what, n, norm(p), exp))
      if not isinstance(p, FM) or any(not isinstance(b, FM) for b in p.values()):
        fail("%s: mutable parameters handed back" % what)
      o = hk.transform(INNER[i]).apply({m: {k: np.asarray(v[2], v[0]) for k, v in b.items()} for m, b in exp.items()}, None, I(4))
      if np.asarray(out) != np.asarray(o):
        fail("%s: inner output %r, on its own %r" % (what, out, o))
    if len(r.got) != len(lifts):
      fail("%s: %d lifts ran" % (what, len(r.got)))
    rec.step()

  run_apply("apply", params, norm(params))
  plain = {m: {k: (np.asarray(v) * 2 + 1).astype(np.asarray(v).dtype) for k, v in b.items()} for m, b in params.items()}
  run_apply("apply on changed parameters", plain, norm(plain))
  ext = dict(plain)
  ext["liftedx/w"] = {"z": I(1)}
  ext["zz/lifted/w"] = {"z": I(1)}
  ext["lifted"] = dict(ext.get("lifted", {}), zz=I(5))
  ext = dict(reversed(list(ext.items())))
  run_apply("apply on extended parameters", ext, norm(plain))
  rec.trace()


def flat(prog):
  for s in prog:
    yield s
    for t in s:
      if isinstance(t, list) and t:
        yield from flat(t if isinstance(t[0], list) else [t])


def cases(tier):
  out = []
  for n in (1, 2, 3):
    for c in itertools.product(range(len(ST)), repeat=n):
      out.append({"s": c})
  if tier != "quick":
    for c in itertools.product(CORE, repeat=4):
      out.append({"s": c})
  out.append({"special": 1})
  return out


def run_case(case, rec):
  if case.get("special"):
    return special(rec)
  check([ST[i] for i in case["s"]], rec)


def special(rec):
  """Under jit, grad and with JAX transformations around the outer function."""
  inner = hk.transform(lambda x: hk.Linear(2)(x) + hk.get_parameter("s", (), init=jnp.ones))
  def outer(x):
    p = hk.experimental.lift(inner.init, name="in")(hk.next_rng_key() if hk.running_init() else None, x)
    return hk.Linear(2)(jax.vmap(lambda x: inner.apply(p, None, x))(x)).sum()
  t = hk.transform(outer)
  x = np.ones((3, 2), np.float32)
  k = jax.random.PRNGKey(1)
  p1, p2 = t.init(k, x), jax.jit(t.init)(k, x)
  close = lambda a, b: np.allclose(np.asarray(a), np.asarray(b), rtol=1e-5, atol=1e-6)
  if jax.tree_util.tree_structure(p1) != jax.tree_util.tree_structure(p2) or not all(close(a, b) for a, b in zip(jax.tree_util.tree_leaves(p1), jax.tree_util.tree_leaves(p2))):
    raise Violation("init under jit differs: %r %r" % (p1, p2))
  if set(p1) != {"in/linear", "in/~", "linear"}:
    raise Violation("names %r" % (list(p1),))
  manual = lambda p, x: (np.asarray(x @ p["in/linear"]["w"] + p["in/linear"]["b"] + p["in/~"]["s"]) @ np.asarray(p["linear"]["w"]) + np.asarray(p["linear"]["b"])).sum()
  if not close(t.apply(p1, None, x), manual(p1, x)) or not close(jax.jit(t.apply)(p1, None, x), manual(p1, x)):
    raise Violation("apply of the lifted network")
  g = jax.grad(lambda p: t.apply(p, None, x))(p1)
  if not close(g["in/~"]["s"], 3 * np.asarray(p1["linear"]["w"]).sum()):
    raise Violation("gradient through a lift: %r" % (g,))
  # stateful inner functions, or lifting outside a transform, are rejected
  try:
    hk.experimental.lift(inner.init)
    raise Violation("lift outside a transform")
  except ValueError:
    pass
  rec.step(4)
  rec.trace()
