"""hk.jit/remat/grad/value_and_grad/vmap/named_call/eval_shape are transparent."""
import itertools
import numpy as np
import jax, jax.numpy as jnp
import haiku as hk
from mc import traced, jx
from mc.core import Violation

LEVEL = "model_checking"
BOUNDS = {"quick": "single wrap: 8 transformations x all bodies of length <=2 over 8 statements x 6 preludes; two consecutive wraps: 8x8 x bodies of "
                   "length <=1; nested wraps: 7x8 x 4x4x4 bodies; init and two applies each; numeric derivative/vmap axes grid",
          "thorough": "as quick with single-wrap bodies of length <=3 and nesting depth 3"}
ASSUMPTIONS = ["programs are traced by the real JAX and the traced program is evaluated by mc/jx.py; cases marked xla are executed by XLA instead",
               "modules are created outside the wrapped part or inside a method"]

KINDS = ["jit", "jit2", "remat", "named", "vg", "grad", "vmap", "eval_shape"]
ST = [["P", "w", 3], ["PK", "u"], ["I", "s"], ["G", "t", 4], ["K"], ["C", "m"], ["S", "s"], ["S", "q"]]
PRE = [[], [["P", "w", 2]], [["I", "s"], ["G", "t", 1]], [["Kr", 2]], [["P", "w", 2], ["I", "s"], ["Kr", 2], ["K"], ["C", "m"]], [["K"], ["SC", "s", 3], ["PK", "u"]]]
POST = [["P", "w", 6], ["PK", "u"], ["I", "s"], ["G", "t", 7], ["K"], ["C", "m"], ["K"]]
MOD = {"Mod": {"__call__": [["P", "w", 5], ["I", "c"], ["MC", "Sub"], ["K"]]}, "Sub": {"__call__": [["PK", "k"], ["I", "c", 3]]}}
NB = [[], [["P", "w", 3], ["I", "s"]], [["K"], ["C", "m"]], [["I", "s"], ["S", "q"], ["PK", "u"]]]


def ok(kind, body):
  return not (kind == "vmap" and any(s[0] == "S" for s in body))


def prog(main):
  return {"classes": MOD, "main": [["N", "m", "Mod"]] + main + POST}


def cases(tier):
  out = []
  maxlen = 2 if tier == "quick" else 3
  for n in range(maxlen + 1):
    for kind in KINDS:
      for body in itertools.product(ST, repeat=n):
        if not ok(kind, body):
          continue
        for pre in PRE if n < 3 else PRE[:1]:
          out.append({"p": prog(pre + [["jx", kind, 0, list(body)]])})
  one = [[]] + [[s] for s in ST]
  for k1, k2 in itertools.product(KINDS, KINDS):
    for b1, b2 in itertools.product(one, one):
      if ok(k1, b1) and ok(k2, b2) and (tier == "thorough" or b1 == b2 or not b1 or not b2 or (b1[0][0], b2[0][0]) in
                                        (("P", "S"), ("I", "S"), ("S", "I"), ("C", "I"), ("K", "C"), ("K", "PK"), ("G", "S"))):
        out.append({"p": prog([["jx", k1, 0, b1], ["jx", k2, 0, b2]])})
  for k1, k2 in itertools.product(KINDS, KINDS):
    if k1 == "jit2":
      continue
    for a, b, c in itertools.product(NB, NB, NB):
      if "vmap" in (k1,) and any(s[0] == "S" for s in a + b + c):
        continue
      if not ok(k2, b):
        continue
      if tier == "quick" and a and c and a != c:
        continue
      out.append({"p": prog([["jx", k1, 0, a + [["jx", k2, 0, b]] + c]])})
  if tier == "thorough":
    for ks in itertools.product(KINDS, KINDS, KINDS):
      if "jit2" in ks:
        continue
      b = [["P", "w", 3], ["I", "s"], ["K"], ["C", "m"]]
      out.append({"p": prog([["jx", ks[0], 0, b + [["jx", ks[1], 0, b + [["jx", ks[2], 0, b]] + b]] + b]])})
  # inside a module's method
  for kind in KINDS:
    for b in NB:
      if ok(kind, b):
        b = [s for s in b if s[0] != "C"] + [["MC", "Sub"]]
        cl = dict(MOD, Outer={"__call__": [["P", "w", 1], ["jx", kind, 0, b], ["I", "s"], ["K"]]})
        out.append({"p": {"classes": cl, "main": [["N", "m", "Mod"], ["N", "o", "Outer"], ["C", "o"], ["C", "o"]] + POST}})
  # executed by XLA
  for kind in KINDS:
    for b in (NB[1] + NB[2], [["PK", "u"], ["S", "q"]]):
      if ok(kind, b):
        out.append({"p": prog([["P", "w", 2], ["Kr", 1], ["jx", kind, 0, b]]), "xla": 1})
  for a in ("value_and_grad", "grad"):
    for argnums in (0, 1, [0, 1]):
      for aux in (0, 1):
        for wrap in ("none", "jit", "remat"):
          out.append({"num": [a, argnums, aux, wrap]})
  for ia in ([0, 0], [0, None], [None, 0], [1, 0], 0):
    for oa in (0, 1):
      out.append({"vmap": [ia, oa]})
  for k in ("jit", "remat", "named", "vg", "grad", "eval_shape"):
    out.append({"args": k})
  for k in ("jit", "remat", "grad", "value_and_grad", "cond", "scan", "switch", "fori_loop", "while_loop"):
    out.append({"outside": k})
  return out


def run_case(case, rec):
  if "p" in case:
    traced.run(case["p"], rec, exact_keys=True, eager=bool(case.get("xla")))
    return
  rec.trace(); rec.step()
  if "num" in case:
    return numeric(*case["num"])
  if "vmap" in case:
    return vmap_axes(*case["vmap"])
  if "args" in case:
    return args_passing(case["args"])
  return outside(case["outside"])


def close(a, b, what):
  if not np.allclose(np.asarray(a), np.asarray(b), rtol=1e-5, atol=1e-6):
    raise Violation("%s: %r != %r" % (what, np.asarray(a), np.asarray(b)))


def numeric(api, argnums, aux, wrap):
  """y = w x^2 z + s x with state s (then s := s + x z, counter += 1)."""
  an = tuple(argnums) if isinstance(argnums, list) else argnums

  def f(x, z):
    def g(x, z):
      w = hk.get_parameter("w", (), np.float32, init=lambda *_: jnp.float32(2.))
      s = hk.get_state("s", (), np.float32, init=lambda *_: jnp.float32(3.))
      hk.set_state("s", s + x * z)
      y = w * x ** 2 * z + s * x
      return (y, {"a": x + 1, "n": None}) if aux else y
    h = g
    if wrap == "jit":
      h = hk.jit(g)
    elif wrap == "remat":
      h = hk.remat(g)
    return getattr(hk, api)(h, argnums=an, has_aux=bool(aux))(x, z)

  t = hk.transform_with_state(f)
  x, z = np.float32(1.5), np.float32(-.5)
  (p, s), _ = jx.trace_eval(lambda x, z: t.init(None, x, z), x, z)
  if dict(p["~"]) != {"w": np.float32(2)} or dict(s["~"]) != {"s": np.float32(3)}:
    raise Violation("init of a differentiated function gives %r %r" % (p, s))
  w, s0 = np.float32(4), np.float32(.25)
  (out, s1), _ = jx.trace_eval(lambda p, s, x, z: t.apply(p, s, None, x, z), {"~": {"w": w}}, {"~": {"s": s0}}, x, z)
  close(s1["~"]["s"], s0 + x * z, "state after differentiation")
  y, gx, gz = w * x ** 2 * z + s0 * x, 2 * w * x * z + s0, w * x ** 2
  want = {0: gx, 1: gz}[an] if isinstance(an, int) else (gx, gz)
  if api == "grad":
    g = out
    if aux:
      g, a = out
      close(a["a"], x + 1, "aux")
      if a["n"] is not None: raise Violation("aux structure changed")
  else:
    v, g = out
    if aux:
      v, a = v
      close(a["a"], x + 1, "aux")
      if a["n"] is not None: raise Violation("aux structure changed")
    close(v, y, "value")
  if isinstance(want, tuple) != isinstance(g, tuple):
    raise Violation("gradient structure for argnums %r: %r" % (an, g))
  for a, b in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(want)):
    close(a, b, "gradient argnums=%r" % (an,))


def vmap_axes(ia, oa):
  ia_ = tuple(ia) if isinstance(ia, list) else ia
  x = np.arange(6, dtype=np.float32).reshape(2, 3)
  z = np.arange(10, 16, dtype=np.float32).reshape(2, 3)
  if ia == [1, 0]:
    z = z.T.copy()

  def g(x, z):
    w = hk.get_parameter("w", (), np.float32, init=lambda *_: jnp.float32(2.))
    c = hk.get_state("c", (), np.int32, init=lambda *_: jnp.int32(0))
    hk.set_state("c", c + 1)
    return jnp.sum(x) * w + z * c

  t = hk.transform_with_state(lambda x, z: hk.vmap(g, in_axes=ia_, out_axes=oa)(x, z))
  (p, s), _ = jx.trace_eval(lambda x, z: t.init(None, x, z), x, z)
  (out, s1), _ = jx.trace_eval(lambda p, s, x, z: t.apply(p, s, None, x, z), {"~": {"w": np.float32(3)}}, {"~": {"c": np.int32(2)}}, x, z)
  if int(s1["~"]["c"]) != 3 or int(s["~"]["c"]) != 0:
    raise Violation("vmap: state counter %r" % (s1,))
  want = jax.vmap(lambda x, z: jnp.sum(x) * 3. + z * 2, in_axes=ia_, out_axes=oa)(x, z)
  close(out, want, "vmap in_axes=%r out_axes=%r" % (ia, oa))
  if np.shape(out) != np.shape(want):
    raise Violation("vmap output shape")


def args_passing(kind):
  """Positional, keyword and structured arguments and results pass through."""
  def g(a, b, *, k, d):
    w = hk.get_parameter("w", (), np.int32, init=lambda *_: jnp.int32(2))
    return {"r": (a + w, [b * 2, None]), "k": k - d["z"]}

  def f(a, b, k, d):
    if kind == "jit": return hk.jit(g)(a, b, k=k, d=d)
    if kind == "remat": return hk.remat(g)(a, b, k=k, d=d)
    if kind == "named": return hk.experimental.named_call(g)(a, b, k=k, d=d)
    if kind == "vg": return hk.value_and_grad(lambda q, *a, **kw: (q, g(*a, **kw)), has_aux=True)(jnp.float32(1), a, b, k=k, d=d)[0][1]
    if kind == "grad": return hk.grad(lambda q, *a, **kw: (q, g(*a, **kw)), has_aux=True)(jnp.float32(1), a, b, k=k, d=d)[1]
    hk.get_parameter("w", (), np.int32, init=lambda *_: jnp.int32(2))
    return hk.eval_shape(g, a, b, k=k, d=d)

  t = hk.transform(f)
  args = (np.int32(3), np.int32(4), np.int32(9), {"z": np.int32(5)})
  p, _ = jx.trace_eval(lambda *a: t.init(None, *a), *args)
  if kind == "eval_shape":
    box = []
    jx.trace_eval(lambda p, *a: (box.append(t.apply(p, None, *a)), 0)[1], p, *args)
    if jax.tree_util.tree_map(lambda v: (v.shape, str(v.dtype)), box[0]) != {"r": (((), "int32"), [((), "int32"), None]), "k": ((), "int32")}:
      raise Violation("eval_shape result %r" % (box,))
    return
  out, _ = jx.trace_eval(lambda p, *a: t.apply(p, None, *a), p, *args)
  if jax.tree_util.tree_map(int, out) != {"r": (5, [8, None]), "k": 4}:
    raise Violation("%s: arguments or results altered: %r" % (kind, out))


def outside(k):
  f = {"jit": lambda: hk.jit(lambda x: x)(1.), "remat": lambda: hk.remat(lambda x: x)(1.),
       "grad": lambda: hk.grad(lambda x: x)(1.), "value_and_grad": lambda: hk.value_and_grad(lambda x: x)(1.),
       "cond": lambda: hk.cond(True, lambda x: x, lambda x: x, 1), "scan": lambda: hk.scan(lambda c, x: (c, x), 0, jnp.arange(2)),
       "switch": lambda: hk.switch(0, [lambda x: x], 1), "fori_loop": lambda: hk.fori_loop(0, 1, lambda i, v: v, 1),
       "while_loop": lambda: hk.while_loop(lambda v: v < 1, lambda v: v + 1, 0)}[k]
  try:
    f()
  except ValueError:
    return
  raise Violation("hk.%s outside a transform is accepted" % k)
