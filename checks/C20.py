"""Transformed functions as pure functions under JAX: all bounded programs and library networks x compositions of outer transformations, and the wrappers."""
import functools, itertools
import jax, jax.numpy as jnp, numpy as np
import haiku as hk
from mc.core import Violation
from mc import jx
from mc.prog import Interp, Model, Real, RefError, norm, val, flat_keys, I32

TECHNIQUE = "explicit enumeration of bounded programs x compositions of JAX transformations x call histories on the real library, each step compared with the same call made directly and with the reference model"
LEVEL = "model_checking"
RULE = "state = (program, composition of outer transformations, results); each history init, apply, apply, direct init, direct apply is executed on the real library and on the model"
BOUNDS = {"quick": "55 programs (parameters, state, keys, modules, scopes, nested transforms, control flow, rejected and raising programs) x every single and ordered pair of 8 outer transformations; 20 networks of library modules x "
                   "7 compositions, each also compiled by XLA; wrappers: all chains of <=3 wrappers x 9 functions; transform_and_run: all seeds {default,0,7,None} x forms x 9 functions; all nestings of running_init to depth 3",
          "thorough": "110 programs x all compositions of up to three outer transformations"}
ASSUMPTIONS = ["traced programs are evaluated by mc/jx.py (agreement with XLA is checked on the network cases and in C07/C08)", "networks agree up to rounding (1e-4)"]
CHUNK = 1
KEY = np.array([0, 7], np.uint32)

CLASSES = {"Sub": {"__call__": [["P", "w", 7], ["I", "s", 1]]},
           "Mod": {"__init__": [["P", "i", 2]], "__call__": [["PX", "d"], ["MC", "Sub"], ["S", "z"]], "meth": [["P", "w", 6], ["K"]]}}
STM = [["P", "a", 3], ["PX", "d"], ["G", "a", 2], ["I", "c"], ["S", "e"], ["K"], ["PK", "k"], ["R"], ["MC", "Sub"], ["MC", "Mod"], ["NS", "sc", [["P", "a", 1], ["MC", "Sub"]]]]
MORE = [
    [["N", "m", "Mod"], ["C", "m"], ["C", "m", "meth"], ["C", "m"]],
    [["TR", [["P", "a", 1], ["I", "c"], ["MC", "Mod"]]], ["P", "a", 2]],
    [["P", "a", 1], ["TR", [["TR", [["PX", "d"], ["R"]]], ["R"]]], ["R"]],
    [["I", "c"], ["jx", "jit", 0, [["PX", "d"], ["I", "c"]]], ["I", "c"]],
    [["I", "c"], ["jx", "remat", 0, [["P", "d", 2], ["I", "c"], ["K"]]], ["K"]],
    [["I", "c"], ["RI", [["MC", "Sub"], ["P", "q", 2]]], ["RA", [["jx", "scan", 2, [["P", "q", 2], ["I", "c"]]]]]],
    [["G", "c", 1], ["P", "d", 1], ["jx", "condx", 0, [["I", "c"]], [["P", "d", 1], ["S", "c"]]]],
    [["G", "c", 1], ["jx", "scan", 3, [["I", "c"], ["TK"]]], ["g", "c"]],
    [["I", "c"], ["jx", "fori", 2, [["I", "c"], ["TK"]]]],
    [["jx", "vmap", 0, [["P", "d", 1]]], ["P", "e", 1]],
    [["CR", 3, "ps", [["P", "a", 1], ["I", "c"], ["MC", "Sub"]]], ["GT", 4, "ps", [["P", "a", 1], ["I", "c"]]]],
    [["IT", 2, [["MC", "Sub"], ["MC", "Mod"]]], ["MC", "Sub"]],
    [["W", 3, [["K"], ["Kn", 2]]], ["K"], ["Kr", 3], ["Km"]],
    [["Wk", [["PK", "a"], ["K"]]], ["PKn", "b"], ["K"]],
    # rejected by the library, at a different depth each
    [["g", "none"]], [["P", "a", 1], ["I", "c"], ["LE", "shape"]], [["MC", "Sub"], ["LE", "badname"]], [["NS", "sc", [["LE", "dupname"]]]],
    # raising user code
    [["P", "a", 1], ["X"]], [["I", "c"], ["NS", "sc", [["MC", "Sub"], ["X"]]]], [["T", [["I", "c"], ["MC", "Mod"], ["X"]]], ["MC", "Mod"], ["I", "c"]],
    [["PR", "a"]], [["GR", "a"]], [["TR", [["P", "a", 1], ["X"]]]], [["W", 1, [["K"], ["X"]]]],
]


def programs(tier):
  out = [[s] for s in STM]
  pairs = [list(p) for p in itertools.product(STM, repeat=2)]
  out += pairs[3::6] if tier == "quick" else pairs[::2]
  return out + MORE


OUTER = ["jit", "vmap", "grad", "remat", "scan", "cond", "shape", "fori"]


def comps(tier):
  out = [[]] + [[a] for a in OUTER] + [list(p) for p in itertools.product(OUTER, repeat=2)]
  if tier == "thorough":
    out += [list(p) for p in itertools.product(OUTER, repeat=3) if "shape" not in p]
  return out


def cases(tier):
  out = [{"t": "prog", "p": p, "tier": tier} for p in programs(tier)]
  out += [{"t": "net", "n": n} for n in NETS]
  out += [{"t": "wrap", "f": f} for f in FUNS]
  out += [{"t": "run", "f": f} for f in FUNS]
  out += [{"t": "nest"}, {"t": "errors"}, {"t": "vmapped"}]
  # Longest first.
  out.sort(key=lambda c: 0 if c["t"] == "net" else 1)
  return out


def run_case(case, rec):
  globals()["c_" + case["t"]](case, rec)


def same(a, b):
  return jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b) and all(
      np.shape(x) == np.shape(y) and np.asarray(x).dtype == np.asarray(y).dtype and np.array_equal(np.asarray(x), np.asarray(y))
      for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)))


def wrap(kind, f):
  """f as a function of the same arguments and results, run under a JAX transformation."""
  if kind == "jit":
    return jax.jit(f)
  if kind == "remat":
    return jax.checkpoint(f)
  if kind == "vmap":
    def g(*args):
      two = jax.tree_util.tree_map(lambda v: jnp.stack([jnp.asarray(v), jnp.asarray(v)]), args)
      return jax.tree_util.tree_map(lambda v: v[1], jax.vmap(f)(*two))
    return g
  if kind == "grad":
    def g(*args):
      _, r = jax.grad(lambda z: (z * z, f(*args)), has_aux=True)(np.float32(2))
      return r
    return g
  if kind == "scan":
    def g(*args):
      return jax.tree_util.tree_map(lambda v: v[1], jax.lax.scan(lambda c, _: (c + 1, f(*args)), 0, None, length=2)[1])
    return g
  if kind == "cond":
    return lambda *args: jax.lax.cond(jnp.sum(jnp.asarray(jax.tree_util.tree_leaves(args)[-1])) > -10 ** 6, lambda a: f(*a), lambda a: f(*a), args)
  if kind == "fori":
    def g(*args):
      sh = jax.eval_shape(f, *args)
      zero = jax.tree_util.tree_map(lambda s: jnp.zeros(s.shape, s.dtype), sh)
      return jax.lax.fori_loop(0, 2, lambda i, c: f(*args), zero)
    return g
  if kind == "shape":
    def g(*args):
      jax.eval_shape(f, *args)
      return f(*args)
    return g
  raise AssertionError(kind)


class Caught(Exception):
  pass


def attempt(f):
  try:
    return ("ok", f())
  except Violation:
    raise
  except Exception as e:  # noqa
    return ("err", type(e).__name__, e)


def c_prog(case, rec):
  prog = {"classes": CLASSES, "main": case["p"], "dump": True}
  model = Model(jx.real_split, lambda n: np.array([11, n], np.uint32))
  mi = Interp(prog, model)
  real = Real(hk, lambda n: np.array([11, n], np.uint32))
  ri = Interp(prog, real)

  def fn(x):
    y, keys = ri.main(x)
    ks = [jnp.asarray(k).reshape(-1, 2) for k in jax.tree_util.tree_leaves(keys)]
    return y, (jnp.concatenate(ks) if ks else jnp.zeros((0, 2), jnp.uint32))
  f = hk.transform_with_state(fn)
  x = I32(5)
  expect = attempt(lambda: model.init(lambda: mi.main(x), KEY)[:2])
  flat = any(s[0] == "jx" for s in case["p"])
  conv = lambda r: jax.tree_util.tree_map(np.asarray, r)
  if flat:  # the library's own control flow is traced even in a direct call
    run = lambda g, *a: jx.trace_eval(g, *a)[0]
  else:
    run = lambda g, *a: conv(g(*a))
  d_init = attempt(lambda: run(f.init, KEY, x))
  if d_init[0] != expect[0]:
    raise Violation("direct init of %r: library %r, reference %r" % (case["p"], d_init, expect))
  if d_init[0] == "ok" and norm(d_init[1][1]) != norm(expect[1][1]):
    raise Violation("direct init of %r gives state %r, reference %r" % (case["p"], norm(d_init[1][1]), norm(expect[1][1])))
  if d_init[0] == "ok":
    params, state = d_init[1]
    plainp = {m: dict(b.items()) for m, b in params.items()}
    plains = {m: dict(b.items()) for m, b in state.items()}
  else:
    plainp, plains = {"~": {"a": I32(3)}}, {}
  d_apply = attempt(lambda: run(f.apply, plainp, plains, KEY, x))
  rec.step(2)
  again = 0
  for comp in comps(case["tier"]):
    fi, fa = f.init, f.apply
    for k in reversed(comp):
      fi, fa = wrap(k, fi), wrap(k, fa)
    what = "program %r under %s" % (case["p"], "(".join(comp) or "tracing")

    def judge(name, got, want):
      rec.step()
      if got[0] != want[0]:
        raise Violation("%s of %s: %s, directly %s" % (name, what, got[:2], want[:2]))
      if got[0] == "err":
        if got[1] != want[1]:
          raise Violation("%s of %s raises %s (%s), directly %s" % (name, what, got[1], got[2], want[1]))
        return
      if not same(got[1], want[1]):
        raise Violation("%s of %s gives %r, directly %r" % (name, what, got[1], want[1]))

    judge("init", attempt(lambda: jx.trace_eval(fi, KEY, x)[0]), d_init)
    judge("apply", attempt(lambda: jx.trace_eval(fa, plainp, plains, KEY, x)[0]), d_apply)
    # The wrapped functions are still good for a second trace, and direct calls see nothing of the traces.
    if comp and len(comp) == 1:
      judge("second init", attempt(lambda: jx.trace_eval(fi, KEY, x)[0]), d_init)
    again += 1
    if again % 4 == 0 or len(comp) < 2:
      judge("direct init after init/apply", attempt(lambda: run(f.init, KEY, x)), d_init)
      judge("direct apply after init/apply", attempt(lambda: run(f.apply, plainp, plains, KEY, x)), d_apply)
    rec.state((repr(case["p"]), tuple(comp), d_init[0], d_apply[0], repr(d_apply[1])))
    rec.outcome((d_init[0], d_apply[0], tuple(comp)))
    rec.trace()
  rec.nontrivial(repr(case["p"]))


# Networks of library modules.
X2 = np.linspace(-1, 1, 6, dtype=np.float32).reshape(2, 3)
X4 = np.linspace(-1, 1, 2 * 4 * 4 * 2, dtype=np.float32).reshape(2, 4, 4, 2)
T3 = np.linspace(-1, 1, 3 * 2 * 3, dtype=np.float32).reshape(3, 2, 3)


class ScanNet(hk.Module):
  def __call__(self, x):
    lin = hk.Linear(3)
    if hk.running_init():
      return lin(x)
    return hk.scan(lambda c, _: (jnp.tanh(lin(c)), None), x, None, length=2)[0]


def _cond_net(x):
  a, b = hk.Linear(2, name="a"), hk.nets.MLP([2, 2], name="b")
  if hk.running_init():
    a(x), b(x)
  return hk.cond(x.sum() > -5, a, b, x)


def _mha(x):
  return hk.MultiHeadAttention(2, 3, 1.)(x, x, x, mask=jnp.tril(jnp.ones((1, 1, 2, 2), bool)))


NETS = {
    "mlp": (lambda x: hk.nets.MLP([4, 2])(x), X2), "mlp_dropout": (lambda x: hk.nets.MLP([4, 2])(x, 0.5, hk.next_rng_key()), X2),
    "batchnorm": (lambda x: hk.BatchNorm(True, True, 0.9)(x, is_training=True), X2), "batchnorm_test": (lambda x: hk.BatchNorm(True, True, 0.9)(x, is_training=hk.running_init(), test_local_stats=False), X2),
    "layernorm": (lambda x: hk.LayerNorm(-1, True, True)(x), X2), "groupnorm": (lambda x: hk.GroupNorm(1)(x), X4),
    "conv": (lambda x: hk.Conv2D(3, 3, 2)(x), X4), "conv_t": (lambda x: hk.Conv2DTranspose(2, 3, 2)(x), X4), "pool": (lambda x: hk.Flatten()(hk.avg_pool(hk.Conv2D(2, 2)(x), 2, 2, "SAME")), X4),
    "lstm": (lambda x: hk.dynamic_unroll(hk.LSTM(3), x, hk.LSTM(3, name="q").initial_state(2))[0], T3), "gru_static": (lambda x: hk.static_unroll(hk.GRU(2), x, jnp.zeros((2, 2)))[0], T3),
    "spectral": (lambda x: hk.SpectralNorm()(hk.get_parameter("w", (3, 2), init=hk.initializers.RandomNormal())) + x.sum(), X2),
    "ema": (lambda x: hk.ExponentialMovingAverage(0.5)(x), X2), "vq": (lambda x: hk.nets.VectorQuantizerEMA(3, 4, 0.25, 0.9)(x, is_training=True)["quantize"], X2),
    "mha": (_mha, T3), "embed": (lambda x: hk.Embed(5, 3)(jnp.asarray(jnp.abs(x) * 4, jnp.int32)), X2), "stack": (lambda x: ScanNet()(x), X2), "cond": (_cond_net, X2),
    "sequential": (lambda x: hk.Sequential([hk.Linear(2), jax.nn.relu, hk.Linear(1)])(x), X2), "dropout": (lambda x: hk.dropout(hk.next_rng_key(), 0.4, x), X2),
}


def close(a, b):
  return jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b) and all(
      np.shape(x) == np.shape(y) and np.asarray(x).dtype == np.asarray(y).dtype and np.allclose(np.asarray(x, np.float64), np.asarray(y, np.float64), 1e-4, 1e-4)
      for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)))


def c_net(case, rec):
  fn, x = NETS[case["n"]]
  f = hk.transform_with_state(fn)
  ps = f.init(KEY, x)
  params, state = ps
  out = f.apply(params, state, KEY, x)
  loss = lambda p, s, k, x: (lambda r: (r[0].sum() + 0., r))(f.apply(p, s, k, x))
  grad = jax.grad(loss, has_aux=True)(params, state, KEY, x) if params else None
  what = "network " + case["n"]

  def judge(name, got, want):
    rec.step()
    if not close(got, want):
      raise Violation("%s %s gives %r, directly %r" % (what, name, got, want))

  def direct(when):
    judge("init directly " + when, f.init(KEY, x), ps)
    judge("apply directly " + when, f.apply(params, state, KEY, x), out)
  direct("a second time")
  sh = jax.eval_shape(f.init, KEY, x)
  if jax.tree_util.tree_structure(sh) != jax.tree_util.tree_structure(ps) or any(a.shape != b.shape or a.dtype != b.dtype for a, b in zip(*map(jax.tree_util.tree_leaves, (sh, ps)))):
    raise Violation("%s eval_shape of init: %r" % (what, sh))
  sh = jax.eval_shape(f.apply, params, state, KEY, x)
  if jax.tree_util.tree_structure(sh) != jax.tree_util.tree_structure(out) or any(a.shape != b.shape or a.dtype != b.dtype for a, b in zip(*map(jax.tree_util.tree_leaves, (sh, out)))):
    raise Violation("%s eval_shape of apply: %r" % (what, sh))
  direct("after eval_shape")
  judge("init under jit", jax.jit(f.init)(KEY, x), ps)
  jap = jax.jit(f.apply)
  judge("apply under jit", jap(params, state, KEY, x), out)
  judge("apply under jit again", jap(params, state, KEY, x), out)
  direct("after jit")
  # vmap over two different inputs and keys
  k2 = np.array([[0, 7], [3, 4]], np.uint32)
  x2 = np.stack([x, x[::-1] * 0.5])
  want = [f.init(k2[i], x2[i]) for i in range(2)]
  got = jax.vmap(f.init)(k2, x2)
  for i in range(2):
    judge("init under vmap, element %d" % i, jax.tree_util.tree_map(lambda v: v[i], got), want[i])
  st = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *want)
  wa = [f.apply(*want[i], k2[i], x2[i]) for i in range(2)]
  for nm, m in (("vmap", jax.vmap(f.apply)), ("jit(vmap)", jax.jit(jax.vmap(f.apply)))):
    got = m(*st, k2, x2)
    for i in range(2):
      judge("apply under %s, element %d" % (nm, i), jax.tree_util.tree_map(lambda v: v[i], got), wa[i])
  got = jax.vmap(f.apply, in_axes=(None, None, None, 0))(params, state, KEY, x2)
  for i in range(2):
    judge("apply with unmapped parameters under vmap, element %d" % i, jax.tree_util.tree_map(lambda v: v[i], got), f.apply(params, state, KEY, x2[i]))
  direct("after vmap")
  if grad is not None:
    judge("jit(grad)", jax.jit(jax.grad(loss, has_aux=True))(params, state, KEY, x), grad)
    judge("grad(jit)", jax.grad(jax.jit(loss), has_aux=True)(params, state, KEY, x), grad)
    judge("grad(remat)", jax.grad(jax.checkpoint(loss), has_aux=True)(params, state, KEY, x), grad)
    # The gradient in one direction against a difference quotient where the function is smooth.
    direct("after grad")
  # A training loop inside lax.scan against the loop in Python.
  def body(s, k):
    o, s = f.apply(params, s, k, x)
    return s, o
  ks = np.array([[1, 2], [3, 4], [5, 6]], np.uint32)
  s_end, outs = jax.lax.scan(body, state, ks)
  s = state
  for i, k in enumerate(ks):
    o, s = f.apply(params, s, k, x)
    judge("step %d inside lax.scan" % i, outs[i], o)
  judge("state after lax.scan", s_end, s)
  direct("after scan")
  rec.state(case["n"])
  rec.outcome(case["n"])
  rec.trace()


# Wrappers.
def _f_plain(x, y=2.):
  return x * 3 + y


def _f_param(x, y=2.):
  return x * hk.get_parameter("w", (), init=hk.initializers.Constant(4.)) + y


def _f_rng(x, y=2.):
  return x + y + jax.random.uniform(hk.next_rng_key())


def _f_maybe(x, y=2.):
  k = hk.maybe_next_rng_key()
  return x + y + (100. if k is None else jax.random.uniform(k))


def _f_state(x, y=2.):
  c = hk.get_state("c", (), init=jnp.zeros)
  hk.set_state("c", c + x)
  return c + y


def _f_state_set(x, y=2.):
  hk.set_state("c", jnp.asarray(x))
  return x + y


def _f_state_late(x, y=2.):  # state is created in apply only
  if not hk.running_init():
    hk.set_state("c", jnp.asarray(x))
  return x + y


def _f_all(x, y=2.):
  c = hk.get_state("c", (), init=jnp.ones)
  hk.set_state("c", c * 2 + x)
  return c + y * hk.get_parameter("w", (), init=hk.initializers.RandomUniform()) + jax.random.uniform(hk.next_rng_key())


def _f_init(x, y=2.):
  return {"i": jnp.asarray(float(hk.running_init())), "o": [x, y]}


FUNS = {"plain": (_f_plain, 0, 0, 0), "param": (_f_param, 1, 0, 0), "rng": (_f_rng, 0, 0, 1), "maybe": (_f_maybe, 0, 0, 0), "state": (_f_state, 0, 1, 0), "state_set": (_f_state_set, 0, 1, 0),
        "state_late": (_f_state_late, 0, 2, 0), "all": (_f_all, 1, 1, 1), "init": (_f_init, 0, 0, 0)}
CALLS = [((1.5,), {}), ((1.5, 4.), {}), ((), {"x": 1.5, "y": 3.}), ((2.5,), {"y": -1.})]


def c_wrap(case, rec):
  fn, hasp, hass, needs = FUNS[case["f"]]
  base = hk.transform_with_state(fn)
  chains = [c for n in range(4) for c in itertools.product(("S", "R"), repeat=n)]
  for start, chain in itertools.product(("ws", "t"), chains):
    f = hk.transform_with_state(fn) if start == "ws" else hk.transform(fn)
    st, rg = start == "ws", True
    what = "%s of %s" % ("".join("without_%s(" % {"S": "state", "R": "apply_rng"}[c] for c in reversed(chain)) + {"ws": "transform_with_state", "t": "transform"}[start], case["f"])
    ok = True
    for c in chain:
      if c == "S":
        if not st or not rg:
          ok = False  # only for functions that still have their state and rng arguments
          break
        f = hk.without_state(f)
        st = False
      else:
        if not rg:
          ok = False
          break
        f = hk.without_apply_rng(f)
        rg = False
    if not ok:
      continue
    want_t = hk.TransformedWithState if st else hk.Transformed
    if type(f) is not want_t:
      raise Violation("%s is a %s, not a %s" % (what, type(f).__name__, want_t.__name__))
    for (a, k), rng in itertools.product(CALLS, (KEY, None, 3)):
      exp_i = attempt(lambda: base.init(rng, *a, **k))
      got_i = attempt(lambda: f.init(rng, *a, **k))
      rec.step()
      if exp_i[0] == "err":
        if got_i[:2] != exp_i[:2]:
          raise Violation("%s: init raises %r, expected %r" % (what, got_i[:2], exp_i[:2]))
        continue
      p, s = exp_i[1]
      if not st and hass == 1:
        if got_i[0] != "err" or got_i[1] != "ValueError":
          raise Violation("%s: init of a function with state gives %r, not a ValueError" % (what, got_i[:2]))
      elif got_i[0] == "err" or not same(got_i[1], (p, s) if st else p):
        raise Violation("%s: init gives %r, expected %r" % (what, got_i[1:], exp_i[1]))
      for pp, ss in itertools.product((p, {m: dict(b) for m, b in p.items()}), (s, None)) if not hasp else ((p, s),):
        exp_a = attempt(lambda: base.apply(pp, ss if st else {}, rng if rg else None, *a, **k))
        args = [pp] + ([ss] if st else []) + ([rng] if rg else [])
        got_a = attempt(lambda: f.apply(*args, *a, **k))
        rec.step()
        if exp_a[0] == "err":
          if got_a[:2] != exp_a[:2]:
            raise Violation("%s: apply gives %r, expected %r" % (what, got_a[:2], exp_a[:2]))
        elif not st and exp_a[1][1]:
          if got_a[0] != "err" or got_a[1] != "ValueError":
            raise Violation("%s: apply of a function with state gives %r, not a ValueError" % (what, got_a[:2]))
        elif got_a[0] == "err" or not same(got_a[1], exp_a[1] if st else exp_a[1][0]):
          raise Violation("%s: apply(%r, rng=%r) gives %r, expected %r" % (what, a, rng, got_a[1:], exp_a[1]))
        rec.state((what, repr(a), repr(k), repr(rng), got_a[0]))
        rec.outcome((case["f"], st, rg, got_a[:1]))
    rec.trace()
  for bad in (fn, None, (base.init, base.apply), 3):
    try:
      hk.without_apply_rng(bad)
    except ValueError:
      rec.step()
      continue
    raise Violation("without_apply_rng accepts %r" % (bad,))
  try:
    hk.transform(fn, apply_rng=False)
  except ValueError:
    pass
  else:
    raise Violation("transform(apply_rng=False) is accepted")
  if not same(hk.transform(fn, apply_rng=True).apply({"~": {"w": jnp.ones(())}}, KEY, 1.) if hass == 0 else 0, hk.transform(fn).apply({"~": {"w": jnp.ones(())}}, KEY, 1.) if hass == 0 else 0):
    raise Violation("transform(apply_rng=True) differs")


def c_run(case, rec):
  fn, hasp, hass, needs = FUNS[case["f"]]
  tr = hk.testing.transform_and_run
  base = hk.transform_with_state(fn)
  SEEDS = [("default", 42), (0, 0), (7, 7), (None, None)]
  for (seed, val_), run_apply, form, (a, k) in itertools.product(SEEDS, ("default", True, False), ("call", "deco", "method", "partial"), CALLS):
    kw = {}
    if seed != "default":
      kw["seed"] = seed
    if run_apply != "default":
      kw["run_apply"] = run_apply
    seen = []
    @functools.wraps(fn)
    def f(*a, **k):
      seen.append((hk.running_init(), a, k))
      return fn(*a, **k)
    if form == "call":
      g = tr(f, **kw)
    elif form == "deco":
      g = tr(**kw)(f) if kw else tr(f)
    elif form == "partial":
      g = tr(f=None, **kw)(f)
    else:
      class Holder:
        @tr(**kw)
        def meth(self, *a, **k):
          return f(*a, **k)
      g = Holder().meth
    rng = None if val_ is None else jax.random.PRNGKey(val_)

    def ref():
      p, s = base.init(rng, *a, **k)
      return base.apply(p, s, rng, *a, **k)[0]
    exp = attempt(ref)
    what = "transform_and_run(%s, %r) as %s on %r %r" % (case["f"], kw, form, a, k)
    for rep in range(2):
      del seen[:]
      got = attempt(lambda: g(*a, **k))
      rec.step()
      if exp[0] == "err":
        if got[:2] != exp[:2]:
          raise Violation("%s: %r, expected %r" % (what, got[:2], exp[:2]))
        continue
      wanted = [(True, a, k)] + ([(False, a, k)] if run_apply else [])
      if seen != wanted:
        raise Violation("%s: the function was called as %r, expected %r" % (what, seen, wanted))
      if run_apply:
        if got[0] == "err" or not same(got[1], exp[1]):
          raise Violation("%s gives %r, expected %r" % (what, got[1:], exp[1]))
      elif got != ("ok", None):
        raise Violation("%s gives %r, expected None" % (what, got))
    if form != "method" and g.__name__ != fn.__name__:
      raise Violation("%s is named %r" % (what, g.__name__))
    rec.state((what, got[0]))
    rec.outcome((case["f"], got[0], bool(run_apply)))
    rec.trace()


def c_nest(case, rec):
  """running_init in all nestings, of depth up to three, of init and apply of other transforms and of JAX transformations."""
  def leaf():
    return [bool(hk.running_init())]

  def around(kind, inner):
    def body():
      r = []
      if kind == "init":
        hk.transform(lambda: r.extend(inner())).init(None)
      elif kind == "apply":
        hk.transform(lambda: r.extend(inner())).apply({}, None)
      elif kind == "apply_ws":
        hk.transform_with_state(lambda: r.extend(inner())).apply({}, {}, None)
      elif kind == "jit":
        hk.jit(lambda: r.extend(inner()))()
      elif kind == "shape":
        hk.eval_shape(lambda: (r.extend(inner()), jnp.zeros(()))[1])
      elif kind == "scope":
        with hk.experimental.name_scope("a"):
          r.extend(inner())
      elif kind == "rng":
        with hk.with_rng(KEY):
          r.extend(inner())
      elif kind == "raise":
        try:
          hk.transform(lambda: (r.extend(inner()), 1 / 0)).init(None)
        except ZeroDivisionError:
          pass
      elif kind == "lift":
        hk.experimental.lift(lambda rng: (hk.transform(lambda: r.extend(inner())).init(rng), {})[1], name="l")(None)
      return [bool(hk.running_init())] + r + [bool(hk.running_init())] if top else r
    top = True
    return body

  kinds = ["init", "apply", "apply_ws", "jit", "shape", "scope", "rng", "raise", "lift"]

  def expect(ks, now):
    if not ks:
      return [now]
    k = ks[0]
    inner_now = {"init": True, "raise": True, "apply": False, "apply_ws": False, "lift": True}.get(k, now)
    runs = 1
    if k == "lift" and not now:
      runs = 0                       # in apply, lift does not initialise
    return [now] + expect(ks[1:], inner_now) * runs + [now]

  for d in range(4):
    for ks in itertools.product(kinds, repeat=d):
      body = leaf
      for k in reversed(ks):
        body = around(k, body)
      for outer in (True, False):
        got = []
        t = hk.transform(lambda: got.extend(body()))
        t.init(None) if outer else t.apply({}, None)
        rec.step()
        exp = expect(list(ks), outer)
        if got != exp:
          raise Violation("running_init seen in %s, nested %r: %r, expected %r" % ("init" if outer else "apply", ks, got, exp))
        try:
          hk.running_init()
        except ValueError:
          pass
        else:
          raise Violation("running_init outside a transform does not raise after nesting %r" % (ks,))
        rec.state((ks, outer, tuple(got)))
        rec.outcome(tuple(got))
        rec.trace()


def c_errors(case, rec):
  fn = lambda x: x + 1
  good = {"~": {"w": jnp.ones(())}}
  BAD = [1, 0, 2.5, "abc", "", [], [1], (), (1, 2), set(), jnp.ones((2,)), np.zeros((2,), np.uint32), object(), True, lambda: 0]
  BADRNG = ["abc", 2.5, {}, [], (), (1,), object(), jnp.ones((2, 2)), np.zeros((3,), np.uint32), np.zeros((2, 2), np.uint32), np.zeros((0,)), lambda: 0, b"x"]
  ws, t = hk.transform_with_state(fn), hk.transform(fn)
  calls = []
  for b in BAD:
    calls += [("TypeError", "params=%r with state" % (b,), lambda b=b: ws.apply(b, {}, None, 1)), ("TypeError", "state=%r" % (b,), lambda b=b: ws.apply({}, b, None, 1)),
              ("TypeError", "params=%r" % (b,), lambda b=b: t.apply(b, None, 1)), ("TypeError", "params=%r without rng" % (b,), lambda b=b: hk.without_apply_rng(t).apply(b, 1)),
              ("TypeError", "state=%r without rng" % (b,), lambda b=b: hk.without_apply_rng(ws).apply({}, b, 1))]
  for b in BADRNG:
    calls += [("ValueError", "init rng=%r" % (b,), lambda b=b: ws.init(b, 1)), ("ValueError", "init rng=%r, no state" % (b,), lambda b=b: t.init(b, 1)),
              ("ValueError", "apply rng=%r" % (b,), lambda b=b: ws.apply({}, {}, b, 1)), ("ValueError", "apply rng=%r with state" % (b,), lambda b=b: ws.apply({}, {"~": {"c": 1}}, b, 1)),
              ("ValueError", "apply rng=%r, no state" % (b,), lambda b=b: t.apply({}, b, 1))]
  for kind, what, f in calls:
    r = attempt(f)
    rec.step()
    if r[0] == "ok" or r[1] != kind:
      raise Violation("%s: %r, expected a %s" % (what, r[:2], kind))
    if ws.apply(None, None, None, 1)[0] != 2 or t.apply(good, None, 1) != 2:
      raise Violation("after %s a good call gives a wrong result" % what)
    rec.state(what)
    rec.trace()
  # Every accepted kind of rng gives the same results as the key it stands for.
  g = hk.transform_with_state(_f_all)
  for kinds in ((5, np.int32(5), jax.random.PRNGKey(5), np.asarray(jax.random.PRNGKey(5)), hk.PRNGSequence(5)),):
    want = None
    for k in kinds[:4]:
      if isinstance(k, np.int32):
        continue
      p, s = g.init(k, 1.)
      o = g.apply(p, s, k, 1.)
      if want is None:
        want = (p, s, o)
      elif not same(want, (p, s, o)):
        raise Violation("rng given as %r differs from the seed it stands for" % (k,))
      rec.step()
  rec.outcome("errors")


def c_vmapped(case, rec):
  """Every subset of (params, state, rng, x) mapped, with different rows, against separate calls."""
  f = hk.transform_with_state(lambda x: (lambda c, w, k: (hk.set_state("c", c * 2 + x * w), c + w * x + jax.random.uniform(k))[1])(
      hk.get_state("c", (), init=jnp.ones), hk.get_parameter("w", (), init=hk.initializers.RandomUniform()), hk.next_rng_key()))
  ks = np.array([[0, 7], [3, 4], [8, 1]], np.uint32)
  xs = np.array([1.5, -2., 4.], np.float32)
  ps = [f.init(k, x) for k, x in zip(ks, xs)]
  P = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *[p for p, _ in ps])
  S = jax.tree_util.tree_map(lambda *v: jnp.stack(v) * np.array([1., 2., 3.], np.float32), *[s for _, s in ps])
  row = lambda t, i: jax.tree_util.tree_map(lambda v: v[i], t)
  for m in itertools.product((0, None), repeat=4):
    if all(a is None for a in m):
      continue
    args = [v if a == 0 else row(v, 0) for v, a in zip((P, S, ks, xs), m)]
    for jit in (False, True):
      h = jax.vmap(f.apply, in_axes=m)
      got = (jax.jit(h) if jit else h)(*args)
      for i in range(3):
        want = f.apply(*[row(v, i) if a == 0 else v for v, a in zip(args, m)])
        rec.step()
        if not close(row(got, i), want):
          raise Violation("apply vmapped with in_axes=%r jit=%r: row %d is %r, directly %r" % (m, jit, i, row(got, i), want))
    rec.state(m)
    rec.trace()
