"""Initializers: every shape, dtype, mode, distribution and option in the bound against the definition of the distribution for the key drawn."""
import itertools
import jax, jax.numpy as jnp, numpy as np
import haiku as hk
from mc.core import Violation

TECHNIQUE = "exhaustive enumeration of a bounded configuration space (initializer, options, shapes, dtypes, keys) on the real initializers, against definitions evaluated in float64 from the key drawn"
LEVEL = "model_checking"
RULE = "state = one configuration; every configuration of the product is executed on the real initializers, and the key stream before and after the call is observed"
BOUNDS = {"quick": "all shapes of rank 0-4 with sizes {1,2,3,5} (rank 4: {1,2,3}), 4 dtypes, means/deviations/limits {0,.5,1,-3,...}, scales {0,.5,1,2} x 3 modes x 3 distributions, every axis for Orthogonal, gains and constants (scalars, "
                   "all broadcastable array shapes), 2 keys; default weights of every layer class with weights",
          "thorough": "sizes {1,2,3,4,5,7} up to rank 3, {1,2,3,4} for rank 4, {1,2} for rank 5, 4 keys"}
ASSUMPTIONS = ["jax.random.normal/uniform/truncated_normal draw from their distributions", "agreement up to rounding of the dtype"]
CHUNK = 4
I = hk.initializers
TOL = {"float32": 2e-5, "float16": 6e-3, "bfloat16": 4e-2, "complex64": 2e-5}
KEYS = [np.array([0, 7], np.uint32), np.array([9, 1], np.uint32), np.array([3, 3], np.uint32), np.array([2 ** 31, 5], np.uint32)]


def shapes(tier):
  out = [()]
  big = (1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 7)
  for r in (1, 2, 3):
    out += list(itertools.product(big, repeat=r))
  out += list(itertools.product((1, 2, 3) if tier == "quick" else (1, 2, 3, 4), repeat=4))
  if tier == "thorough":
    out += list(itertools.product((1, 2), repeat=5))
  return out + [(0,), (2, 0), (0, 2), (7, 11), (64, 2), (2, 64)]


def cases(tier):
  n = len(KEYS) if tier == "thorough" else 2
  out = [{"t": t, "shape": list(s), "n": n} for s in shapes(tier) for t in ("basic", "variance", "matrix")]
  return [{"t": "defaults", "n": n}, {"t": "const"}, {"t": "errors"}, {"t": "repro"}] + out


def run_case(case, rec):
  globals()["c_" + case["t"]](case, rec)


def draw(init, shape, dtype, key):
  """Value of the initializer called with the key sequence of `key`, number of keys it drew, and the first key."""
  f = hk.transform(lambda: [hk.next_rng_key() for _ in range(4)])
  ks = [tuple(map(int, np.asarray(k))) for k in f.apply({}, key)]
  def g():
    v = init(shape, dtype)
    return v, hk.next_rng_key()
  v, nxt = hk.transform(g).apply({}, key)
  nxt = tuple(map(int, np.asarray(nxt)))
  if nxt not in ks:
    raise Violation("%s leaves the key sequence at a key that does not belong to it" % describe(init))
  return v, ks.index(nxt), np.array(ks[0], np.uint32)


def describe(init):
  return "%s(%s)" % (type(init).__name__, ", ".join("%s=%r" % kv for kv in sorted(vars(init).items())))


def judge(rec, init, shape, dtype, key, ref, ndraws=1, tol=None):
  """ref(key) -> expected float64 array."""
  v, n, k = draw(init, shape, dtype, key)
  what = "%s for shape %r dtype %s" % (describe(init), shape, dtype)
  if not isinstance(v, (jax.Array, np.ndarray)) or tuple(v.shape) != tuple(shape) or v.dtype != jnp.dtype(dtype):
    raise Violation("%s returns %s of shape %r and dtype %r" % (what, type(v).__name__, getattr(v, "shape", None), getattr(v, "dtype", None)))
  if n != ndraws:
    raise Violation("%s draws %d keys, expected %d" % (what, n, ndraws))
  got = np.asarray(v).astype(np.complex128 if dtype == "complex64" else np.float64)
  exp = ref(k)
  t = TOL.get(dtype, 0) if tol is None else tol
  if not np.all(np.abs(got - exp) <= t * (1 + np.abs(exp)) * max(1., float(np.max(np.abs(exp), initial=0.)))):
    raise Violation("%s gives %r for key %r, expected %r" % (what, got.tolist(), k.tolist(), np.asarray(exp).tolist()))
  rec.step()
  rec.state((what, tuple(k)))
  return got


def wide(v):
  v = jnp.asarray(v)
  return np.asarray(v).astype(np.complex128) if v.dtype == jnp.complex64 else np.asarray(v.astype(jnp.float32)).astype(np.float64)


def c_basic(case, rec):
  shape = tuple(case["shape"])
  dts = ("float32", "float16", "bfloat16") if len(shape) < 4 else ("float32",)
  for dt in dts:
    for sd, mean in ((1., 0.), (.5, 0.), (2., -3.), (0., 1.), (1.5, 10.)):
      for key in KEYS[:case["n"]]:
        judge(rec, I.RandomNormal(sd, mean), shape, dt, key, lambda k: mean + sd * wide(jax.random.normal(k, shape, dt)))
        got = judge(rec, I.TruncatedNormal(sd, mean), shape, dt, key, lambda k: mean + sd * wide(jax.random.truncated_normal(k, -2., 2., shape, dt)))
        if np.any(np.abs(got - mean) > 2 * sd + TOL[dt] * (1 + abs(mean))):
          raise Violation("TruncatedNormal(%r, %r) leaves two standard deviations: %r" % (sd, mean, got))
    for lo, hi in ((0., 1.), (-1., 1.), (-.25, 3.), (2., 2.5)):
      for key in KEYS[:case["n"]]:
        got = judge(rec, I.RandomUniform(lo, hi), shape, dt, key, lambda k: lo + (hi - lo) * wide(jax.random.uniform(k, shape, dt)))
        if np.any(got < lo) or np.any(got > hi + TOL[dt]):
          raise Violation("RandomUniform(%r, %r) leaves its bounds: %r" % (lo, hi, got))
  if len(shape) < 3:
    for sd, mean in ((1., 0.), (.5, 2.)):
      judge(rec, I.RandomNormal(sd, mean), shape, "complex64", KEYS[0], lambda k: mean + sd * wide(jax.random.normal(k, shape, jnp.complex64)))
  # Defaults.
  judge(rec, I.RandomNormal(), shape, "float32", KEYS[0], lambda k: wide(jax.random.normal(k, shape)))
  judge(rec, I.TruncatedNormal(), shape, "float32", KEYS[0], lambda k: wide(jax.random.truncated_normal(k, -2., 2., shape)))
  judge(rec, I.RandomUniform(), shape, "float32", KEYS[0], lambda k: wide(jax.random.uniform(k, shape)))
  rec.trace()
  rec.outcome(("basic", len(shape)))


def fans(shape):
  """Numbers of input and output units of a weight."""
  if not shape:
    return 1, 1
  if len(shape) == 1:
    return shape[0], shape[0]
  field = 1
  for s in shape[:-2]:
    field *= s
  return shape[-2] * field, shape[-1] * field


STD = 0.8796256610342398  # deviation of a standard normal truncated to [-2, 2]


def scaled(shape, dt, scale, mode, dist):
  fi, fo = fans(shape)
  n = {"fan_in": fi, "fan_out": fo, "fan_avg": (fi + fo) / 2}[mode]
  s = scale / max(1., n)
  if dist == "uniform":
    lim = (3 * s) ** .5
    return lambda k: -lim + 2 * lim * wide(jax.random.uniform(k, shape, dt))
  if dist == "normal":
    return lambda k: s ** .5 * wide(jax.random.normal(k, shape, dt))
  return lambda k: s ** .5 / STD * wide(jax.random.truncated_normal(k, -2., 2., shape, dt))


def c_variance(case, rec):
  shape = tuple(case["shape"])
  for dt in ("float32", "float16", "bfloat16") if len(shape) < 3 else ("float32",):
    for scale, mode, dist in itertools.product((0., .5, 1., 2.) if dt == "float32" else (1.,), ("fan_in", "fan_out", "fan_avg"), ("truncated_normal", "normal", "uniform")):
      for key in KEYS[:case["n"]] if scale else KEYS[:1]:
        judge(rec, I.VarianceScaling(scale, mode, dist), shape, dt, key, scaled(shape, dt, scale, mode, dist))
    for scale in (1., .5, 3.):
      n = 1
      for s in shape[:-1]:
        n *= s
      if not n:
        continue
      lim = (3. / n) ** .5 * scale
      got = judge(rec, I.UniformScaling(scale), shape, dt, KEYS[0], lambda k: -lim + 2 * lim * wide(jax.random.uniform(k, shape, dt)))
  judge(rec, I.VarianceScaling(), list(shape), "float32", KEYS[1], scaled(shape, "float32", 1., "fan_in", "truncated_normal"))
  judge(rec, I.VarianceScaling(2., distribution="UNIFORM"), list(shape), "float32", KEYS[1], scaled(shape, "float32", 2., "fan_in", "uniform"))
  rec.trace()
  rec.outcome(("variance", len(shape)))


def gram_schmidt(a):
  """Q of the factorisation of a (tall) with positive diagonal."""
  q = np.zeros_like(a)
  for j in range(a.shape[1]):
    v = a[:, j].copy()
    for _ in range(2):
      for i in range(j):
        v -= q[:, i] * (q[:, i] @ v)
    q[:, j] = v / np.linalg.norm(v)
  return q


def c_matrix(case, rec):
  shape = tuple(case["shape"])
  if len(shape) < 2:
    for init in (I.Orthogonal(), I.Identity(), I.Orthogonal(axis=0)):
      try:
        hk.transform(lambda: init(shape, jnp.float32)).apply({}, KEYS[0])
      except ValueError:
        rec.step()
        continue
      raise Violation("%s accepts shape %r" % (describe(init), shape))
    return
  # Identity
  for dt, gain in itertools.product(("float32", "bfloat16", "int32"), (1., 2., -3.)):
    exp = np.zeros(shape)
    for pos in itertools.product(*[range(s) for s in shape]):
      exp[pos] = gain if pos[-1] == pos[-2] else 0
    judge(rec, I.Identity(gain) if gain != 1. else I.Identity(), shape, dt, KEYS[0], lambda k: exp, 0)
  g = np.arange(1, shape[-1] + 1, dtype=np.float32)
  judge(rec, I.Identity(g), list(shape), "float32", KEYS[0], lambda k: np.broadcast_to(np.eye(shape[-2], shape[-1]), shape) * g, 0)
  if 0 in shape:
    return
  size = int(np.prod(shape))
  for axis, scale in itertools.product(range(-len(shape), len(shape)), (1., .5, -2.)):
    n = shape[axis]
    m = size // n
    for key in KEYS[:case["n"]] if scale == 1. else KEYS[:1]:
      tall = (n, m) if n > m else (m, n)

      def ref(k):
        q = gram_schmidt(wide(jax.random.normal(k, tall)))
        if n < m:
          q = q.T
        rest = [s for i, s in enumerate(shape) if i != axis % len(shape)]
        return scale * np.moveaxis(q.reshape([n] + rest), 0, axis)
      # Matrices with a (nearly) singular sample are judged by orthogonality only.
      sv = np.linalg.svd(wide(jax.random.normal(draw(I.RandomNormal(), (1,), "float32", key)[2], tall)), compute_uv=False)
      init = I.Orthogonal(scale, axis) if (scale, axis) != (1., -1) else I.Orthogonal()
      v = judge(rec, init, shape, "float32", key, ref, tol=2e-4 if sv[-1] > .02 * sv[0] and n != m else 10.)
      if n == m and sv[-1] > .02 * sv[0]:  # either orientation of a square matrix
        e = ref(draw(I.RandomNormal(), (1,), "float32", key)[2])
        t = np.moveaxis(e, axis, 0)
        t = np.moveaxis(t.reshape(n, n).T.reshape(t.shape), 0, axis)
        r = [np.abs(v - e).max(), np.abs(v - t).max()]
        if min(r) > 2e-3:
          raise Violation("%s for shape %r is not the orthogonal factor of the sample: %r" % (describe(init), shape, v))
      w = np.moveaxis(v, axis, 0).reshape(n, m)
      gram = w @ w.T if n <= m else w.T @ w
      if not np.allclose(gram, scale * scale * np.eye(min(n, m)), 1e-4, 1e-4):
        raise Violation("%s for shape %r is not orthogonal: %r" % (describe(init), shape, gram))
  rec.trace()
  rec.outcome(("matrix", len(shape)))


def c_const(case, rec):
  for dt in ("float32", "float16", "bfloat16", "int32", "uint8", "bool", "complex64"):
    for shape in [()] + [s for r in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=r)] + [(0,), (2, 0), (3, 1, 2, 2)]:
      for c in (0, 1, 2.5, True, np.float32(7), jnp.asarray(3), -0.0):
        exp = np.full(shape, np.asarray(jnp.asarray(c).astype(dt)).astype(np.complex128 if dt == "complex64" else np.float64))
        judge(rec, I.Constant(c), shape, dt, KEYS[0], lambda k: exp, 0, tol=0)
        judge(rec, I.Constant(c), list(shape), dt, None, lambda k: exp, 0, tol=0) if False else None
      if dt in ("float32", "int32"):
        for cs in [()] + [s for r in range(1, len(shape) + 2) for s in itertools.product((1, 2, 3), repeat=r)]:
          c = np.arange(int(np.prod(cs)), dtype=np.float32).reshape(cs)
          pad = (1,) * (len(shape) - len(cs)) + cs
          ok = len(cs) <= len(shape) and all(a in (1, b) for a, b in zip(pad, shape))
          if not ok:
            try:
              hk.transform(lambda: I.Constant(c)(shape, dt)).apply({}, None)
            except (ValueError, TypeError):
              rec.step()
              continue
            raise Violation("Constant of shape %r accepts shape %r" % (cs, shape))
          judge(rec, I.Constant(c), shape, dt, KEYS[0], lambda k: np.broadcast_to(c, shape).astype(np.float64), 0, tol=0)
  rec.trace()
  rec.outcome("const")


def c_errors(case, rec):
  for kw in ({"scale": -1.}, {"scale": -1e-9}, {"mode": "fan"}, {"mode": ""}, {"mode": "FAN_IN"}, {"distribution": "gauss"}, {"distribution": ""}):
    try:
      I.VarianceScaling(**kw)
    except ValueError:
      rec.step()
      continue
    raise Violation("VarianceScaling accepts %r" % (kw,))
  # Random initializers need a key.
  for init in (I.RandomNormal(), I.TruncatedNormal(), I.RandomUniform(), I.VarianceScaling(), I.UniformScaling(), I.Orthogonal()):
    try:
      hk.transform(lambda: init((2, 2), jnp.float32)).apply({}, None)
    except ValueError:
      rec.step()
      continue
    raise Violation("%s works without a key" % describe(init))
  for init in (I.Constant(2.), I.Identity()):
    hk.transform(lambda: init((2, 2), jnp.float32)).apply({}, None)
    rec.step()
  rec.trace()


ALL = {"normal": lambda: I.RandomNormal(), "trunc": lambda: I.TruncatedNormal(), "unif": lambda: I.RandomUniform(), "vs": lambda: I.VarianceScaling(), "vs_u": lambda: I.VarianceScaling(distribution="uniform"),
       "us": lambda: I.UniformScaling(), "orth": lambda: I.Orthogonal()}


def c_repro(case, rec):
  """Same key, same values; different keys, different values; one object used for several parameters, in all orders, behaves like separate objects."""
  names = list(ALL)
  for n in names:
    init = ALL[n]()
    vals = []
    for key in KEYS:
      a, b = (np.asarray(draw(i, (3, 3), "float32", key)[0]) for i in (init, ALL[n]()))
      if not np.array_equal(a, b):
        raise Violation("%s gives different values for the same key" % describe(init))
      vals.append(a)
      rec.step()
    for a, b in itertools.combinations(vals, 2):
      if np.array_equal(a, b):
        raise Violation("%s gives the same values for different keys" % describe(init))
  for seq in itertools.product(((n, s) for n in ("normal", "vs", "orth") for s in ((2, 2), (3, 2), (2, 2, 3))), repeat=2):
    shared = {n: ALL[n]() for n in ("normal", "vs", "orth")}
    def f(mk):
      return [mk(n)(s, jnp.float32) for n, s in seq] + [mk(seq[0][0])(seq[0][1], jnp.float32)]
    a = hk.transform(lambda: f(lambda n: shared[n])).apply({}, KEYS[0])
    a2 = hk.transform(lambda: f(lambda n: shared[n])).apply({}, KEYS[0])
    b = hk.transform(lambda: f(lambda n: ALL[n]())).apply({}, KEYS[0])
    rec.step()
    if not all(np.array_equal(x, y) and np.array_equal(x, z) for x, y, z in zip(a, b, a2)):
      raise Violation("initializer objects shared between parameters %r give other values than separate objects" % (seq,))
    if np.array_equal(a[0], a[2]):
      raise Violation("two uses of an initializer in one transform give the same values: %r" % (seq,))
    rec.state(seq)
    rec.trace()
  rec.outcome("repro")


def c_defaults(case, rec):
  """The default weights of layers: truncated normal with deviation 1/sqrt(fan in), biases and offsets zero, scales one."""
  f32 = "float32"
  def tn(shape, sd):
    return lambda k, dt: sd * wide(jax.random.truncated_normal(k, -2., 2., tuple(shape), dt))
  def vs(shape, scale=1., dist="truncated_normal"):
    return lambda k, dt: scaled(tuple(shape), dt, scale, "fan_in", dist)(k)
  zero = lambda k, dt: 0.
  one = lambda k, dt: 1.
  nets = []
  for i, o in itertools.product((1, 2, 5), (1, 3)):
    nets.append(("Linear %d->%d" % (i, o), lambda x, o=o: hk.Linear(o)(x), (2, i), [("linear", "w", tn((i, o), i ** -.5)), ("linear", "b", zero)]))
    nets.append(("GRU %d->%d" % (i, o), lambda x, o=o: hk.GRU(o)(x, jnp.zeros((2, o))), (2, i), [("gru", "w_i", vs((i, 3 * o))), ("gru", "w_h", vs((o, 3 * o))), ("gru", "b", zero)]))
    nets.append(("LSTM %d->%d" % (i, o), lambda x, o=o: hk.LSTM(o)(x, hk.LSTMState(jnp.zeros((2, o)), jnp.zeros((2, o)))), (2, i), [("lstm/linear", "w", tn((i + o, 4 * o), (i + o) ** -.5)), ("lstm/linear", "b", zero)]))
    nets.append(("Embed", lambda x, i=i, o=o: hk.Embed(i, o)(jnp.zeros((2,), jnp.int32)), (2,), [("embed", "embeddings", tn((i, o), 1.))]))
    for n, k in ((1, (3,)), (2, (3, 2)), (3, (1, 2, 3))):
      dims = (2,) + (4,) * n + (i,)
      kn = int(np.prod(k))
      nm = "Conv%dD" % n
      nets.append(("%s %d->%d" % (nm, i, o), lambda x, nm=nm, o=o, k=k: getattr(hk, nm)(o, k)(x), dims, [("conv%d_d" % n, "w", tn(k + (i, o), (kn * i) ** -.5)), ("conv%d_d" % n, "b", zero)]))
      nets.append(("%sTranspose %d->%d" % (nm, i, o), lambda x, nm=nm, o=o, k=k: getattr(hk, nm + "Transpose")(o, k)(x), dims, [("conv%d_d_transpose" % n, "w", tn(k + (o, i), (kn * i) ** -.5)), ("conv%d_d_transpose" % n, "b", zero)]))
    nets.append(("DepthwiseConv2D %d x%d" % (i, o), lambda x, o=o: hk.DepthwiseConv2D(o, (3, 2))(x), (2, 4, 4, i), [("depthwise_conv2_d", "w", tn((3, 2, 1, i * o), 6 ** -.5)), ("depthwise_conv2_d", "b", zero)]))
    nets.append(("MHA", lambda x, o=o: hk.MultiHeadAttention(o, 2, 2.)(x, x, x), (2, 3, i),
                 [("multi_head_attention/" + q, "w", vs((i, 2 * o), 2.)) for q in ("query", "key", "value")] + [("multi_head_attention/linear", "w", vs((2 * o, 2 * o), 2.))]))
    nets.append(("MLP", lambda x, o=o: hk.nets.MLP([o, 4])(x), (2, i), [("mlp/~/linear_0", "w", tn((i, o), i ** -.5)), ("mlp/~/linear_1", "w", tn((o, 4), o ** -.5)), ("mlp/~/linear_1", "b", zero)]))
    nets.append(("BatchNorm", lambda x: hk.BatchNorm(True, True, .9)(x, True), (3, i), [("batch_norm", "scale", one), ("batch_norm", "offset", zero)]))
    nets.append(("LayerNorm", lambda x: hk.LayerNorm(-1, True, True)(x), (3, i), [("layer_norm", "scale", one), ("layer_norm", "offset", zero)]))
    nets.append(("Bias", lambda x: hk.Bias()(x), (3, i), [("bias", "b", zero)]))
  for what, f, dims, want in nets:
    for key, dt in itertools.product(KEYS[:case["n"]], ("float32", "float16") if what.startswith(("Linear", "Conv2D ")) else ("float32",)):
      drawn = {}
      def creator(nxt, shape, dtype, init, context):
        # The key each parameter is made with: the first of a sequence of its own.
        k = np.array([len(drawn) + 1, int(key[1])], np.uint32)
        drawn[context.full_name] = (k, hk.transform(lambda: hk.next_rng_key()).apply({}, k))
        with hk.with_rng(k):
          return nxt(shape, dtype, init)
      def g(x):
        with hk.experimental.custom_creator(creator):
          return f(x)
      p = hk.transform_with_state(g).init(key, jnp.ones(dims, dt))[0]
      for mod, name, ref in want:
        if mod not in p or name not in p[mod]:
          raise Violation("%s has no parameter %s/%s: %r" % (what, mod, name, {m: list(b) for m, b in p.items()}))
        got = wide(p[mod][name])
        exp = np.broadcast_to(ref(np.asarray(drawn[mod + "/" + name][1]), dt), got.shape)
        rec.step()
        if not np.all(np.abs(got - exp) <= 4 * TOL[dt] * (1 + np.abs(exp))):
          raise Violation("%s with dtype %s: initial %s/%s is %r, expected %r" % (what, dt, mod, name, got.tolist(), exp.tolist()))
        rec.state((what, dims, mod, name, dt, tuple(key)))
    rec.trace()
  rec.outcome("defaults")
