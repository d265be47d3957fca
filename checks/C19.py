"""Layer, instance and group normalisation: every configuration in the bound against the definition."""
import itertools
import jax, jax.numpy as jnp, numpy as np
import haiku as hk
from mc.core import Violation

TECHNIQUE = "exhaustive enumeration of a bounded configuration space (shapes, all axis choices and forms, groups, formats, scale/offset modes, call sequences) on the real modules against the definition in double precision"
LEVEL = "model_checking"
RULE = "state = one configuration (or call sequence); each is executed on the real module and compared element by element"
BOUNDS = {"quick": "LayerNorm: 7 shapes of rank 1-4 x every non-empty axis subset as list, with each sign choice, every int and every slice of the axes x scale/offset {none, created, passed (3 shapes)}; InstanceNorm: ranks 3-5 x 6 formats "
                   "x same; GroupNorm: 8 shapes of rank 2-5 x all divisors x all axis subsets (both signs), ints, slices x formats x scale/offset; all call sequences of <=3 over 4 shapes on one instance; NaN in each single "
                   "element; rejected configurations; dtypes",
          "thorough": "all sign choices for every subset, 14 shapes"}
ASSUMPTIONS = ["agreement up to rounding (1e-4 relative, float32)", "axes in range and not repeated"]
CHUNK = 1
TOL = 1e-4


def arr(shape, salt=0, lo=-2., hi=3.):
  return np.random.RandomState(997 * salt + sum((i + 1) * 31 * s for i, s in enumerate(shape))).uniform(lo, hi, shape).astype(np.float32)


def cmp(what, got, exp):
  g = np.asarray(got, np.float64)
  exp = np.asarray(exp, np.float64)
  if g.shape != exp.shape:
    raise Violation("%s: result of shape %r, expected %r" % (what, g.shape, exp.shape))
  ok = np.abs(g - exp) <= TOL * (1 + np.abs(exp))
  if not np.all(ok | (np.isnan(g) & np.isnan(exp))):
    raise Violation("%s: result %s, expected %s" % (what, g.tolist(), exp.tolist()))


def norm(x, axes, eps):
  x = x.astype(np.float64)
  axes = tuple(axes)
  m = x.mean(axes, keepdims=True)
  v = ((x - m) ** 2).mean(axes, keepdims=True)
  return (x - m) / np.sqrt(v + eps)


def group_norm(x, groups, axes, eps, ch):
  """Each group of channels on its own; axes refer to x."""
  rank = x.ndim
  axes = [a % rank for a in axes]
  c = x.shape[ch]
  out = np.zeros(x.shape)
  for g in range(groups):
    sl = [slice(None)] * rank
    sl[ch] = slice(g * (c // groups), (g + 1) * (c // groups))
    out[tuple(sl)] = norm(x[tuple(sl)], axes, eps)
  return out


def axis_forms(rank, every_sign=False):
  """Yields (form given to the module, tuple of axes)."""
  for a in range(-rank, rank):
    yield a, (a % rank,)
  for n in range(1, rank + 1):
    for sub in itertools.combinations(range(rank), n):
      signs = itertools.product((0, 1), repeat=n) if every_sign else [(0,) * n, (1,) * n, tuple(i % 2 for i in range(n)), tuple((i + 1) % 2 for i in range(n))]
      for sg in dict.fromkeys(signs):
        yield [a - rank if s else a for a, s in zip(sub, sg)], sub
      yield tuple(reversed(sub)), sub
  for lo, hi in itertools.product([None] + list(range(-rank, rank)), [None] + list(range(-rank, rank + 1))):
    sub = tuple(range(rank)[slice(lo, hi)])
    if sub:
      yield slice(lo, hi), sub
  if rank >= 3:
    yield slice(0, None, 2), tuple(range(rank)[::2])


MODES = list(itertools.product(("none", "create", "pass"), repeat=2))


def build(make, mode, pshape, pass_shape, **kw):
  """(transformed, params, scale, offset): applied values broadcast against the input."""
  sc, of = mode
  scale, offset = arr(pshape, 5, 0.5, 2), arr(pshape, 6)
  pscale, poffset = arr(pass_shape, 7, 0.5, 2), arr(pass_shape, 8)
  def f(x):
    m = make(sc == "create", of == "create", **kw)
    a = {}
    if sc == "pass":
      a["scale"] = pscale
    if of == "pass":
      a["offset"] = poffset
    return m(x, **a)
  p = {}
  if sc == "create":
    p["scale"] = scale
  if of == "create":
    p["offset"] = offset
  return hk.transform(f), p, {"none": 1., "create": scale, "pass": pscale}[sc], {"none": 0., "create": offset, "pass": poffset}[of]


def judge(rec, what, name, t, p, x, exp, full=False):
  shp = jax.eval_shape(t.init, None, x) if not full else t.init(None, x)
  got = {k: v.shape for m, b in shp.items() for k, v in b.items()}
  if got != {k: v.shape for k, v in p.items()} or not set(shp) <= {name}:
    raise Violation("%s: parameters %r, expected %r" % (what, got, {k: v.shape for k, v in p.items()}))
  if full:
    for b in shp.values():
      for k, v in b.items():
        if not np.all(np.asarray(v) == (1 if k == "scale" else 0)):
          raise Violation("%s: initial %s %r" % (what, k, v))
  cmp(what, t.apply({name: p} if p else {}, None, x), exp)
  rec.step()
  rec.state(what)


def c_layer(case, rec):
  shape = tuple(case["shape"])
  rank = len(shape)
  x = arr(shape)
  for i, (form, axes) in enumerate(axis_forms(rank, case["signs"])):
    for eps in (1e-5, 0.5):
      modes = MODES if (eps == 0.5 and i % 5 == 0) else [MODES[i % 9], MODES[(i + 4) % 9]]
      for mode in modes:
        for ps in (shape[-1:], (), shape) if "pass" in mode and i % 3 == 0 else (shape[-1:],):
          t, p, s, o = build(lambda a, b, **k: hk.LayerNorm(form, a, b, **k), mode, shape[-1:], ps, eps=eps)
          judge(rec, "LayerNorm shape %r axis %r scale/offset %r passed shape %r eps %r" % (shape, form, mode, ps, eps), "layer_norm", t, p, x, norm(x, axes, eps) * s + o, full=i % 7 == 0)
  rec.trace()


def fmts(rank):
  out = [("channels_last", -1), ("N...C", -1), ("channels_first", 1), ("NC...", 1)]
  if rank == 4:
    out += [("NHWC", -1), ("NCHW", 1)]
  return out


def c_instance(case, rec):
  shape = tuple(case["shape"])
  rank = len(shape)
  x = arr(shape)
  for (fmt, ch), mode, eps in itertools.product(fmts(rank), MODES, (1e-5, 0.5)):
    axes = tuple(range(1, rank - 1)) if ch == -1 else tuple(range(2, rank))
    pshape = shape[-1:] if ch == -1 else (shape[1],) + (1,) * (rank - 2)
    t, p, s, o = build(lambda a, b, **k: hk.InstanceNorm(a, b, data_format=fmt, **k), mode, pshape, pshape, eps=eps)
    judge(rec, "InstanceNorm shape %r format %r scale/offset %r eps %r" % (shape, fmt, mode, eps), "instance_norm", t, p, x, norm(x, axes, eps) * s + o, full=True)
  rec.trace()


def c_group(case, rec):
  shape, fmt, ch = tuple(case["shape"]), case["fmt"], case["ch"]
  rank = len(shape)
  x = arr(shape)
  c = shape[ch]
  chx = ch % rank
  pshape = (c,) if ch == -1 else (c,) + (1,) * (rank - 2)
  for g in [d for d in range(1, c + 1) if c % d == 0]:
    forms = [(None, tuple(range(1, rank)))] + list(axis_forms(rank, case["signs"]))
    for i, (form, axes) in enumerate(forms):
      exp = group_norm(x, g, axes, 0.1, chx)
      for mode in (MODES if i == 0 else [MODES[(i + g) % 9]]):
        kw = {} if form is None else {"axis": form}
        t, p, s, o = build(lambda a, b, **k: hk.GroupNorm(g, create_scale=a, create_offset=b, data_format=fmt, **k), mode, pshape, pshape if i % 2 else (), eps=0.1, **kw)
        judge(rec, "GroupNorm groups %d shape %r format %r axis %r scale/offset %r" % (g, shape, fmt, form, mode), "group_norm", t, p, x, exp * s + o, full=i % 9 == 0)
  rec.trace()


def c_calls(case, rec):
  """Sequences of calls of one instance with inputs of different shapes."""
  for kind, fmt in itertools.product(("layer", "instance", "group"), ("channels_last", "channels_first")):
    if kind == "layer" and fmt == "channels_first":
      continue
    shapes = [(2, 4, 4, 4), (3, 4, 4, 4), (2, 4, 2, 8), (2, 4, 8, 4), (1, 4, 2, 4)]
    if fmt == "channels_last":
      shapes = [(s[0], s[2], s[3], s[1]) for s in shapes]
    mk = {"layer": lambda: hk.LayerNorm(slice(1, None), True, False, eps=0.1), "instance": lambda: hk.InstanceNorm(True, False, eps=0.1, data_format=fmt), "group": lambda: hk.GroupNorm(2, create_offset=False, eps=0.1, data_format=fmt)}[kind]
    ch = 3 if fmt == "channels_last" else 1
    sc = arr((4,), 5) if ch == 3 else arr((4, 1, 1), 5)
    ref = lambda x: {"layer": lambda: norm(x, (1, 2, 3), .1), "instance": lambda: norm(x, (1, 2) if ch == 3 else (2, 3), .1), "group": lambda: group_norm(x, 2, (1, 2, 3), .1, ch)}[kind]() * sc
    for seq in itertools.product(range(len(shapes)), repeat=3):
      xs = [arr(shapes[i], j) for j, i in enumerate(seq)]
      def f(xs):
        m = mk()
        return [m(x) for x in xs]
      outs = hk.transform(f).apply({mk.__name__ if False else {"layer": "layer_norm", "instance": "instance_norm", "group": "group_norm"}[kind]: {"scale": sc}}, None, xs)
      for x, o in zip(xs, outs):
        cmp("%s norm %s called on shapes %r" % (kind, fmt, [shapes[i] for i in seq]), o, ref(x))
      rec.step()
      rec.state(("calls", kind, fmt, seq))
  # The rank may not change between calls of a GroupNorm.
  for r1, r2 in itertools.product((2, 3, 4), repeat=2):
    def f():
      m = hk.GroupNorm(2, create_scale=False, create_offset=False)
      m(arr((2,) * r1))
      return m(arr((2,) * r2))
    try:
      hk.transform(f).apply({}, None)
      ok = True
    except ValueError:
      ok = False
    if ok != (r1 == r2):
      raise Violation("GroupNorm: rank %d then %d %s" % (r1, r2, "accepted" if ok else "rejected"))
    rec.step()
  rec.trace()


def c_nan(case, rec):
  """An element influences exactly its own slice or group."""
  shape = (2, 3, 2, 4)
  mods = [("LayerNorm axis %r" % (ax,), lambda ax=ax: hk.LayerNorm(ax, False, False), axs, 1, None) for ax, axs in ((-1, (3,)), ((1, 2), (1, 2)), (slice(1, None), (1, 2, 3)), (0, (0,)))]
  mods += [("InstanceNorm", lambda: hk.InstanceNorm(False, False), (1, 2), 1, None), ("InstanceNorm first", lambda: hk.InstanceNorm(False, False, data_format="NCHW"), (2, 3), 1, None)]
  mods += [("GroupNorm %d" % g, lambda g=g: hk.GroupNorm(g, create_scale=False, create_offset=False), (1, 2, 3), g, 3) for g in (1, 2, 4)]
  mods += [("GroupNorm first", lambda: hk.GroupNorm(3, create_scale=False, create_offset=False, data_format="channels_first"), (1, 2, 3), 3, 1)]
  for what, mk, axes, g, ch in mods:
    t = jax.jit(lambda x: hk.transform(lambda x: mk()(x)).apply({}, None, x))
    for pos in itertools.product(*[range(n) for n in shape]):
      x = arr(shape)
      x[pos] = np.nan
      got = np.isnan(np.asarray(t(x)))
      exp = np.zeros(shape, bool)
      for q in itertools.product(*[range(n) for n in shape]):
        same = all(q[d] == pos[d] or d in axes for d in range(4))
        if same and ch is not None:
          w = shape[ch] // g
          same = q[ch] // w == pos[ch] // w
        exp[q] = same
      if not np.array_equal(got, exp):
        raise Violation("%s: NaN at %r reaches %r, expected %r" % (what, pos, np.argwhere(got).tolist(), np.argwhere(exp).tolist()))
      rec.step()
    rec.state(("nan", what))
  rec.trace()


def c_misc(case, rec):
  x = arr((2, 3, 4))
  L = lambda **k: lambda: hk.LayerNorm(**{**dict(axis=-1, create_scale=False, create_offset=False), **k})
  I = lambda **k: lambda: hk.InstanceNorm(**{**dict(create_scale=False, create_offset=False), **k})
  G = lambda **k: lambda: hk.GroupNorm(**{**dict(groups=2, create_scale=False, create_offset=False), **k})
  bad = []
  for cls in (L, I, G):
    bad += [(cls(scale_init=jnp.ones), {}), (cls(offset_init=jnp.ones), {}), (cls(create_scale=True), {"scale": np.ones(4)}), (cls(create_offset=True), {"offset": np.ones(4)}), (cls(create_scale=True, create_offset=True), {"offset": np.ones(4)})]
  for cls in (L, G):
    for ax in ("foo", 3.0, [3.0], ["a"], None, [None], (1, 2.5)):
      bad.append((cls(axis=ax), {}))
  bad += [(cls(data_format=f), {}) for cls in (I, G) for f in ("foo", "CN", "NHW", "", "channels_middle")]
  bad += [(G(groups=g), {}) for g in (3, 5, 8)] + [(G(groups=g, data_format="channels_first"), {}) for g in (2, 4, 6)]
  for mk, kw in bad:
    try:
      hk.transform(lambda: mk()(x, **kw)).init(None)
    except ValueError:
      rec.step()
      continue
    raise Violation("accepted invalid configuration number %d" % bad.index((mk, kw)))
  for dt, mk in itertools.product(("float16", "bfloat16", "float32"), (L(create_scale=True, create_offset=True), I(create_scale=True), G(create_offset=True), G())):
    t = hk.transform(lambda x: mk()(x))
    v = jnp.asarray(x, dt)
    p = t.init(None, v)
    if t.apply(p, None, v).dtype != v.dtype or any(w.dtype != v.dtype for w in jax.tree_util.tree_leaves(p)):
      raise Violation("normalisation in %s changes the type" % dt)
    rec.step()
  # custom initializers are used
  init = lambda s, d: jnp.asarray(arr(s, 9), d)
  for cls, shape in ((L, (4,)), (I, (4,)), (G, (4,))):
    p = hk.transform(lambda: cls(create_scale=True, create_offset=True, scale_init=init, offset_init=lambda s, d: init(s, d) + 1)()(x)).init(None)
    (b,) = p.values()
    cmp("custom scale_init", b["scale"], arr(shape, 9))
    cmp("custom offset_init", b["offset"], arr(shape, 9) + 1)
    rec.step()
  # gradient against finite differences of the definition
  co = arr((2, 3, 4), 3)
  for what, mk, ref in (("LayerNorm", L(eps=0.1), lambda x: norm(x, (2,), .1)), ("LayerNorm", L(eps=0.1, axis=(0, 1)), lambda x: norm(x, (0, 1), .1)), ("InstanceNorm", I(eps=.1), lambda x: norm(x, (1,), .1)), ("GroupNorm", G(eps=.1), lambda x: group_norm(x, 2, (1, 2), .1, 2))):
    g = np.asarray(jax.grad(lambda x: (hk.transform(lambda x: mk()(x)).apply({}, None, x) * co).sum())(x))
    e = np.zeros(x.shape)
    for pos in itertools.product(*[range(n) for n in x.shape]):
      d = np.zeros(x.shape)
      d[pos] = 1e-5
      e[pos] = ((ref(x.astype(np.float64) + d) - ref(x.astype(np.float64) - d)) * co).sum() / 2e-5
    if not np.allclose(g, e, 1e-3, 1e-3):
      raise Violation("gradient of %s" % what)
    rec.step()
  rec.trace()


def cases(tier):
  q = tier == "quick"
  out = [{"t": "misc"}, {"t": "nan"}, {"t": "calls"}]
  gs = [(2, 4), (2, 3, 4), (3, 4, 2), (2, 6, 1), (2, 2, 3, 4), (2, 4, 3, 2), (1, 4, 1, 6), (2, 2, 1, 2, 2)]
  if not q:
    gs += [(3, 6, 2, 6), (1, 2), (2, 1, 1), (4, 4, 4, 4), (2, 3, 6), (2, 4, 2, 1, 4)]
  for s in gs:
    for fmt, ch in fmts(len(s)) if not q or len(s) == 3 else [("channels_last", -1), ("NC...", 1)]:
      out.append({"t": "group", "shape": s, "fmt": fmt, "ch": ch, "signs": not q})
  ls = [(3,), (2, 4), (2, 3, 4), (3, 1, 2), (1, 3, 3), (2, 3, 2, 4), (1, 2, 3, 1)] + ([] if q else [(1,), (4, 1), (2, 2, 2), (3, 2, 1, 2), (2, 2, 2, 2)])
  out += [{"t": "layer", "shape": s, "signs": not q} for s in ls]
  out += [{"t": "instance", "shape": s} for s in ((2, 3, 4), (1, 4, 2), (2, 3, 4, 2), (2, 1, 3, 3), (2, 2, 3, 2, 2))]
  return out


def run_case(case, rec):
  globals()["c_" + case["t"]](case, rec)
