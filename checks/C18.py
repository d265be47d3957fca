"""Pooling and padding: every shape, window, stride, padding and channel axis in the bound against the window definition."""
import itertools
import jax, jax.numpy as jnp, numpy as np
import haiku as hk
from mc.core import Violation
from mc import convref

TECHNIQUE = "exhaustive enumeration of a bounded configuration space (shapes, windows, strides, paddings, channel axes) on the real functions and modules, against windows written out element by element"
LEVEL = "model_checking"
RULE = "state = one configuration; every configuration of the product is executed on the real functions and compared element by element"
BOUNDS = {"quick": "rank 1: lengths 1-7 x windows 1-4 x strides 1-4; rank 2: 4 shapes x windows {1,2,3}^2 x strides {1,2,3}^2; ranks 1-5: integer or sequence (full or shorter) windows and strides x every channel axis "
                   "(valid, invalid, None), function and module, 2 paddings; special values (negative, infinities, NaN) and dtypes; padding functions for effective kernels 1-40 and rates 1-4",
          "thorough": "rank 1 lengths 1-12, windows and strides 1-6; rank 2: 9 shapes, windows {1,2,3,4}^2, strides {1,2,3,4}^2"}
ASSUMPTIONS = ["agreement up to rounding (1e-5 relative, float32); max exact"]
CHUNK = 1


def arr(shape, salt=0):
  return np.random.RandomState(997 * salt + sum((i + 1) * 31 * s for i, s in enumerate(shape))).uniform(-9, -1, shape).astype(np.float32)


def pool(x, win, st, padding, op):
  sizes, pads = [], []
  for n, w, s in zip(x.shape, win, st):
    if padding == "SAME":
      pads.append(convref.same_pads(n, w, s, 1)[0])
      sizes.append(-(-n // s))
    else:
      pads.append(0)
      sizes.append((n - w) // s + 1 if n >= w else 0)
  out = np.zeros(sizes)
  for pos in itertools.product(*[range(z) for z in sizes]):
    sl = tuple(slice(max(0, p * s - lo), max(0, p * s - lo + w)) for p, s, lo, w in zip(pos, st, pads, win))
    v = x[sl].astype(np.float64)
    out[pos] = (v.max() if op == "max" else v.mean()) if v.size else np.nan
  return out


def infer(rank, size, axis):
  """Window or stride per axis."""
  if isinstance(size, int):
    if axis is not None and axis < 0:
      axis += rank
    return tuple(1 if d == 0 or d == axis else size for d in range(rank))
  return (1,) * (rank - len(size)) + tuple(size)


MISSING = object()


def one(rec, x, win, st, padding, axis=MISSING, module=False, jit=False):
  w = infer(x.ndim, win, -1 if axis is MISSING else axis)
  s = infer(x.ndim, st, -1 if axis is MISSING else axis)
  kw = {} if axis is MISSING else {"channel_axis": axis}
  for op, fn, cls in (("max", hk.max_pool, hk.MaxPool), ("avg", hk.avg_pool, hk.AvgPool)):
    exp = pool(x, w, s, padding, op)
    if 0 in exp.shape:
      continue
    f = (lambda v: hk.transform(lambda v: cls(win, st, padding, **kw)(v)).apply({}, None, v)) if module else (lambda v: fn(v, win, st, padding, **kw))
    got = np.asarray((jax.jit(f) if jit else f)(x), np.float64)
    what = "%s%s_pool of shape %r window %r stride %r padding %s channel axis %r" % ("module " if module else "", op, x.shape, win, st, padding, "default" if axis is MISSING else axis)
    if got.shape != exp.shape or not (np.array_equal(got, exp) if op == "max" else np.all(np.abs(got - exp) <= 1e-5 * (1 + np.abs(exp)))):
      raise Violation("%s: %s, expected %s" % (what, got.tolist(), exp.tolist()))
    rec.step()
    rec.state(what)


def c_one(case, rec):
  for w, s, padding, jit in itertools.product(case["ws"], case["ss"], ("SAME", "VALID"), (False,)):
    one(rec, arr((case["n"],)), (w,), (s,), padding)
  rec.trace()


def c_two(case, rec):
  for w, s, padding in itertools.product(itertools.product(case["ws"], repeat=2), itertools.product(case["ws"], repeat=2), ("SAME", "VALID")):
    one(rec, arr(case["shape"]), w, s, padding, jit=w == s, module=w[0] == s[1])
  rec.trace()


def c_axes(case, rec):
  """Integers and (short) sequences with every channel axis."""
  shape = tuple(case["shape"])
  rank = len(shape)
  x = arr(shape)
  seqs = lambda vals: [v for k in range(1, rank + 1) for v in [tuple(vals[(i + k) % len(vals)] for i in range(k))]]
  wins = [1, 2, 3] + seqs([2, 1, 3])
  sts = [1, 2, 3] + seqs([1, 2])
  if rank == 5:
    wins, sts = wins[1:5], sts[:4]
  for padding, axis in itertools.product(("SAME", "VALID"), [MISSING, None] + list(range(-rank + 1, rank)) + [rank, rank + 1, -rank - 1]):
    bad = axis is not MISSING and axis is not None and not -rank < axis < rank
    if rank == 1 and axis is MISSING:
      bad = True  # the default channel axis -1 is the only, leading axis: judged with sequences only
    for win, st in itertools.product(wins, sts):
      ints = isinstance(win, int) or isinstance(st, int)
      if rank == 1 and ints and axis is MISSING:
        continue
      if bad and ints:
        for fn in (hk.max_pool, hk.avg_pool):
          try:
            fn(x, win, st, padding, channel_axis=axis)
          except ValueError:
            rec.step()
            continue
          raise Violation("%s accepts channel axis %r for shape %r" % (fn.__name__, axis, shape))
        continue
      if not ints and axis not in (MISSING, 1, -1):
        continue
      one(rec, x, win, st, padding, axis, module=win == st)
  rec.trace()


def c_special(case, rec):
  # Special values: all patterns of {-inf, inf, nan, -5, 0} over 3 elements.
  vals = [-np.inf, np.inf, np.nan, -5., 0.]
  for v in itertools.product(vals, repeat=3):
    x = np.array(v, np.float32)
    for w, s, padding in itertools.product((1, 2, 3), (1, 2), ("SAME", "VALID")):
      exp = pool(x, (w,), (s,), padding, "max")
      got = np.asarray(hk.max_pool(x, (w,), (s,), padding))
      if not np.array_equal(got, exp, equal_nan=True):
        raise Violation("max_pool of %r window %d stride %d %s: %r, expected %r" % (v, w, s, padding, got, exp))
      if np.isfinite(x).all():
        e2 = pool(x, (w,), (s,), padding, "avg")
        if not np.allclose(hk.avg_pool(x, (w,), (s,), padding), e2, 1e-5, 1e-5):
          raise Violation("avg_pool of %r window %d stride %d %s" % (v, w, s, padding))
      rec.step()
  for dt in ("float16", "bfloat16", "float32"):
    x = jnp.asarray(arr((2, 5, 3)), dt)
    for fn, padding in itertools.product((hk.max_pool, hk.avg_pool), ("SAME", "VALID")):
      o = fn(x, (2, 1), (2, 1), padding)
      if o.dtype != x.dtype:
        raise Violation("%s of %s gives %s" % (fn.__name__, dt, o.dtype))
      e = pool(np.asarray(x.astype(jnp.float32)), (1, 2, 1), (1, 2, 1), padding, fn.__name__[:3])
      if not np.allclose(np.asarray(o, np.float32), e, 0.03, 0.03):
        raise Violation("%s in %s" % (fn.__name__, dt))
      rec.step()
  for padding in ("FULL", "same", "valid", "", "CAUSAL", None):
    for fn in (hk.max_pool, hk.avg_pool):
      try:
        fn(arr((3,)), (1,), (1,), padding)
      except ValueError:
        rec.step()
        continue
      raise Violation("%s accepts padding %r" % (fn.__name__, padding))
  # Gradient: of max the indicator of the maximum, of avg the reciprocal window sizes.
  for n, w, s, padding in itertools.product((2, 4, 5), (1, 2, 3), (1, 2), ("SAME", "VALID")):
    x = arr((n,), 3)
    for op, fn in (("max", hk.max_pool), ("avg", hk.avg_pool)):
      exp = np.zeros(n)
      for i in range(n):
        d = np.zeros(n)
        d[i] = 1e-3
        exp[i] = (pool((x + d), (w,), (s,), padding, op).sum() - pool((x - d), (w,), (s,), padding, op).sum()) / 2e-3
      if pool(x, (w,), (s,), padding, op).size:
        g = np.asarray(jax.grad(lambda x: fn(x, (w,), (s,), padding).sum())(x))
        if not np.allclose(g, exp, 1e-2, 1e-2):
          raise Violation("gradient of %s_pool n=%d window %d stride %d %s: %r, expected %r" % (op, n, w, s, padding, g, exp))
        rec.step()
  rec.trace()


REF = {"valid": lambda e: (0, 0), "same": lambda e: ((e - 1) // 2, e // 2), "full": lambda e: (e - 1, e - 1), "causal": lambda e: (e - 1, 0), "reverse_causal": lambda e: (0, e - 1)}


def c_pad(case, rec):
  for name, ref in REF.items():
    fn = getattr(hk.pad, name)
    for e in range(1, 41):
      if tuple(fn(e)) != ref(e):
        raise Violation("hk.pad.%s(%d) is %r, expected %r" % (name, e, fn(e), ref(e)))
      rec.step()
    if name == "same":
      for e in range(1, 41):
        if sum(fn(e)) != e - 1:
          raise Violation("same padding does not keep the length for kernel %d" % e)
  names = list(REF)
  for n in (1, 2, 3):
    for k in itertools.product((1, 2, 5), repeat=n):
      for r in itertools.product((1, 2, 4), repeat=n):
        eff = [(a - 1) * b + 1 for a, b in zip(k, r)]
        for ps in itertools.product(names, repeat=n) if n < 3 else [tuple(names[(i + j) % 5] for i in range(3)) for j in range(5)]:
          exp = tuple(REF[p](e) for p, e in zip(ps, eff))
          fns = [getattr(hk.pad, p) for p in ps]
          forms = [(fns, list(k), list(r))]
          if len(set(ps)) == 1:
            forms.append((fns[0], list(k), tuple(r)))
          if len(set(k)) == 1:
            forms += [(fns, k[0], list(r)), (tuple(fns), (k[0],), list(r))]
          if len(set(r)) == 1:
            forms.append((fns, tuple(k), r[0]))
          for a, b, c in forms:
            got = hk.pad.create(a, b, c, n)
            if tuple(tuple(g) for g in got) != exp:
              raise Violation("hk.pad.create(%r, %r, %r, %d) is %r, expected %r" % (ps, b, c, n, got, exp))
            rec.step()
            rec.state(("create", ps, repr(b), repr(c), n))
  # Meaning, through a convolution: same keeps length, causal never looks ahead, reverse_causal never behind, full covers every overlap.
  for n, k, r in itertools.product((1, 3, 5), (1, 2, 3), (1, 2)):
    w = np.ones((k, 1, 1), np.float32)
    for name in REF:
      t = hk.transform(lambda x: hk.Conv1D(1, k, rate=r, padding=getattr(hk.pad, name), with_bias=False, name="c")(x))
      f = lambda x: t.apply({"c": {"w": w}}, None, x[:, None])[:, 0]
      e = (k - 1) * r + 1
      if name == "valid" and n < e:
        continue
      j = np.asarray(jax.jacobian(f)(np.ones(n, np.float32))) != 0
      L = {"valid": n - e + 1, "same": n, "full": n + e - 1, "causal": n, "reverse_causal": n}[name]
      lo = REF[name](e)[0]
      exp = np.zeros((L, n), bool)
      for o in range(L):
        for q in range(k):
          if 0 <= o + q * r - lo < n:
            exp[o, o + q * r - lo] = True
      if j.shape != exp.shape or not np.array_equal(j, exp):
        raise Violation("%s padding: dependence %r, expected %r (n=%d kernel %d rate %d)" % (name, j, exp, n, k, r))
      if name == "causal" and np.triu(j, 1).any() or name == "reverse_causal" and np.tril(j, -1).any():
        raise Violation("%s padding looks the wrong way" % name)
      rec.step()
  rec.trace()


def cases(tier):
  q = tier == "quick"
  out = [{"t": "special"}, {"t": "pad"}]
  shapes = [(1,), (4,), (3, 4), (2, 5), (2, 3, 4), (1, 5, 2), (2, 3, 2, 2), (1, 4, 3, 1), (1, 2, 3, 2, 2)]
  out += [{"t": "axes", "shape": s} for s in shapes]
  two = [(5, 4), (3, 5), (1, 3), (2, 2)] if q else list(itertools.product((1, 3, 6), repeat=2))
  out += [{"t": "two", "shape": s, "ws": [1, 2, 3] if q else [1, 2, 3, 4]} for s in two]
  out += [{"t": "one", "n": n, "ws": list(range(1, 5 if q else 7)), "ss": list(range(1, 5 if q else 7))} for n in range(1, 8 if q else 13)]
  return out


def run_case(case, rec):
  globals()["c_" + case["t"]](case, rec)
