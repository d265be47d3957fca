"""Elementary modules: every rank, shape, axis specification and option in the bound against definitions written out in numpy."""
import itertools
import jax, jax.numpy as jnp, numpy as np
import haiku as hk
from mc.core import Violation

TECHNIQUE = "exhaustive enumeration of a bounded configuration space (ranks, shapes, options, masks, every value of the uniform draw) on the real modules, against definitions written out in numpy"
LEVEL = "model_checking"
RULE = "state = one configuration; every configuration of the product is executed on the real modules and compared element by element"
BOUNDS = {"quick": "Linear: ranks 0-4, sizes {1,2,3}, bias and initializer options, 3 dtypes; Bias: ranks 1-4 x all sets of dims (also negative, out of range) x output sizes x multipliers; Embed: vocabularies 1-4 x dims 1-3 x all ids of rank 0-3 "
                   "x styles and overrides; Reshape/Flatten: all input shapes of rank 0-5 over {1,2,3} (a quarter at rank 5) x all factorisations with and without -1 x preserve_dims 0-5; Sequential: all sequences of <=3 of 6 layers; BatchApply: "
                   "all num_dims 1-3 x argument trees; MLP: all size lists <=3 x options x reverse; dropout: rates {0,.1,.5,.9,...} x dtypes; multinomial: all 2^23 uniform draws for 14 logit vectors in 3 dtypes, 66 draws for batches; one_hot: all ids -2..4; "
                   "attention: all masks of up to 2x3 and 3x3 positions x heads/sizes",
          "thorough": "as quick, rank 5 completely, attention masks up to 3x4, 60 logit vectors"}
ASSUMPTIONS = ["agreement up to rounding", "multinomial draws are enumerated by replacing jax.random.uniform; an implementation that does not call it is judged by support and shape only"]
CHUNK = 1
KEY = np.array([0, 7], np.uint32)


def cases(tier):
  out = [{"t": "linear", "rank": r} for r in range(0, 5)]
  out += [{"t": "bias", "rank": r} for r in range(1, 5)]
  out += [{"t": "embed", "v": v} for v in (1, 2, 3, 4)] + [{"t": "embed_args"}]
  out += [{"t": "reshape", "shape": list(s)} for r in range(0, 6) for i, s in enumerate(itertools.product((1, 2, 3), repeat=r)) if r < 5 or tier == "thorough" or i % 4 == 0]
  out += [{"t": "reshape", "shape": list(s)} for s in ((0,), (2, 0), (0, 2), (2, 0, 3), (0, 3, 2))]
  out += [{"t": "sequential"}, {"t": "batch_apply"}, {"t": "expand_apply"}, {"t": "to_module"}, {"t": "dropout"}, {"t": "one_hot"}, {"t": "mult_batch"}]
  out += [{"t": "mlp", "sizes": list(s)} for n in range(0, 4) for s in itertools.product((1, 3), repeat=n)]
  for dt in ("float32", "float16", "bfloat16"):
    out += [{"t": "mult", "dt": dt, "logits": [str(v) for v in l]} for l in logits(tier)]
  for (t, s) in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 3)) + (((3, 4),) if tier == "thorough" else ()):
    n = 2 ** (t * s)
    for c in range(max(1, n // 64)):
      out.append({"t": "mha", "T": t, "S": s, "lo": c * 64, "hi": min(n, c * 64 + 64)})
  out.append({"t": "mha_cfg"})
  return out


def logits(tier):
  ninf = float("-inf")
  out = [(0.,), (0., 0.), (ninf, 0.), (0., ninf), (ninf, 0., ninf), (1., 2., 3.), (ninf, .1, .2, .3, .4, .05, .7), (.1, .2, .3, .4, .05, .7, ninf), (30., 0., -30.), (-30., ninf, 30., ninf), (ninf, ninf, -100., -100.), (5.,) * 9,
         (ninf,) + (0.,) * 10, tuple(.37 * i % 1 for i in range(17)) + (ninf,)]
  if tier == "thorough":
    out += [v for v in itertools.product((ninf, 0., 1.3), repeat=4) if any(x != ninf for x in v)][:46]
  return out


def run_case(case, rec):
  globals()["c_" + case["t"]](case, rec)


def arr(shape, salt=0, dt=np.float32):
  n = int(np.prod(shape))
  return (((np.arange(n) * 37 + salt * 11 + 5) % 23 - 11) / 7.).reshape(shape).astype(dt)


def f64(v):
  return np.asarray(jnp.asarray(v).astype(jnp.float32)).astype(np.float64)


def eq(rec, what, got, exp, tol=1e-5, dtype=None):
  g = f64(got)
  if dtype is not None and got.dtype != jnp.dtype(dtype):
    raise Violation("%s has dtype %s, expected %s" % (what, got.dtype, dtype))
  exp = np.asarray(exp, np.float64)
  if g.shape != exp.shape or not np.all((np.abs(g - exp) <= tol * (1 + np.abs(exp))) | (np.isnan(g) & np.isnan(exp))):
    raise Violation("%s gives %r, expected %r" % (what, g.tolist(), exp.tolist()))
  rec.step()
  rec.state(what)


def shapes_of(p):
  return {m: {k: tuple(v.shape) for k, v in b.items()} for m, b in p.items()}


def raises(rec, what, f, *errs):
  try:
    r = f()
  except errs:
    rec.step()
    return
  raise Violation("%s is accepted: %r" % (what, r))


def c_linear(case, rec):
  if case["rank"] == 0:
    raises(rec, "Linear of a scalar", lambda: hk.transform(lambda: hk.Linear(2)(jnp.ones(()))).init(KEY), ValueError)
    return
  TOL = {"float32": 1e-5, "float16": 2e-2, "bfloat16": 1e-1}
  for shape in itertools.product((1, 2, 3), repeat=case["rank"]):
    for out, bias, inits, dt in itertools.product((1, 3), (True, False), (False, True), ("float32",) if case["rank"] > 2 else ("float32", "float16", "bfloat16")):
      kw = {"with_bias": bias}
      if inits:
        kw["w_init"] = hk.initializers.Constant(arr((shape[-1], out), 3))
        if bias:
          kw["b_init"] = hk.initializers.Constant(arr((out,), 4))
      x = jnp.asarray(arr(shape), dt)
      mods = []
      def f(x):
        m = hk.Linear(out, **kw)
        mods.append(m)
        return m(x)
      t = hk.transform(f)
      p = t.init(KEY, x)
      want = {"linear": dict([("w", (shape[-1], out))] + ([("b", (out,))] if bias else []))}
      what = "Linear(%d, with_bias=%r, inits=%r) on %r %s" % (out, bias, inits, shape, dt)
      if shapes_of(p) != want:
        raise Violation("%s has parameters %r, expected %r" % (what, shapes_of(p), want))
      if any(v.dtype != jnp.dtype(dt) for v in p["linear"].values()):
        raise Violation("%s has parameter dtypes %r" % (what, p))
      if inits:
        eq(rec, what + ": initial w", p["linear"]["w"], f64(jnp.asarray(arr((shape[-1], out), 3), dt)))
        if bias:
          eq(rec, what + ": initial b", p["linear"]["b"], f64(jnp.asarray(arr((out,), 4), dt)))
      elif bias and f64(p["linear"]["b"]).any():
        raise Violation(what + ": the default bias is not zero")
      q = {"linear": {"w": jnp.asarray(arr((shape[-1], out), 1), dt)}}
      if bias:
        q["linear"]["b"] = jnp.asarray(arr((out,), 2), dt)
      exp = f64(x) @ f64(q["linear"]["w"]) + (f64(q["linear"]["b"]) if bias else 0)
      eq(rec, what, t.apply(q, None, x), exp, TOL[dt], dt)
      if mods[-1].input_size != shape[-1] or mods[-1].output_size != out:
        raise Violation(what + ": sizes recorded wrongly")
  rec.trace()
  rec.outcome(("linear", case["rank"]))


def c_bias(case, rec):
  rank = case["rank"]
  if rank == 1:
    raises(rec, "Bias on rank 1", lambda: hk.transform(lambda: hk.Bias()(jnp.ones((3,)))).init(KEY), ValueError)
    raises(rec, "Bias on rank 0", lambda: hk.transform(lambda: hk.Bias()(jnp.ones(()))).init(KEY), ValueError)
    return
  for shape in itertools.product((2, 1), (1, 2, 3), (1, 3), (2, 1)):
    shape = shape[:rank]
    x = arr(shape, 1)
    dimsets = [None] + [list(c) for n in range(0, rank) for c in itertools.permutations(range(1, rank), n)] + [[d - rank for d in c] for n in range(1, rank) for c in itertools.combinations(range(1, rank), n)]
    for dims, typ in itertools.product(dimsets, (list, tuple)):
      d = dims if dims is None else typ(dims)
      if dims is None:
        bs = shape[1:]
      else:
        pos = {v % rank for v in dims}
        full = [shape[i] if i in pos else 1 for i in range(1, rank)]
        while full and full[0] == 1:
          full = full[1:]
        bs = tuple(full)
      mods = []
      def f(x, m=None):
        b = hk.Bias(bias_dims=d)
        mods.append(b)
        return b(x, m) if m is not None else b(x)
      t = hk.transform(f)
      p = t.init(None, x)
      what = "Bias(bias_dims=%r) on %r" % (d, shape)
      got = tuple(p["bias"]["b"].shape)
      if got != bs or tuple(mods[-1].bias_shape) != got:
        raise Violation("%s has a parameter of shape %r, expected %r" % (what, got, bs))
      if np.asarray(p["bias"]["b"]).any():
        raise Violation(what + ": the default is not zero")
      b = arr(got, 2) + 2
      for m in (None, -1, 2.5, arr(shape, 5)):
        eq(rec, what + " multiplier %r" % (m if m is None or np.ndim(m) == 0 else "array"), t.apply({"bias": {"b": b}}, None, x, m), x.astype(np.float64) + np.broadcast_to(b, shape) * (1. if m is None else m))
    for bad in ([0], [1, 0], [-rank], [rank], [1, rank + 2]):
      raises(rec, "Bias(bias_dims=%r) on %r" % (bad, shape), lambda: hk.transform(lambda: hk.Bias(bias_dims=bad)(x)).init(None), ValueError)
    for os_, typ in itertools.product([shape[1:], shape, shape[1:-1], shape[1:-1] + (shape[-1] + 1,), (1,) + shape[1:]], (tuple, list)):
      g = lambda: hk.transform(lambda: hk.Bias(output_size=typ(os_))(x)).init(None)["bias"]["b"].shape
      if tuple(os_) == shape[1:]:
        if tuple(g()) != shape[1:]:
          raise Violation("Bias(output_size=%r) on %r" % (typ(os_), shape))
        rec.step()
      else:
        raises(rec, "Bias(output_size=%r) on %r" % (typ(os_), shape), g, ValueError)
    p = hk.transform(lambda: hk.Bias(b_init=hk.initializers.Constant(3.))(x)).init(None)
    if not np.all(np.asarray(p["bias"]["b"]) == 3):
      raise Violation("Bias ignores b_init")
    for dt in ("float16", "bfloat16"):
      o = hk.transform(lambda: hk.Bias()(jnp.asarray(x, dt))).init(None)["bias"]["b"]
      if o.dtype != jnp.dtype(dt):
        raise Violation("Bias on %s has dtype %s" % (dt, o.dtype))
  rec.trace()
  rec.outcome(("bias", rank))


def c_embed(case, rec):
  V = case["v"]
  S = hk.EmbedLookupStyle
  for d in (1, 2, 3):
    E = arr((V, d), 1)
    for sh in ((), (1,), (2,), (2, 2), (1, 3), (2, 1, 2)):
      n = int(np.prod(sh))
      idss = list(itertools.product(range(V), repeat=n)) if V ** n <= 16 else [tuple((i * a + b) % V for i in range(n)) for a, b in itertools.product(range(V), repeat=2)]
      for ids, default, override in itertools.product(idss, (None, S.ARRAY_INDEX, S.ONE_HOT, "array_index", "one_hot", "ONE_HOT"), (None, S.ARRAY_INDEX, S.ONE_HOT, "one_hot")):
        if override is not None and ids is not idss[-1]:
          continue
        if default is not None and ids not in (idss[-1], idss[len(idss) // 2]) and n > 1:
          continue
        i = np.array(ids, np.int32).reshape(sh)
        def f(i):
          kw = {} if default is None else {"lookup_style": default}
          m = hk.Embed(V, d, **kw)
          return m(i, override) if override is not None else m(i)
        t = hk.transform(f)
        what = "Embed(%d, %d, %r)(%r, %r)" % (V, d, default, i.tolist(), override)
        eq(rec, what, t.apply({"embed": {"embeddings": E}}, None, i), E[i], dtype="float32")
      p = t.init(KEY, i)
      if shapes_of(p) != {"embed": {"embeddings": (V, d)}}:
        raise Violation("Embed parameters %r" % shapes_of(p))
    for idt in ("int8", "uint8", "int32", "uint32", "int16"):
      for st in S:
        t = hk.transform(lambda i: hk.Embed(V, d)(i, st))
        eq(rec, "Embed(%d, %d) with %s ids by %s" % (V, d, idt, st), t.apply({"embed": {"embeddings": E}}, None, np.arange(V).astype(idt)), E)
        eq(rec, "Embed(%d, %d) with list ids by %s" % (V, d, st), t.apply({"embed": {"embeddings": E}}, None, list(range(V))), E)
    for bad in (1., np.ones((2,), np.float32), np.ones((2,), bool), jnp.ones((1, 2), jnp.bfloat16)):
      raises(rec, "Embed of ids %r" % (bad,), lambda: t.apply({"embed": {"embeddings": E}}, None, bad), ValueError)
  rec.trace()
  rec.outcome(("embed", V))


def c_embed_args(case, rec):
  for vs, ed, mat in itertools.product((None, 2, 3), (None, 2, 4), (None, (2, 4), (3, 2), (2, 2))):
    M = None if mat is None else arr(mat, 7)
    for conv in (np.asarray, jnp.asarray, lambda m: m.tolist()) if M is not None else (lambda m: None,):
      f = lambda: (lambda m: (m(np.array([1, 0])), m.embeddings, m.vocab_size, m.embed_dim))(hk.Embed(vs, ed, conv(M) if M is not None else None))
      ok = (mat is None and vs and ed) or (mat is not None and vs in (None, mat[0]) and ed in (None, mat[1]))
      what = "Embed(%r, %r, matrix of shape %r)" % (vs, ed, mat)
      if not ok:
        raises(rec, what, lambda: hk.transform(f).init(KEY), ValueError)
        continue
      p = hk.transform(f).init(KEY)
      o, e, v, d = hk.transform(f).apply(p, None)
      size = mat or (vs, ed)
      if tuple(e.shape) != size or (v, d) != size:
        raise Violation("%s has size %r and records %r" % (what, e.shape, (v, d)))
      if M is not None:
        eq(rec, what + ": initial embeddings", p["embed"]["embeddings"], M)
      eq(rec, what, o, f64(p["embed"]["embeddings"])[[1, 0]])
  for bad in ("onehot", "", "nothing"):
    if bad:
      raises(rec, "lookup style %r" % bad, lambda: hk.transform(lambda: hk.Embed(2, 2)(np.array([1]), bad)).init(KEY), AttributeError)
  w = hk.transform(lambda: hk.Embed(2, 3, w_init=hk.initializers.Constant(4.))(np.array([1]))).init(None)
  eq(rec, "Embed with w_init", w["embed"]["embeddings"], np.full((2, 3), 4.))
  # Gradients of the two styles agree: the number of uses of each row.
  for ids in itertools.product(range(3), repeat=3):
    for st in hk.EmbedLookupStyle:
      t = hk.transform(lambda i: hk.Embed(3, 2)(i, st))
      g = jax.grad(lambda e: t.apply({"embed": {"embeddings": e}}, None, np.array(ids)).sum())(arr((3, 2)))
      eq(rec, "gradient of Embed by %s at %r" % (st, ids), g, np.array([[ids.count(i)] * 2 for i in range(3)], float))
  rec.trace()
  rec.outcome("embed_args")


def factorisations(n, maxlen):
  """All shapes over divisors with product n, of length <= maxlen."""
  out = [()] if n == 1 else []
  if maxlen:
    for d in range(1, max(n, 1) + 1):
      if n % d == 0:
        out += [(d,) + r for r in factorisations(n // d, maxlen - 1)]
  return list(dict.fromkeys(out))


def c_reshape(case, rec):
  shape = tuple(case["shape"])
  x = arr(shape)
  def run(f):
    return hk.transform(f).apply({}, None)
  for pd in range(1, 6):
    kw = {} if pd == 1 else {"preserve_dims": pd}
    rest = shape[pd:]
    n = int(np.prod(rest))
    if len(shape) <= pd:
      for o in ((-1,), (2, 3), (1,), ()):
        eq(rec, "Reshape(%r, %d) of %r" % (o, pd, shape), run(lambda: hk.Reshape(o, **kw)(x)), x)
      eq(rec, "Flatten(%d) of %r" % (pd, shape), run(lambda: hk.Flatten(**kw)(x)), x)
      continue
    eq(rec, "Flatten(%d) of %r" % (pd, shape), run(lambda: hk.Flatten(**kw)(x)), x.reshape(shape[:pd] + (n,)))
    if not n:
      outs = [rest, (0,), (0, 2), (1, 0)]
      for o in outs:
        eq(rec, "Reshape(%r, %d) of %r" % (o, pd, shape), run(lambda: hk.Reshape(o, **kw)(x)), x.reshape(shape[:pd] + o))
      continue
    for o in factorisations(n, 3):
      exp = x.reshape(shape[:pd] + o)
      for i in range(-1, len(o)):
        spec = o if i < 0 else o[:i] + (-1,) + o[i + 1:]
        for typ in (tuple, list) if len(shape) < 4 else (list,):
          eq(rec, "Reshape(%r, %d) of %r" % (typ(spec), pd, shape), run(lambda: hk.Reshape(typ(spec), **kw)(x)), exp)
    for bad in ((n + 1,), (n, 2), (-1, n + 1), (2 * n, -1)) if 0 not in shape else ():
      raises(rec, "Reshape(%r, %d) of %r" % (bad, pd, shape), lambda: run(lambda: hk.Reshape(bad, **kw)(x)), TypeError, ValueError, ZeroDivisionError)
  for pd in (0, -1):
    raises(rec, "Reshape with preserve_dims=%d" % pd, lambda: run(lambda: hk.Reshape((-1,), preserve_dims=pd)(x)), ValueError)
    raises(rec, "Flatten with preserve_dims=%d" % pd, lambda: run(lambda: hk.Flatten(preserve_dims=pd)(x)), ValueError)
  for bad in ((-1, -1), [-1, 2, -1]):
    raises(rec, "Reshape(%r)" % (bad,), lambda: run(lambda: hk.Reshape(bad)(x)), ValueError)
  # One module for two inputs of different shape.
  if shape and 0 not in shape:
    def two():
      m = hk.Flatten()
      return m(x), m(np.ones((1,) + shape, np.float32)), m(x)
    a, b, c = run(two)
    if a.shape != c.shape or b.shape != (1, int(np.prod(shape))):
      raise Violation("one Flatten on two shapes: %r %r %r" % (a.shape, b.shape, c.shape))
  rec.trace()
  rec.outcome(("reshape", len(shape)))


def c_sequential(case, rec):
  LAYERS = {"lin2": (lambda: hk.Linear(2), 2), "lin3": (lambda: hk.Linear(3), 3), "relu": (lambda: jax.nn.relu, None), "neg": (lambda: (lambda x: -x - 1), None), "bias": (lambda: hk.Bias(), None), "seq": (lambda: hk.Sequential([hk.Linear(1), jnp.tanh]), 1)}
  x = arr((2, 3), 2)
  for n in range(0, 4):
    for names in itertools.product(LAYERS, repeat=n):
      for typ in (list, tuple, iter) if n < 3 else (list,):
        f = lambda x: hk.Sequential(typ([LAYERS[k][0]() for k in names]))(x)
        def g(x):
          out = x
          for l in [LAYERS[k][0]() for k in names]:
            out = l(out)
          return out
        tf, tg = hk.transform(f), hk.transform(g)
        pf, pg = tf.init(KEY, x), tg.init(KEY, x)
        if shapes_of(pf) != shapes_of(pg):
          raise Violation("Sequential of %r has parameters %r, the layers alone %r" % (names, shapes_of(pf), shapes_of(pg)))
        pf = {m: {k: arr(v.shape, i) for i, (k, v) in enumerate(b.items())} for m, b in pf.items()}
        eq(rec, "Sequential of %r given as %s" % (names, typ.__name__), tf.apply(pf, None, x), f64(tg.apply(pf, None, x)))
  # Extra arguments go to the first layer only, and calls do not consume the layers.
  log = []
  def first(x, *a, **k):
    log.append((a, tuple(sorted(k.items()))))
    return x + 1
  def later(x):
    log.append("later")
    return x * 2
  def f(x):
    s = hk.Sequential(iter([first, later, later]))
    a = s(x, 5, k=6)
    b = s(x)
    return a, b
  a, b = hk.transform(f).apply({}, None, 1.)
  if (a, b) != (8., 8.) or log != [((5,), (("k", 6),)), "later", "later", ((), ()), "later", "later"]:
    raise Violation("Sequential passes arguments as %r, results %r" % (log, (a, b)))
  rec.trace()
  rec.outcome("sequential")


def c_batch_apply(case, rec):
  """Against running the function on explicitly merged arrays and splitting, over argument trees."""
  lead = {1: (3,), 2: (2, 3), 3: (2, 1, 3)}
  for nd in (1, 2, 3):
    L = lead[nd]
    for tails in itertools.product([(), (2,), (2, 1)], repeat=2):
      a, b = arr(L + tails[0], 1), arr(L + tails[1], 2)
      small = [v for r in range(nd) for v in [arr((2,) * r, 3)]]
      N = int(np.prod(L))
      for s in small + [2, 1.5]:
        for form in range(6):
          seen = []
          def f(*args, **kwargs):
            seen.append(jax.tree_util.tree_map(np.shape, (args, kwargs)))
            leaves = [v for v in jax.tree_util.tree_leaves((args, kwargs)) if np.ndim(v) and v.shape[0] == N and np.ndim(v) == len(tails[0]) + 1]
            y = leaves[0] * 2 + 1
            return {"y": y, "z": [jnp.sum(y.reshape(N, -1), -1)], "n": None}
          ms = np.shape(s)
          am, bm = (N,) + tails[0], (N,) + tails[1]
          args, kwargs, want = [((a,), {}, ((am,), {})), ((a, b), {}, ((am, bm), {})), ((s, a), {}, ((ms, am), {})), ((), {"x": a, "q": {"s": s, "b": b}}, ((), {"x": am, "q": {"s": ms, "b": bm}})),
                                (([a, (b, None)],), {"s": s}, (([am, (bm, None)],), {"s": ms})), (({"s": s},), {"b": [a]}, (({"s": ms},), {"b": [am]}))][form]
          if tails[0] != tails[1] and form == 3 and "q" in kwargs:
            pass
          kw = {} if nd == 2 else {"num_dims": nd}
          out = hk.BatchApply(f, **kw)(*args, **kwargs)
          what = "BatchApply(num_dims=%d) form %d of %r, %r, %r" % (nd, form, L + tails[0], L + tails[1], ms)
          if seen != [want]:
            raise Violation("%s: the function sees shapes %r, expected %r" % (what, seen, want))
          base = [v for v in jax.tree_util.tree_leaves((args, kwargs)) if np.ndim(v) == len(tails[0]) + nd and np.ndim(v) >= nd and v.shape[:nd] == L][0]
          eq(rec, what, out["y"], base * 2. + 1, 1e-4)
          eq(rec, what + " (sum)", out["z"][0], (base * 2. + 1).reshape(L + (-1,)).sum(-1), 1e-4)
    for bad in ((), (1.,), (arr((2,) * (nd - 1)),)):
      raises(rec, "BatchApply(num_dims=%d) of %r" % (nd, [np.shape(v) for v in bad]), lambda: hk.BatchApply(lambda *a: a, nd)(*bad), ValueError)
  # As a wrapper of a module.
  x = arr((2, 3, 4))
  t = hk.transform(lambda x: hk.BatchApply(hk.Linear(2))(x))
  p = t.init(KEY, x)
  eq(rec, "BatchApply(Linear)", t.apply(p, None, x), f64(x) @ f64(p["linear"]["w"]) + f64(p["linear"]["b"]))
  for sh in ((0, 3, 2), (3, 0, 2), (2, 3, 0)):
    o = hk.BatchApply(lambda x: x + 1)(jnp.ones(sh))
    if o.shape != sh:
      raise Violation("BatchApply on the empty shape %r gives %r" % (sh, o.shape))
    rec.step()
  rec.trace()
  rec.outcome("batch_apply")


def c_expand_apply(case, rec):
  for axis, sh, sh2 in itertools.product((0, -1), ((), (2,), (2, 3), (1, 2)), ((), (3,), (1,))):
    a, b = arr(sh, 1), arr(sh2, 2)
    seen = []
    def f(x, y=None):
      seen.append(jax.tree_util.tree_map(np.shape, (x, y)))
      return {"x": x[0] * 2, "y": y}
    g = hk.expand_apply(f, axis) if axis else hk.expand_apply(f)
    out = g([a], y={"b": b})
    ex = lambda s: (1,) + s if axis == 0 else s + (1,)
    what = "expand_apply(axis=%d) of %r, %r" % (axis, sh, sh2)
    if seen != [([ex(sh)], {"b": ex(sh2)})]:
      raise Violation("%s: the function sees %r" % (what, seen))
    eq(rec, what, out["x"], a * 2.)
    eq(rec, what + " (second)", out["y"]["b"], b)
    if g.__name__ != "f":
      raise Violation("expand_apply changes the name to %r" % g.__name__)
  for axis in (1, -2, 2, None, "0"):
    raises(rec, "expand_apply(axis=%r)" % (axis,), lambda: hk.expand_apply(lambda x: x, axis), ValueError)
  rec.trace()
  rec.outcome("expand_apply")


def c_to_module(case, rec):
  def affine(x, k=1.):
    """Documentation."""
    w = hk.get_parameter("w", [], init=hk.initializers.Constant(3.))
    return x * w + k
  A = hk.to_module(affine)
  if A.__doc__ != "Documentation." or not issubclass(A, hk.Module):
    raise Violation("to_module gives %r with documentation %r" % (A, A.__doc__))
  # All sequences of up to three uses of: new default, new named, the last one again.
  for n in range(1, 4):
    for seq in itertools.product(("new", "named", "again", "other"), repeat=n):
      def f(x):
        cur, tot, names = None, 0., []
        for s in seq:
          if s == "new":
            cur = A()
          elif s == "named":
            cur = A(name="zed")
          elif s == "other":
            cur = hk.to_module(affine)("pos")
          elif cur is None:
            cur = A()
          tot = tot * 10 + cur(x, k=2.)
          names.append(cur.module_name)
        return tot, names
      exp, cnt, cur = [], {}, None
      for s in seq:
        if s != "again" or cur is None:
          base = {"named": "zed", "other": "pos"}.get(s, "affine")
          c = cnt.get(base, 0)
          cnt[base] = c + 1
          cur = base if not c else "%s_%d" % (base, c)
        exp.append(cur)
      names = []
      t = hk.transform(lambda x: (lambda r: (names.append(r[1]), r[0])[1])(f(x)))
      p = t.init(None, 2.)
      if names[-1] != exp or sorted(p) != sorted(set(exp)):
        raise Violation("to_module used as %r: names %r, parameters %r, expected %r" % (seq, names, list(p), exp))
      q = {m: {"w": jnp.asarray(float(i + 1))} for i, m in enumerate(sorted(p))}
      tot = 0.
      for e in exp:
        tot = tot * 10 + 2. * float(q[e]["w"]) + 2.
      eq(rec, "to_module used as %r" % (seq,), t.apply(q, None, 2.), tot)
  raises(rec, "to_module instance with an array for its name", lambda: hk.transform(lambda: A(jnp.ones(()))).init(None), TypeError)
  rec.trace()
  rec.outcome("to_module")


def c_dropout(case, rec):
  for rate, dt, sh in itertools.product((0., .1, .25, .5, .75, .9, .999), ("float32", "float16", "bfloat16"), ((), (1,), (7,), (3, 4), (2, 1, 3), (0,))):
    x = jnp.asarray(arr(sh, 1) + 3, dt)
    for k in (KEY, np.array([1, 2], np.uint32)):
      for jit in (False, True):
        fn = lambda k, x: hk.dropout(k, rate, x)
        if jit and (dt != "float32" or len(sh) > 1):
          continue
        o = (jax.jit(fn) if jit else fn)(k, x)
        what = "dropout(rate=%r) of %r %s" % (rate, sh, dt)
        if o.shape != x.shape or o.dtype != x.dtype:
          raise Violation("%s has shape %r and dtype %s" % (what, o.shape, o.dtype))
        g, e = f64(o), f64(x) / (1 - rate)
        if rate == 0:
          if not np.array_equal(g, f64(x)):
            raise Violation(what + " is not the identity")
        elif not np.all((g == 0) | (np.abs(g - e) <= {"float32": 1e-5, "float16": 4e-3, "bfloat16": 2e-2}[dt] * np.abs(e))):
          raise Violation("%s gives %r for %r" % (what, g.tolist(), f64(x).tolist()))
        rec.step()
        rec.state((what, tuple(k)))
  n = 1 << 16
  for rate in (.1, .3, .5, .8, .95):
    masks = [np.asarray(hk.dropout(k, rate, jnp.ones((n,)))) != 0 for k in (KEY, np.array([1, 2], np.uint32), KEY)]
    if not np.array_equal(masks[0], masks[2]) or np.array_equal(masks[0], masks[1]):
      raise Violation("dropout is not a function of its key")
    for m in masks:
      if abs(m.mean() - (1 - rate)) > 6 * (rate * (1 - rate) / n) ** .5:
        raise Violation("dropout(rate=%r) keeps %r of the elements" % (rate, m.mean()))
    g = jax.grad(lambda x: hk.dropout(KEY, rate, x).sum())(jnp.ones((n,)))
    if not np.allclose(np.asarray(g), masks[0] / (1 - rate), 1e-5):
      raise Violation("the gradient of dropout(rate=%r) is not its mask" % rate)
    # independent over positions: no two of the first 16 rows of a matrix have the same mask
    mm = np.asarray(hk.dropout(KEY, rate, jnp.ones((16, 256)))) != 0
    if len({r.tobytes() for r in mm}) < 16 or len({r.tobytes() for r in mm.T}) < (2 if rate > .9 else 16):
      raise Violation("dropout(rate=%r) repeats its mask over rows or columns" % rate)
    rec.step()
  for bad in (-.1, 1., 1.5, -1e-9, float("inf")):
    raises(rec, "dropout(rate=%r)" % bad, lambda: hk.dropout(KEY, bad, jnp.ones((2,))), ValueError)
  rec.trace()
  rec.outcome("dropout")


def c_one_hot(case, rec):
  for n, sh, dt in itertools.product((1, 2, 3), ((), (1,), (3,), (2, 2)), ("float32", "int32", "bool", "bfloat16", None)):
    k = int(np.prod(sh))
    for ids in itertools.product(range(-2, 5), repeat=k) if k < 3 else [tuple((a + i * b) % 7 - 2 for i in range(k)) for a, b in itertools.product(range(7), repeat=2)]:
      i = np.array(ids, np.int32).reshape(sh)
      exp = (i[..., None] == np.arange(n)).astype(float)
      o = hk.one_hot(i, n) if dt is None else hk.one_hot(i, n, dt)
      eq(rec, "one_hot(%r, %d, %r)" % (i.tolist(), n, dt), o, exp, dtype=dt or "float32")
  rec.trace()
  rec.outcome("one_hot")


def with_uniform(values, f):
  """Runs f with jax.random.uniform returning the given values along the samples; returns (result, whether it was called)."""
  real = jax.random.uniform
  calls = []
  def fake(key, shape=(), dtype=jnp.float32, minval=0., maxval=1., *a, **k):
    calls.append(tuple(shape))
    v = np.asarray(values, np.float32)
    n = int(np.prod(shape))
    if v.size == 1:
      r = np.full(shape, v)
    elif shape and shape[0] == v.size:
      r = np.broadcast_to(v.reshape((-1,) + (1,) * (len(shape) - 1)), shape)
    else:
      r = np.resize(v, n).reshape(shape)
    return jnp.asarray(r, dtype)
  jax.random.uniform = fake
  try:
    return f(), bool(calls)
  finally:
    jax.random.uniform = real


def c_mult(case, rec):
  """Every one of the 2^23 values of the uniform draw."""
  lg = jnp.asarray(np.array([float(v) for v in case["logits"]], np.float32), case["dt"])
  l = f64(lg)
  p = np.exp(l - l.max())
  p /= p.sum()
  n = 1 << 23
  vals = np.arange(n, dtype=np.float64) / n
  out, called = with_uniform(vals, lambda: np.asarray(hk.multinomial(jax.random.PRNGKey(1), lg, n)))
  what = "multinomial with logits %r (%s)" % (case["logits"], case["dt"])
  if out.shape != (n,) or not np.issubdtype(out.dtype, np.integer):
    raise Violation("%s gives shape %r and dtype %s" % (what, out.shape, out.dtype))
  cnt = np.bincount(out, minlength=len(l))
  if len(cnt) > len(l):
    raise Violation("%s gives category %d" % (what, out.max()))
  for i in range(len(l)):
    if not np.isfinite(l[i]) and cnt[i]:
      raise Violation("%s: category %d, of probability zero, is drawn for %d of %d values of the uniform draw, such as %r" % (what, i, cnt[i], n, float(vals[np.argmax(out == i)])))
    tol = {"float32": 2e-6, "float16": 3e-3, "bfloat16": 2e-2}[case["dt"]] if called else 1.
    if abs(cnt[i] / n - p[i]) > tol:
      raise Violation("%s: category %d has frequency %r over all draws, probability %r" % (what, i, cnt[i] / n, p[i]))
  rec.step(n if called else 1)
  rec.state(what)
  rec.count("uniform_draws", n if called else 0)
  # A single sample.
  for v in [0., 2. ** -23, .25, .5, .75, 1 - 2. ** -23] + [i / 16 for i in range(16)]:
    o, called1 = with_uniform(v, lambda: np.asarray(hk.multinomial(jax.random.PRNGKey(1), lg, 1)))
    if o.shape != (1,) or not 0 <= o[0] < len(l) or not np.isfinite(l[o[0]]):
      raise Violation("%s: one sample for draw %r is %r" % (what, v, o))
    near = out[max(0, int(v * n) - 64):int(v * n) + 65]
    if called and called1 and (near == near[0]).all() and o[0] != near[0]:
      raise Violation("%s: one sample for draw %r is %r, among many it is %r" % (what, v, o, near[0]))
    rec.step()
  rec.trace()
  rec.outcome((case["dt"], tuple(np.sign(cnt))))


def c_mult_batch(case, rec):
  ninf = -np.inf
  rows = [(0., 0., 0.), (ninf, 0., 1.), (2., ninf, 0.), (0., 1., ninf), (ninf, ninf, 0.)]
  vals = np.concatenate([np.arange(64) / 64., [1e-7, 1 - 2. ** -23]])
  for a, b in itertools.product(rows, repeat=2):
    lg = jnp.asarray([a, b], jnp.float32)
    single = [with_uniform(vals, lambda: np.asarray(hk.multinomial(KEY, jnp.asarray(r, jnp.float32), len(vals)))) for r in (a, b)]
    out, called = with_uniform(vals, lambda: np.asarray(hk.multinomial(KEY, lg, len(vals))))
    if out.shape != (2, len(vals)):
      raise Violation("multinomial of 2x3 logits gives shape %r" % (out.shape,))
    if called and not all(np.array_equal(out[i], single[i][0]) for i in range(2)):
      raise Violation("multinomial of rows %r, %r: rows are mixed: %r" % (a, b, out.tolist()))
    for i, r in enumerate((a, b)):
      if any(r[c] == ninf for c in out[i]):
        raise Violation("multinomial of rows %r, %r draws an impossible category" % (a, b))
    rec.step()
    # real draws: several keys and numbers of samples
    for n, k in itertools.product((0, 1, 2, 3, 50), (KEY, np.array([5, 6], np.uint32))):
      for m in (lg, lg[0], lg[:1]):
        o = np.asarray(hk.multinomial(k, m, n))
        if o.shape != m.shape[:-1] + (n,):
          raise Violation("multinomial of %r logits with %d samples gives shape %r" % (m.shape, n, o.shape))
        o2 = o.reshape(m.shape[0] if m.ndim == 2 else 1, n)
        if any(np.asarray(m).reshape(-1, 3)[i][c] == ninf for i in range(o2.shape[0]) for c in o2[i]):
          raise Violation("multinomial draws an impossible category")
        if not np.array_equal(o, np.asarray(hk.multinomial(k, m, n))):
          raise Violation("multinomial is not a function of its key")
        rec.step()
    rec.state((a, b))
  o = np.asarray(hk.multinomial(KEY, jnp.zeros((4, 5)), 200))
  if len({r.tobytes() for r in o}) < 4 or len({c.tobytes() for c in o.T}) < 50:
    raise Violation("multinomial repeats its draws over rows or samples")
  for bad in ((), (2, 2, 2), (1, 1, 1, 1)):
    raises(rec, "multinomial with logits of shape %r" % (bad,), lambda: hk.multinomial(KEY, jnp.ones(bad), 2), ValueError)
  rec.trace()
  rec.outcome("mult_batch")


def c_mlp(case, rec):
  sizes = case["sizes"]
  acts = {"relu": jax.nn.relu, "tanh": jnp.tanh, "neg": lambda x: -x}
  nacts = {"relu": lambda v: np.maximum(v, 0), "tanh": np.tanh, "neg": lambda v: -v}
  for isz, bias, af, act, inits in itertools.product((1, 2), (True, False), (None, True, False), (None, "tanh", "neg"), (False, True)):
    x = arr((3, isz), 2)
    kw = {"with_bias": bias}
    if af is not None:
      kw["activate_final"] = af
    if act:
      kw["activation"] = acts[act]
    if inits:
      kw["w_init"] = hk.initializers.Constant(.5)
      if bias:
        kw["b_init"] = hk.initializers.Constant(.25)
    t = hk.transform(lambda x: hk.nets.MLP(sizes, **kw)(x))
    p = t.init(KEY, x)
    ins = [isz] + sizes
    want = {"mlp/~/linear_%d" % i: dict([("w", (ins[i], o))] + ([("b", (o,))] if bias else [])) for i, o in enumerate(sizes)}
    what = "MLP(%r, %r) on %d inputs" % (sizes, {k: v for k, v in kw.items() if k[1:] != "_init"}, isz)
    if shapes_of(p) != want:
      raise Violation("%s has parameters %r, expected %r" % (what, shapes_of(p), want))
    if inits:
      for m in p:
        if not np.all(np.asarray(p[m]["w"]) == .5) or (bias and not np.all(np.asarray(p[m]["b"]) == .25)):
          raise Violation(what + " ignores its initializers")
    q = {m: {k: arr(v.shape, i * 3 + len(k) + (k == "b")) for k, v in b.items()} for i, (m, b) in enumerate(sorted(p.items()))}
    na = nacts[act or "relu"]
    def net(x, q, names, af):
      for i, m in enumerate(names):
        x = x @ f64(q[m]["w"]) + (f64(q[m]["b"]) if bias else 0)
        if i < len(names) - 1 or af:
          x = na(x)
      return x
    names = ["mlp/~/linear_%d" % i for i in range(len(sizes))]
    eq(rec, what, t.apply(q, None, x), net(x.astype(np.float64), q, names, bool(af)), 1e-4)
    # Dropout: with rate 0 nothing changes; layers are dropped only where they are activated.
    td = hk.transform(lambda x, r: hk.nets.MLP(sizes, **kw)(x, r, KEY))
    if not inits:
      eq(rec, what + " dropout 0", td.apply(q, None, x, 0.), net(x.astype(np.float64), q, names, bool(af)), 1e-4)
      if not sizes or (len(sizes) == 1 and not af):
        eq(rec, what + " dropout .5", td.apply(q, None, x, .5), net(x.astype(np.float64), q, names, bool(af)), 1e-4)
      drops = []
      # Each dropped layer uses a key of its own.
      real_b = jax.random.bernoulli
      def spy(key, *a, **k):
        drops.append(tuple(np.asarray(key).ravel().tolist()))
        return real_b(key, *a, **k)
      jax.random.bernoulli = spy
      try:
        td.apply(q, None, x, .5)
      finally:
        jax.random.bernoulli = real_b
      if drops and (len(set(drops)) != len(drops) or len(drops) != len(sizes) - (0 if af else 1)):
        raise Violation("%s with dropout uses keys %r for its layers" % (what, drops))
    raises(rec, what + " with dropout but no key", lambda: hk.transform(lambda x: hk.nets.MLP(sizes, **kw)(x, .5)).apply(q, None, x), ValueError)
    raises(rec, what + " with a key but no dropout", lambda: hk.transform(lambda x: hk.nets.MLP(sizes, **kw)(x, None, KEY)).apply(q, None, x), ValueError)
    # Reverse.
    if sizes and not inits:
      for raf, nm in itertools.product((None, True, False), (None, "back")):
        def f(x):
          m = hk.nets.MLP(sizes, **kw)
          y = m(x)
          kws = {} if nm is None else {"name": nm}
          r = m.reverse(raf, **kws) if raf is not None else m.reverse(**kws)
          return y, r(y), r.module_name
        holder = []
        tr = hk.transform(lambda x: (lambda r: (holder.append(r[2]), r[:2])[1])(f(x)))
        pr = tr.init(KEY, x)
        rn = holder[-1]
        if nm is not None and rn.split("/")[-1] != nm:
          raise Violation("%s reversed with name %r is named %r" % (what, nm, rn))
        rin = list(reversed(ins))
        rw = {"%s/~/linear_%d" % (rn, i): dict([("w", (rin[i], rin[i + 1]))] + ([("b", (rin[i + 1],))] if bias else [])) for i in range(len(sizes))}
        if shapes_of(pr) != dict(want, **rw):
          raise Violation("%s reversed has parameters %r, expected %r" % (what, shapes_of(pr), dict(want, **rw)))
        qr = {m: {k: arr(v.shape, i * 5 + len(k) + (k == "b")) for k, v in b.items()} for i, (m, b) in enumerate(sorted(pr.items()))}
        y = net(x.astype(np.float64), qr, names, bool(af))
        z = net(y, qr, ["%s/~/linear_%d" % (rn, i) for i in range(len(sizes))], bool(af) if raf is None else raf)
        oy, oz = tr.apply(qr, None, x)
        eq(rec, "%s reversed %r" % (what, (raf, nm)), oz, z, 1e-3)
        eq(rec, "%s before reversing %r" % (what, (raf, nm)), oy, y, 1e-3)
  raises(rec, "MLP with b_init but without bias", lambda: hk.transform(lambda: hk.nets.MLP(sizes, with_bias=False, b_init=jnp.ones)).init(None), ValueError)
  rec.trace()
  rec.outcome(("mlp", len(sizes)))


def mha_ref(p, q, k, v, mask, H, D, V):
  P = lambda n, x: x @ f64(p["multi_head_attention/" + n]["w"]) + f64(p["multi_head_attention/" + n]["b"])
  B, T = q.shape[:2]
  S = k.shape[1]
  Q, K, W = P("query", q).reshape(B, T, H, D), P("key", k).reshape(B, S, H, D), P("value", v).reshape(B, S, H, V)
  out = np.zeros((B, T, H, V))
  for b, t, h in itertools.product(range(B), range(T), range(H)):
    sc = np.array([Q[b, t, h] @ K[b, s, h] for s in range(S)]) / D ** .5
    on = np.ones(S, bool) if mask is None else np.broadcast_to(mask, (B, H, T, S))[b, h, t].astype(bool)
    if not on.any():
      out[b, t, h] = np.nan
      continue
    e = np.where(on, np.exp(sc - sc[on].max()), 0)
    out[b, t, h] = (e / e.sum()) @ W[b, :, h]
  return P("linear", out.reshape(B, T, H * V))


def mha_params(dq, dk, dv, H, D, V, M):
  return {"multi_head_attention/query": {"w": arr((dq, H * D), 1), "b": arr((H * D,), 2)}, "multi_head_attention/key": {"w": arr((dk, H * D), 3), "b": arr((H * D,), 4)},
          "multi_head_attention/value": {"w": arr((dv, H * V), 5), "b": arr((H * V,), 6)}, "multi_head_attention/linear": {"w": arr((H * V, M), 7), "b": arr((M,), 8)}}


def c_mha(case, rec):
  T, S = case["T"], case["S"]
  H, D = 2, 2
  q, k, v = arr((2, T, 3), 1), arr((2, S, 2), 2), arr((2, S, 2), 3)
  p = mha_params(3, 2, 2, H, D, D, H * D)
  t = hk.transform(lambda q, k, v, m: hk.MultiHeadAttention(H, D, 1.)(q, k, v, m))
  fn = jax.jit(lambda q, k, v, m: t.apply(p, None, q, k, v, m))
  for bits in range(case["lo"], case["hi"]):
    m2 = np.array([bits >> i & 1 for i in range(T * S)], bool).reshape(T, S)
    rows = m2.any(-1)
    for form in ("bool", "float", "batch", "head"):
      m = {"bool": m2[None, None], "float": m2[None, None].astype(np.float32), "batch": np.stack([m2, np.ones_like(m2)])[:, None], "head": np.stack([np.ones_like(m2), m2])[None]}[form]
      exp = mha_ref(p, *(f64(a) for a in (q, k, v)), m, H, D, D)
      ok = ~np.isnan(exp).any(-1)
      got = f64(fn(q, k, v, m))
      what = "attention with %s mask %r" % (form, m2.astype(int).tolist())
      if got.shape != exp.shape or not np.allclose(got[ok], exp[ok], 1e-4, 1e-4):
        raise Violation("%s gives %r, expected %r" % (what, got.tolist(), exp.tolist()))
      rec.step()
      rec.state((what, T, S))
      if form != "bool":
        continue
      # A position masked for a query does not influence it, whatever it holds.
      for s in range(S):
        for big in (1e3, -1e3):
          k2, v2 = k.copy(), v.copy()
          k2[:, s], v2[:, s] = big, -big
          g2 = f64(fn(q, k2, v2, m))
          quiet = [r for r in range(T) if rows[r] and not m2[r, s]]
          if not np.allclose(g2[:, quiet], got[:, quiet], 1e-5, 1e-5):
            raise Violation("%s: position %d influences the queries it is masked for" % (what, s))
          rec.step()
  rec.trace()
  rec.outcome(("mha", T, S))


def c_mha_cfg(case, rec):
  for H, D, V, M, B, T, S, dq in itertools.product((1, 2, 3), (1, 2), (None, 1, 3), (None, 3), (1, 2), (1, 2), (1, 3), (1, 2)):
    q, k, v = arr((B, T, dq), 1), arr((B, S, 2), 2), arr((B, S, 3), 3)
    p = mha_params(dq, 2, 3, H, D, V or D, M or H * D)
    kw = {}
    if V:
      kw["value_size"] = V
    if M:
      kw["model_size"] = M
    t = hk.transform(lambda *a: hk.MultiHeadAttention(H, D, 1., **kw)(*a))
    what = "MultiHeadAttention(%d, %d, %r) batch %d positions %d, %d input %d" % (H, D, kw, B, T, S, dq)
    eq(rec, what, t.apply(p, None, q, k, v), mha_ref(p, f64(q), f64(k), f64(v), None, H, D, V or D), 1e-4)
    if B == 1 and T == 1:
      if shapes_of(t.init(KEY, q, k, v)) != {m: {n: a.shape for n, a in b.items()} for m, b in p.items()}:
        raise Violation("%s has parameters %r" % (what, shapes_of(t.init(KEY, q, k, v))))
  rec.trace()
  rec.outcome("mha_cfg")
