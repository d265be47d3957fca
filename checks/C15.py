"""Batch norm, spectral norm and vector quantisers: all histories of training/evaluation calls in the bound against the recurrences."""
import itertools, os, re
if "xla_force_host_platform_device_count" not in os.environ.get("XLA_FLAGS", ""):
  os.environ["XLA_FLAGS"] = "--xla_force_host_platform_device_count=4 " + os.environ.get("XLA_FLAGS", "")
import jax, jax.numpy as jnp, numpy as np
import haiku as hk
from mc.core import Violation

TECHNIQUE = "explicit-state exploration of the tree of all histories of training/evaluation/local-statistics calls on the real modules, against recurrences computed in double precision"
LEVEL = "model_checking"
BOUNDS = {"quick": "BatchNorm: 9 shapes of rank 1-4 x 4 data formats x up to 4 axis choices x scale {none, created, passed} x offset {same} in one run each; of these 70 configurations x 3 decays with all "
                   "histories of <=4 runs over 6 runs (2 training batches, evaluation, local statistics, training+evaluation in one run, training twice), cross-replica over vmap and pmap with 3 groupings; "
                   "SpectralNorm: 7 shapes x 1-3 steps x 2 eps, all histories of <=4 runs over {update A, update B, no update A, no update B}; tree version over 15 trees x 4 ignore patterns; "
                   "vector quantisers: 3 codebook sizes x 3 input ranks x 3 decays, all histories of <=4 runs over {train A, train B, eval A, eval B, train+eval}; gradients of every output at each leaf of depth 1",
          "thorough": "histories of <=6 runs"}
ASSUMPTIONS = ["agreement up to rounding (2e-4 relative, float32)", "inputs without ties between code vectors and with variance of order one"]
CHUNK = 1
TOL = 2e-4


def arr(shape, salt=0, lo=-1.5, hi=2.5):
  return np.random.RandomState(1000 * salt + sum((i + 1) * 31 * s for i, s in enumerate(shape))).uniform(lo, hi, shape).astype(np.float32)


def close(a, b, tol=TOL):
  a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
  return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def need(what, got, exp, tol=TOL):
  if not close(got, exp, tol):
    raise Violation("%s is %s, expected %s" % (what, np.asarray(got).tolist(), np.asarray(exp).tolist()))


def same_state(what, s, s2):
  flat = lambda t: {(m, k): np.asarray(v) for m, b in t.items() for k, v in b.items()}
  f, g = flat(s), flat(s2)
  if set(f) != set(g) or not all(np.array_equal(f[k], g[k]) for k in f):
    raise Violation("%s changed the state from %r to %r" % (what, s, s2))


class Ema:
  """Zero-debiased moving average."""

  def __init__(self, decay, shape, n=0, h=None, a=None):
    self.decay, self.n = float(np.float32(decay)), n
    self.h = np.zeros(shape) if h is None else h
    self.a = a

  def up(self, v):
    h = self.h * self.decay + v * (1 - self.decay)
    return Ema(self.decay, h.shape, self.n + 1, h, h / (1 - self.decay ** (self.n + 1)))


def cmp_ema(what, got, e):
  if e.a is None:
    return
  if int(got["counter"]) != e.n:
    raise Violation("%s: counter %r, expected %d" % (what, got["counter"], e.n))
  need(what + " hidden", got["hidden"], e.h)
  need(what + " average", got["average"], e.a)


# ---- batch norm -------------------------------------------------------------
EPS = 1e-2
SHAPES = [(3,), (4, 3), (1, 2), (2, 3, 4), (3, 1, 2), (2, 3, 2, 2), (2, 2, 2, 3), (3, 2, 1, 2), (2, 2, 2, 2)]
RUNS = {"TA": [("t", 0)], "TB": [("t", 1)], "E": [("e", 0)], "L": [("l", 1)], "TAE": [("t", 0), ("e", 1)], "TT": [("t", 1), ("t", 0)]}


def axis_choices(rank):
  out = [None]
  if rank >= 2:
    out.append([0])
  if rank >= 3:
    out += [[0, 2], list(range(rank))]
  return out


def bn_cases():
  for shape in SHAPES:
    fmts = ["channels_last", "N...C"] + (["channels_first", "NC..."] if len(shape) >= 2 else [])
    for fmt, axis, sc, of in itertools.product(fmts, axis_choices(len(shape)), ("none", "create", "pass"), ("none", "create", "pass")):
      yield shape, fmt, axis, sc, of


def bn_make(shape, fmt, axis, sc, of, decay, cross=None, groups=None, dtype=None):
  rank = len(shape)
  ch = rank - 1 if fmt in ("channels_last", "N...C") else 1
  ax = [i for i in range(rank) if i != ch] if axis is None else axis
  wshape = [1 if i in ax else shape[i] for i in range(rank)]
  pscale, poffset = arr(wshape, 7, 0.5, 2), arr(wshape, 8)
  kw = {}
  if sc == "create":
    kw["scale_init"] = lambda s, d: jnp.asarray(arr(s, 7, 0.5, 2), d)
  if of == "create":
    kw["offset_init"] = lambda s, d: jnp.asarray(arr(s, 8), d)
  def f(calls, xs):
    bn = hk.BatchNorm(sc == "create", of == "create", decay, eps=EPS, axis=axis, data_format=fmt, cross_replica_axis=cross, cross_replica_axis_index_groups=groups, **kw)
    outs = []
    for kind, i in calls:
      a = {}
      if sc == "pass":
        a["scale"] = pscale
      if of == "pass":
        a["offset"] = poffset
      outs.append(bn(xs[i], is_training=kind == "t", test_local_stats=kind == "l", **a))
    return outs
  return hk.transform_with_state(f), ax, (pscale if sc != "none" else 1.0), (poffset if of != "none" else 0.0), wshape


def bn_model(st, calls, xs, ax, scale, offset):
  outs = []
  for kind, i in calls:
    x = xs[i].astype(np.float64)
    if kind in "tl":
      mean = x.mean(axis=tuple(ax), keepdims=True)
      var = ((x - mean) ** 2).mean(axis=tuple(ax), keepdims=True)
    else:
      mean, var = st[0].a, st[1].a
    if kind == "t":
      st = (st[0].up(mean), st[1].up(var))
    outs.append((x - mean) / np.sqrt(var + EPS) * scale + offset)
  return outs, st


def bn_cmp(what, outs, state, mo, ms):
  for o, m in zip(outs, mo):
    need(what + " output", o, m)
  if ms[0].a is None:
    return
  if set(state) != {"batch_norm/~/mean_ema", "batch_norm/~/var_ema"}:
    raise Violation("%s: state of modules %r" % (what, sorted(state)))
  cmp_ema(what + " mean", state["batch_norm/~/mean_ema"], ms[0])
  cmp_ema(what + " variance", state["batch_norm/~/var_ema"], ms[1])


def bn_start(t, what, shape, sc, of, wshape, xs, decay):
  p, s = t.init(None, [("t", 0)], xs)
  exp = {k: tuple(wshape) for k, v in (("scale", sc), ("offset", of)) if v == "create"}
  got = {k: v.shape for b in p.values() for k, v in b.items()}
  if got != exp or not set(p) <= {"batch_norm"}:
    raise Violation("%s: parameters %r, expected %r" % (what, {m: {k: v.shape for k, v in b.items()} for m, b in p.items()}, exp))
  return p, s


def c_bn1(case, rec):
  """Every configuration: init, then a few single runs executed directly."""
  shape = tuple(case["shape"])
  for sh, fmt, axis, sc, of in bn_cases():
    if sh != shape or fmt != case["fmt"]:
      continue
    t, ax, scale, offset, wshape = bn_make(shape, fmt, axis, sc, of, 0.75)
    xs = [arr(shape, 1), arr(shape, 2)]
    what = "BatchNorm shape %r format %r axis %r scale %s offset %s" % (shape, fmt, axis, sc, of)
    p, s = bn_start(t, what, shape, sc, of, wshape, xs, 0.75)
    st = (Ema(0.75, None), Ema(0.75, None))
    # The state of init is that of before the first update where it existed before: re-read it.
    _, st = bn_model((Ema(0.75, (1,)), Ema(0.75, (1,))), [("t", 0)], xs, ax, scale, offset)
    for m, e in zip(("mean_ema", "var_ema"), st):
      b = s["batch_norm/~/" + m]
      if int(b["counter"]) != 0 or np.any(np.asarray(b["hidden"]) != 0):
        raise Violation("%s: initial state %r" % (what, b))
      need(what + " initial average", b["average"], e.a)
    z = np.zeros(st[0].h.shape)
    st = (Ema(0.75, None, 0, z, st[0].a), Ema(0.75, None, 0, z, st[1].a))
    for calls in ([("t", 1)], [("l", 1)], [("e", 1)], [("t", 1), ("e", 0)]):
      mo, ms = bn_model(st, calls, xs, ax, scale, offset)
      outs, s2 = t.apply(p, s, None, calls, xs)
      bn_cmp("%s run %r" % (what, calls), outs, s2, mo, ms)
      if all(k != "t" for k, _ in calls):
        same_state("%s run %r" % (what, calls), s, s2)
      rec.step()
      rec.state(("bn1", what, tuple(calls)))
  rec.trace()


def c_bn(case, rec):
  shape, fmt, axis, sc, of = case["cfg"]
  shape = tuple(shape)
  decay = case["decay"]
  t, ax, scale, offset, wshape = bn_make(shape, fmt, axis, sc, of, decay)
  xs = [arr(shape, 1), arr(shape, 2) * 3 + 1]
  what0 = "BatchNorm shape %r format %r axis %r scale %s offset %s decay %r" % (shape, fmt, axis, sc, of, decay)
  p, s = bn_start(t, what0, shape, sc, of, wshape, xs, decay)
  _, (m1, v1) = bn_model((Ema(decay, (1,)), Ema(decay, (1,))), [("t", 0)], xs, ax, scale, offset)
  z = np.zeros(m1.h.shape)
  st = (Ema(decay, None, 0, z, m1.a), Ema(decay, None, 0, z, v1.a))
  step = {k: jax.jit(lambda p, s, c=c: t.apply(p, s, None, c, xs)) for k, c in RUNS.items()}
  def dfs(s, st, hist):
    for k, calls in RUNS.items():
      if hist and k in ("E", "L") and hist[-1] in ("E", "L"):
        continue
      mo, ms = bn_model(st, calls, xs, ax, scale, offset)
      outs, s2 = step[k](p, s)
      what = "%s history %r" % (what0, hist + [k])
      bn_cmp(what, outs, s2, mo, ms)
      if k in ("E", "L"):
        same_state(what, s, s2)
      rec.step()
      rec.state((what0, tuple(hist), k))
      if len(hist) + 1 < case["depth"]:
        dfs(s2, ms, hist + [k])
  dfs(s, st, [])
  rec.trace()


def c_bncross(case, rec):
  """Statistics across replicas equal those of the concatenated batch of the group."""
  shape = (3, 2)
  n = 4
  for how, groups in [("vmap", None), ("pmap", None), ("pmap", [[0, 1], [2, 3]]), ("pmap", [[0, 3], [1, 2]]), ("pmap", [[0], [1], [2], [3]])]:
    if how == "pmap" and jax.local_device_count() < n:
      rec.count("pmap_unavailable")
      continue
    t, ax, scale, offset, wshape = bn_make(shape, "channels_last", None, "create", "create", 0.5, "i", groups)
    xs = [np.stack([arr(shape, 10 * j + r) * (r + 1) for r in range(n)]) for j in range(2)]
    mapper = (lambda f: jax.vmap(f, axis_name="i")) if how == "vmap" else (lambda f: jax.pmap(f, axis_name="i"))
    p, s = mapper(lambda x, y: t.init(None, [("t", 0)], [x, y]))(*xs)
    fs = {k: mapper(lambda p, s, x, y, k=k: t.apply(p, s, None, RUNS[k], [x, y])) for k in RUNS}
    gs = groups or [list(range(n))]
    gof = {r: g for g in gs for r in g}
    def model(sts, calls):
      outs = [[] for _ in range(n)]
      sts = list(sts)
      for kind, i in calls:
        new = list(sts)
        for r in range(n):
          x = xs[i][r].astype(np.float64)
          if kind in "tl":
            allx = np.concatenate([xs[i][q] for q in gof[r]]).astype(np.float64)
            mean, var = allx.mean(0, keepdims=True), allx.var(0, keepdims=True)
          else:
            mean, var = sts[r][0].a, sts[r][1].a
          if kind == "t":
            new[r] = (sts[r][0].up(mean), sts[r][1].up(var))
          outs[r].append((x - mean) / np.sqrt(var + EPS) * scale + offset)
        sts = new
      return outs, sts
    zero = [(Ema(.5, (1, 2)), Ema(.5, (1, 2)))] * n
    _, one = model(zero, [("t", 0)])
    st = [(Ema(.5, (1, 2), 0, None, a.a), Ema(.5, (1, 2), 0, None, b.a)) for a, b in one]
    def dfs(s, st, hist):
      for k in RUNS:
        mo, ms = model(st, RUNS[k])
        outs, s2 = fs[k](p, s, *xs)
        for r in range(n):
          bn_cmp("cross-replica %s groups %r history %r replica %d" % (how, groups, hist + [k], r), [o[r] for o in outs], jax.tree_util.tree_map(lambda v: v[r], s2), mo[r], ms[r])
        rec.step()
        rec.state(("bncross", how, repr(groups), tuple(hist), k))
        if len(hist) < 2:
          dfs(s2, ms, hist + [k])
    dfs(s, st, [])
  rec.trace()


def c_bnmisc(case, rec):
  x = arr((4, 3), 1)
  def rejected(what, f, *a):
    try:
      f(*a)
    except ValueError:
      rec.step()
      return
    raise Violation("BatchNorm: %s accepted" % what)
  run = lambda call=None, train=True, **kw: hk.transform_with_state(lambda: hk.BatchNorm(**{**dict(create_scale=False, create_offset=False, decay_rate=0.5), **kw})(x, train, **(call or {}))).init(None)
  rejected("scale_init without create_scale", lambda: run(scale_init=jnp.ones))
  rejected("offset_init without create_offset", lambda: run(offset_init=jnp.ones))
  rejected("index groups without axis name", lambda: run(cross_replica_axis_index_groups=[[0]]))
  rejected("scale passed and created", lambda: run({"scale": np.ones(3)}, create_scale=True))
  rejected("offset passed and created", lambda: run({"offset": np.ones(3)}, create_offset=True))
  rejected("data format", lambda: run(data_format="foo"))
  for dt in ("float16", "bfloat16", "float32"):
    t = hk.transform_with_state(lambda v, tr: hk.BatchNorm(True, True, 0.5)(v, tr))
    v = jnp.asarray(x, dt)
    p, s = t.init(None, v, True)
    for tr in (True, False, True, False):
      o, s = t.apply(p, s, None, v, tr)
      if o.dtype != v.dtype or any(w.dtype != v.dtype for w in jax.tree_util.tree_leaves(p)) or any(b["average"].dtype != v.dtype for b in s.values()):
        raise Violation("BatchNorm in %s: result %s, parameters %r" % (dt, o.dtype, p))
      rec.step()
  # Two instances: their statistics do not mix; the training flag may differ between them.
  def two(a, b, ta, tb):
    m, n = hk.BatchNorm(False, False, 0.5, eps=EPS), hk.BatchNorm(False, False, 0.9, eps=EPS)
    return m(a, ta), n(b, tb)
  t = hk.transform_with_state(two)
  a, b = arr((4, 3), 1), arr((5, 2), 2)
  p, s = t.init(None, a, b, True, True)
  for ta, tb in itertools.product((True, False), repeat=2):
    (oa, ob), s2 = t.apply(p, s, None, a, b, ta, tb)
    for nm, tr in (("batch_norm", ta), ("batch_norm_1", tb)):
      for e in ("mean_ema", "var_ema"):
        if int(s2["%s/~/%s" % (nm, e)]["counter"]) != int(tr):
          raise Violation("two batch norms, training %r: %s counter %r" % ((ta, tb), nm, s2["%s/~/%s" % (nm, e)]["counter"]))
    rec.step()
  rec.trace()


# ---- spectral norm ----------------------------------------------------------
SN_SHAPES = [(2, 3), (3, 2), (1, 1), (1, 3), (3, 1), (2, 2, 3), (2, 1, 2, 2)]


def l2(x, eps):
  return x / np.sqrt((x * x).sum() + eps)


def sn_step(u, x, n, eps):
  w = x.reshape(-1, x.shape[-1]).astype(np.float64)
  for _ in range(n):
    v = l2(u @ w.T, eps)
    u = l2(v @ w, eps)
  sigma = float((v @ w @ u.T)[0, 0])
  return x / sigma, u, v, sigma


def c_sn(case, rec):
  shape, n, eps = tuple(case["shape"]), case["n"], case["eps"]
  xs = [arr(shape, 3), arr(shape, 4) * 2]
  co = arr(shape, 5)
  t = hk.transform_with_state(lambda x, u: hk.SpectralNorm(eps=eps, n_steps=n)(x, update_stats=u))
  name = "spectral_norm"
  what0 = "SpectralNorm shape %r steps %d eps %r" % (shape, n, eps)
  for upd in (True, False):
    p, s = t.init(jax.random.PRNGKey(3), xs[0], upd)
    if p or set(s) != {name} or set(s[name]) != ({"u0", "sigma"} if upd else {"u0"}) or s[name]["u0"].shape != (1, shape[-1]):
      raise Violation("%s: after init(update_stats=%r) params %r state %r" % (what0, upd, p, s))
    if upd:
      need(what0 + " initial sigma", s[name]["sigma"], sn_step(np.asarray(s[name]["u0"], np.float64), xs[0], n, eps)[3])
  fs = {(i, u): jax.jit(lambda s, x, i=i, u=u: t.apply({}, s, None, x, u)) for i in (0, 1) for u in (True, False)}
  gs = {u: jax.jit(jax.grad(lambda x, s, u=u: (t.apply({}, s, None, x, u)[0] * co).sum())) for u in (True, False)}
  def dfs(s, mu, ms, hist):
    for (i, u), f in fs.items():
      y, u1, v1, sigma = sn_step(mu, xs[i], n, eps)
      out, s2 = f(s, xs[i])
      what = "%s history %r" % (what0, hist + [("AB"[i], u)])
      need(what + " output", out, y)
      if u:
        need(what + " u0", s2[name]["u0"], u1)
        need(what + " sigma", s2[name]["sigma"], sigma)
      else:
        same_state(what, s, s2)
      if len(hist) == 1:
        # The gradient treats the singular vectors as constants.
        w = xs[i].reshape(-1, shape[-1]).astype(np.float64)
        g = co.reshape(w.shape) / sigma - (co.reshape(w.shape) * w).sum() / sigma ** 2 * (v1.T @ u1)
        need(what + " gradient", gs[u](xs[i], s), g.reshape(shape), 1e-3)
      rec.step()
      rec.state((what0, tuple(hist), i, u))
      if len(hist) + 1 < case["depth"] and (u or len(hist) < 2):
        dfs(s2, u1 if u else mu, sigma, hist + [("AB"[i], u)])
  for upd in (True, False):
    _, s = t.init(jax.random.PRNGKey(3), xs[0], upd)
    if not upd:
      s = {name: dict(s[name])}
    dfs(s, np.asarray(s[name]["u0"], np.float64), None, [])
  rec.trace()


def c_snmisc(case, rec):
  run = lambda x, **kw: hk.transform_with_state(lambda: hk.SpectralNorm()(x, **kw)).init(jax.random.PRNGKey(0))
  for x, kw, bad in [(np.float32(3), {}, 1), (arr((3,)), {}, 1), (arr((2, 3)), {"error_on_non_matrix": True}, 0), (arr((2, 2, 3)), {"error_on_non_matrix": True}, 1),
                     (arr((2, 2, 3)), {}, 0), (arr((2, 2, 2, 2)), {"error_on_non_matrix": True}, 1), (arr((3,)), {"update_stats": False}, 1)]:
    try:
      run(x, **kw)
      ok = True
    except ValueError:
      ok = False
    if ok == bool(bad):
      raise Violation("SpectralNorm of shape %r with %r %s" % (np.shape(x), kw, "accepted" if ok else "rejected"))
    rec.step()
  # Properties u0 and sigma show the state; several calls in one run iterate on.
  def f(x, ups):
    sn = hk.SpectralNorm(n_steps=2)
    out = []
    for u in ups:
      out.append((sn(x, update_stats=u), sn.u0, sn.sigma))
    return out
  t = hk.transform_with_state(f)
  x = arr((3, 2), 3)
  for ups in itertools.product((True, False), repeat=3):
    _, s = t.init(jax.random.PRNGKey(1), x, [True])
    u, sg = np.asarray(s["spectral_norm"]["u0"], np.float64), float(s["spectral_norm"]["sigma"])
    out, s2 = t.apply(None, s, None, x, ups)
    for j, up in enumerate(ups):
      y, u1, _, sigma = sn_step(u, x, 2, 1e-4)
      if up:
        u, sg = u1, sigma
      need("SpectralNorm updates %r call %d" % (ups, j), out[j][0], y)
      need("SpectralNorm updates %r call %d u0" % (ups, j), out[j][1], u)
      need("SpectralNorm updates %r call %d sigma" % (ups, j), out[j][2], sg)
      rec.step()
  # Tree version.
  for mods in itertools.product(range(3), repeat=3):
    shape = {m: [["w"], ["w", "b"]][k - 1] for m, k in zip(("a", "a/b", "~"), mods) if k}
    if not shape or len(shape) == 3 and 2 not in mods:
      continue
    trees = [{m: {nm: arr((2, k + 2), 10 * i + k + 50 * j) for k, nm in enumerate(ns)} for i, (m, ns) in enumerate(shape.items())} for j in range(2)]
    paths = [(m, nm) for m, ns in shape.items() for nm in ns]
    for ign in ("", ".*b", "a/.*", "b"):
      keep = [q for q in paths if not (ign and re.match(ign, q[0] + "/" + q[1]))]
      t = hk.transform_with_state(lambda tree, u: hk.SNParamsTree(n_steps=2, ignore_regex=ign)(tree, update_stats=u))
      _, s = t.init(jax.random.PRNGKey(2), trees[0], True)
      names = {q: "sn_params_tree/" + (q[0] + "/" + q[1]).replace("/", "__").replace("~", "_tilde") for q in keep}
      if set(s) != set(names.values()):
        raise Violation("SNParamsTree %r ignoring %r: state of %r, expected %r" % (shape, ign, sorted(s), sorted(names.values())))
      us = {q: np.asarray(s[names[q]]["u0"], np.float64) for q in keep}
      for hist in itertools.product(((0, True), (1, True), (1, False)), repeat=2):
        st, cur = s, dict(us)
        for i, upd in hist:
          out, st2 = t.apply(None, st, None, trees[i], upd)
          for q in paths:
            x = trees[i][q[0]][q[1]]
            y = x
            if q in cur:
              y, u1, _, sigma = sn_step(cur[q], x, 2, 1e-4)
              if upd:
                cur[q] = u1
                need("SNParamsTree u0 of %r" % (q,), st2[names[q]]["u0"], u1)
                need("SNParamsTree sigma of %r" % (q,), st2[names[q]]["sigma"], sigma)
            need("SNParamsTree %r ignoring %r history %r at %r" % (shape, ign, hist, q), out[q[0]][q[1]], y)
          if not upd:
            same_state("SNParamsTree without update", st, st2)
          st = st2
          rec.step()
      rec.state(("sntree", repr(shape), ign))
  rec.trace()


# ---- vector quantisers ------------------------------------------------------
def vq_common(x, emb, cost):
  dim = emb.shape[0]
  flat = x.reshape(-1, dim).astype(np.float64)
  d = ((flat[:, :, None] - emb[None]) ** 2).sum(1)
  srt = np.sort(d, 1)
  if d.shape[1] > 1 and np.min(srt[:, 1] - srt[:, 0]) < 1e-4:
    return None
  idx = d.argmin(1)
  enc = np.eye(emb.shape[1])[idx]
  q = emb.T[idx].reshape(x.shape)
  probs = enc.mean(0)
  return dict(quantize=q, perplexity=np.exp(-(probs * np.log(probs + 1e-10)).sum()), encodings=enc, encoding_indices=idx.reshape(x.shape[:-1]), distances=d, mse=((q - x) ** 2).mean(), flat=flat)


def vq_cmp(what, out, m, loss):
  for k in ("quantize", "perplexity", "encodings", "encoding_indices", "distances"):
    need("%s %s" % (what, k), out[k], m[k], 1e-3)
  need(what + " loss", out["loss"], loss, 1e-3)


def c_vqema(case, rec):
  dim, K, ishape, decay, cost = case["dim"], case["K"], tuple(case["shape"]), case["decay"], 0.25
  eps = case["eps"]
  shape = ishape + (dim,)
  xs = [arr(shape, 21), arr(shape, 22) * 1.5]
  co = arr(shape, 23)
  nm = "vector_quantizer_ema"
  def f(calls):
    vq = hk.nets.VectorQuantizerEMA(dim, K, cost, decay, epsilon=eps)
    return [vq(xs[i], tr) for i, tr in calls]
  t = hk.transform_with_state(f)
  what0 = "VectorQuantizerEMA dim %d codes %d inputs %r decay %r" % (dim, K, shape, decay)
  p, s0 = t.init(jax.random.PRNGKey(5), [(0, True)])
  if p or set(s0) != {nm, nm + "/~/ema_cluster_size", nm + "/~/ema_dw"} or s0[nm]["embeddings"].shape != (dim, K):
    raise Violation("%s: init gives %r %r" % (what0, p, s0))
  s0 = hk.data_structures.to_mutable_dict(s0)
  s0[nm]["embeddings"] = jnp.asarray(arr((dim, K), 24))
  runs = {"TA": [(0, True)], "TB": [(1, True)], "EA": [(0, False)], "EB": [(1, False)], "TAEB": [(0, True), (1, False)]}
  fs = {k: jax.jit(lambda s, c=c: t.apply({}, s, None, c)) for k, c in runs.items()}
  def model(st, calls):
    emb, cs, dw = st
    outs = []
    for i, tr in calls:
      m = vq_common(xs[i], emb, cost)
      if m is None:
        return None, None
      if tr:
        cs = cs.up(m["encodings"].sum(0))
        dw = dw.up(m["flat"].T @ m["encodings"])
        n = cs.a.sum()
        size = (cs.a + eps) / (n + K * eps) * n
        emb = dw.a / size[None]
      outs.append((m, cost * m["mse"]))
    return outs, (emb, cs, dw)
  def dfs(s, st, hist):
    for k, f in fs.items():
      mo, ms = model(st, runs[k])
      if mo is None:
        rec.count("ties_skipped")
        continue
      outs, s2 = f(s)
      what = "%s history %r" % (what0, hist + [k])
      for o, (m, loss) in zip(outs, mo):
        vq_cmp(what, o, m, loss)
      if "T" in k:
        cmp_ema(what + " cluster size", s2[nm + "/~/ema_cluster_size"], ms[1])
        cmp_ema(what + " dw", s2[nm + "/~/ema_dw"], ms[2])
        need(what + " codebook", s2[nm]["embeddings"], ms[0], 1e-3)
      else:
        same_state(what, s, s2)
      rec.step()
      rec.state((what0, tuple(hist), k))
      if len(hist) + 1 < case["depth"] and "T" in k:
        dfs(s2, ms, hist + [k])
  z = lambda sh: Ema(decay, sh, 0, np.zeros(sh), np.zeros(sh))
  dfs(s0, (np.asarray(s0[nm]["embeddings"], np.float64), z((K,)), z((dim, K))), [])
  # Straight-through gradient; the loss pulls the inputs towards their codes only.
  for tr in (True, False):
    def g(x, st):
      out = hk.transform_with_state(lambda: hk.nets.VectorQuantizerEMA(dim, K, cost, decay, epsilon=eps)(x, tr)).apply({}, st, None)[0]
      return (out["quantize"] * co).sum() + 3 * out["loss"]
    m = vq_common(xs[0], np.asarray(s0[nm]["embeddings"], np.float64), cost)
    if m is not None:
      need(what0 + " gradient", jax.grad(g)(xs[0], s0), co + 3 * cost * 2 * (xs[0] - m["quantize"]) / xs[0].size, 1e-3)
      rec.step()
  rec.trace()


def c_vq(case, rec):
  for dim, K, ishape in itertools.product((1, 2, 3), (1, 2, 4), ((), (3,), (2, 2), (1, 2, 2))):
    shape = ishape + (dim,)
    cost = 0.25
    t = hk.transform(lambda x, tr: hk.nets.VectorQuantizer(dim, K, cost)(x, tr))
    x, co = arr(shape, 31), arr(shape, 32)
    p = t.init(jax.random.PRNGKey(1), x, True)
    if set(p) != {"vector_quantizer"} or {k: v.shape for k, v in p["vector_quantizer"].items()} != {"embeddings": (dim, K)}:
      raise Violation("VectorQuantizer parameters %r" % p)
    emb = arr((dim, K), 33)
    m = vq_common(x, emb.astype(np.float64), cost)
    if m is None:
      rec.count("ties_skipped")
      continue
    what = "VectorQuantizer dim %d codes %d input %r" % (dim, K, shape)
    for tr in (True, False):
      ap = lambda x, e: t.apply({"vector_quantizer": {"embeddings": e}}, None, x, tr)
      vq_cmp(what, ap(x, emb), m, (1 + cost) * m["mse"])
      def g(x, e):
        out = ap(x, e)
        return (out["quantize"] * co).sum() + 3 * out["loss"]
      gx, ge = jax.grad(g, (0, 1))(x, jnp.asarray(emb))
      need(what + " gradient wrt inputs", gx, co + 3 * cost * 2 * (x - m["quantize"]) / x.size, 1e-3)
      d = (3 * 2 * (m["quantize"] - x) / x.size).reshape(-1, dim)
      need(what + " gradient wrt codes", ge, d.T @ m["encodings"], 1e-3)
      rec.step()
    rec.state(what)
  for d in (-0.1, 1.1):
    try:
      hk.transform_with_state(lambda: hk.nets.VectorQuantizerEMA(2, 2, .25, d)(np.ones((1, 2)), True)).init(jax.random.PRNGKey(0))
    except ValueError:
      rec.step()
      continue
    raise Violation("VectorQuantizerEMA accepts decay %r" % d)
  # Across replicas the cluster statistics and the perplexity are those of all replicas together.
  xs = np.stack([arr((3, 2), 40 + r) for r in range(2)])
  for tr in (True, False):
    t = hk.transform_with_state(lambda x: hk.nets.VectorQuantizerEMA(2, 3, .25, 0.5, cross_replica_axis="i")(x, tr))
    u = hk.transform_with_state(lambda x: hk.nets.VectorQuantizerEMA(2, 3, .25, 0.5)(x, tr))
    _, s = u.init(jax.random.PRNGKey(0), xs.reshape(6, 2))
    o1, s1 = u.apply(None, s, None, xs.reshape(6, 2))
    o2, s2 = jax.vmap(lambda x: t.apply(None, s, None, x), axis_name="i")(xs)
    need("cross-replica quantised", o2["quantize"].reshape(6, 2), o1["quantize"])
    for r in range(2):
      need("cross-replica perplexity", o2["perplexity"][r], o1["perplexity"])
      for m in s1:
        for k in s1[m]:
          need("cross-replica state %s %s" % (m, k), s2[m][k][r] if np.ndim(s2[m][k]) > np.ndim(s1[m][k]) else s2[m][k], s1[m][k])
    rec.step()
  rec.trace()


def cases(tier):
  q = tier == "quick"
  depth = 4 if q else 6
  out = [{"t": "bnmisc"}, {"t": "snmisc"}, {"t": "vq"}, {"t": "bncross"}]
  for shape in SHAPES:
    for fmt in ["channels_last", "N...C"] + (["channels_first", "NC..."] if len(shape) >= 2 else []):
      out.append({"t": "bn1", "shape": shape, "fmt": fmt})
  k = 0
  for cfg in bn_cases():
    shape, fmt, axis, sc, of = cfg
    if fmt in ("N...C", "NC...") or len(shape) == 1 or (sc, of) not in (("none", "none"), ("create", "create"), ("pass", "create")):
      continue
    k += 1
    if q and (sc, of) != (("none", "none"), ("create", "create"), ("pass", "create"))[k % 3]:
      # Scale and offset choices rotate over the shapes in the quick tier; bn1 has them all.
      continue
    for decay in ((0.0, 0.5, 0.9) if not q else ((0.5, 0.9) if axis is None else (0.9,))):
      out.append({"t": "bn", "cfg": cfg, "decay": decay, "depth": depth})
  for shape in SN_SHAPES:
    for n in (1, 2, 3):
      for eps in (1e-4, 1e-1):
        out.append({"t": "sn", "shape": shape, "n": n, "eps": eps, "depth": depth})
  for (dim, K), ishape, decay in itertools.product(((1, 3), (2, 2), (2, 4)), ((5,), (2, 3), (2, 2, 2)), (0.0, 0.5, 0.99)):
    out.append({"t": "vqema", "dim": dim, "K": K, "shape": ishape, "decay": decay, "eps": 1e-5 if ishape != (2, 3) else 1e-2, "depth": depth})
  return out


def run_case(case, rec):
  globals()["c_" + case["t"]](case, rec)
