"""Runs a DSL program traced on the library and directly on the model, and compares."""
import numpy as np
import jax
import haiku as hk
from mc import jx
from mc.core import Violation
from mc.prog import Interp, Model, Real, RefError, norm, val, flat_keys, I32

KEY = np.array([0, 7], np.uint32)


def keyf(n):
  return np.array([11, n], np.uint32)


def split_keys(params):
  """Separates the dump_* parameters kept by init."""
  p = {m: dict(b.items()) for m, b in params.items()}
  x = p.get("~", {}).pop("dump_x", None)
  ks = p.get("~", {}).pop("dump_keys", np.zeros((0, 2), np.uint32))
  return p, x, [tuple(map(int, k)) for k in np.asarray(ks).reshape(-1, 2) if np.any(k)]


def check_keys(what, keys, parents, wanted, exact, start):
  """Uniqueness of the keys and of the split parents; optionally exact equality."""
  if exact and keys != wanted:
    raise Violation("%s: keys handed out %r, expected %r" % (what, keys, wanted))
  if len(keys) != len(wanted):
    raise Violation("%s: %d keys handed out, %d were requested" % (what, len(keys), len(wanted)))
  if len(set(keys)) != len(keys):
    raise Violation("%s: a key was handed out twice: %r" % (what, keys))
  if len(set(parents)) != len(parents):
    raise Violation("%s: the same key was split twice: %r" % (what, parents))
  both = set(keys) & (set(parents) | {start})
  if both:
    raise Violation("%s: a key handed out is also split: %r" % (what, both))


def run(case, rec, exact_keys, eager=False, drop=None, rng=KEY, applies=2):
  """Traced run (or real execution if eager) of init and successive applies."""
  real, model = Real(hk, keyf), Model(jx.real_split, keyf)
  case = dict(case, dump=True)
  ri, mi = Interp(case, real), Interp(case, model)
  fw = hk.transform_with_state(ri.main)
  start = tuple(map(int, rng)) if rng is not None else None

  def execute(f, *args):
    if eager:
      out = f(*args)
      return jax.tree_util.tree_map(np.asarray, out), []
    out, ev = jx.trace_eval(f, *args)
    return out, ev.parents

  def att(f):
    try:
      return ("ok", f())
    except (RefError, ValueError, AssertionError) as e:
      return ("err", repr(e)[:300])

  m = att(lambda: model.init(mi.main, rng))
  r = att(lambda: execute(fw.init, rng))
  rec.step()
  if m[0] != r[0]:
    raise Violation("init: library %s (%s), reference %s (%s)" % (r[0], r[1] if r[0] == "err" else "", m[0], m[1] if m[0] == "err" else ""))
  if m[0] == "err":
    rec.outcome("rejected")
    rec.trace()
    return
  (rp, rs), parents = r[1]
  mp, ms, _ = m[1]
  rp, rx, rk = split_keys(rp)
  mp, mx, mk = split_keys(mp)
  if val(rx) != val(mx):
    raise Violation("init: value computed by the function is %r, expected %r" % (val(rx), val(mx)))
  mpn = norm(mp)
  check_keys("init", rk, parents, mk, exact_keys, start)
  if exact_keys:
    if norm(rp) != mpn:
      raise Violation("init: params %r, expected %r" % (norm(rp), mpn))
  else:
    strip = lambda t: {mm: {k: (v if v[0] != "uint32" else v[:2]) for k, v in b.items()} for mm, b in t.items()}
    if strip(norm(rp)) != strip(mpn):
      raise Violation("init: params %r, expected %r" % (norm(rp), mpn))
  if norm(rs) != norm(ms):
    raise Violation("init: state %r, expected %r" % (norm(rs), norm(ms)))
  rec.state((norm(rp), norm(rs)))
  params, state = rp, {m_: dict(b.items()) for m_, b in rs.items()}
  state["zz"] = {"untouched": np.int32(5), "vec": np.arange(2, dtype=np.int32)}
  params = {m_: {k: (np.asarray(v) * np.asarray(3, v.dtype) + np.asarray(1, v.dtype)) for k, v in b.items()} for m_, b in params.items()}
  for i in range(applies):
    m = att(lambda: model.apply(mi.main, params, {a: dict(b) for a, b in state.items()}, rng))
    r = att(lambda: execute(fw.apply, params, state, rng))
    rec.step()
    if m[0] != r[0]:
      raise Violation("apply: library %s (%s), reference %s (%s)" % (r[0], r[1] if r[0] == "err" else "", m[0], m[1] if m[0] == "err" else ""))
    if m[0] == "err":
      break
    ((rx, rkeys), rs), parents = r[1]
    (mx, mkeys), ms = m[1]
    if val(rx) != val(mx):
      raise Violation("apply %d: output %r, expected %r" % (i, val(rx), val(mx)))
    if norm(rs) != norm(ms):
      raise Violation("apply %d: state %r, expected %r" % (i, norm(rs), norm(ms)))
    check_keys("apply %d" % i, flat_keys(rkeys), parents, flat_keys(mkeys), exact_keys, start)
    rec.state((norm(params), norm(rs)))
    rec.outcome((val(rx), len(flat_keys(rkeys))))
    state = {a: dict(b.items()) for a, b in rs.items()}
  rec.trace()
