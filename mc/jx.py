"""Traces with the real JAX tracer and evaluates the jaxpr with numpy.

Exploring thousands of control-flow programs through XLA compilation is too
slow (~100 ms each); tracing is what exercises the library, so the traced
program is then evaluated by this small interpreter. It also sees the parent
key of every split at run time, including inside loop bodies. Its agreement
with XLA is itself checked (the `xla` cases of C07 and C08).
"""
import numpy as np
import jax
from jax import core as jcore

np.seterr(all="ignore")
_split_cache = {}


def real_split(key, n):
  """jax.random.split on numpy keys, memoised."""
  k = np.asarray(key, np.uint32)
  c = (k.tobytes(), n)
  r = _split_cache.get(c)
  if r is None:
    r = np.asarray(jax.random.split(jax.numpy.asarray(k), n))
    if len(_split_cache) < 200000:
      _split_cache[c] = r
  return r


def real_split_raw(k, n, fn):
  """As real_split, using the given (unpatched) split function."""
  c = (k.tobytes(), n)
  r = _split_cache.get(c)
  if r is None:
    r = _split_cache[c] = np.asarray(fn(jax.numpy.asarray(k), n))
  return r


class Eval:
  def __init__(self):
    self.parents = []      # keys that were split
    self.bits = []         # keys that were used to draw bits

  def closed(self, cj, args):
    return self.jaxpr(cj.jaxpr, cj.consts, args)

  def jaxpr(self, jaxpr, consts, args):
    env = {}

    def read(v):
      return np.asarray(v.val) if type(v) is jcore.Literal else env[v]

    for v, c in zip(jaxpr.constvars, consts):
      env[v] = c if isinstance(c, Key) else np.asarray(c)
    assert len(jaxpr.invars) == len(args)
    for v, a in zip(jaxpr.invars, args):
      env[v] = a if isinstance(a, Key) else np.asarray(a)
    for e in jaxpr.eqns:
      ins = [read(v) for v in e.invars]
      outs = self.eqn(e, ins)
      if not e.primitive.multiple_results:
        outs = [outs]
      for v, o in zip(e.outvars, outs):
        env[v] = o
    return [read(v) for v in jaxpr.outvars]

  def eqn(self, e, ins):
    n, p = e.primitive.name, e.params
    f = getattr(self, "p_" + n, None)
    if f is not None:
      return f(p, ins, e)
    if any(isinstance(i, Key) for i in ins):
      return self.on_keys(n, e, ins)
    r = e.primitive.bind(*ins, **p)
    return [np.asarray(x) for x in r] if e.primitive.multiple_results else np.asarray(r)

  def on_keys(self, n, e, ins):
    # Structural operations on key arrays act on the raw words with one more axis.
    d = ins[0].data
    if n == "slice":
      st = e.params["strides"] or (1,) * len(e.params["start_indices"])
      ix = tuple(slice(a, b, c) for a, b, c in zip(e.params["start_indices"], e.params["limit_indices"], st))
      return Key(d[ix])
    if n == "squeeze":
      return Key(np.squeeze(d, tuple(e.params["dimensions"])))
    raise NotImplementedError("key primitive %s" % n)

  # rng
  def p_random_wrap(self, p, ins, e):
    return Key(ins[0])

  def p_random_unwrap(self, p, ins, e):
    return ins[0].data

  def p_random_split(self, p, ins, e):
    d = ins[0].data
    n = int(np.prod(p["shape"])) if "shape" in p else int(p["count"])
    if d.ndim == 1:
      self.parents.append(tuple(int(i) for i in d))
      return Key(real_split(d, n))
    flat = d.reshape(-1, 2)
    for k in flat:
      self.parents.append(tuple(int(i) for i in k))
    out = np.stack([real_split(k, n) for k in flat]).reshape(d.shape[:-1] + (n, 2))
    return Key(out)

  def p_random_bits(self, p, ins, e):
    d = ins[0].data
    for k in d.reshape(-1, 2):
      self.bits.append(tuple(int(i) for i in k))
    flat = d.reshape(-1, 2)
    dt = {8: np.uint8, 16: np.uint16, 32: np.uint32}[p["bit_width"]]
    out = [np.asarray(jax.random.bits(jax.numpy.asarray(k), p["shape"], dt)) for k in flat]
    return np.stack(out).reshape(d.shape[:-1] + tuple(p["shape"]))

  # higher order
  def p_pjit(self, p, ins, e):
    return self.closed(p["jaxpr"], ins)

  def p_closed_call(self, p, ins, e):
    return self.closed(p["call_jaxpr"], ins)

  def p_core_call(self, p, ins, e):
    return self.jaxpr(p["call_jaxpr"], (), ins)

  def p_checkpoint(self, p, ins, e):
    return self.jaxpr(p["jaxpr"], (), ins)

  def p_custom_jvp_call(self, p, ins, e):
    return self.closed(p["call_jaxpr"], ins)

  def p_cond(self, p, ins, e):
    i = int(np.clip(int(ins[0]), 0, len(p["branches"]) - 1))
    return self.closed(p["branches"][i], ins[1:])

  def p_while(self, p, ins, e):
    nc, nb = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, st = ins[:nc], ins[nc:nc + nb], ins[nc + nb:]
    n = 0
    while bool(self.closed(p["cond_jaxpr"], cc + st)[0]):
      st = self.closed(p["body_jaxpr"], bc + st)
      n += 1
      if n > 10000:
        raise RuntimeError("while loop does not terminate")
    return st

  def p_scan(self, p, ins, e):
    nc, ncar = p["num_consts"], p["num_carry"]
    consts, carry, xs = ins[:nc], ins[nc:nc + ncar], ins[nc + ncar:]
    L = p["length"]
    outs = [None] * L
    for i in (reversed(range(L)) if p["reverse"] else range(L)):
      r = self.closed(p["jaxpr"], consts + carry + [x[i] for x in xs])
      carry = r[:ncar]
      outs[i] = r[ncar:]
    ys = []
    for j, v in enumerate(e.outvars[ncar:]):
      if L:
        ys.append(np.stack([np.asarray(o[j]) for o in outs]))
      else:
        ys.append(np.zeros(v.aval.shape, v.aval.dtype))
    return carry + ys

  # common primitives in numpy (the rest is bound eagerly)
  def p_add(self, p, i, e): return np.add(i[0], i[1])
  def p_sub(self, p, i, e): return np.subtract(i[0], i[1])
  def p_mul(self, p, i, e): return np.multiply(i[0], i[1])
  def p_neg(self, p, i, e): return np.negative(i[0])
  def p_lt(self, p, i, e): return np.less(i[0], i[1])
  def p_le(self, p, i, e): return np.less_equal(i[0], i[1])
  def p_gt(self, p, i, e): return np.greater(i[0], i[1])
  def p_ge(self, p, i, e): return np.greater_equal(i[0], i[1])
  def p_eq(self, p, i, e): return np.equal(i[0], i[1])
  def p_ne(self, p, i, e): return np.not_equal(i[0], i[1])
  def p_max(self, p, i, e): return np.maximum(i[0], i[1])
  def p_min(self, p, i, e): return np.minimum(i[0], i[1])
  def p_convert_element_type(self, p, i, e): return np.asarray(i[0]).astype(p["new_dtype"])
  def p_squeeze(self, p, i, e):
    if isinstance(i[0], Key): return self.on_keys("squeeze", e, i)
    return np.squeeze(i[0], tuple(p["dimensions"]))
  def p_reshape(self, p, i, e): return np.reshape(i[0], p["new_sizes"])
  def p_slice(self, p, i, e):
    if isinstance(i[0], Key): return self.on_keys("slice", e, i)
    st = p["strides"] or (1,) * len(p["start_indices"])
    return i[0][tuple(slice(a, b, c) for a, b, c in zip(p["start_indices"], p["limit_indices"], st))]
  def p_concatenate(self, p, i, e): return np.concatenate(i, p["dimension"])
  def p_broadcast_in_dim(self, p, i, e):
    shape, bd = p["shape"], p["broadcast_dimensions"]
    x = np.asarray(i[0])
    r = np.ones(len(shape), int)
    for k, d in enumerate(bd): r[d] = x.shape[k]
    return np.broadcast_to(x.reshape(tuple(r)), shape)
  def p_select_n(self, p, i, e):
    return np.where(i[0], i[2], i[1]) if i[0].dtype == bool else e.primitive.bind(*i, **p)
  def p_reduce_sum(self, p, i, e): return np.sum(i[0], axis=tuple(p["axes"]), dtype=i[0].dtype)
  def p_stop_gradient(self, p, i, e): return i[0]
  def p_copy(self, p, i, e): return i[0]


class Key:
  """A new-style key array during evaluation: raw words in the last axis."""
  def __init__(self, data):
    self.data = np.asarray(data)


def trace_eval(f, *args):
  """Returns (result of f(*args) evaluated after tracing, Eval)."""
  cj, shape = jax.make_jaxpr(f, return_shape=True)(*args)
  ev = Eval()
  flat = [np.asarray(a) for a in jax.tree_util.tree_leaves(args)]
  outs = ev.closed(cj, flat)
  tree = jax.tree_util.tree_structure(shape)
  return jax.tree_util.tree_unflatten(tree, outs), ev
