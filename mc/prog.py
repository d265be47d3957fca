"""Programs over the library's API, run on the real library and on the model.

A program is {"classes": {name: {method: block}}, "main": block}; a block is a
list of statements (lists). The same statement interpreter drives two back
ends: Real (haiku) and Model (mc.ref). It threads an int32 accumulator x
through all statements (x := 31 x + v for every value v obtained), so that a
wrong value anywhere changes the output, and records the random keys drawn.
"""
import contextlib, functools
import numpy as np
from mc import ref
from mc.ref import Ref, RefError, camel

np.seterr(all="ignore")
I32 = np.int32


class UserError(Exception):
  pass


class UserBase(BaseException):
  pass


FAULTS = {"E": UserError, "B": UserBase, "S": StopIteration}


def const(v):
  """An initializer with a fixed value, that checks what it is called with."""
  def init(shape, dtype):
    if np.dtype(dtype) != np.int32:
      raise TypeError("initializer called with dtype %r" % (dtype,))
    return np.full(tuple(shape), v, np.int32)
  return init


def tosum(v):
  return v if np.ndim(v) == 0 else v.sum()


class Interp:
  def __init__(self, prog, B, x0=1):
    self.prog, self.B = prog, B
    self.x0 = x0

  def main(self, *args, **kwargs):
    self.slots, self.keys, self.names, self.log = {}, [], [], []
    self.injected = None
    x = I32(self.x0)
    for a in args + tuple(kwargs[k] for k in sorted(kwargs)):
      x = self.fold(x, a)
    x = self.block(self.prog["main"], x, None)
    if self.prog.get("dump") and self.B.running_init():
      # init discards outputs: keep the accumulator and the keys as parameters.
      self.B.get_parameter("dump_x", (), np.int32, lambda *_: x + I32(0))
      ks = [k.reshape((-1, 2)) for k in _leaves(self.keys)]
      if ks:
        xp = np if all(isinstance(k, np.ndarray) for k in ks) else __import__("jax").numpy
        ks = xp.concatenate(ks)
        self.B.get_parameter("dump_keys", ks.shape, np.uint32, lambda *_: ks)
    return x, list(self.keys)

  armed = True

  def fault(self, kind):
    if self.armed:
      self.injected = FAULTS[kind]()
      raise self.injected

  def fold(self, x, v):
    return x * I32(31) + tosum(v).astype(np.int32)

  def block(self, blk, x, me):
    for s in blk:
      x = self.stmt(s, x, me)
    return x

  def slotd(self, name, me):
    if name[0] == "^" or me is None:
      return self.slots, name.lstrip("^")
    return me.slots, name

  def stmt(self, s, x, me):
    B, op = self.B, s[0]
    if op == "P":                      # parameter: name, initial value, [shape]
      return self.fold(x, B.get_parameter(s[1], tuple(s[3]) if len(s) > 3 else (), np.int32, const(s[2])))
    if op == "PX":                     # parameter initialised from the accumulator
      return self.fold(x, B.get_parameter(s[1], (), np.int32, lambda shape, dtype: x * I32(7)))
    if op == "G":                      # state with initializer
      return self.fold(x, B.get_state(s[1], tuple(s[3]) if len(s) > 3 else (), np.int32, const(s[2])))
    if op == "g":                      # state without initializer
      return self.fold(x, B.get_state(s[1]))
    if op == "S":                      # write accumulator to state
      B.set_state(s[1], x)
      return x
    if op == "SC":                     # write a constant to state
      B.set_state(s[1], np.full((), s[2], np.int32))
      return x
    if op == "I":                      # counter
      c = B.get_state(s[1], (), np.int32, const(s[2] if len(s) > 2 else 0))
      B.set_state(s[1], c + I32(1))
      return self.fold(x, c)
    if op == "R":                      # running_init
      return self.fold(x, I32(bool(B.running_init())))
    if op == "RI":                     # block only while initialising
      return self.block(s[1], x, me) if B.running_init() else x
    if op == "RA":                     # block only in apply
      return x if B.running_init() else self.block(s[1], x, me)
    if op == "X":                      # fault: raise, if armed
      self.fault(s[1] if len(s) > 1 else "E")
      return x
    if op == "BL":                     # plain block
      return self.block(s[1], x, me)
    if op == "PR":                     # initializer that raises
      return self.fold(x, B.get_parameter(s[1], (), np.int32, lambda sh, dt: (self.fault("E"), const(4)(sh, dt))[1]))
    if op == "GR":
      return self.fold(x, B.get_state(s[1], (), np.int32, lambda sh, dt: (self.fault("E"), const(4)(sh, dt))[1]))
    if op == "LE":                     # an operation the library rejects
      if self.armed:
        if s[1] == "shape":
          B.get_parameter("p", (3,), np.int32, const(1))
          B.get_parameter("p", (4,), np.int32, const(1))
        elif s[1] == "nostate":
          B.get_state("nothing")
        elif s[1] == "badname":
          B.construct(self, "Probe", "not-valid", x)
        elif s[1] == "dupname":
          B.construct(self, "Probe", "dup_1", x)
          B.construct(self, "Probe", "dup_1", x)
      return x
    if op == "TR":                     # a whole transform inside: init then apply
      g = self.sub(s[1], None)
      saved = self.slots
      self.slots = {}
      try:
        return B.nested(lambda: g(x)[0])
      finally:
        self.slots = saved
    if op == "CRX":
      def creator(nxt, *a):
        self.fault("E")
        return nxt(*a[:-1])
      with B.custom_creator(creator, params=True, state=True):
        return self.block(s[1], x, me)
    if op == "GTX":
      with B.custom_getter(lambda nxt, v, context: (self.fault("E"), nxt(v))[1], params=True, state=True):
        return self.block(s[1], x, me)
    if op == "ITX":
      def interceptor(nxt, args, kwargs, context):
        if context.method_name == "__init__":
          return nxt(*args, **kwargs)
        if s[1] == "pre":
          self.fault("E")
        out = nxt(*args, **kwargs)
        self.fault("E")
        return out
      with B.intercept_methods(interceptor):
        return self.block(s[2], x, me)
    if op == "T":                      # try: block
      try:
        return self.block(s[1], x, me)
      except (Exception, UserBase) as e:           # noqa
        if isinstance(e, (AttributeError, NameError, TypeError)):
          raise
        if self.injected is not None and e is not self.injected:
          raise TypeError("the exception was replaced by %r" % (e,))
        self.injected = None
        return self.fold(x, I32(77))
    if op == "K":
      self.keys.append(B.next_rng_key())
      return x
    if op == "PK":                     # parameter initialised with a fresh key
      return self.fold(x, B.get_parameter(s[1], (2,), np.uint32, lambda *_: B.next_rng_key()))
    if op == "PKn":                    # likewise, value not used
      B.get_parameter(s[1], (2,), np.uint32, lambda *_: B.next_rng_key())
      return x
    if op == "Kn":
      self.keys.extend(B.next_rng_keys(s[1]))
      return x
    if op == "Km":
      k = B.maybe_next_rng_key()
      if k is not None:
        self.keys.append(k)
      return self.fold(x, I32(k is None))
    if op == "Kr":
      B.reserve_rng_keys(s[1])
      return x
    if op == "W":                      # with_rng(key number): block
      with B.with_rng(B.key(s[1])):
        return self.block(s[2], x, me)
    if op == "Wk":                     # with_rng(next key): block
      k = B.next_rng_key()
      with B.with_rng(k):
        return self.block(s[1], x, me)
    if op == "NS":                     # name scope
      with B.name_scope(s[1]):
        return self.block(s[2], x, me)
    if op == "N":                      # construct: slot, class, name
      m = B.construct(self, s[2], s[3] if len(s) > 3 else None, x)
      d, k = self.slotd(s[1], me)
      d[k] = m
      self.names.append(m.module_name)
      return self.fold(x, m.last)
    if op == "C":                      # call: slot, method
      d, k = self.slotd(s[1], me)
      return self.fold(x, B.invoke(d[k], s[2] if len(s) > 2 else "__call__", x))
    if op == "MC":                     # construct and call: class, name
      m = B.construct(self, s[1], s[2] if len(s) > 2 else None, x)
      self.names.append(m.module_name)
      return self.fold(x, B.invoke(m, "__call__", x))
    if op == "self":                   # call own method
      return self.fold(x, B.invoke(me, s[1], x))
    if op == "CR":                     # custom creator: tag, kinds, block
      def creator(nxt, shape, dtype, init, context):
        return nxt(shape, dtype, init) * I32(10) + I32(s[1])
      with B.custom_creator(creator, params="p" in s[2], state="s" in s[2]):
        return self.block(s[3], x, me)
    if op == "GT":                     # custom getter
      with B.custom_getter(lambda nxt, v, context: nxt(v * I32(3) + I32(s[1])), params="p" in s[2], state="s" in s[2]):
        return self.block(s[3], x, me)
    if op == "IT":                     # method interceptor
      def interceptor(nxt, args, kwargs, context):
        if context.method_name == "__init__" or context.method_name[:2] in ("w_", "d_"):
          return nxt(*args, **kwargs)
        return nxt(*args, **kwargs) * I32(5) + I32(s[1])
      with B.intercept_methods(interceptor):
        return self.block(s[2], x, me)
    if op == "TK":                     # fold loop variables (set by the loop statement)
      return self.fold(x, self.t)
    if op == "jx":                     # library version of a JAX transformation: kind, argument, blocks...
      x, keys = B.jx(s[1], s[2], [self.sub(b, me) for b in s[3:]], x, self)
      self.keys.append(keys) if keys is not None else None
      return x
    raise AssertionError(op)

  def sub(self, blk, me):
    """A block as a function x -> (x, keys drawn)."""
    def g(x, t=None):
      saved, saved_t = self.keys, getattr(self, "t", None)
      self.keys = []
      if t is not None:
        self.t = t
      try:
        x = self.block(blk, x, me)
        return x, self.keys
      finally:
        self.keys, self.t = saved, saved_t
    g.cap = capacity(blk)
    return g


def capacity(blk):
  """Upper bound on the rows of key storage a block needs."""
  n = 0
  for s in blk:
    if s[0] == "K" or s[0] == "Km":
      n += 1
    elif s[0] == "Kn":
      n += s[1]
    elif s[0] in ("C", "MC", "self", "N"):
      n += 3
    elif s[0] == "jx":
      c = max([1] + [capacity(b) for b in s[3:]])
      n += c * (max(s[2], 1) if s[1] in ("scan", "rscan", "uscan", "urscan", "lscan", "fori", "fori1", "forix", "while") else 2 if s[1] == "jit2" else 1)
    else:
      n += sum(capacity(b) for b in s if isinstance(b, list) and b and isinstance(b[0], list))
  return n


def flat_keys(keys, out=None):
  """All non-padding keys in a nested list of key arrays."""
  out = [] if out is None else out
  for k in keys:
    if isinstance(k, (list, tuple)):
      flat_keys(k, out)
    else:
      for r in np.asarray(k).reshape(-1, 2):
        if r.any():
          out.append((int(r[0]), int(r[1])))
  return out


class ModelModule:

  def __init__(self):
    self.slots = {}


class Model(Ref):
  """Model back end."""

  # Hooks: outermost first.
  @contextlib.contextmanager
  def _hook(self, lists, h):
    for l in lists:
      l.append(h)
    try:
      yield
    finally:
      for l in lists:
        l.pop()

  def custom_creator(self, h, params=True, state=False):
    return self._hook([l for l, u in ((self.pc, params), (self.sc, state)) if u], h)

  def custom_getter(self, h, params=True, state=False):
    return self._hook([l for l, u in ((self.pg, params), (self.sg, state)) if u], h)

  def intercept_methods(self, h):
    return self._hook([self.im], h)

  @staticmethod
  def chain(hooks, last, call):
    def at(i):
      if i == len(hooks):
        return last
      return lambda *a: call(hooks[i], at(i + 1), *a)
    return at(0)

  def get_parameter(self, name, shape, dtype, init):
    f, m = self.f, self.bundle()
    if name in f.params.get(m, {}):
      v = f.params[m][name]
    elif not f.init:
      raise RefError("missing parameter")
    else:
      v = self.chain(list(self.pc), lambda sh, dt, i: i(sh, dt), lambda h, n, sh, dt, i: h(n, sh, dt, i, None))(shape, dtype, init)
      f.params.setdefault(m, {})[name] = v
    v = self.chain(list(self.pg), lambda v: v, lambda h, n, v: h(n, v, None))(v)
    if np.shape(v) != tuple(shape):
      raise RefError("shape")
    return v

  def get_state(self, name, shape=None, dtype=np.int32, init=None):
    f, m = self.f, self.bundle()
    if name in f.state.get(m, {}):
      v = f.state[m][name][1]
    else:
      if init is None or shape is None:
        raise RefError("no state")
      v = self.chain(list(self.sc), lambda sh, dt, i: i(sh, dt), lambda h, n, sh, dt, i: h(n, sh, dt, i, None))(shape, dtype, init)
      f.state.setdefault(m, {})[name] = [v, v]
    return self.chain(list(self.sg), lambda v: v, lambda h, n, v: h(n, v, None))(v)

  def nested(self, g):
    p, s, _ = self.init(g, None)
    return self.apply(g, p, s, None)[0]

  # JAX transformations are transparent: run the block directly.
  def _snapshot(self):
    f = self.f
    return ({m: dict(b) for m, b in f.params.items()}, {m: {k: list(v) for k, v in b.items()} for m, b in f.state.items()},
            [(q.key, list(q.sub)) if q is not None else None for q in f.rngs],
            [(dict(c.counters), set(c.used)) for c in f.scopes])

  def _restore(self, s, names_only=False):
    f = self.f
    for c, (a, b) in zip(f.scopes, s[3]):
      c.counters, c.used = dict(a), set(b)
    if not names_only:
      if f.init:
        f.params.clear(); f.params.update(s[0])
      f.state.clear(); f.state.update(s[1])
      for q, t in zip(f.rngs, s[2]):
        if q is not None:
          q.key, q.sub = t[0], list(t[1])

  def _run(self, g, *a):
    snap = self._snapshot()
    try:
      r = g(*a)
    except BaseException:
      self._restore(snap)
      raise
    self._restore(snap, names_only=True)
    return r

  def jx(self, kind, arg, gs, x, it):
    if kind in ("jit", "remat", "named", "vg", "grad", "vmap", "call"):
      return self._run(gs[0], x)
    if kind == "opt":
      return gs[0](x)
    if kind == "jit2":
      x, a = self._run(gs[0], x)
      x, b = self._run(gs[0], x)
      return x, [a, b]
    if kind == "eval_shape":
      snap = self._snapshot()
      try:
        gs[0](x)
      finally:
        self._restore(snap)
      return x, None
    if kind == "cond5":
      return self._run(gs[0], x) if arg else self._run(gs[1], x + I32(1))
    if kind == "condsame":
      return self._run(gs[0], x)
    if kind == "switchx":
      return self._run(gs[min(max(int(x) % 5 - 1, 0), len(gs) - 1)], x)
    if kind in ("cond", "switch"):
      i = min(max(int(arg), 0), len(gs) - 1) if kind == "switch" else (0 if arg else 1)
      return self._run(gs[i], x)
    if kind == "condx":                # predicate computed from x
      return self._run(gs[0 if int(x) % 2 == 0 else 1], x)
    if kind in ("scan", "rscan", "uscan", "urscan", "lscan", "fori", "fori1", "forix", "while"):
      ks = []
      rng = range(arg)
      if kind in ("rscan", "urscan"):
        rng = reversed(rng)
      if arg == 0 and self.f.init:
        self._run(gs[0], x, I32(0))
        return x, None
      for i in rng:
        x, k = self._run(gs[0], x, I32(0 if kind == "lscan" else i))
        ks.append(k)
      return x, ks
    raise AssertionError(kind)

  def __init__(self, split=None, keyf=None):
    super().__init__(split)
    self.key = keyf
    self.pc, self.sc, self.pg, self.sg, self.im = [], [], [], [], []

  def construct(self, it, cls, name, x):
    bodies = it.prog["classes"][cls]
    m = ModelModule()
    m.it, m.bodies, m.module_name = it, bodies, None
    sc = self.f.scopes[-1]
    # The constructor is itself a method: its own scope is entered first, and
    # the name is made in the caller's scope.
    m.module_name = self.unique_name(name if name is not None else camel(cls))
    m.name = m.module_name.split("/")[-1]
    with self.scope(m.module_name, "__init__"):
      m.last = it.block(bodies.get("__init__", []), x, m)
    return m

  def invoke(self, m, method, x):
    tr = method.startswith("t_")
    cm = contextlib.nullcontext() if tr else self.scope(m.module_name, method)
    def run(x):
      m.wres = m.it.block(m.bodies.get(method, []), x, m)
      return m.wres
    with cm:
      if tr:
        return run(x)
      r = self.chain(list(self.im), run, lambda h, n, x: h(n, (x,), {}, _Ctx(m, method)))(x)
      return m.wres if method[:2] in ("w_", "d_") else r   # what a setter returns is lost


class _Ctx:
  def __init__(self, module, method_name):
    self.module, self.method_name = module, method_name


_classes = {}


def pad(keys, n):
  import jax.numpy as jnp
  ks = [jnp.reshape(k, (-1, 2)) for k in _leaves(keys)]
  out = jnp.concatenate(ks + [jnp.zeros((n, 2), np.uint32)])
  assert out.shape[0] - n <= n, "too many keys for the recording buffer"
  return out[:n]


def _leaves(keys):
  for k in keys:
    if isinstance(k, (list, tuple)):
      yield from _leaves(k)
    else:
      yield k


class Real:
  """Back end on the real library."""

  def __init__(self, hk, keyf=None):
    self.hk = hk
    self.key = keyf
    for n in ("get_parameter", "get_state", "set_state", "running_init", "next_rng_key", "next_rng_keys",
              "maybe_next_rng_key", "reserve_rng_keys", "with_rng"):
      setattr(self, n, getattr(hk, n))
    self.name_scope = hk.experimental.name_scope
    self.custom_creator = hk.experimental.custom_creator
    self.custom_getter = hk.experimental.custom_getter
    self.intercept_methods = hk.experimental.intercept_methods

  def nested(self, g):
    t = self.hk.transform_with_state(g)
    p, s = t.init(None)
    return t.apply(p, s, None)[0]

  def jx(self, kind, arg, gs, x, it):
    import jax, jax.numpy as jnp
    hk = self.hk
    if kind == "call":
      return gs[0](x)
    if kind == "opt":
      return hk.experimental.optimize_rng_use(gs[0])(x)
    if kind == "jit":
      return hk.jit(gs[0])(x)
    if kind == "jit2":                 # one wrapped function called twice
      f = hk.jit(gs[0])
      x, a = f(x)
      x, b = f(x)
      return x, [a, b]
    if kind == "remat":
      return hk.remat(gs[0])(x)
    if kind == "named":
      return hk.experimental.named_call(gs[0], name="nm")(x)
    if kind == "vg":
      (v, r), g = hk.value_and_grad(lambda z, x: (z * z, gs[0](x)), has_aux=True)(np.float32(3), x)
      return (r[0] + (v - np.float32(9)).astype(np.int32) + (g - np.float32(6)).astype(np.int32)), r[1]
    if kind == "grad":
      g, r = hk.grad(lambda x, z: (z * z, gs[0](x)), argnums=1, has_aux=True)(x, np.float32(3))
      return (r[0] + (g - np.float32(6)).astype(np.int32)), r[1]
    if kind == "vmap":
      y, ks = hk.vmap(lambda x: gs[0](x), in_axes=0)(jnp.stack([x, x]))
      return y[1] + (y[0] - y[1]), jax.tree_util.tree_map(lambda k: k[0], ks)
    if kind == "eval_shape":
      sh = hk.eval_shape(gs[0], x)
      assert sh[0].shape == () and sh[0].dtype == np.int32
      return x, None
    cap = max([g.cap for g in gs] + [1])
    br = [lambda x, g=g: (lambda r: (r[0], pad(r[1], cap)))(g(x)) for g in gs]
    if kind == "cond":
      return hk.cond(np.bool_(arg), br[0], br[1], x)
    if kind == "condx":
      return hk.cond(x % I32(2) == I32(0), br[0], br[1], x)
    if kind == "cond5":
      return hk.cond(np.bool_(arg), x, br[0], x + I32(1), br[1])
    if kind == "condsame":
      return hk.cond(np.bool_(arg), br[0], br[0], x)
    if kind == "switch":
      return hk.switch(np.int32(arg), br, x)
    if kind == "switchx":
      return hk.switch(x % I32(5) - I32(1), br, x)
    if kind in ("scan", "rscan", "uscan", "urscan"):
      x, ks = hk.scan(lambda x, t: gs[0](x, t), x, np.arange(arg, dtype=np.int32), reverse=kind in ("rscan", "urscan"),
                      unroll=2 if kind[0] == "u" else 1)
      return x, ks
    if kind == "lscan":
      return hk.scan(lambda x, t: gs[0](x, I32(0)), x, None, length=arg)
    if kind in ("fori", "fori1", "forix"):
      lo = 1 if kind == "fori1" else 0
      n = max(arg, 1)
      buf = jnp.zeros((n, cap, 2), np.uint32)
      def body(i, val):
        x, buf = val
        x, ks = gs[0](x, jnp.asarray(i - lo, np.int32))
        return x, jax.lax.dynamic_update_slice(buf, pad(ks, cap)[None], (jnp.asarray(i - lo, np.int32), 0, 0))
      hi = lo + arg
      if kind == "forix" and not hk.running_init():
        hi = x * I32(0) + I32(hi)      # a traced trip count
      x, buf = hk.fori_loop(lo, hi, body, (jnp.asarray(x), buf))
      return x, (buf if arg else None)
    if kind == "while":
      buf = jnp.zeros((max(arg, 1), cap, 2), np.uint32)
      def body(val):
        i, x, buf = val
        x, ks = gs[0](x, i)
        return i + I32(1), x, jax.lax.dynamic_update_slice(buf, pad(ks, cap)[None], (i, 0, 0))
      _, x, buf = hk.while_loop(lambda v: v[0] < I32(arg), body, (jnp.asarray(0, np.int32), jnp.asarray(x), buf))
      return x, buf
    raise AssertionError(kind)

  def construct(self, it, cls, name, x):
    return self.cls(cls)(it, it.prog["classes"][cls], x, name)

  def invoke(self, m, method, x):
    if method.startswith("p_"):
      m.px = x
      return getattr(m, method)
    if method.startswith("w_"):          # a property that is assigned to
      setattr(m, method, x)
      return m.wres
    if method.startswith("d_"):          # a property that is deleted
      m.px = x
      delattr(m, method)
      return m.wres
    return getattr(m, method)(x)

  def cls(self, cname):
    """A module class; behaviour comes from the program given to the constructor."""
    c = _classes.get(cname)
    if c is not None:
      return c
    hk = self.hk

    def __init__(self, it, bodies, x, name=None):
      super(c_cell[0], self).__init__(name=name)
      self.it, self.bodies, self.slots = it, bodies, {}
      self.last = it.block(bodies.get("__init__", []), x, self)

    def method(mname):
      def f(self, x):
        return self.it.block(self.bodies.get(mname, []), x, self)
      f.__name__ = f.__qualname__ = mname
      return f

    def prop(mname):
      def f(self):
        return self.it.block(self.bodies.get(mname, []), self.px, self)
      return property(f)

    def assigned(mname):
      def f(self, x):
        self.wres = self.it.block(self.bodies.get(mname, []), x, self)
      return property(None, f)

    def deleted(mname):
      def f(self):
        self.wres = self.it.block(self.bodies.get(mname, []), self.px, self)
      return property(None, None, f)

    d = dict(__init__=__init__, _priv=method("_priv"), w_prop=assigned("w_prop"), d_prop=deleted("d_prop"), __call__=method("__call__"), meth=method("meth"), other=method("other"),
             t_meth=hk.transparent(method("t_meth")), p_prop=prop("p_prop"))
    c_cell = [None]
    base = type(hk.Module)("Base" + cname, (hk.Module,), dict(inherited=method("inherited")))
    c = type(hk.Module)(cname, (base,), d)
    c_cell[0] = c
    _classes[cname] = c
    return c


def norm(tree, keep_empty=False):
  """Nested mapping -> plain dict of python values (empty bundles dropped)."""
  out = {}
  for m, b in tree.items():
    d = {}
    for k, v in b.items():
      a = np.asarray(v)
      d[k] = (str(a.dtype), a.shape, a.tolist())
    if d or keep_empty:
      out[m] = d
  return out


def val(v):
  a = np.asarray(v)
  return (str(a.dtype), a.shape, a.tolist())
