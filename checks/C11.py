"""Custom creators, getters and method interceptors: all chains in the bound against a model that keeps plain lists of hooks."""
import contextlib, itertools
import numpy as np
import haiku as hk
from mc.core import Violation

TECHNIQUE = "explicit-state enumeration: all nestings and sequences of hook contexts x behaviours x programs, real code against a reference model; the complete log of hook calls is compared"
LEVEL = "model_checking"
BOUNDS = {"quick": "all chains of 1, 2 hooks out of 50 (creator x {params, state, both} x 7 behaviours, getter x {params, state, both} x 6, interceptor x 8, hooks of 3 kinds registered for nothing) with requests before, between, inside and after, x 3 bodies; "
                   "all pairs in sequence; all chains of 3 over 22 hooks; init and two applies",
          "thorough": "chains of 3 over all 50 hooks, chains of 4 over 22 hooks"}
ASSUMPTIONS = ["each hook calls its next at most once (a second call is not specified)", "values are numpy arrays: the code under test is Python control flow"]


class Boom(Exception):
  pass


CREATORS = ["pass", "init", "post", "short", "shape", "nest", "raise"]
GETTERS = ["pass", "mul", "post", "short", "nest", "raise"]
INTERS = ["pass", "args", "kw", "post", "short", "orig", "nest", "raise"]
HOOKS = ([["C", r, b] for r in ("p", "s", "ps") for b in CREATORS] + [["G", r, b] for r in ("p", "s", "ps") for b in GETTERS]
         + [["I", "", b] for b in INTERS] + [["C", "", "post"], ["G", "", "post"]])
CORE = ([["C", "p", b] for b in ("pass", "init", "post", "short", "nest")] + [["C", "s", "post"], ["C", "s", "short"], ["C", "ps", "init"]]
        + [["G", "p", b] for b in ("pass", "mul", "post", "short", "nest")] + [["G", "s", "post"], ["G", "s", "short"], ["G", "ps", "mul"]]
        + [["I", "", b] for b in ("pass", "args", "post", "short", "orig", "nest")])


def const(v):
  return lambda shape, dtype: np.full(tuple(shape), v, np.dtype(dtype))


# --- the model ---------------------------------------------------------------
class MMod:
  pass


class Model:
  def __init__(self):
    self.st = {"C": [], "G": [], "I": []}
    self.scope = []

  def run(self, fun, params=None, state=None):
    self.init = params is None
    self.params = {} if params is None else params
    self.state = {m: {k: [v, v] for k, v in b.items()} for m, b in (state or {}).items()}
    out = fun(self)
    return out, self.params, {m: {k: v[0 if self.init else 1] for k, v in b.items()} for m, b in self.state.items()}

  def bundle(self):
    return self.scope[-1].module_name if self.scope else "~"

  def chain(self, kind, which):
    return [h for r, h in self.st[kind] if which in r]

  def create(self, which, ctx, shape, dtype, init):
    hooks = self.chain("C", which)
    def go(i, shape, dtype, init):
      if i == len(hooks):
        return init(shape, dtype)
      return hooks[i](lambda *a: go(i + 1, *a), shape, dtype, init, ctx)
    return go(0, shape, dtype, init)

  def getter(self, which, ctx, v):
    hooks = self.chain("G", which)
    def go(i, v):
      return v if i == len(hooks) else hooks[i](lambda x: go(i + 1, x), v, ctx)
    return go(0, v)

  def ctx(self, name, shape, dtype):
    return Ctx(self.bundle() + "/" + name, self.scope[-1] if self.scope else None, dtype, shape, self.bundle(), name)

  def get_parameter(self, name, shape, dtype, init):
    b = self.bundle()
    ctx = self.ctx(name, shape, dtype)
    if name not in self.params.get(b, {}):
      if not self.init:
        raise ValueError("missing parameter")
      v = self.create("p", ctx, shape, dtype, init)
      self.params.setdefault(b, {})[name] = v
    return self.getter("p", ctx, self.params[b][name])

  def get_state(self, name, shape=None, dtype=np.float32, init=None):
    b = self.bundle()
    ctx = self.ctx(name, shape, dtype)
    if name not in self.state.get(b, {}):
      v = self.create("s", ctx, shape, dtype, init)
      self.state.setdefault(b, {})[name] = [v, v]
    return self.getter("s", ctx, self.state[b][name][1])

  def set_state(self, name, v):
    b = self.state.setdefault(self.bundle(), {})
    b[name] = [b[name][0] if name in b else v, v]

  @contextlib.contextmanager
  def hook(self, kind, reg, fn):
    self.st[kind].append((reg, fn))
    try:
      yield
    finally:
      self.st[kind].pop()

  def call(self, obj, method, f, *args, **kwargs):
    """A method call: enters the scope and runs the interceptors."""
    hooks = [h for _, h in self.st["I"]]
    ctx = MCtx(obj, method, f)
    self.scope.append(obj)
    try:
      def go(i, a, k):
        return f(*a, **k) if i == len(hooks) else hooks[i](lambda *x, **y: go(i + 1, x, y), a, k, ctx)
      return go(0, args, kwargs)
    finally:
      self.scope.pop()

  def make(self, T, cls, name):
    o = MMod()
    def init(*a, **k):
      o.module_name = o.name = name
    self.call(o, "__init__", init, name=name)
    o.__dict__["call"] = lambda *a, **k: self.call(o, "__call__", lambda *a, **k: T.body(cls, "__call__", o, *a, **k), *a, **k)
    if cls == "B":
      o.call = lambda *a, **k: self.call(o, "__call__", lambda *a, **k: T.body("B", "__call__", o, *a, **k), *a, **k)
      o.aux = lambda *a, **k: self.call(o, "aux", lambda *a, **k: T.body("B", "aux", o, *a, **k), *a, **k)
      o._priv = lambda *a, **k: self.call(o, "_priv", lambda *a, **k: T.body("B", "_priv", o, *a, **k), *a, **k)
      o.plain = lambda *a, **k: T.body("B", "plain", o, *a, **k)
    if cls == "D":
      o.super_call = lambda *a, **k: self.call(o, "__call__", lambda *a, **k: T.body("A", "__call__", o, *a, **k), *a, **k)
    return o


class Ctx:
  def __init__(self, *a):
    self.full_name, self.module, self.original_dtype, self.original_shape, self.module_name, self.name = a


class MCtx:
  def __init__(self, *a):
    self.module, self.method_name, self.orig_method = a


class Real:
  def __init__(self):
    pass

  def run(self, fun, params=None, state=None):
    box = []
    def g():
      box.append(fun(self))
    t = hk.transform_with_state(g)
    if params is None:
      p, s = t.init(None)
      return box[0], un(p), un(s)
    _, s = t.apply(params, state, None)
    return box[0], params, un(s)

  get_parameter = staticmethod(lambda *a: hk.get_parameter(*a))
  get_state = staticmethod(lambda *a, **k: hk.get_state(*a, **k))
  set_state = staticmethod(lambda *a: hk.set_state(*a))

  def hook(self, kind, reg, fn):
    if kind == "I":
      return hk.intercept_methods(fn) if hasattr(hk, "intercept_methods") else hk.experimental.intercept_methods(fn)
    f = hk.experimental.custom_creator if kind == "C" else hk.experimental.custom_getter
    return f(fn, params="p" in reg, state="s" in reg)

  def make(self, T, cls, name):
    o = CLASSES[cls](name=name)
    o.T = T
    o.call = o
    return o


def un(x):
  return {m: dict(b) for m, b in x.items()}


class A(hk.Module):
  def __call__(self, x):
    return self.T.body("A", "__call__", self, x)


class B(hk.Module):
  def __call__(self, x):
    return self.T.body("B", "__call__", self, x)

  def aux(self, x):
    return self.T.body("B", "aux", self, x)

  def _priv(self, x):
    return self.T.body("B", "_priv", self, x)

  @hk.transparent
  def plain(self, x):
    return self.T.body("B", "plain", self, x)


class D(A):
  def __call__(self, x):
    return self.T.body("D", "__call__", self, x)

  def super_call(self, x):
    raise AssertionError


# super_call must run the parent's (wrapped) method without a scope of its own.
D.super_call = lambda self, x: A.__call__(self, x)
CLASSES = {"A": A, "B": B, "D": D}


# --- programs ----------------------------------------------------------------
class Run:
  """One execution of a program on a back end, with the log of everything hooks saw."""

  def __init__(self, B, chain, body):
    self.B, self.chain, self.body_kind, self.log = B, chain, body, []

  def fold(self, v):
    self.x = (self.x * 31 + int(np.sum(v))) % 1000003

  def P(self, name, v, shape=()):
    r = self.B.get_parameter(name, shape, np.int32, const(v))
    self.log.append(("P", name, np.shape(r), np.asarray(r).tolist()))
    self.fold(r)

  def Gs(self, name, v=None):
    r = self.B.get_state(name, (), np.int32, const(v)) if v is not None else self.B.get_state(name)
    self.log.append(("G", name, np.asarray(r).tolist()))
    self.fold(r)

  def body(self, cls, method, me, x):
    self.log.append(("run", cls, method, me.module_name, int(x)))
    self.cur, saved = me, getattr(self, "cur", None)
    try:
      if cls == "A":
        self.P("w", 3)
        self.Gs("c", 4)
        return x * 7 + 1
      if cls == "D":
        self.P("d", 5)
        return me.super_call(x + 1) + 2
      if method == "__call__":
        y = me.aux(x + 2)
        self.P("w", 6, (2,))
        y = self.child.call(y) + me.plain(y)
        return y
      if method == "aux":
        self.P("v", 8)
        return me._priv(x * 2)
      if method == "_priv":
        self.P("pr", 3)
        return x + 1
      self.P("t", 9)
      return x * 5
    finally:
      self.cur = saved

  def creator(self, i, beh):
    def h(nxt, shape, dtype, init, ctx):
      self.log.append(("C", i, tuple(shape), np.dtype(dtype).name) + self.ctxlog(ctx))
      if beh == "pass":
        return nxt(shape, dtype, init)
      if beh == "init":
        return nxt(shape, dtype, const(50 + i))
      if beh == "post":
        return nxt(shape, dtype, init) + 100 * (i + 1)
      if beh == "short":
        return np.full(tuple(shape), 70 + i, np.int32)
      if beh == "shape":
        v = nxt(tuple(shape) + (3,), np.dtype(np.float32), lambda s, d: init(s, d) + np.arange(3, dtype=d))
        return v.sum(-1).astype(np.int32)
      if beh == "nest":
        if not ctx.name.startswith("n"):
          self.P("n%d" % i, 11 + i)
        return nxt(shape, dtype, init)
      raise Boom("creator")
    return h

  def ctxlog(self, ctx):
    m = ctx.module
    if m is not None and m is not getattr(self, "cur", None):
      self.log.append("wrong module object")
    return (ctx.full_name, ctx.module_name, ctx.name, None if m is None else m.module_name,
            None if ctx.original_shape is None else tuple(ctx.original_shape), np.dtype(ctx.original_dtype).name)

  def getter(self, i, beh):
    def h(nxt, v, ctx):
      self.log.append(("G", i, np.shape(v), np.asarray(v).tolist()) + self.ctxlog(ctx))
      if beh == "pass":
        return nxt(v)
      if beh == "mul":
        return nxt(v * 2 + i)
      if beh == "post":
        return nxt(v) * 3 + i
      if beh == "short":
        return v * 0 + 90 + i
      if beh == "nest":
        if not ctx.name.startswith("n"):
          self.P("n%d" % i, 11 + i)
        return nxt(v)
      raise Boom("getter")
    return h

  def inter(self, i, beh):
    def h(nxt, args, kwargs, ctx):
      m = ctx.module
      known = getattr(m, "module_name", None)
      self.log.append(("I", i, ctx.method_name, known, [str(a) for a in args], sorted((k, str(v)) for k, v in kwargs.items())))
      if ctx.method_name == "__init__" or beh == "pass":
        return nxt(*args, **kwargs)
      x = args[0] if args else kwargs["x"]
      if beh == "args":
        return nxt(x + 10 * (i + 1))
      if beh == "kw":
        return nxt(x=x + 1)
      if beh == "post":
        return nxt(*args, **kwargs) * 3 + i
      if beh == "short":
        return x * 0 + 60 + i
      if beh == "orig":
        return ctx.orig_method(*args, **kwargs) + 1
      if beh == "nest":
        y = 0
        if known != "helper" and not self.busy:
          self.busy = True
          try:
            y = self.helper.call(x)
          finally:
            self.busy = False
        return nxt(*args, **kwargs) + y
      raise Boom("interceptor")
    return h

  def opened(self, i):
    kind, reg, beh = self.chain[i]
    return self.B.hook(kind, reg, {"C": self.creator, "G": self.getter, "I": self.inter}[kind](i, beh))

  def requests(self, tag):
    """What runs inside the innermost context."""
    b = self.body_kind
    if b == "plain":
      self.P("w", 1)
      self.Gs("c", 2)
      self.B.set_state("c", np.int32(21))
      self.Gs("c")
      self.P("w", 1)
      self.P("v" + tag, 2, (2,))
      self.B.set_state("q", np.int32(5))
      self.Gs("q", 7)
    elif b == "mods":
      a = self.B.make(self, "A", "a" + tag)
      self.fold(a.call(self.x % 50))
      self.fold(self.shared.call(self.x % 50))
      self.fold(a.call(2))
    else:
      d = self.B.make(self, "D", "d" + tag)
      self.child = self.B.make(self, "A", "e" + tag)
      bb = self.B.make(self, "B", "b" + tag)
      self.fold(d.call(3))
      self.fold(bb.call(self.x % 50))
      self.fold(bb.aux(1))
      self.fold(bb.plain(1))

  def outside(self, tag):
    self.P("o", 4)
    self.P("o" + tag, 5)
    self.Gs("oc" + tag, 6)
    self.fold(self.shared.call(1))

  def nested(self, B):
    self.x, self.busy = 1, False
    self.shared = B.make(self, "A", "shared")
    self.helper = B.make(self, "A", "helper")
    self.outside("0")
    with contextlib.ExitStack() as st:
      for i in range(len(self.chain)):
        st.enter_context(self.opened(i))
        if i + 1 < len(self.chain):
          self.P("l%d" % i, 8 + i)
          self.Gs("m%d" % i, 9 + i)
          self.P("l0", 3)
      self.requests("")
    self.outside("1")
    self.requests("z")
    return self.x

  def nested_levels(self, B):
    """Closing one context at a time, with requests after each."""
    self.x, self.busy = 1, False
    self.shared = B.make(self, "A", "shared")
    self.helper = B.make(self, "A", "helper")
    def rec(i):
      if i == len(self.chain):
        return self.requests("")
      with self.opened(i):
        rec(i + 1)
        self.P("u%d" % i, 5)
        self.Gs("uc%d" % i, 5)
        self.P("w", 5)
    rec(0)
    self.outside("1")
    return self.x

  def sequence(self, B):
    self.x, self.busy = 1, False
    self.shared = B.make(self, "A", "shared")
    self.helper = B.make(self, "A", "helper")
    for i in range(len(self.chain)):
      try:
        with self.opened(i):
          self.requests(str(i))
      except Boom as e:
        self.log.append("handled %s" % e)
      self.outside("s%d" % i)
    return self.x


def execute(B, chain, body, mode):
  """init, apply, apply; returns the log and results (or the error)."""
  res = []
  params = state = None
  for k in range(3):
    r = Run(B, chain, body)
    try:
      out, p, s = B.run(getattr(r, mode), params, state)
      nz = lambda d: {m: {n: np.asarray(v).tolist() for n, v in b.items()} for m, b in d.items() if b}
      res.append((r.log, out, nz(p), nz(s)))
      params, state = p, s
    except Boom as e:
      res.append((r.log, "Boom " + str(e)))
      if params is None:
        # retry without the raising hooks would be another program; stop here
        break
    except ValueError:
      res.append((r.log, "missing parameter"))
    if isinstance(B, Model):
      assert not any(B.st.values()) and not B.scope
  return res


def check(chain, body, mode, rec):
  m = execute(Model(), chain, body, mode)
  r = execute(Real(), chain, body, mode)
  rec.step(sum(len(x[0]) for x in m))
  rec.trace(len(m))
  if m != r:
    for k, (a, b) in enumerate(zip(m, r)):
      if a[0] != b[0]:
        i = next((i for i, (x, y) in enumerate(zip(a[0], b[0])) if x != y), min(len(a[0]), len(b[0])))
        raise Violation("chain %r, body %s, %s, run %d: event %d is %r, expected %r" % (chain, body, mode, k, i, b[0][i:i + 1], a[0][i:i + 1]))
      if a != b:
        raise Violation("chain %r, body %s, %s, run %d: result %r, expected %r" % (chain, body, mode, k, b[1:], a[1:]))
    raise Violation("chain %r, body %s, %s: %d runs, expected %d" % (chain, body, mode, len(r), len(m)))
  rec.state(repr((m,)))


BODIES = ["plain", "mods", "deep"]


def cases(tier):
  q = tier == "quick"
  out = []
  n = len(HOOKS)
  for b in BODIES:
    for mode in ("nested", "nested_levels", "sequence"):
      out.append({"n": 1, "body": b, "mode": mode})
  for b in BODIES:
    for mode in ("nested", "nested_levels", "sequence"):
      for i in range(n):
        out.append({"n": 2, "i": i, "body": b, "mode": mode})
  for i in range(len(CORE)):
    for j in range(len(CORE)):
      out.append({"n": 3, "i": i, "j": j, "core": 1, "body": BODIES[(i + j) % 3] if q else None, "mode": "nested" if q else None})
  if not q:
    for i in range(n):
      for j in range(n):
        out.append({"n": 3, "i": i, "j": j, "core": 0, "body": BODIES[(i + j) % 3], "mode": "nested_levels"})
    for i in range(len(CORE)):
      for j in range(len(CORE)):
        out.append({"n": 4, "i": i, "j": j, "core": 1, "body": BODIES[(i + 2 * j) % 3], "mode": "nested"})
  return out


def run_case(case, rec):
  H = CORE if case.get("core") else HOOKS
  pre = [H[case[k]] for k in ("i", "j") if k in case]
  for rest in itertools.product(H, repeat=case["n"] - len(pre)):
    for b in [case["body"]] if case["body"] else BODIES:
      for mode in [case["mode"]] if case["mode"] else ["nested", "nested_levels"]:
        check(pre + list(rest), b, mode, rec)
