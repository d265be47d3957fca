"""Reference model of the core semantics: names, parameters, state, rng, hooks.

Deliberately boring: plain dicts and lists, numpy values, no tracing. Written
from the documentation; it shares no code with the library.
"""
import contextlib, re
import numpy as np


class RefError(Exception):
  """The program is rejected (the library must raise as well)."""


class Seq:
  """Documented key sequence: reserve(n) splits once into n+1, keeps the first."""

  def __init__(self, key, split):
    self.key, self.sub, self.split = key, [], split

  def reserve(self, n):
    if n > 0:
      ks = self.split(self.key, n + 1)
      self.key = ks[0]
      self.sub.extend(ks[1:])

  def next(self):
    if not self.sub:
      self.reserve(1)
    return self.sub.pop(0)

  def take(self, n):
    self.reserve(max(n - len(self.sub), 0))
    return [self.next() for _ in range(n)]


class Scope:
  def __init__(self, name, method):
    self.name, self.method = name, method
    self.counters, self.used = {}, set()


class Frame:
  def __init__(self, params, state, rng, init):
    self.params, self.state, self.init = params, state, init
    self.rngs = [rng]
    self.scopes = [Scope(None, None)]      # outermost: no module


class Ref:
  def __init__(self, split=None):
    self.frames = []
    self.split = split
    self.creators, self.getters, self.interceptors = [], [], []

  # -- running -------------------------------------------------------------
  @property
  def f(self):
    if not self.frames:
      raise RefError("outside transform")
    return self.frames[-1]

  def init(self, fun, rng):
    fr = Frame({}, {}, Seq(rng, self.split) if rng is not None else None, True)
    self.frames.append(fr)
    try:
      out = fun()
    finally:
      self.frames.pop()
    return fr.params, {m: {k: v[0] for k, v in b.items()} for m, b in fr.state.items()}, out

  def apply(self, fun, params, state, rng):
    fr = Frame(params, {m: {k: [v, v] for k, v in b.items()} for m, b in state.items()},
               Seq(rng, self.split) if rng is not None else None, False)
    self.frames.append(fr)
    try:
      out = fun()
    finally:
      self.frames.pop()
    return out, {m: {k: v[1] for k, v in b.items()} for m, b in fr.state.items()}

  def running_init(self):
    return self.f.init

  def bundle(self):
    return self.f.scopes[-1].name or "~"

  # -- parameters and state -------------------------------------------------
  def get_parameter(self, name, shape, dtype, init):
    f, m = self.f, self.bundle()
    if name in f.params.get(m, {}):
      v = f.params[m][name]
    elif not f.init:
      raise RefError("missing parameter")
    else:
      v = init(shape, dtype)
      f.params.setdefault(m, {})[name] = v
    if np.shape(v) != tuple(shape):
      raise RefError("shape")
    return v

  def get_state(self, name, shape=None, dtype=np.int32, init=None):
    f, m = self.f, self.bundle()
    if name in f.state.get(m, {}):
      return f.state[m][name][1]
    if init is None or shape is None:
      raise RefError("no state")
    v = init(shape, dtype)
    f.state.setdefault(m, {})[name] = [v, v]
    return v

  def set_state(self, name, v):
    f, m = self.f, self.bundle()
    b = f.state.setdefault(m, {})
    b[name] = [b[name][0] if name in b else v, v]

  # -- rng -------------------------------------------------------------------
  def seq(self):
    s = self.f.rngs[-1]
    if s is None:
      raise RefError("no rng")
    return s

  def next_rng_key(self):
    return self.seq().next()

  def next_rng_keys(self, n):
    return self.seq().take(n)

  def maybe_next_rng_key(self):
    s = self.f.rngs[-1]
    return None if s is None else s.next()

  def reserve_rng_keys(self, n):
    self.seq().reserve(n)

  @contextlib.contextmanager
  def with_rng(self, key):
    f = self.f
    f.rngs.append(Seq(key, self.split))
    try:
      yield
    finally:
      f.rngs.pop()

  # -- names -----------------------------------------------------------------
  def unique_name(self, name):
    """Name for a module constructed in the current scope."""
    if not re.match(r"^[a-zA-Z_][a-zA-Z0-9_]*$", name):
      raise RefError("invalid name")
    s = self.f.scopes[-1]
    if s.method == "__init__":
      name = "~/" + name
    elif s.method not in (None, "__call__"):
      name = "~" + s.method + "/" + name
    if s.method is not None:
      if s.name is None:
        raise RefError("super constructor not called")
      name = s.name + "/" + name
    m = re.match(r"^(.*)_([0-9]+)$", name, re.S)
    if m:
      base, n = m.group(1), int(m.group(2))
      s.counters[base] = max(s.counters.get(base, 0), n + 1)
      full = "%s_%d" % (base, n)
    else:
      n = s.counters.get(name, 0)
      s.counters[name] = n + 1
      full = "%s_%d" % (name, n) if n else name
    if full in s.used:
      raise RefError("name used")
    s.used.add(full)
    return full

  @contextlib.contextmanager
  def scope(self, name, method):
    f = self.f
    s = Scope(name, method)
    f.scopes.append(s)
    try:
      yield s
    finally:
      f.scopes.pop()

  @contextlib.contextmanager
  def name_scope(self, name):
    if not name or name[0] == "/":
      raise RefError("name scope")
    parts = name.split("/")
    with contextlib.ExitStack() as st:
      for p in parts:
        full = self.unique_name(p)
        st.enter_context(self.scope(full, "__call__"))
    with self.scope(full, "__call__"):
      yield


def camel(s):
  out = ""
  for i, c in enumerate(s):
    if c.isupper() and i > 0:
      prev, nxt = s[i - 1], s[i + 1] if i + 1 < len(s) else ""
      if prev.islower() or prev.isdigit() or nxt.islower():
        out += "_"
    out += c.lower()
  return out
