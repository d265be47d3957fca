"""Observers: params_dict/state_dict, method hooks, eval_summary, tabulate: all bounded module programs against a model of who created and used what."""
import contextlib, itertools
import jax, jax.numpy as jnp, numpy as np
import tabulate as tabulate_lib
import haiku as hk
from haiku._src import module as _module
from mc.core import Violation
from mc.ref import Ref, camel

TECHNIQUE = "explicit-state enumeration of all bounded module programs; every observer's report at every point compared with a reference model, and every run repeated without observers"
LEVEL = "model_checking"
BOUNDS = {"quick": "10 module classes (children created in constructor, call, method, name scope; shared and external modules; super calls, properties, transparent methods); all programs of <=3 of 17 statements "
                   "(5219) with params_dict/state_dict of every module after every statement in init and apply; method hooks on all of them; eval_summary on all programs of <=2 and all length-3 programs over 8 "
                   "statements that start by creating a module; tabulate with all 128 column subsets x 4 filter subsets on 6 programs",
          "thorough": "programs of <=4 over 10 statements for the dictionaries, eval_summary on all length-3 programs"}
ASSUMPTIONS = ["eval_summary lists the methods that run when applying (constructors and the dictionaries themselves are not listed)"]
F = np.float32

# class -> method -> body; every method returns an array of len(x) + its number of ops
CLASSES = {
    "A": {"__call__": [["P", "w", [2]], ["I", "c"]], "meth": [["P", "v", []]], "prop": [["P", "u", [1, 2]]]},
    "B": {"__init__": [["N", "k", "A"]], "__call__": [["C", "k"], ["P", "w", [3]]], "meth": [["C", "k", "meth"], ["MC", "A"]]},
    "Cx": {"__call__": [["P", "w", [4]], ["C", "^a"]]},
    "D": {"__call__": [["MC", "A"], ["NS", "sc", [["MC", "A"], ["P", "w", [2, 2]]]]], "meth": [["self", "__call__"]]},
    "E": {"__call__": [["N", "b", "B"], ["C", "b"], ["C", "b", "meth"]]},
    "G": {"__init__": [["N", "b", "B"]], "__call__": [["C", "b", "meth"], ["MC", "Cx"]], "tr": [["P", "t", []], ["MC", "A"]]},
    "None_": {"__call__": [["P", "w", []]], "meth": []},
    "H": {"__call__": [["C", "^a", "prop"], ["T", [["C", "^a", "boom"]]]]},
}
NONE = {("None_", "__call__")}


class Base:
  """Common interpreter. Subclasses provide the primitives."""

  def run(self, main, x):
    self.slots, self.mods, self.log, self.calls = {}, [], [], []
    for s in main:
      x = self.stmt(s, x, None)
      if self.observe:
        self.look(s)
    return x

  def look(self, s):
    for name, m in self.mods[:6]:
      self.log.append((name, self.pd(m), self.sd(m)))

  def body(self, cls, method, me, x):
    blk = CLASSES[cls].get(method, [])
    for s in blk:
      x = self.stmt(s, x, me)
      if self.observe:
        self.look(s)
    if method == "boom":
      raise KeyError("boom")
    if (cls, method) in NONE:
      return None
    return self.pad(x)

  def stmt(self, s, x, me):
    op = s[0]
    if op == "P":
      return x + self.sum(self.P(s[1], tuple(s[2])))
    if op == "I":
      v = self.Gs(s[1])
      self.Ss(s[1], v + F(1))
      return x + v
    if op == "NS":
      with self.NS(s[1]):
        for t in s[2]:
          x = self.stmt(t, x, me)
      return x
    if op == "T":
      try:
        for t in s[1]:
          x = self.stmt(t, x, me)
      except KeyError:
        pass
      return x
    if op == "self":
      return self.call(me, s[1], x)
    if op == "MC":
      m = self.new(s[1], s[2] if len(s) > 2 else None)
      self.mods.append((self.name(m), m))
      return self.ret(self.call(m, "__call__", x), x)
    d, k = (self.slots, s[1].lstrip("^")) if me is None or s[1][0] == "^" else (self.sl(me), s[1])
    if op == "N":
      if k in d:
        k = k + "2"
      d[k] = self.new(s[2], s[3] if len(s) > 3 else None)
      self.mods.append((self.name(d[k]), d[k]))
      return x
    if op == "C":
      if k not in d:
        return x
      return self.ret(self.call(d[k], s[2] if len(s) > 2 else "__call__", x), x)
    if op == "CK":
      if k not in d:
        return x
      return self.ret(self.call(d[k], "__call__", x, kw=True), x)
    raise AssertionError(op)

  def ret(self, y, x):
    return x if y is None else y


class MM:
  pass


class Model(Base, Ref):
  observe = True

  def __init__(self):
    Ref.__init__(self)
    self.stack = []

  P = lambda self, n, sh: self.get_parameter(n, sh, F, lambda s, d: np.full(s, 1.5, F))
  Gs = lambda self, n: self.get_state(n, (), F, lambda s, d: F(2))
  Ss = lambda self, n, v: self.set_state(n, v)
  sum = staticmethod(lambda v: F(np.sum(v)))
  pad = staticmethod(lambda x: np.concatenate([x, F([1])]))
  name = staticmethod(lambda m: m.module_name)
  sl = staticmethod(lambda m: m.slots)

  @contextlib.contextmanager
  def NS(self, n):
    with self.name_scope(n):
      yield

  def used(self, m):
    for o in self.stack:
      if o is not m:
        o.used.add(m.module_name)

  def new(self, cls, name):
    m = MM()
    m.cls, m.slots, m.used = cls, {}, set()
    m.module_name = self.unique_name(name or camel(cls))
    with self.scope(m.module_name, "__init__"):
      self.stack.append(m)
      try:
        self.calls.append(("hook", m.module_name, "__init__"))
        for s in CLASSES[cls].get("__init__", []):
          self.stmt(s, np.ones(1, F), m)
      finally:
        self.stack.pop()
    self.used(m)
    return m

  def call(self, m, method, x, kw=False):
    if method == "tr":
      return self.body(m.cls, method, m, x)
    i = len(self.calls)
    self.calls.append(("hook", m.module_name, method))
    row = [None]
    self.rows.append(row) if hasattr(self, "rows") else None
    with self.scope(m.module_name, method):
      self.stack.append(m)
      try:
        out = self.body(m.cls, method, m, x)
        row[0] = (m.module_name, method, None if kw else x.shape, x.shape if kw else None, None if out is None else out.shape,
                  {k: v.shape for k, v in self.pd(m).items()}, {k: np.shape(v) for k, v in self.sd(m).items()},
                  [(c.name, c.method) for c in reversed(self.f.scopes[1:])], m.cls, {k: v.shape for k, v in self.f.params.get(m.module_name, {}).items()})
      finally:
        self.stack.pop()
      self.used(m)
    return out

  def sel(self, m, tree):
    n = m.module_name
    return {mn + "/" + k: v for mn, b in tree.items() for k, v in b.items() if mn == n or mn.startswith(n + "/") or mn in m.used}

  def pd(self, m):
    return self.sel(m, self.f.params)

  def sd(self, m):
    return {k: v[1] for k, v in self.sel(m, self.f.state).items()}


class Real(Base):
  observe = True

  P = staticmethod(lambda n, sh: hk.get_parameter(n, sh, F, lambda s, d: np.full(s, 1.5, F)))
  Gs = staticmethod(lambda n: hk.get_state(n, (), F, lambda s, d: F(2)))
  Ss = staticmethod(lambda n, v: hk.set_state(n, v))
  sum = staticmethod(lambda v: v.sum())
  name = staticmethod(lambda m: m.module_name)
  sl = staticmethod(lambda m: m.slots)
  NS = staticmethod(lambda n: hk.experimental.name_scope(n))
  pd = staticmethod(lambda m: m.params_dict())
  sd = staticmethod(lambda m: m.state_dict())

  @staticmethod
  def pad(x):
    return (np if isinstance(x, np.ndarray) else jnp).concatenate([x, F([1])])

  def new(self, cls, name):
    return klass(cls)(self, name)

  def call(self, m, method, x, kw=False):
    if method == "prop":
      m.px = x
      return m.prop
    return getattr(m, method)(x=x) if kw else getattr(m, method)(x)


_k = {}


def klass(cname):
  if cname in _k:
    return _k[cname]
  cell = []
  def __init__(self, it, name=None):
    super(cell[0], self).__init__(name=name)
    self.it, self.slots = it, {}
    for s in CLASSES[cname].get("__init__", []):
      it.stmt(s, np.ones(1, F), self)
  def mk(n):
    def f(self, x):
      return self.it.body(cname, n, self, x)
    f.__name__ = n
    return f
  d = dict(__init__=__init__, __call__=mk("__call__"), meth=mk("meth"), boom=mk("boom"), tr=hk.transparent(mk("tr")),
           prop=property(lambda self: self.it.body(cname, "prop", self, self.px)), __repr__=lambda self: "M")
  cell.append(type(hk.Module)(cname, (hk.Module,), d))
  _k[cname] = cell[0]
  return cell[0]


STMTS = [["N", "a", "A"], ["C", "a"], ["C", "a", "meth"], ["CK", "a"], ["N", "b", "B"], ["C", "b"], ["C", "b", "meth"], ["MC", "Cx"], ["MC", "D"], ["MC", "E"],
         ["N", "g", "G"], ["C", "g"], ["C", "g", "tr"], ["NS", "ab", [["MC", "A"], ["P", "w", [1]]]], ["MC", "A", "ab"], ["MC", "None_"], ["MC", "H"]]
ES = [0, 1, 3, 5, 7, 8, 9, 16]


def arrs(d):
  return {k: (np.shape(v), np.asarray(v).tolist()) for k, v in d.items()}


def norm(t):
  return {m: arrs(b) for m, b in t.items() if len(b)}


def nlog(log):
  return [(n, arrs(p), arrs(s)) for n, p, s in log]


def check_prog(main, rec, summary=False):
  x = np.ones(2, F)
  mi = Model()
  mp, ms, mo = mi.init(lambda: mi.run(main, x), None)
  mlog = nlog(mi.log)
  mcalls = mi.calls
  mp2 = {m: {k: v * F(2) for k, v in b.items()} for m, b in mp.items()}
  ma = Model()
  ma.rows = []
  mout, ms2 = ma.apply(lambda: ma.run(main, x), mp2, ms, None)
  malog, rows = nlog(ma.log), [r[0] for r in ma.rows]
  rec.state(repr((mlog, malog)))

  def real(observe, hooks=None, scopes=False):
    it = Real()
    it.observe = observe
    t = hk.transform_with_state(lambda x: it.run(main, x))
    cm = hooks if hooks is not None else contextlib.nullcontext()
    with cm:
      p, s = t.init(None, x)
      l1 = nlog(it.log)
      p2 = {m: {k: v * F(2) for k, v in b.items()} for m, b in p.items()}
      out, s2 = t.apply(p2, s, None, x)
    return l1, nlog(it.log), norm(p), norm(s), (np.shape(out), np.asarray(out).tolist()), norm(s2)

  want = (norm(mp), norm(ms), (np.shape(mout), np.asarray(mout).tolist()), norm(ms2))
  l1, l2, *res = real(True)
  for what, a, b in (("init", l1, mlog), ("apply", l2, malog)):
    if a != b:
      i = next((i for i, (u, v) in enumerate(zip(a, b)) if u != v), None)
      raise Violation("%s of %r: params_dict/state_dict of %r is %r, expected %r" % (what, main, b[i][0] if i is not None else "?", a[i][1:] if i is not None else len(a), b[i][1:] if i is not None else len(b)))
  if tuple(res) != want:
    raise Violation("program %r with params_dict/state_dict called: %r, expected %r" % (main, res, want))
  rec.step(len(l1) + len(l2))
  _, _, *res = real(False)
  if tuple(res) != want:
    raise Violation("program %r: %r, expected %r" % (main, res, want))
  # method hooks
  hm = getattr(_module, "hook_methods", None)
  if hm is not None:
    log, depth = [], [0]
    @contextlib.contextmanager
    def hook(mod, method):
      if isinstance(mod, tuple(_k.values())) and method not in ("params_dict", "state_dict"):
        e = [method, mod, depth[0]]
        log.append(e)
      depth[0] += 1
      try:
        yield
      finally:
        depth[0] -= 1
    _, _, *res = real(False, hm(hook))
    if tuple(res) != want:
      raise Violation("program %r under a method hook: %r, expected %r" % (main, res, want))
    # super().__init__ of hk.Module is not wrapped for user classes: constructors appear once.
    got = [(m.module_name, n) for n, m, _ in log]
    exp = [(c[1], c[2]) for c in mcalls] + [(c[1], c[2]) for c in ma.calls]
    if got != exp or depth[0]:
      raise Violation("program %r: method hook saw %r, expected %r" % (main, got, exp))
    rec.step(len(got))
  if summary:
    check_summary(main, rows, want, rec)
  rec.trace()


def srow(r):
  d = r.module_details
  sh = lambda t: {k: tuple(v.shape) for k, v in t.items()}
  o = r.output_spec
  return (d.module.module_name, d.method_name, tuple(r.args_spec[0].shape) if r.args_spec else None, tuple(r.kwargs_spec["x"].shape) if r.kwargs_spec else None,
          None if o is None else tuple(o.shape), sh(d.params), sh(d.state), [(c.module.module_name, c.method_name) for c in r.call_stack])


def check_summary(main, rows, want, rec):
  x = np.ones(2, F)
  for how in ("fn", "transform", "transform_with_state", "spec"):
    it = Real()
    it.observe = False
    f = lambda x: it.run(main, x)
    g = {"fn": f, "spec": f, "transform": hk.transform(f), "transform_with_state": hk.transform_with_state(f)}[how]
    arg = jax.ShapeDtypeStruct((2,), F) if how == "spec" else x
    got = hk.experimental.eval_summary(g)(arg)
    live = [r for r in got if r is not None]
    gr = [None if r is None else srow(r) for r in got]
    # a method that raised has no complete row; the rows of all others must be there, in order
    exp = [r[:8] if r is not None else None for r in rows]
    strip = lambda l: [r for r in l if r is not None]
    # properties have no arguments
    exp2 = [(r[0], r[1], None if r[1] == "prop" else r[2], r[3], r[4], r[5], r[6], r[7]) for r in strip(exp)]
    if strip(gr) != exp2:
      i = next((i for i, (u, v) in enumerate(zip(strip(gr), exp2)) if u != v), None)
      raise Violation("eval_summary(%s) of %r: row %r is %r, expected %r" % (how, main, i, strip(gr)[i] if i is not None else len(strip(gr)), exp2[i] if i is not None else len(exp2)))
    for r in live:
      if r.context.module is not r.module_details.module or r.context.method_name != r.module_details.method_name:
        raise Violation("eval_summary of %r: context names another call" % (main,))
    if (x != 1).any():
      raise Violation("eval_summary changed its argument")
    if how == "fn":
      # inside another transform, nothing changes
      t0 = hk.transform_with_state(lambda: (hk.get_parameter("q", (), init=jnp.zeros), hk.Linear(1, name="l").module_name, hk.experimental.eval_summary(f)(x), hk.Linear(1, name="l").module_name))
      p, s = t0.init(None)
      out, s = t0.apply(p, s, None)
      if {m: list(b) for m, b in p.items()} != {"~": ["q"]} or len(s) or (out[1], out[3]) != ("l", "l_1"):
        raise Violation("eval_summary inside a transform of %r changes the outer function: %r %r %r" % (main, p, s, out))
    rec.step(len(gr))


FMT = {"module": "Module", "config": "Config", "owned_params": "Module params", "input": "Input", "output": "Output", "params_size": "Param count", "params_bytes": "Param bytes"}


def fmt(shape):
  return "f32[%s]" % ",".join(map(str, shape))


def check_table(main, rec):
  m = Model()
  x = np.ones(2, F)
  mp, ms, _ = m.init(lambda: m.run(main, x), None)
  ma = Model()
  ma.rows = []
  ma.apply(lambda: ma.run(main, x), mp, ms, None)
  names = {r[0][0]: r[0][8] for r in ma.rows}
  def row(r):
    size = sum(int(np.prod(v)) for v in r[5].values())
    fmb = lambda n: "%.2f KB" % (n / 1e3) if n >= 1e3 else "%.2f B" % n
    return {
        "module": "\n └ ".join("%s (%s%s)" % (n, CN[n], "" if mm == "__call__" else "." + mm) for n, mm in r[7]),
        "config": "M",
        "owned_params": "\n".join("%s: %s" % (k, fmt(v)) for k, v in sorted(r[9].items(), key=lambda i: (-np.prod(i[1]), i[0]))),
        "input": ("" if r[2] is None or r[1] == "prop" else fmt(r[2])) + ("\nx=" + fmt(r[3]) if r[3] is not None else ""),
        "output": "None" if r[4] is None else fmt(r[4]),
        "params_size": "{:,}".format(size),
        "params_bytes": fmb(4 * size),
    }
  CN = {}
  def find(r):
    CN[r[0]] = r[8]
  for r in ma.rows:
    find(r[0])
  for n, mm in ma.mods:
    CN[n] = mm.cls
  # name scopes are modules of class Module
  for r in ma.rows:
    for n, _ in r[0][7]:
      CN.setdefault(n, "Module")
  f = lambda x: _run(main, x)
  for k in range(len(FMT) + 1):
    for cols in itertools.combinations(FMT, k):
      for fil in ((), ("has_output",), ("has_params",), ("has_output", "has_params")):
        got = hk.experimental.tabulate(f, columns=list(cols), filters=list(fil), tabulate_kwargs={"tablefmt": "grid"})(x) if cols else None
        if not cols:
          continue
        rows = [row(r[0]) for r in ma.rows if not ("has_output" in fil and r[0][4] is None) and not ("has_params" in fil and not r[0][5])]
        if rows:
          want = tabulate_lib.tabulate([[r[c] for c in cols] for r in rows], headers=[FMT[c] for c in cols],
                                       colalign=["right" if c.startswith("params_") else "left" for c in cols], tablefmt="grid")
        else:
          want = "No modules matching filters."
        if got != want:
          raise Violation("tabulate(%r, %r) of %r:\n%s\nexpected\n%s" % (cols, fil, main, got, want))
        rec.step()
  for kw in (dict(columns=["nope"]), dict(filters=["nope"])):
    try:
      hk.experimental.tabulate(f, **kw)
    except ValueError:
      continue
    raise Violation("tabulate accepts %r" % kw)
  rec.trace()


def _run(main, x):
  it = Real()
  it.observe = False
  return it.run(main, x)


TABLES = [[["MC", "A"]], [["N", "a", "A"], ["CK", "a"], ["C", "a", "meth"]], [["N", "b", "B"], ["C", "b"], ["C", "b", "meth"]], [["MC", "None_"], ["MC", "A"]], [["N", "a", "A"], ["MC", "Cx"], ["MC", "D"]], [["P", "w", [2]]]]


def cases(tier):
  out = []
  q = tier == "quick"
  for n in (0, 1, 2):
    for c in itertools.product(range(len(STMTS)), repeat=n):
      out.append({"s": c, "sum": 1})
  for c in itertools.product(range(len(STMTS)), repeat=3):
    out.append({"s": c, "sum": int(not q or (all(i in ES for i in c) and c[0] == 0))})
  if not q:
    for c in itertools.product([0, 1, 4, 5, 7, 8, 10, 11, 13, 16], repeat=4):
      out.append({"s": c, "sum": 0})
  for i in range(len(TABLES)):
    out.append({"table": i})
  for i in range(len(STMTS)):
    out.append({"prof": i})
  return out


def run_case(case, rec):
  if "table" in case:
    return check_table(TABLES[case["table"]], rec)
  if "prof" in case:
    # profiler name scopes only annotate
    for j in range(len(STMTS)):
      main = [STMTS[0], STMTS[case["prof"]], STMTS[j]]
      if any(s[0] in ("MC",) and s[1] == "None_" for s in main):
        continue
      res = []
      for on in (False, True):
        hk.experimental.profiler_name_scopes(enabled=on)
        try:
          t = hk.transform_with_state(lambda x: _run(main, x))
          p, s = t.init(None, np.ones(2, F))
          out, s2 = t.apply(p, s, None, np.ones(2, F))
        finally:
          hk.experimental.profiler_name_scopes(enabled=False)
        res.append((norm(p), norm(s), np.asarray(out).tolist(), norm(s2)))
      if res[0] != res[1]:
        raise Violation("profiler_name_scopes changes %r: %r -> %r" % (main, res[0], res[1]))
      rec.step()
    return
  main = [STMTS[i] for i in case["s"]]
  check_prog(main, rec, case["sum"])
