"""Purity: arguments untouched, results immutable and unaliased, no memory of earlier or surrounding calls."""
import collections, itertools, types
import numpy as np
import haiku as hk
from mc import jx
from mc.core import Violation
from mc.prog import Interp, Model, Real, RefError, UserError, norm, val, flat_keys, I32
from mc.traced import KEY, keyf

TECHNIQUE = "explicit-state enumeration: all call histories and nestings in the bound over a set of programs, every result compared with the reference model's result for that call alone; all argument mapping types"
LEVEL = "model_checking"
BOUNDS = {"quick": "15 programs; 45 calls (init, apply on initial and on advanced state, per program); all histories of 2 calls, all histories of 3 over 6 programs (18 calls); every call nested in "
                   "every other program at every statement (also inside module methods), with and without a key; all 6x6 mapping types for params x 6x6 for state on 4 programs, plus missing entries",
          "thorough": "all histories of 3 calls over 10 programs, of 4 over 4 programs; nesting of depth 2"}
ASSUMPTIONS = ["hooks (custom creators, getters, interceptors) are not active around nested calls; they are ambient by design"]

PROGS = [
    {"main": [["P", "a", 3], ["P", "v", 2, [2]], ["P", "a", 4]]},
    {"main": [["P", "a", 5], ["I", "c"], ["S", "s"], ["G", "z", 4]]},
    {"main": [["Kr", 2], ["K"], ["Kn", 2], ["PK", "k"], ["Km"]]},
    {"classes": {"Mod": {"__call__": [["P", "w", 3], ["I", "c", 2]], "meth": [["P", "u", 2], ["MC", "Sub"]]}, "Sub": {"__call__": [["P", "w", 7], ["K"]]}},
     "main": [["N", "m", "Mod"], ["C", "m"], ["C", "m", "meth"], ["MC", "Mod"], ["C", "m"]]},
    {"classes": {"Mod": {"__init__": [["MC", "Sub"]], "__call__": [["MC", "Sub"], ["I", "c"]]}, "Sub": {"__call__": [["P", "w", 6], ["SC", "q", 4]]}},
     "main": [["MC", "Mod"], ["NS", "sc", [["MC", "Mod"], ["P", "w", 1]]], ["MC", "Mod"]]},
    {"main": [["CR", 4, "ps", [["P", "a", 2], ["G", "c", 3]]], ["GT", 6, "ps", [["P", "a", 2], ["g", "c"]]], ["I", "c"], ["P", "b", 1]]},
    {"main": [["P", "a", 3], ["I", "c"], ["X", "E"], ["P", "b", 3]]},
    {"classes": {"Mod": {"__call__": [["P", "w", 3], ["W", 4, [["K"], ["X", "E"]]]]}}, "main": [["T", [["MC", "Mod"]]], ["K"], ["I", "c"], ["T", [["MC", "Mod", "mod_5"]]]]},
    {"main": [["W", 3, [["K"], ["Kr", 3], ["K"]]], ["K"], ["PK", "p"], ["I", "c"]]},
    {"classes": {"Mod": {"__call__": [["P", "w", 3], ["I", "c"]]}}, "main": [["IT", 3, [["MC", "Mod"]]], ["TR", [["P", "a", 9], ["I", "c"], ["MC", "Mod"]]], ["P", "a", 2], ["MC", "Mod"]]},
    {"main": [["RI", [["P", "a", 2], ["K"]]], ["RA", [["I", "c"], ["P", "a", 5]]], ["R"]]},
    {"main": []},
    {"classes": {"Mod": {"__call__": [["P", "w", 3], ["I", "c"], ["K"]]}}, "main": [["I", "c"], ["jx", "jit", 0, [["I", "c"], ["K"]]], ["N", "m", "Mod"], ["jx", "jit", 0, [["C", "m"]]], ["K"]]},
    {"main": [["P", "a", 2], ["jx", "scan", 2, [["P", "a", 2], ["I", "c"], ["K"]]], ["K"]]},
    {"classes": {"Mod": {"__call__": [["P", "w", 3], ["I", "c"]]}}, "main": [["N", "m", "Mod"], ["jx", "cond", 1, [["C", "m"]], [["C", "m"], ["C", "m"]]], ["jx", "eval_shape", 0, [["C", "m"], ["K"]]], ["K"]]},
]
EAGER = [i for i in range(len(PROGS)) if not any(s[0] == "jx" for s in PROGS[i]["main"])]
CHUNK = 1
KINDS = ["init", "apply0", "apply1"]
KEYLESS = ["initn", "apply0n"]            # the same without a key


class Cb(Interp):
  """An interpreter with a statement that calls back."""
  cb = None

  def stmt(self, s, x, me):
    if s[0] == "CB":
      self.cb()
      return x
    return super().stmt(s, x, me)


def prog(i):
  return dict({"classes": {}}, **PROGS[i])


def hits(p):
  """Variants of a program with one callback inserted at every statement position (main, blocks of contexts, methods)."""
  import copy
  def blocks(b):
    yield b
    for s in b:
      if s[0] in ("NS", "W", "T", "RI", "RA", "jx"):
        for y in s:
          if isinstance(y, list) and (not y or isinstance(y[0], list)):
            yield from blocks(y)
  def all_blocks(p):
    yield from blocks(p["main"])
    if any(s[0] in ("IT", "CR", "GT") for s in p["main"]):
      return                           # methods may run under hooks, which are ambient
    for c in p["classes"].values():
      for b in c.values():
        yield from blocks(b)
  sizes = [len(b) for b in all_blocks(p)]
  for j, n in enumerate(sizes):
    for k in range(n + 1):
      q = copy.deepcopy(p)
      list(all_blocks(q))[j].insert(k, ["CB"])
      yield q


def model_call(p, kind, inputs):
  m = Model(jx.real_split, keyf)
  it = Cb(p, m)
  it.cb = lambda: None
  key = None if kind in KEYLESS else KEY
  try:
    if kind.startswith("init"):
      pp, ss, out = m.init(it.main, key)
      return ("ok", norm(pp), norm(ss))
    params, state = inputs
    (x, ks), s = m.apply(it.main, {a: dict(b) for a, b in params.items()}, {a: dict(b) for a, b in state.items()}, key)
    return ("ok", val(x), flat_keys(ks), norm(s))
  except (RefError, UserError) as e:
    return ("err", type(e).__name__ if isinstance(e, UserError) else "rejected")


def real_call(p, kind, inputs, cb=None, keep=None):
  it = Cb(p, Real(hk, keyf))
  it.cb = cb or (lambda: None)
  t = hk.transform_with_state(it.main)
  key = None if kind in KEYLESS else KEY.copy()
  try:
    if kind.startswith("init"):
      pp, ss = t.init(key)
      if keep is not None:
        keep += [pp, ss]
      return ("ok", norm(pp), norm(ss))
    (x, ks), s = t.apply(inputs[0], inputs[1], key)
    if keep is not None:
      keep.append(s)
    return ("ok", val(x), flat_keys(ks), norm(s))
  except UserError:
    return ("err", "UserError")
  except Violation:
    raise
  except (ValueError, AssertionError):
    return ("err", "rejected")


_canon = {}


def canon(i):
  """Inputs and expected results of every kind of call of program i, from the model."""
  if i in _canon:
    return _canon[i]
  p = prog(i)
  m = Model(jx.real_split, keyf)
  it = Interp(p, m)
  if i in (6,):
    it.armed = False
  pp, ss, _ = m.init(it.main, KEY)
  params = {a: {k: np.asarray(v) for k, v in b.items()} for a, b in pp.items()}
  s0 = {a: {k: np.asarray(v) for k, v in b.items()} for a, b in ss.items()}
  it = Interp(p, m)
  if i in (6,):
    it.armed = False
  _, s1 = m.apply(it.main, params, s0, KEY)
  s1 = {a: {k: np.asarray(v) + I32(3) for k, v in b.items()} for a, b in s1.items()}
  ins = {"init": None, "apply0": (params, s0), "apply1": (params, s1), "initn": None, "apply0n": (params, s0)}
  _canon[i] = (ins, {k: model_call(p, k, ins[k]) for k in KINDS + KEYLESS})
  return _canon[i]


def call(c, cb=None, keep=None, p=None):
  i, kind = c
  ins, exp = canon(i)
  return real_call(p or prog(i), kind, ins[kind], cb, keep), exp[kind]


def judge(c, got, want, what):
  if got != want:
    raise Violation("%s: call %r gives %r, expected %r" % (what, c, got, want))


def snapshot(x):
  return norm(x)


def run_history(h, rec):
  keep, snaps = [], []
  for n, c in enumerate(h):
    before = len(keep)
    got, want = call(c, keep=keep)
    snaps += [snapshot(x) for x in keep[before:]]
    judge(c, got, want, "after %r" % (h[:n],))
    rec.step()
  for x, s in zip(keep, snaps):
    if snapshot(x) != s:
      raise Violation("a mapping returned in history %r was changed later: %r -> %r" % (h, s, snapshot(x)))
  outside(h)
  rec.trace()
  rec.state(repr(h))


def outside(what):
  for f in (lambda: hk.get_parameter("a", (), init=np.zeros), lambda: hk.next_rng_key(), lambda: hk.get_state("c"), lambda: hk.running_init(), lambda: hk.Linear(1)):
    try:
      f()
    except ValueError:
      continue
    raise Violation("after %r the library still believes to be inside a transform" % (what,))


def run_nested(outer, inner, rec, depth2=None):
  """Every position of the outer program x one inner call."""
  want = canon(inner[0])[1][inner[1]]
  for q in hits(prog(outer[0])):
    calls = []
    def cb():
      if depth2 is None:
        calls.append(call(inner)[0])
      else:
        p2 = next(itertools.islice(hits(prog(inner[0])), 1, 2), None) or prog(inner[0])
        calls.append(call(inner, cb=lambda: calls2.append(call(depth2)[0]), p=p2)[0])
    calls2 = []
    got, exp = call(outer, cb=cb, p=q)
    judge(outer, got, exp, "with call %r nested inside (%r)" % (inner, q["main"]))
    for g in calls:
      judge(inner, g, want, "nested inside call %r (%r)" % (outer, q["main"]))
    for g in calls2:
      judge(depth2, g, canon(depth2[0])[1][depth2[1]], "nested inside %r inside %r" % (inner, outer))
    rec.step(1 + len(calls))
    rec.state(repr((q, outer, inner)))
  rec.trace()


class OwnMapping(collections.abc.Mapping):
  def __init__(self, d):
    self.d = d

  def __getitem__(self, k):
    return self.d[k]

  def __iter__(self):
    return iter(self.d)

  def __len__(self):
    return len(self.d)


TYPES = {
    "dict": lambda d: dict(d),
    "flat": lambda d: hk.data_structures.to_immutable_dict(dict(d)),
    "ordered": lambda d: collections.OrderedDict(reversed(list(d.items()))),
    "default": lambda d: collections.defaultdict(dict, d),
    "proxy": lambda d: types.MappingProxyType(dict(d)),
    "own": lambda d: OwnMapping(dict(d)),
}


def build(outer, inner, tree):
  return TYPES[outer]({m: TYPES[inner](b) for m, b in tree.items()})


def ident(x):
  """Structure with the identity of every leaf and the types of the mappings."""
  return (type(x).__name__, [(m, type(b).__name__, id(b) if type(x).__name__ != "FlatMapping" else 0,
                              [(k, id(v), np.asarray(v).tolist()) for k, v in b.items()]) for m, b in x.items()])


def scramble(x):
  def level(d):
    if isinstance(d, OwnMapping):
      d = d.d
    if isinstance(d, dict):
      for k in list(d):
        d[k] = "changed"
      d["new"] = {"q": 1}
  inner = list(x.values())
  for b in inner:
    level(b)
  level(x)


def frozen(x):
  for d in [x] + [b for b in x.values()]:
    ks = list(d)
    k = ks[0] if ks else "a"
    for f in (lambda: d.__setitem__(k, 1), lambda: d.__delitem__(k), lambda: d.update({k: 1}), lambda: d.pop(k), lambda: d.clear(),
              lambda: d.setdefault("zz", 1), lambda: d.popitem(), lambda: setattr(d, k, 1), lambda: setattr(d, "zz", 1)):
      try:
        f()
      except (TypeError, AttributeError):
        continue
      raise Violation("a returned mapping can be changed: %r" % (d,))


def run_types(i, po, pi, rec):
  p = prog(i)
  ins, exp = canon(i)
  for so, si in itertools.product(TYPES, repeat=2):
    for kind in ("apply0", "apply1"):
      params, state = build(po, pi, ins[kind][0]), build(so, si, ins[kind][1])
      i1, i2 = ident(params), ident(state)
      keep = []
      got = real_call(p, kind, (params, state), keep=keep)
      what = "params %s of %s, state %s of %s" % (po, pi, so, si)
      judge((i, kind), got, exp[kind], what)
      if ident(params) != i1 or ident(state) != i2:
        raise Violation("%s: apply of %r changed its argument: %r -> %r, %r -> %r" % (what, p["main"], i1, ident(params), i2, ident(state)))
      for x in keep:
        s = snapshot(x)
        scramble(params), scramble(state)
        if snapshot(x) != s:
          raise Violation("%s: the state returned by apply of %r changed with the caller's mapping: %r -> %r" % (what, p["main"], s, snapshot(x)))
        frozen(x)
      rec.step()
    # Missing entries: an error (parameters) or a fresh value (state), arguments untouched.
    for drop in ("param", "bundle", "state"):
      tp = {m: dict(b) for m, b in ins["apply0"][0].items()}
      ts = {m: dict(b) for m, b in ins["apply0"][1].items()}
      src = ts if drop == "state" else tp
      if not src or not list(src.values())[-1]:
        continue
      last = list(src)[-1]
      if drop == "bundle":
        del src[last]
      else:
        del src[last][list(src[last])[-1]]
      want = model_call(p, "apply0", (tp, ts))
      params, state = build(po, pi, tp), build(so, si, ts)
      i1, i2 = ident(params), ident(state)
      got = real_call(p, "apply0", (params, state))
      judge((i, "apply0"), got, want, "params %s of %s, state %s of %s without a %s" % (po, pi, so, si, drop))
      if ident(params) != i1 or ident(state) != i2:
        raise Violation("apply of %r without a %s changed its argument" % (p["main"], drop))
      rec.step()
  rec.trace()
  rec.state(("types", i, po, pi))


def run_args(i, rec):
  """The function gets the caller's very arguments; rng arrays, seeds and results of init."""
  p = prog(i)
  for args, kwargs in (((), {}), ((np.arange(2),), {}), (({"a": [1, {"b": np.ones(2)}]}, [3]), {"k": {"z": (1, 2)}}), ((None,), {"params": 3, "state": 4, "rng": 5})):
    seen = []
    it = Cb(p, Real(hk, keyf))
    def f(*a, **k):
      seen.append((a, k))
      return it.main()
    t = hk.transform_with_state(f)
    rng = KEY.copy()
    kw = {k: v for k, v in kwargs.items() if k not in ("params", "state", "rng")}
    try:
      pp, ss = t.init(rng, *args, **kw)
    except UserError:
      continue
    frozen(pp), frozen(ss)
    n1 = (norm(pp), norm(ss))
    if (rng != KEY).any():
      raise Violation("init changed the rng it was given")
    t.apply(pp, ss, rng, *args, **kw)
    t.init(rng, *args, **kw)
    if (norm(pp), norm(ss)) != n1 or (rng != KEY).any():
      raise Violation("later calls changed the mappings returned by init, or the rng")
    if len(seen) != 3 or any(len(a) != len(args) or any(x is not y for x, y in zip(a, args)) or set(k) != set(kw) or any(k[n] is not kw[n] for n in kw) for a, k in seen):
      raise Violation("the function did not receive the caller's arguments: %r" % (seen,))
    rec.step(3)
  rec.trace()
  rec.state(("args", i))


def cases(tier):
  q = tier == "quick"
  out = []
  calls = [[i, k] for i in range(len(PROGS)) for k in KINDS]
  for i in range(len(PROGS)):
    out.append({"t": "args", "i": i})
  for a in calls:
    out.append({"t": "hist", "pre": [a], "n": 1, "alpha": list(range(len(PROGS)))})
  for i in (1, 3, 5, 9):
    for po, pi in itertools.product(TYPES, repeat=2):
      out.append({"t": "types", "i": i, "po": po, "pi": pi})
  six = [1, 3, 6, 7, 8, 10]
  alpha3 = six if q else EAGER[:10]
  for a in [[i, k] for i in alpha3 for k in KINDS]:
    out.append({"t": "hist", "pre": [a], "n": 2, "alpha": alpha3})
  if not q:
    four = [1, 3, 7, 8]
    for a in [[i, k] for i in four for k in KINDS]:
      for b in [[i, k] for i in four for k in KINDS]:
        out.append({"t": "hist", "pre": [a, b], "n": 2, "alpha": four})
  for a in [[i, k] for i in (8, 4, 2, 1) for k in KEYLESS] + calls[::-1]:
    inner = calls if a[0] in EAGER else [c for c in calls if c[0] in (0, 1, 4)]   # without keys, which would be traced
    inner = [c for c in inner if c[0] in EAGER]
    inner += [[i, k] for i in (1, 2, 3, 8) for k in KEYLESS]
    step = 12 if a[0] in EAGER else 1
    for k in range(0, len(inner), step):
      out.append({"t": "nest", "outer": a, "inner": inner[k:k + step]})
    if a[0] in (1, 3, 9):
      out.append({"t": "nest", "outer": a, "inner": [[12, "apply0"], [13, "init"], [14, "apply1"]]})
  if not q:
    for a in [[i, k] for i in (1, 3, 4, 8) for k in KINDS]:
      for c in [[i, k] for i in (1, 3, 6, 8) for k in KINDS]:
        out.append({"t": "nest2", "outer": a, "mid": c, "inner": [[i, k] for i in (1, 3, 6, 8) for k in KINDS]})
  return out


def run_case(case, rec):
  t = case["t"]
  if t == "args":
    run_args(case["i"], rec)
  elif t == "types":
    run_types(case["i"], case["po"], case["pi"], rec)
  elif t == "hist":
    pre = [tuple(c) for c in case["pre"]]
    for rest in itertools.product([(i, k) for i in case["alpha"] for k in KINDS], repeat=case["n"]):
      run_history(pre + list(rest), rec)
  elif t == "nest":
    for c in case["inner"]:
      run_nested(tuple(case["outer"]), tuple(c), rec)
  elif t == "nest2":
    for c in case["inner"]:
      run_nested(tuple(case["outer"]), tuple(case["mid"]), rec, tuple(c))
