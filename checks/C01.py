"""Parameter and state semantics of init/apply: all bounded programs x histories."""
import itertools
import numpy as np
import haiku as hk
from mc.core import Violation
from mc.prog import Interp, Model, Real, RefError, norm, val, I32

LEVEL = "model_checking"
BOUNDS = {"quick": "flat programs: all sequences of length <=4 over 16 statements (length 4 over 9); module programs: all class bodies of "
                   "length <=2 over 6 statements for __call__ x 8 bodies for a second method/constructor x 9 use patterns; "
                   "history: init, init again, apply, apply on returned state, apply on perturbed+extended inputs, apply with every single "
                   "entry removed, stateless init/apply",
          "thorough": "as quick with flat programs of length <=5 (9 statements) and class bodies of length <=3"}
ASSUMPTIONS = ["values are int32 scalars/vectors: the semantics are parametric in the values",
               "the reference model mc/ref.py is the documented semantics"]

FLAT = [["P", "a", 3], ["P", "a", 4], ["P", "b", 0], ["P", "v", 2, [2]], ["P", "a", 3, [2]], ["PX", "d"], ["P", "m", 2, [2, 3]], ["P", "m", 2, [3, 2]], ["G", "m", 2, [2, 3]],
        ["G", "a", 0], ["g", "a"], ["S", "a"], ["I", "c"], ["SC", "v", 9], ["G", "v", 1, [2]], ["R"]]
FLAT4 = [FLAT[i] for i in (0, 1, 2, 4, 9, 10, 11, 12, 13)]
BODY = [["P", "w", 3], ["G", "s", 5], ["S", "s"], ["I", "s", 2], ["MC", "Sub"], ["P", "w", 4]]
EXTRA = [["__init__", []], ["__init__", [["P", "w", 8]]], ["__init__", [["MC", "Sub"]]], ["__init__", [["N", "k", "Sub"], ["C", "k"]]],
         ["meth", [["P", "w", 6]]], ["meth", [["I", "s"]]], ["meth", [["MC", "Sub"]]], ["meth", [["self", "__call__"]]]]
PATTERNS = [
    [["N", "m", "Mod"], ["C", "m"]],
    [["N", "m", "Mod"], ["C", "m"], ["C", "m"]],
    [["N", "m", "Mod"], ["N", "n", "Mod"], ["C", "n"], ["C", "m"]],
    [["N", "m", "Mod"], ["C", "m", "meth"], ["C", "m"], ["C", "m", "meth"]],
    [["N", "m", "Mod"], ["NS", "sc", [["C", "m"], ["P", "w", 1], ["MC", "Mod"]]]],
    [["N", "m", "Mod"], ["N", "u", "User"], ["C", "u"], ["C", "m"]],
    [["P", "w", 2], ["I", "s"], ["MC", "Mod"], ["P", "w", 1], ["I", "s"]],
    [["RI", [["MC", "Mod"]]], ["RA", [["MC", "Mod"], ["MC", "Mod", "mod"]]]],
    [["N", "u", "Outer"], ["C", "u"], ["C", "u", "meth"], ["C", "u"]],
]
SUBS = {"Sub": {"__call__": [["P", "w", 7], ["I", "s", 1]]},
        "User": {"__call__": [["C", "^m"], ["P", "w", 5], ["C", "^m", "meth"]]},
        "Outer": {"__init__": [["N", "i", "Mod"]], "__call__": [["C", "i"], ["MC", "Mod"], ["I", "s"]], "meth": [["C", "i", "meth"], ["P", "w", 2]]}}


def seqs(alpha, n):
  return itertools.product(alpha, repeat=n)


def cases(tier):
  out = []
  for n in (0, 1, 2, 3):
    for s in seqs(FLAT, n):
      out.append({"classes": {}, "main": list(s)})
  for n in ((4,) if tier == "quick" else (4, 5)):
    for s in seqs(FLAT4, n):
      out.append({"classes": {}, "main": list(s)})
  bodies = [list(s) for n in ((0, 1, 2) if tier == "quick" else (0, 1, 2, 3)) for s in seqs(BODY, n)]
  for pat in PATTERNS:
    for b in bodies:
      for name, e in EXTRA:
        cl = dict(SUBS)
        cl["Mod"] = {"__call__": b, name: e}
        out.append({"classes": cl, "main": pat})
  return out


def attempt(f):
  try:
    return ("ok", f())
  except (RefError, ValueError, AssertionError, KeyError) as e:
    return ("err", type(e).__name__)


def perturb(tree, mul, add):
  return {m: {k: (np.asarray(v) * I32(mul) + I32(add)).astype(np.int32) for k, v in b.items()} for m, b in tree.items()}


def plain(tree):
  return {m: dict(b.items()) for m, b in tree.items() if len(b)}


def run_case(case, rec):
  real, model = Real(hk), Model()
  ri, mi = Interp(case, real), Interp(case, model)
  a, k = np.int32(5), np.int32(11)
  fw = hk.transform_with_state(ri.main)
  fs = hk.transform(ri.main)

  def check(what, got, want):
    rec.step()
    if got != want:
      raise Violation("%s: library gives %r, reference gives %r" % (what, got, want))

  def m_init():
    p, s, _ = model.init(lambda: mi.main(a, k=k), None)
    return norm(p), norm(s)

  def r_init():
    p, s = fw.init(None, a, k=k)
    return norm(p), norm(s), p, s

  m = attempt(m_init)
  r = attempt(r_init)
  check("init", (r[0], r[1][:2] if r[0] == "ok" else None), (m[0], m[1] if m[0] == "ok" else None))
  r2 = attempt(r_init)
  check("init (second call)", (r2[0], r2[1][:2] if r2[0] == "ok" else None), (m[0], m[1] if m[0] == "ok" else None))

  def both(what, params, state):
    def m_apply():
      o, s = model.apply(lambda: mi.main(a, k=k), params, state, None)
      return val(o[0]), norm(s), s
    def r_apply():
      o, s = fw.apply(params, state, None, a, k=k)
      return val(o[0]), norm(s), s
    mm, rr = attempt(m_apply), attempt(r_apply)
    check(what + " params=%r state=%r" % (params, state), (rr[0], rr[1][:2] if rr[0] == "ok" else None),
          (mm[0], mm[1][:2] if mm[0] == "ok" else None))
    rec.state((mm[0], mm[1][:2] if mm[0] == "ok" else None))
    rec.outcome((what, mm[0], mm[1][:2] if mm[0] == "ok" else None))
    return rr

  if r[0] == "ok":
    params, state = plain(r[1][2]), plain(r[1][3])
    rec.state(r[1][:2])
  else:
    rec.state(("rejected", repr(case)))
    params = {"~": {"a": np.int32(3), "b": np.int32(0)}, "mod": {"w": np.int32(1)}}
    state = {"~": {"a": np.int32(0)}}
  q = both("apply", r[1][2] if r[0] == "ok" else params, r[1][3] if r[0] == "ok" else state)
  if q[0] == "ok":
    q2 = both("apply on returned state", params, q[1][2])
    if q2[0] == "ok":
      both("apply twice on returned state", params, q2[1][2])
  pp, ps = perturb(params, 5, 1), perturb(state, 3, 2)
  pp["zz/extra"] = {"q": np.int32(1)}
  ps["zz/extra"] = {"q": np.int32(4), "n": np.zeros((2,), np.int32)}
  pp["zz/none"], ps["zz/none"] = {}, {}
  q = both("apply on perturbed and extended inputs", pp, ps)
  if q[0] == "ok" and not set(ps) <= set(q[1][2]):
    raise Violation("apply does not return the modules %r of the state %r" % (sorted(set(ps) - set(q[1][2])), ps))
  for src, is_p in ((params, True), (state, False)):
    for mname in src:
      for n in src[mname]:
        cut = {mm: {kk: v for kk, v in b.items() if (mm, kk) != (mname, n)} for mm, b in src.items()}
        both("apply without %s/%s" % (mname, n), cut if is_p else params, state if is_p else cut)
  # Shape change of every parameter must be rejected wherever it is requested.
  for mname in params:
    for n in params[mname]:
      have = np.shape(params[mname][n])
      for shape in ((3,), (1,), (1, 1), (2, 1), (1, 2), (), (0,), (6,), have[::-1], have + (1,), (1,) + have):
        if shape == have:
          continue
        bad = {mm: {kk: (np.ones(shape, np.int32) if (mm, kk) == (mname, n) else v) for kk, v in b.items()} for mm, b in params.items()}
        both("apply with shape %r of %s/%s" % (shape, mname, n), bad, state)

  # Stateless transform.
  uses_state = m[0] == "ok" and bool(m[1][1])
  want = ("err", None) if m[0] == "err" or uses_state else ("ok", m[1][0])
  g = attempt(lambda: norm(fs.init(None, a, k=k)))
  check("transform(f).init", (g[0], g[1] if g[0] == "ok" else None), want)
  mm = attempt(lambda: model.apply(lambda: mi.main(a, k=k), params, {}, None))
  if mm[0] == "ok" and not norm(mm[1][1]):
    want = ("ok", val(mm[1][0][0]))
  else:
    want = ("err", None)
  g = attempt(lambda: val(fs.apply(params, None, a, k=k)[0]))
  check("transform(f).apply", (g[0], g[1] if g[0] == "ok" else None), want)
  rec.trace()
