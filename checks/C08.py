"""hk.cond/switch/scan/fori_loop/while_loop against plain Python control flow."""
import itertools
import numpy as np
import jax, jax.numpy as jnp
import haiku as hk
from mc import traced, jx
from mc.core import Violation

LEVEL = "model_checking"
BOUNDS = {"quick": "loops: scan (forward, reverse, unrolled, length-only), fori_loop (from 0, from 1, traced bound), while_loop x trip counts 0..3 x all bodies of "
                   "length <=2 over 8 statements x rng reservation states; cond/switch: all predicates and indices -1..3 x branch bodies of length <=1; "
                   "nesting: 6 outer x 12 inner operators x 3x3x3 bodies; init and two applies each",
          "thorough": "as quick with bodies of length <=3, trip counts 0..5, all preludes and nesting depth 3"}
ASSUMPTIONS = ["programs are traced by the real JAX and the traced program is evaluated by mc/jx.py; cases marked xla are executed by XLA instead",
               "key values inside control flow are only required to be distinct, never split twice and not also handed out"]

ST = [["P", "w", 3], ["I", "s"], ["S", "s"], ["G", "t", 4], ["K"], ["C", "m"], ["TK"], ["Kn", 2]]
RES = [[], [["Kr", 1]], [["Kr", 3]], [["Kr", 2], ["K"]]]
MAKE = [["N", "m", "Mod"], ["C", "m"], ["P", "w", 2], ["I", "s"], ["G", "t", 1]]
POST = [["P", "w", 6], ["I", "s"], ["G", "t", 7], ["K"], ["C", "m"], ["K"]]
MOD = {"Mod": {"__call__": [["P", "w", 5], ["I", "c"], ["MC", "Sub"]]}, "Sub": {"__call__": [["PKn", "k"], ["I", "c", 3], ["K"]]}}
LOOPS = ["scan", "rscan", "fori", "while", "uscan", "urscan", "lscan", "fori1", "forix"]
NB = [[], [["I", "s"], ["S", "t"], ["TK"]], [["K"], ["C", "m"]]]


def prog(main, made=True):
  return {"classes": MOD, "main": (MAKE if made else MAKE[:1]) + main + POST}


def only_apply(kind, st):
  return ["RA", [st]] if kind == "while" else st


def cases(tier):
  out = []
  thorough = tier == "thorough"
  counts = range(6) if thorough else range(4)
  for n in range(4 if thorough else 3):
    for kind in LOOPS:
      if n == 2 and kind not in LOOPS[:4] and not thorough:
        continue
      for body in itertools.product(ST, repeat=n):
        body = list(body)
        nk = sum({"K": 1, "C": 1, "Kn": 2}.get(s[0], 0) for s in body)
        for c in counts:
          if n == 2 and c in (1,) and not thorough:
            continue
          for res in (RES if n < 2 else RES[:1] + RES[2:3] if nk and c in (0, 2) else RES[:1]):
            out.append({"p": prog(res + [only_apply(kind, ["jx", kind, c, body])])})
        if kind != "while" and n == 1:
          for c in counts:              # the body itself creates parameters and state
            out.append({"p": prog([["jx", kind, c, body]], made=False)})
  one = [[]] + [[s] for s in ST if s[0] != "TK"]
  for b1, b2 in itertools.product(one, one):
    for pred in (0, 1):
      for res in RES[:1] + RES[2:]:
        out.append({"p": prog(res + [["jx", "cond", pred, b1, b2]])})
      out.append({"p": prog([["jx", "cond5", pred, b1, b2]])})
    out.append({"p": prog([["jx", "condx", 0, b1, b2]])})
    out.append({"p": prog([["K"], ["I", "s"], ["jx", "condx", 0, b1, b2]])})
    for i in range(-1, 4):
      out.append({"p": prog([["jx", "switch", i, b1, [["I", "s"]], b2]])})
    out.append({"p": prog([["jx", "switchx", 0, b1, b2, [["TK2"]][:0], [["K"], ["S", "t"]]]])})
  for b in one:
    for pred in (0, 1):
      out.append({"p": prog([["jx", "condsame", pred, b]])})
    for i in (-1, 0, 1):               # other numbers of branches
      for res in RES[:1] + RES[2:3]:
        out.append({"p": prog(res + [["jx", "switch", i, b]])})
      out.append({"p": prog([["jx", "switch", i, [["I", "s"]], b]])})
      out.append({"p": prog([["jx", "switch", i + 2, b, [["K"]], [["I", "s"]], b, []]])})
  outer = [("scan", 2), ("fori", 2), ("while", 2), ("cond", 1), ("rscan", 3), ("switch", 1)]
  inner = [("scan", 2), ("rscan", 2), ("fori", 2), ("while", 2), ("cond", 1), ("cond", 0), ("switch", 2), ("jit", 0), ("remat", 0), ("vg", 0), ("named", 0), ("condx", 0), ("scan", 0), ("eval_shape", 0)]
  for (ok, oa), (ik, ia) in itertools.product(outer, inner):
    for a, b, c in itertools.product(NB, NB, NB):
      if not thorough and a and c and a != c:
        continue
      def st(k, v, *blocks):
        blocks = list(blocks)
        if k in ("cond", "condx", "switch"):
          blocks = ([blocks[0], [["I", "s"]]] if k != "switch" else [[["K"]], blocks[0], [["S", "s"]]])
          if k == "cond" and not v:
            blocks = blocks[::-1]
        return ["jx", k, v] + blocks
      ib = [s for s in b if s[0] != "TK"] if ik in ("jit", "remat", "vg", "named", "cond", "condx", "switch", "eval_shape") and ok not in ("scan", "fori", "while", "rscan") else b
      fa, fc = a, c
      if ok in ("cond", "switch"):
        fa, fc = [s for s in a if s[0] != "TK"], [s for s in c if s[0] != "TK"]
      inner_st = st(ik, ia, ib)
      if "while" in (ik, ok):
        out.append({"p": prog([["RA", [st(ok, oa, fa + [inner_st] + fc)]]])})
      else:
        out.append({"p": prog([["Kr", 2], st(ok, oa, fa + [inner_st] + fc)])})
  # wraps around loops, and loops in module methods
  for k in ("jit", "remat", "vg", "named"):
    for lk, la in outer:
      for b in NB:
        blocks = [b] if lk not in ("cond", "switch") else [[s for s in b if s[0] != "TK"]] * 3
        if lk == "cond":
          blocks = blocks[:2]
        out.append({"p": prog([["RA" if lk == "while" else "T", [["jx", k, 0, [["jx", lk, la] + blocks, ["K"], ["I", "s"]]]]]])})
  for lk, la in outer:
    b = [["P", "w", 3], ["I", "s"], ["MC", "Sub"]]
    blocks = {"cond": [b, b], "switch": [b, b]}.get(lk, [b])
    cl = dict(MOD, Outer={"__call__": [["RI", b], ["RA", [["jx", lk, la] + blocks]], ["I", "s"], ["K"]]})
    out.append({"p": {"classes": cl, "main": MAKE + [["N", "o", "Outer"], ["C", "o"], ["C", "o"]] + POST}})
  if thorough:
    for ks in itertools.product([("scan", 2), ("fori", 2), ("cond", 1), ("rscan", 2)], repeat=3):
      blk = [["I", "s"], ["K"]]
      for k, v in reversed(ks):
        blk = [["I", "s"], ["K"], ["jx", k, v, blk] + ([[["S", "s"]]] if k == "cond" else []), ["C", "m"]] if k != ks[0] else [["jx", k, v, blk] + ([[["S", "s"]]] if k == "cond" else [])]
      out.append({"p": prog(blk)})
  # executed by XLA, not by the jaxpr evaluator
  for kind in LOOPS:
    out.append({"p": prog([["Kr", 2], only_apply(kind, ["jx", kind, 2, [["I", "s"], ["K"], ["C", "m"], ["TK"]]])]), "xla": 1})
  for kind in ("cond", "switch", "cond5"):
    for v in (0, 1):
      out.append({"p": prog([["Kr", 2], ["jx", kind, v, [["I", "s"], ["K"]], [["S", "s"]]]]), "xla": 1})
  for r in range(4):
    for what in ("key", "keys", "maybe", "set", "setnew", "mod"):
      out.append({"whilecond": [r, what]})
  for n in (2, 3):
    for kind in ("scan", "fori"):
      out.append({"newparam": [kind, n]})
  for n in (0, 1, 3):
    out.append({"whileinit": n})
  for n in range(4):
    for rev in (0, 1):
      out.append({"tree": [n, rev]})
  for r in range(3):
    for n in range(4):
      out.append({"apply_missing": [r, n]})
  return out


def run_case(case, rec):
  if "p" in case:
    traced.run(case["p"], rec, exact_keys=False, eager=bool(case.get("xla")))
    return
  rec.trace(); rec.step()
  for k in ("whilecond", "newparam", "whileinit", "tree", "apply_missing"):
    if k in case:
      globals()["do_" + k](case[k])


def must_raise(f, what, exc=(ValueError, AssertionError)):
  try:
    f()
  except exc:
    return
  raise Violation(what)


KEY = np.array([0, 5], np.uint32)


def do_whilecond(a):
  r, what = a

  class M(hk.Module):
    def __call__(self, v):
      c = hk.get_state("c", (), np.int32, init=lambda *_: np.int32(0))
      hk.set_state("c", c + 1)
      return v + c

  def f():
    m = M()
    if hk.running_init():
      hk.set_state("old", np.int32(1))
      m(np.int32(0))
      return 0
    hk.reserve_rng_keys(r)

    def cond(v):
      if what == "key": return jax.random.uniform(hk.next_rng_key()) < v
      if what == "keys": return jax.random.uniform(hk.next_rng_keys(2)[1]) < v
      if what == "maybe": return jax.random.uniform(hk.maybe_next_rng_key()) < v
      if what == "set": hk.set_state("old", v)
      if what == "setnew": hk.set_state("new", v)
      if what == "mod": m(v)
      return v < 3
    return hk.while_loop(cond, lambda v: v + 1, np.int32(0))

  t = hk.transform_with_state(f)
  p, s = t.init(KEY)
  must_raise(lambda: jx.trace_eval(lambda p, s: t.apply(p, s, KEY), p, s),
             "while_loop accepts a condition that changes state or draws keys (%s, %d keys reserved)" % (what, r), ValueError)


def do_newparam(a):
  kind, n = a
  count = [0]

  def body(x):
    count[0] += 1
    w = hk.get_parameter("w%d" % count[0], (), np.int32, init=lambda *_: np.int32(count[0]))
    return x + w

  def f():
    count[0] = 0
    if kind == "scan":
      return hk.scan(lambda c, x: (body(c), x), np.int32(0), np.arange(n))
    return hk.fori_loop(0, n, lambda i, v: body(v), np.int32(0))
  t = hk.transform(f)
  if kind == "scan":
    must_raise(lambda: t.init(None), "scan creates parameters in a later iteration without an error")


def do_whileinit(n):
  t = hk.transform(lambda: hk.while_loop(lambda v: v < n, lambda v: v + 1, np.int32(0)))
  must_raise(lambda: t.init(None), "while_loop is accepted during init", ValueError)


def do_tree(a):
  """Pytree carries, inputs and outputs in order, in both directions, as seen by the function while initialising and applying."""
  n, rev = a
  xs = {"a": np.arange(n, dtype=np.int32) + 10, "b": (np.arange(2 * n, dtype=np.int32).reshape(n, 2),)}
  for given, unroll in itertools.product((False, True), (1, 2, 3)):
    seen = []

    def f(xs):
      def body(c, x):
        w = hk.get_parameter("w", (), np.int32, init=lambda *_: np.int32(2))
        k = hk.get_state("k", (), np.int32, init=lambda *_: np.int32(0))
        hk.set_state("k", k + 1)
        return {"s": c["s"] * 3 + x["a"] * w, "l": [c["l"][0] + x["b"][0].sum()]}, (c["s"], {"k": k, "b": x["b"][0] * 2}, None)
      out = hk.scan(body, {"s": np.int32(1), "l": [np.int32(4)]}, xs, reverse=bool(rev), unroll=unroll, **({"length": n} if given else {}))
      seen.append(out)
      return out
    t = hk.transform_with_state(f)

    def compare(what, out, k1, w, k):
      (c, ys) = out
      sv, lv, exp = 1, 4, [None] * n
      for i in (range(n) if not rev else reversed(range(n))):
        exp[i] = (sv, k, (xs["b"][0][i] * 2).tolist())
        sv, lv, k = sv * 3 + int(xs["a"][i]) * w, lv + int(xs["b"][0][i].sum()), k + 1
      if (k1 is not None and int(k1) != k) or int(c["s"]) != sv or int(c["l"][0]) != lv:
        raise Violation("%s: scan carry/state: %r %r, expected %r %r %r" % (what, c, k1, sv, lv, k))
      if np.shape(ys[0]) != (n,) or np.shape(ys[1]["k"]) != (n,) or np.shape(ys[1]["b"]) != (n, 2) or ys[2] is not None:
        raise Violation("%s: scan outputs have the wrong structure: %r" % (what, ys))
      got = [(int(ys[0][i]), int(ys[1]["k"][i]), ys[1]["b"][i].tolist()) for i in range(n)]
      if got != exp:
        raise Violation("%s: scan outputs: %r expected %r" % (what, got, exp))
    ((p, s), out), _ = jx.trace_eval(lambda xs: (t.init(None, xs), seen[-1]), xs)
    if int(p["~"]["w"]) != 2 or int(s["~"]["k"]) != 0 or len(jax.tree_util.tree_leaves((p, s))) != 2:
      raise Violation("scan init: %r %r" % (p, s))
    compare("init (n=%d, reverse=%d, unroll=%d)" % (n, rev, unroll), out, None, 2, 0)
    (out, s1), _ = jx.trace_eval(lambda p, s, xs: t.apply(p, s, None, xs), {"~": {"w": np.int32(5)}}, {"~": {"k": np.int32(7)}}, xs)
    compare("apply (n=%d, reverse=%d, unroll=%d)" % (n, rev, unroll), out, s1["~"]["k"], 5, 7)


def do_apply_missing(a):
  r, n = a
  kinds = ["scan", "fori", "while", "cond"]

  def f():
    if hk.running_init():
      return 0
    g = lambda x: x + hk.get_parameter("w", (), np.int32, init=lambda *_: np.int32(1))
    x = np.int32(0)
    if kinds[n] == "scan": return hk.scan(lambda c, t: (g(c), t), x, np.arange(r + 1))[0]
    if kinds[n] == "fori": return hk.fori_loop(0, r + 1, lambda i, v: g(v), x)
    if kinds[n] == "while": return hk.while_loop(lambda v: v < r, g, x)
    return hk.cond(True, g, g, x)
  t = hk.transform(f)
  for p in ({}, {"~": {"v": np.int32(1)}}, {"o": {"w": np.int32(1)}}):
    must_raise(lambda: t.apply(p, None), "%s creates a parameter at apply time" % kinds[n], (ValueError, KeyError))
