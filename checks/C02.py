"""Fault injection at every point: nothing of an aborted run stays behind."""
import itertools
import numpy as np
import jax
import haiku as hk
from mc import jx
from mc.core import Violation
from mc.prog import Interp, Model, Real, RefError, UserBase, norm, val, flat_keys, I32
from mc.traced import KEY, keyf

LEVEL = "fault_enumeration"
RULE = ("A case is a chain of nested contexts (module call, constructor, method, property, transparent method, name scope, rng scope, creator, getter, "
        "interceptor, nested transform, jit/remat/named_call/value_and_grad/vmap/eval_shape/cond/scan/fori_loop/while_loop), a fault at its innermost point and "
        "the level at which it is handled (or not); probes run at every level after the handler. Non-trivial: the fault fired. Distinct by case.")
BOUNDS = {"quick": "all chains of length 1 x 13 faults and length 2 x 1 to 13 faults over 21 contexts, length 3 over the 11 non-tracing contexts; every handler level; init and apply",
          "thorough": "all chains of length 2 x 13 faults, length 3 over all 21 contexts"}
ASSUMPTIONS = ["when a fault passes through a tracing transformation, no effects precede it inside that transformation (their roll-back is not specified)"]
PLAIN = ["call", "init", "meth", "prop", "tmeth", "set", "ns", "wrng", "cr", "gt", "it", "tr"]
TRACED = ["jit", "remat", "named", "vg", "vmap", "eval_shape", "cond", "scan", "fori", "while"]
CTRL = ("cond", "scan", "fori", "while")
LEAVES = ["XE", "XB", "XS", "PR", "GR", "shape", "nostate", "badname", "dupname", "CRX", "GTX", "ITXpre", "ITXpost"]


def cases(tier):
  out = []
  allc = PLAIN + TRACED
  for n in (1, 2, 3):
    for ch in itertools.product(allc if n < 3 or tier == "thorough" else PLAIN, repeat=n):
      if "tr" in ch and {"while", "eval_shape"} & set(ch[ch.index("tr"):]):
        continue                       # no such nested init/apply program
      if "set" in ch and n > 2:
        continue
      leaves = LEAVES if n == 1 or (n == 2 and tier == "thorough") else ["XE", "PR", "ITXpost"] if n == 2 else ["XE"] if tier == "quick" else ["XE", "ITXpost"]
      if n == 2 and tier == "quick" and not any(c in TRACED for c in ch):
        leaves = LEAVES
      if n == 2 and tier == "quick" and all(c in TRACED for c in ch):
        leaves = ["XE"]
      for leaf in leaves:
        if leaf == "XS" and any(c in TRACED for c in ch):
          continue                     # JAX itself turns StopIteration into RuntimeError
        for h in range(-1, n + 1):
          if leaf in ("shape", "GTX", "ITXpre", "ITXpost", "dupname") and any(c in TRACED and 0 <= h <= i for i, c in enumerate(ch)):
            continue                   # these faults come after an effect; see ASSUMPTIONS
          out.append({"chain": ch, "leaf": leaf, "handler": h})
  for leaf in ("XE", "XB", "PR"):
    for top in ("opt", "summary", "jitinit", "gradapply", "transform_and_run"):
      out.append({"top": top, "leaf": leaf})
  return out


def leaf_stmts(leaf):
  if leaf[0] == "X":
    return [["X", leaf[1]]]
  if leaf == "PR":
    return [["PR", "pr"]]
  if leaf == "GR":
    return [["GR", "gr"]]
  if leaf == "CRX":
    return [["CRX", [["P", "px", 2]]]]
  if leaf == "GTX":
    return [["GTX", [["P", "px", 2]]]]
  if leaf == "ITXpre":
    return [["ITX", "pre", [["MC", "Leafm"]]]]
  if leaf == "ITXpost":
    return [["ITX", "post", [["MC", "Leafm"]]]]
  return [["LE", leaf]]


def probe(l):
  return [["P", "p%d" % l, l + 2], ["I", "s%d" % l], ["Km"], ["MC", "Probe%d" % l]]


def build(case):
  ch, h = case["chain"], case["handler"]
  classes = {"Leafm": {"__call__": [["P", "w", 3]]}, "Probe": {"__call__": []}}
  for l in range(len(ch) + 1):
    classes["Probe%d" % l] = {"__call__": [["P", "w", 1], ["I", "c"], ["Km"]]}
  traced_from = min([i for i, c in enumerate(ch) if c in TRACED] + [99])
  blk = None
  for l in range(len(ch), -1, -1):
    # content of level l: (pre-effects,) the inner context or the fault, handled here or not, then probes.
    inner = leaf_stmts(case["leaf"]) if l == len(ch) else [wrap(ch[l], blk, l, classes)]
    if h == l:
      inner = [["T", inner]]
    pre = [["P", "q%d" % l, 1], ["I", "r%d" % l]] if l <= traced_from or h >= l else []
    blk = pre + inner + probe(l)
  return {"classes": classes, "main": blk}


def wrap(c, b, l, classes):
  name = "L%d" % l
  if c in ("call", "init", "meth", "prop", "tmeth", "set"):
    m = {"call": "__call__", "init": "__init__", "meth": "meth", "prop": "p_prop", "tmeth": "t_meth", "set": "w_prop"}[c]
    classes[name] = {m: b}
    if c == "call":
      return ["MC", name]
    if c == "init":
      return ["N", "n%d" % l, name]
    return ["BL", [["N", "^n%d" % l, name], ["C", "^n%d" % l, m]]]
  if c == "ns":
    return ["NS", "scope%d" % l, b]
  if c == "wrng":
    return ["W", l + 1, b]
  if c == "cr":
    return ["CR", l + 1, "ps", b]
  if c == "gt":
    return ["GT", l + 1, "ps", b]
  if c == "it":
    return ["IT", l + 1, b]
  if c == "tr":
    return ["TR", b]
  if c == "cond":
    return ["jx", "cond", 1, b, b]
  if c in ("scan", "fori"):
    return ["jx", c, 1, b]
  if c == "while":
    return ["BL", [["RI", b], ["RA", [["jx", "while", 1, b]]]]]
  return ["jx", c, 0, b]


def fresh_ok():
  """The library refuses everything outside a transform."""
  for what, f in (("get_parameter", lambda: hk.get_parameter("w", (), np.int32, init=lambda s, d: np.zeros(s, d))),
                  ("get_state", lambda: hk.get_state("w", (), np.int32, init=lambda s, d: np.zeros(s, d))),
                  ("set_state", lambda: hk.set_state("w", np.int32(1))),
                  ("next_rng_key", hk.next_rng_key), ("next_rng_keys", lambda: hk.next_rng_keys(1)), ("maybe_next_rng_key", hk.maybe_next_rng_key),
                  ("reserve_rng_keys", lambda: hk.reserve_rng_keys(1)), ("with_rng", lambda: hk.with_rng(KEY)),
                  ("running_init", hk.running_init), ("Linear", lambda: hk.Linear(1)),
                  ("name_scope", lambda: hk.experimental.name_scope("a")),
                  ("custom_creator", lambda: hk.experimental.custom_creator(lambda *a: a)),
                  ("custom_getter", lambda: hk.experimental.custom_getter(lambda *a: a)),
                  ("intercept_methods", lambda: hk.experimental.intercept_methods(lambda *a: a)),
                  ("jit", lambda: hk.jit(lambda: 0))):
    try:
      f()
    except ValueError:
      continue
    raise Violation("hk.%s outside a transform is accepted" % what)


CANARY = {"classes": {"A": {"__init__": [["MC", "B"]], "__call__": [["P", "w", 3], ["I", "c"], ["MC", "B"], ["K"]]},
                      "B": {"__call__": [["PK", "w"], ["G", "c", 2]]}},
          "main": [["P", "w", 1], ["I", "c"], ["MC", "A"], ["NS", "ns", [["MC", "A"]]], ["K"]]}
_canary = []


def canary():
  it = Interp(CANARY, Real(hk, keyf))
  t = hk.transform_with_state(it.main)
  p, s = t.init(KEY)
  o, s1 = t.apply(p, s, KEY)
  r = (norm(p), norm(s), val(o[0]), flat_keys(o[1]), norm(s1))
  if not _canary:
    mi = Interp(CANARY, Model(jx.real_split, keyf))
    mp, ms, _ = mi.B.init(mi.main, KEY)
    (mx, mk), ms1 = mi.B.apply(mi.main, mp, ms, KEY)
    _canary.append((norm(mp), norm(ms), val(mx), flat_keys(mk), norm(ms1)))
  if r != _canary[0]:
    raise Violation("a later run behaves differently: %r expected %r" % (r, _canary[0]))


def run_case(case, rec):
  fresh_ok()
  canary()
  if "top" in case:
    top(case)
  else:
    chain(case, rec)
  rec.evals()
  rec.nontrivial(repr(case))
  fresh_ok()
  canary()


def chain(case, rec):
  ch = case["chain"]
  prog = dict(build(case), dump=True)
  is_traced = any(c in TRACED for c in ch)
  exact = not any(c in CTRL for c in ch)
  it, mi = Interp(prog, Real(hk, keyf)), Interp(prog, Model(jx.real_split, keyf))
  t = hk.transform_with_state(it.main)
  model = mi.B

  def ex(f, *a):
    return jx.trace_eval(f, *a)[0] if is_traced else f(*a)

  def strip(t):
    out = norm(t)
    if not exact and "~" in out:
      out["~"] = {k: (v if k != "dump_keys" else (lambda ks: (len(ks), len(set(ks))))([tuple(r) for r in v[2] if any(r)])) for k, v in out["~"].items()}
      out = {m: {k: (v if k != "dump_x" else 0) for k, v in b.items()} for m, b in out.items()}
    return out

  def r_init():
    p, s = ex(lambda k: t.init(k), KEY)
    return strip(p), norm(s), p, s

  def m_init():
    p, s, _ = model.init(mi.main, KEY)
    return strip(p), norm(s)

  def r_apply(p, s):
    o, s1 = ex(lambda p, s, k: t.apply(p, s, k), p, s, KEY)
    ks = flat_keys(o[1])
    return val(o[0]), ks if exact else (len(ks), len(set(ks))), norm(s1)

  def m_apply(p, s):
    o, s1 = model.apply(mi.main, p, s, KEY)
    ks = flat_keys(o[1])
    return val(o[0]), ks if exact else (len(ks), len(set(ks))), norm(s1)

  def attempt(f, interp):
    try:
      return ("ok",) + f()
    except (Exception, UserBase) as e:
      if interp.injected is not None:
        if e is not interp.injected and interp is it:
          raise Violation("the exception raised by user code was replaced by %r" % (e,))
        return ("fault",)
      if isinstance(e, (RefError, ValueError, AssertionError)):
        return ("rejected",)
      raise

  def same(what, r, m):
    if r[:len(m)] != m:
      raise Violation("%s: library %r\nreference %r" % (what, r, m))

  it.armed = mi.armed = False
  r0, m0 = attempt(r_init, it), attempt(m_init, mi)
  same("init without fault", r0, m0)
  if r0[0] != "ok":
    raise Violation("program rejected: %r" % (r0,))
  params, state = {a: dict(b.items()) for a, b in r0[3].items()}, {a: dict(b.items()) for a, b in r0[4].items()}
  a0 = attempt(lambda: r_apply(params, state), it)
  same("apply without fault", a0, attempt(lambda: m_apply(params, state), mi))
  it.armed = mi.armed = True
  r, m = attempt(r_init, it), attempt(m_init, mi)
  same("init with fault", r, m)
  rec.outcome((r[0], m[1:]))
  r, m = attempt(lambda: r_apply(params, state), it), attempt(lambda: m_apply(params, state), mi)
  same("apply with fault", r, m)
  rec.outcome((r[0], m[1:]))
  it.armed = mi.armed = False
  same("init after fault", attempt(r_init, it)[:3], r0[:3])
  same("apply after fault", attempt(lambda: r_apply(params, state), it), a0)
  rec.count("runs", 8)


class Boom(Exception):
  pass


def top(case):
  """Faults inside entry points other than init/apply."""
  exc = {"XE": Boom, "XB": UserBase, "PR": Boom}[case["leaf"]]("x")

  def f(x):
    hk.next_rng_key()
    w = hk.get_parameter("w", (), np.float32, init=lambda s, d: np.ones(s, d))
    with hk.experimental.custom_getter(lambda n, v, c: n(v * 2)):
      with hk.experimental.intercept_methods(lambda n, a, k, c: n(*a, **k)):
        m = hk.Linear(1)
        if case["leaf"] == "PR":
          hk.get_state("s", (), np.float32, init=lambda s, d: (_ for _ in ()).throw(exc))
        m(x.reshape((1, 1)))
        raise exc
    return w

  x = np.float32(1)
  try:
    if case["top"] == "opt":
      hk.transform_with_state(hk.experimental.optimize_rng_use(f)).init(KEY, x)
    elif case["top"] == "summary":
      hk.experimental.eval_summary(f)(x)
    elif case["top"] == "jitinit":
      jax.jit(hk.transform_with_state(f).init)(KEY, x)
    elif case["top"] == "gradapply":
      t = hk.transform_with_state(f)
      jax.grad(lambda x: t.apply({"~": {"w": x}, "linear": {"w": np.ones((1, 1), np.float32), "b": np.ones(1, np.float32)}}, {}, KEY, x)[0])(x)
    else:
      hk.testing.transform_and_run(f)(x)
  except (Boom, UserBase) as e:
    if e is not exc:
      raise Violation("exception replaced")
    return
  raise Violation("exception swallowed")
