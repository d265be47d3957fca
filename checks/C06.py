"""Random keys: all request sequences against the documented key sequence."""
import itertools
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk
from mc import jx, traced
from mc.core import Violation
from mc.prog import Interp, Model, Real, RefError, norm, val, flat_keys, I32
from mc.ref import Seq
from mc.traced import KEY, keyf

LEVEL = "model_checking"
BOUNDS = {"quick": "PRNGSequence: every sequence of <=5 operations out of 11 (next, take 0-3, reserve 0-3, state save/restore, copy) from 4 kinds of initial state, with merging of "
                   "equal states; transforms: all programs of <=3 requests over 15 statements (<=4 over 8) in init and apply, with and without rng, plain and under optimize_rng_use (also around every part of <=2 statements at top level and in module calls, methods and constructors, and nested); "
                   "42 non-keys in 6 places",
          "thorough": "sequences of <=7 operations, programs of <=4 requests over 15 statements"}
ASSUMPTIONS = ["jax.random.split is injective enough: keys of different documented positions differ (checked on every key seen)",
               "splits are observed at jax.random.split"]
_split = jax.random.split
parents = []


def split(key, num=2, *a, **kw):
  if isinstance(key, jax.core.Tracer) or a or kw:
    return _split(key, num, *a, **kw)
  k = np.asarray(key, np.uint32)
  parents.append(tuple(map(int, k)))
  return jx.real_split_raw(k, num, _split)


OPS = [["next"], ["take", 0], ["take", 1], ["take", 2], ["take", 3], ["reserve", 0], ["reserve", 1], ["reserve", 2], ["reserve", 3], ["save"], ["copy"]]
STM = [["K"], ["Kn", 0], ["Kn", 1], ["Kn", 3], ["Km"], ["Kr", 0], ["Kr", 1], ["Kr", 3], ["W", 1, [["K"], ["Kr", 2], ["K"]]], ["W", 1, [["Kn", 2], ["W", 2, [["K"]]], ["K"]]],
       ["Wk", [["K"], ["K"]]], ["MC", "M"], ["PK", "p"], ["TR", [["Km"], ["P", "z", 3]]], ["T", [["Kr", 1], ["K"], ["X"]]]]
STM8 = [STM[i] for i in (0, 3, 4, 6, 8, 10, 11, 12)]
CL = {"M": {"__init__": [["PK", "w"]], "__call__": [["K"], ["PK", "v"], ["MC", "N"]]}, "N": {"__call__": [["Kr", 1], ["K"], ["PK", "w"]]}}
CLN = {"M": {"__init__": [["PKn", "w"]], "__call__": [["K"], ["PKn", "v"], ["MC", "N"], ["P", "u", 3]]}, "N": {"__call__": [["Kr", 1], ["K"], ["PKn", "w"]]}}
NONKEYS = 21


def cases(tier):
  out = []
  d = 5 if tier == "quick" else 7
  for first in range(len(OPS)):
    for start in ("seed", "key", "state", "state2"):
      out.append({"kind": "seq", "start": start, "first": first, "depth": d})
  progs = [list(p) for n in ((0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4)) for p in itertools.product(STM, repeat=n)]
  if tier == "quick":
    progs += [list(p) for p in itertools.product(STM8, repeat=4)]
  for i in range(0, len(progs), 40):
    out.append({"kind": "prog", "progs": progs[i:i + 40]})
  opt = [list(p) for n in (0, 1, 2, 3) for p in itertools.product([["K"], ["PK", "p"], ["PK", "q"], ["MC", "M"], ["P", "r", 2], ["I", "c"], ["Km"], ["Kn", 2]], repeat=n)]
  for i in range(0, len(opt), 30):
    out.append({"kind": "opt", "progs": opt[i:i + 30]})
  part = []
  ST = [["K"], ["PKn", "p"], ["MC", "M"], ["I", "c"], ["Kn", 2], ["P", "r", 2]]
  wrapped = [["jx", "opt", 0, list(b)] for n in (0, 1, 2) for b in itertools.product(ST, repeat=n)]
  wrapped += [["jx", "opt", 0, [["K"], ["jx", k, 0, [["MC", "M"], ["K"]]], ["PKn", "p"]]] for k in ("opt", "jit", "vg", "eval_shape")] + [["jx", "jit", 0, [["jx", "opt", 0, [["K"], ["PKn", "p"], ["K"]]], ["K"]]]]
  for w in wrapped:
    for pre in ([], [["MC", "M"]], [["Kr", 2], ["K"]], [["I", "c"]]):
      part.append([CLN, pre + [w] + [["K"], ["MC", "M"]]])
  for w in wrapped:
    for where in ("__call__", "meth", "__init__"):
      cl = dict(CLN, O={where: [["P", "r", 2], w, ["I", "c"], ["K"]]})
      part.append([cl, [["N", "o", "O"]] + ([["C", "o", where], ["C", "o", where]] if where != "__init__" else [["N", "n", "O"]]) + [["K"]]])
  for i in range(0, len(part), 12):
    out.append({"kind": "optpart", "progs": part[i:i + 12]})
  for i in range(NONKEYS):
    out.append({"kind": "reject", "which": i})
  return out


def run_case(case, rec):
  jax.random.split = split
  try:
    globals()["run_" + case["kind"]](case, rec)
  finally:
    jax.random.split = _split


def tup(k):
  a = np.asarray(k)
  if a.shape != (2,) or a.dtype != np.uint32:
    raise Violation("not a key: %r" % (k,))
  return int(a[0]), int(a[1])


def state_of(seq):
  key, sub = seq.internal_state
  return tup(key), tuple(tup(s) for s in sub)


def run_seq(case, rec):
  sp = lambda k, n: [tup(x) for x in jx.real_split_raw(np.array(k, np.uint32), n, _split)]
  s4 = [np.array(x, np.uint32) for x in sp((0, 9), 4)]
  if case["start"] == "seed":
    start, m0 = (lambda: hk.PRNGSequence(9)), ((0, 9), ())
  elif case["start"] == "key":
    start, m0 = (lambda: hk.PRNGSequence(np.array([0, 9], np.uint32))), ((0, 9), ())
  elif case["start"] == "state":
    start, m0 = (lambda: hk.PRNGSequence((s4[0], (s4[1],)))), (tup(s4[0]), (tup(s4[1]),))
  else:
    start, m0 = (lambda: hk.PRNGSequence((s4[0], [s4[1], s4[2], s4[3]]))), (tup(s4[0]), tuple(map(tup, s4[1:])))

  # Depth-first over operation sequences; each node re-creates the real
  # sequence from the start and replays the path, so the real object always
  # went through exactly that history. Equal (model state, keys out) nodes with
  # the same remaining depth are explored once per start and first operation.
  seen = set()

  def replay(path):
    s = start()
    outs = []
    for op in path:
      before = len(parents)
      if op[0] == "next":
        outs.append(tup(next(s)))
      elif op[0] == "take":
        t = s.take(op[1])
        if not isinstance(t, tuple) or len(t) != op[1]:
          raise Violation("take(%d) returned %r" % (op[1], t))
        outs.extend(map(tup, t))
      elif op[0] == "reserve":
        s.reserve(op[1])
      elif op[0] == "save":
        st = s.internal_state
        for k in range(2):
          next(s)
        s.replace_internal_state(st)
      elif op[0] == "copy":
        c = hk.PRNGSequence(s.internal_state)
        next(c), c.reserve(2)          # the copy is independent
        s = hk.PRNGSequence(s.internal_state)
    return s, outs

  def model(path):
    m = Seq(m0[0], sp)
    m.sub = list(m0[1])
    outs, par = [], []
    m.split = lambda k, n: (par.append(k), sp(k, n))[1]
    for op in path:
      if op[0] == "next":
        outs.append(m.next())
      elif op[0] == "take":
        outs.extend(m.take(op[1]))
      elif op[0] == "reserve":
        m.reserve(op[1])
    return m, outs, par

  def visit(path):
    m, want, par = model(path)
    s, outs = replay(path)
    rec.step()
    if outs != want:
      raise Violation("after %r: keys %r, documented %r" % (path, outs, want))
    st = state_of(s)
    if st != (m.key, tuple(m.sub)):
      raise Violation("after %r: internal state %r, documented %r" % (path, st, (m.key, m.sub)))
    every = outs + list(st[1])
    if len(set(every)) != len(every) or set(every) & (set(par) | {m.key, m0[0]}):
      raise Violation("after %r: key reused" % (path,))
    rec.state((case["start"], st, tuple(outs)))
    rec.trace()
    node = (st, tuple(outs), len(path))
    if len(path) == case["depth"] or node in seen:
      return
    seen.add(node)
    for op in OPS:
      visit(path + [op])
  visit([OPS[case["first"]]])


def renumber(blk, n):
  """Gives every rng scope its own key."""
  out = []
  for s in blk:
    if s[0] == "W":
      n[0] += 1
      out.append(["W", n[0], renumber(s[2], n)])
    else:
      out.append(s)
  return out


def run_prog(case, rec):
  for main in case["progs"]:
    main = renumber(main, [0])
    prog = {"classes": CL, "main": main, "dump": True}
    for rng in (KEY, None):
      check_prog(prog, rng, rec)


def attempt(f):
  try:
    return ("ok", f())
  except (RefError, ValueError) as e:
    return ("err", None)


def check_prog(prog, rng, rec):
  def msplit(k, n):
    mpar.append(tuple(map(int, np.asarray(k))))
    return jx.real_split_raw(np.asarray(k, np.uint32), n, _split)
  ri, mi = Interp(prog, Real(hk, keyf)), Interp(prog, Model(msplit, keyf))
  t = hk.transform_with_state(ri.main)
  mpar = []
  del parents[:]
  m = attempt(lambda: mi.B.init(mi.main, rng))
  r = attempt(lambda: t.init(rng))
  where = "%r rng=%r" % (prog["main"], rng is not None)
  rec.trace()

  def judge(what, rk, mk, extra):
    rec.step()
    if rk != mk:
      raise Violation("%s of %s: keys %r, documented %r" % (what, where, rk, mk))
    if len(set(rk + extra)) != len(rk + extra):
      raise Violation("%s of %s: a key was handed out twice: %r" % (what, where, rk + extra))
    if len(set(parents)) != len(parents):
      raise Violation("%s of %s: a key was split twice: %r" % (what, where, parents))
    if set(rk + extra) & set(parents) and not uses_wk(prog["main"]):
      raise Violation("%s of %s: a key handed out was also split" % (what, where))
    rec.state((what, tuple(rk), tuple(parents)))

  if m[0] != r[0]:
    raise Violation("init of %s: library %s, documented %s" % (where, r[0], m[0]))
  if m[0] == "err":
    rec.state(("rejected", where))
    return
  if norm(m[1][0]) != norm(r[1][0]):
    raise Violation("init of %s: %r, documented %r" % (where, norm(r[1][0]), norm(m[1][0])))
  pk = [tuple(b[k].tolist()) for b in (dict(x.items()) for x in r[1][0].values()) for k in b if np.asarray(b[k]).dtype == np.uint32 and k != "dump_keys"]
  pk = [tuple(map(int, x)) for x in pk]
  judge("init", flat_keys(mi.keys and ri.keys), flat_keys(mi.keys), pk)
  del parents[:], mpar[:]
  mo = attempt(lambda: mi.B.apply(mi.main, m[1][0], m[1][1], rng)[0])
  ro = attempt(lambda: t.apply(r[1][0], r[1][1], rng)[0])
  if mo[0] != ro[0]:
    raise Violation("apply of %s: library %s, documented %s" % (where, ro[0], mo[0]))
  if mo[0] == "ok":
    if val(ro[1][0]) != val(mo[1][0]):
      raise Violation("apply of %s: output %r, documented %r" % (where, ro[1][0], mo[1][0]))
    judge("apply", flat_keys(ro[1][1]), flat_keys(mo[1][1]), [])


def uses_wk(main):
  return any(s[0] == "Wk" for s in main)


def run_opt(case, rec):
  """optimize_rng_use: same results, distinct keys, one split for plain requests."""
  for main in case["progs"]:
    plain = all(s[0] not in ("Km", "Kn", "MC") for s in main)
    n_init = sum(1 for s in main if s[0] == "K") + len({s[1] for s in main if s[0] == "PK"})
    prog = {"classes": CL, "main": main, "dump": True}
    ri = Interp(prog, Real(hk, keyf))
    if plain:
      ri.prog["dump"] = False
    t = hk.transform_with_state(hk.experimental.optimize_rng_use(lambda: ri.main()))
    u = hk.transform_with_state(lambda: ri.main())
    del parents[:]
    p, s = t.init(KEY)
    keys = flat_keys(ri.keys)
    pk = [tuple(map(int, np.asarray(v))) for b in p.values() for k, v in b.items() if np.asarray(v).dtype == np.uint32 and k != "dump_keys"]
    rec.step()
    rec.trace()
    rec.state((repr(main), tuple(keys + pk)))
    if len(set(keys + pk)) != len(keys + pk):
      raise Violation("optimised init of %r: key handed out twice" % (main,))
    if set(keys + pk) & set(parents) or len(set(parents)) != len(parents):
      raise Violation("optimised init of %r: key split and handed out, or split twice" % (main,))
    if plain:
      want = [tup(k) for k in jx.real_split_raw(KEY, n_init + 1, _split)[1:]] if n_init else []
      if set(keys + pk) != set(want) or len(parents) != (1 if n_init else 0):
        raise Violation("optimised init of %r: keys %r, documented %r with one split (%d made)" % (main, keys + pk, want, len(parents)))
    p0, s0 = u.init(KEY)
    if jax.tree_util.tree_map(np.shape, p) != jax.tree_util.tree_map(np.shape, p0) or norm(s) != norm(s0):
      raise Violation("optimised init of %r creates different parameters" % (main,))
    del parents[:]
    out, s1 = t.apply(p, s, KEY)
    keys = flat_keys(out[1])
    if len(set(keys)) != len(keys) or len(set(parents)) != len(parents) or set(keys) & set(parents):
      raise Violation("optimised apply of %r: key reused" % (main,))
    nsplit = len(parents)
    out0, s10 = u.apply(p, s, KEY)
    if len(flat_keys(out0[1])) != len(keys) or norm(s1) != norm(s10) or val(out[0]) != val(out0[0]):
      raise Violation("optimised apply of %r differs: %r %r" % (main, out, out0))
    n = sum(1 for q in main if q[0] == "K")
    if plain and n:
      want = [tup(k) for k in jx.real_split_raw(KEY, n + 1, _split)[1:]]
      if keys != want or nsplit != 1:
        raise Violation("optimised apply of %r: keys %r, documented %r with one split (%d made)" % (main, keys, want, nsplit))


def run_optpart(case, rec):
  """optimize_rng_use around part of a function: names, values, state as without it; keys distinct."""
  jax.random.split = _split
  for cl, main in case["progs"]:
    try:
      traced.run({"classes": cl, "main": main}, rec, exact_keys=False)
    except Violation as e:
      raise Violation("optimize_rng_use around part of %r %r: %s" % (main, cl.get("O"), e))


def nonkeys():
  u = np.uint32
  return [1.5, "key", [0, 1], {"a": 1}, object(), np.zeros(2, np.int32), np.zeros(2, np.float32), np.zeros(3, u), np.zeros((), u), np.zeros((1, 2), u),
          np.zeros((2, 2), u), np.zeros((0,), u), np.zeros((1,), u), jnp.zeros(2, jnp.int32), jnp.zeros((2, 1), jnp.uint32), np.zeros(2, np.uint64),
          (np.zeros(2, np.float32), ()), (np.zeros(2, u), (np.zeros(3, u),)), (np.zeros(2, u), (1,)), np.float32(3), b"ab"]


def run_reject(case, rec):
  bad = nonkeys()[case["which"]]
  t = hk.transform_with_state(lambda: hk.maybe_next_rng_key())
  seq = hk.PRNGSequence(3)
  places = [("PRNGSequence", lambda: hk.PRNGSequence(bad)), ("init", lambda: t.init(bad)), ("apply", lambda: t.apply({}, {}, bad)),
            ("with_rng", lambda: hk.transform(lambda: hk.with_rng(bad)).init(KEY)), ("stateless init", lambda: hk.transform(lambda: 0).init(bad)),
            ("stateless apply", lambda: hk.transform(lambda: 0).apply({}, bad))]
  if isinstance(bad, tuple):
    places.append(("replace_internal_state", lambda: seq.replace_internal_state(bad)))
  for where, f in places:
    rec.step()
    try:
      f()
    except (ValueError, TypeError):
      continue
    raise Violation("%s accepts %r" % (where, bad))
  rec.state(case["which"])
  rec.trace()
