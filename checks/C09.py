"""Parameter mappings: all small nested dicts x all short histories of conversions and reads."""
import copy, itertools, pickle
import jax
import haiku as hk
from mc.core import Violation

TECHNIQUE = "explicit-state enumeration: all nested dicts in the bound x all operation sequences, real mapping against a plain-dict model after every history"
LEVEL = "model_checking"
BOUNDS = {"quick": "all nested dicts with <=2 keys per level: depth <=2 over 6 leaf values (3136) x all histories of <=1 of 16 operations; depth <=2 over 2 leaf values (144) x all "
                   "histories of <=3; depth <=3 over 2 leaf values (21609) x the empty history; mutation of every level of source, result and mutable copy",
          "thorough": "histories of <=2 on all 3136, of <=4 on the 144, of <=1 on the depth-3 structures"}
ASSUMPTIONS = ["keys are strings (sortable); leaf values are numbers, strings, None, lists or tuples",
               "nested levels of the source are dicts (other mapping types are kept as values by the library)"]
tm = jax.tree_util.tree_map
L6 = [0, 1, None, [], [2], "s"]
L2 = [1, None]


def dicts(leaves, depth, keys=("a", "b")):
  vals = list(leaves) + (dicts(leaves, depth - 1, keys) if depth > 1 else [])
  opts = [None] + [(v,) for v in vals]
  out = []
  for c in itertools.product(opts, repeat=len(keys)):
    out.append({k: v[0] for k, v in zip(keys, c) if v is not None})
  return out


OPS = ["look", "iter", "leaves", "hash", "eq", "identity", "inc", "tolist", "tonone", "todict", "totuple", "pickle", "copy", "deepcopy", "mutable", "immutable"]


def cases(tier):
  q = tier == "quick"
  out = []
  n6, n2, n3 = len(dicts(L6, 2)), len(dicts(L2, 2)), len(dicts(L2, 3))
  def blocks(fam, n, lens, size):
    for i in range(0, n, size):
      out.append({"fam": fam, "lo": i, "hi": min(i + size, n), "lens": lens})
  blocks("6x2", n6, [0, 1] if q else [0, 1, 2], 100 if q else 20)
  blocks("2x2", n2, [0, 1, 2, 3] if q else [0, 1, 2, 3, 4], 2 if q else 1)
  blocks("2x3", n3, [0] if q else [0, 1], 400)
  out.append({"fam": "special"})
  return out


_fam = {}


def fam(name):
  if name not in _fam:
    _fam[name] = dicts(L6 if name[0] == "6" else L2, int(name[2]))
  return _fam[name]


def deep(v):
  if isinstance(v, dict):
    return {k: deep(x) for k, x in v.items()}
  if isinstance(v, list):
    return [deep(x) for x in v]
  if isinstance(v, tuple):
    return tuple(deep(x) for x in v)
  return v


def mleaves(v):
  """Leaves of the model, in the order of sorted keys."""
  if isinstance(v, dict):
    return [l for k in sorted(v) for l in mleaves(v[k])]
  if isinstance(v, (list, tuple)):
    return [l for x in v for l in mleaves(x)]
  return [] if v is None else [v]


def mmap(f, v):
  if isinstance(v, dict):
    return {k: mmap(f, x) for k, x in v.items()}
  if isinstance(v, (list, tuple)):
    return type(v)(mmap(f, x) for x in v)
  return None if v is None else f(v)


INC = lambda x: (x + 1) if not isinstance(x, str) else x + "t"
REPL = {"identity": lambda x: x, "inc": INC, "tolist": lambda x: [x, 7], "tonone": lambda x: None, "todict": lambda x: {"q": x}, "totuple": lambda x: (x,)}


def same(fm, m, what):
  """Every way of reading agrees with the model dict; fm's levels that stem from dicts are immutable mappings."""
  def lev(x, d):
    if not (len(x) == len(d) and set(x) == set(d) and set(x.keys()) == set(d) and len(list(x)) == len(d)):
      raise Violation("%s: keys %r, expected %r" % (what, list(x), list(d)))
    if sorted(map(repr, x.values())) != sorted(repr(x[k]) for k in d) or sorted(k for k, _ in x.items()) != sorted(d):
      raise Violation("%s: values/items %r" % (what, list(x.items())))
    for k in d:
      if k not in x or x.get(k) is not x[k] or x.get("zz", 5) != 5 or "zz" in x:
        raise Violation("%s: membership or get of %r" % (what, k))
      v = x[k]
      if isinstance(d[k], dict):
        if not hasattr(v, "keys"):
          raise Violation("%s: %r is %r, expected %r" % (what, k, v, d[k]))
        lev(v, d[k])
      elif type(v) is not type(d[k]) or v != d[k]:
        raise Violation("%s: %r is %r, expected %r" % (what, k, v, d[k]))
    for k, v in x.items():
      if v is not x[k]:
        raise Violation("%s: items() differs from lookup at %r" % (what, k))
    try:
      x["zz"]
    except KeyError:
      pass
    else:
      raise Violation("%s: lookup of a missing key succeeds" % what)
  lev(fm, m)
  if not (fm == m) or (fm != m) or not (m == fm):
    raise Violation("%s: %r does not equal %r" % (what, fm, m))
  for other in (dict(m, zz=1), {k: v for k, v in list(m.items())[1:]} if m else {"a": 1}, None, 3):
    if fm == other or not (fm != other):
      raise Violation("%s: %r equals %r" % (what, fm, other))
  ls = jax.tree_util.tree_leaves(fm)
  if ls != mleaves(m):
    raise Violation("%s: leaves %r, expected %r" % (what, ls, mleaves(m)))


FM = type(hk.data_structures.to_immutable_dict({}))


def nested_ok(x):
  """All nested mappings are of the immutable type."""
  for v in x.values():
    if isinstance(v, dict):
      raise Violation("a nested dict is handed out: %r" % (v,))
    if isinstance(v, FM):
      nested_ok(v)


def frozen(x, what):
  """No mapping or attribute operation changes x."""
  before = deepcopy_plain(x)
  def att(f):
    try:
      f()
    except (TypeError, AttributeError, KeyError):
      return
    except Exception as e:
      raise Violation("%s: unexpected %r" % (what, e))
    raise Violation("%s: a mutating operation succeeded" % what)
  def ior():
    y = x
    y |= {"a": 9}
    if y is x or x != before:
      raise Violation("%s: changed by |=" % what)
  att(lambda: x.__setitem__("a", 9))
  att(lambda: x.__delitem__("a"))
  att(lambda: x.update({"a": 9}))
  att(lambda: x.pop("a"))
  att(lambda: x.popitem())
  att(lambda: x.clear())
  att(lambda: x.setdefault("zz", 9))
  att(lambda: setattr(x, "a", 9))
  att(lambda: setattr(x, "zz", 9))
  att(lambda: delattr(x, "a"))
  att(lambda: x.items().__setitem__("a", 1))
  att(lambda: x.keys().remove("a"))
  try:
    ior()
  except TypeError:
    pass
  if deepcopy_plain(x) != before:
    raise Violation("%s: changed" % what)
  for v in x.values():
    if isinstance(v, FM):
      frozen(v, what)


def deepcopy_plain(x):
  return {k: deepcopy_plain(v) if hasattr(v, "items") else deep(v) for k, v in x.items()}


def mutate(d):
  """Changes a plain nested dict at every level."""
  for v in list(d.values()):
    if isinstance(v, dict):
      mutate(v)
  for k in list(d):
    d[k] = "changed"
  d["new"] = 1


def apply_op(op, x, m):
  """One operation on the real mapping and on the model; returns both results."""
  if op == "look":
    for k in m:
      x[k]
    return x, m
  if op == "iter":
    list(x), list(x.items()), repr(x), str(x), len(x)
    return x, m
  if op == "leaves":
    jax.tree_util.tree_leaves(x)
    return x, m
  if op == "hash":
    hash(x)
    return x, m
  if op == "eq":
    x == hk.data_structures.to_immutable_dict({"a": 1})
    return x, m
  if op in REPL:
    return tm(REPL[op], x), mmap(REPL[op], m)
  if op == "pickle":
    return pickle.loads(pickle.dumps(x)), m
  if op == "copy":
    return copy.copy(x), m
  if op == "deepcopy":
    return copy.deepcopy(x), m
  if op == "mutable":
    d = hk.data_structures.to_mutable_dict(x)
    if type(d) is not dict:
      raise Violation("to_mutable_dict returned %r" % type(d))
    y = hk.data_structures.to_immutable_dict(d)
    mutate(d)
    return y, m
  if op == "immutable":
    y = hk.data_structures.to_immutable_dict(x)
    return y, m
  raise AssertionError(op)


def check_history(src, ops, rec, hashes):
  s = deep(src)
  m = deep(src)
  x = hk.data_structures.to_immutable_dict(s)
  mutate(s)                            # the source changes afterwards
  trail = [(x, m)]
  for op in ops:
    x, m = apply_op(op, x, m)
    trail.append((x, m))
    rec.step()
  what = "%r after %r" % (src, ops)
  if type(x) is not FM:
    raise Violation("%s is a %s" % (what, type(x)))
  same(x, m, what)
  if not any(o == "todict" for o in ops):
    nested_ok(x)
    frozen(x, what)
    same(x, m, what + " and attempts to change it")
  same(trail[0][0], src, "the original of " + what)
  d = hk.data_structures.to_mutable_dict(x)
  if d != m:
    raise Violation("%s: mutable copy %r" % (what, d))
  if not any(o == "todict" for o in ops):
    mutate(d)
    same(x, m, what + " and changes to its mutable copy")
    # equal mappings hash equally
    key = repr(sorted_repr(m))
    h = hash(x)
    if hashes.setdefault(key, h) != h:
      raise Violation("%s: equal mappings have different hashes" % what)
    y = hk.data_structures.to_immutable_dict({k: m[k] for k in reversed(list(m))})
    if not (x == y) or hash(x) != hash(y):
      raise Violation("%s: an equal mapping built in another key order differs" % what)
  rec.trace()
  rec.state(repr((sorted_repr(m), [o in REPL or o in ("pickle", "copy", "deepcopy", "mutable") for o in ops])))


def sorted_repr(v):
  if isinstance(v, dict):
    return ["d"] + [(k, sorted_repr(v[k])) for k in sorted(v)]
  if isinstance(v, (list, tuple)):
    return [type(v).__name__] + [sorted_repr(x) for x in v]
  return v


def run_case(case, rec):
  if case["fam"] == "special":
    return special(rec)
  hashes = {}
  for src in fam(case["fam"])[case["lo"]:case["hi"]]:
    for n in case["lens"]:
      for ops in itertools.product(OPS, repeat=n):
        check_history(src, ops, rec, hashes)


def special(rec):
  """Arrays, attribute access, mappings produced by init and apply, use as static/dynamic jit arguments."""
  import numpy as np
  t = hk.transform_with_state(lambda x: (hk.get_state("c", (), init=jax.numpy.zeros), hk.Linear(3)(x))[1])
  p, s = t.init(jax.random.PRNGKey(0), np.ones((2, 2), np.float32))
  _, s2 = t.apply(p, s, None, np.ones((2, 2), np.float32))
  for m in (p, s, s2, jax.jit(lambda p: p)(p), jax.tree_util.tree_map(lambda v: v + 1, p)):
    if type(m) is not FM:
      raise Violation("mapping of type %s" % type(m))
    for b in m.values():
      if type(b) is not FM:
        raise Violation("bundle of type %s" % type(b))
    frozen_arrays(m)
    for x in (pickle.loads(pickle.dumps(m)), copy.copy(m), copy.deepcopy(m), hk.data_structures.to_immutable_dict(hk.data_structures.to_mutable_dict(m))):
      ok = jax.tree_util.tree_all(jax.tree_util.tree_map(lambda a, b: bool((np.asarray(a) == np.asarray(b)).all()), m, x))
      if not ok or jax.tree_util.tree_structure(m) != jax.tree_util.tree_structure(x):
        raise Violation("contents changed by a round trip: %r -> %r" % (m, x))
    rec.step(4)
  if p.linear.w is not p["linear"]["w"]:
    raise Violation("attribute access")
  if hasattr(p, "nothing"):
    raise Violation("attribute access to a missing key")
  rec.trace()
  rec.state("special")


def frozen_arrays(m):
  def att(f):
    try:
      f()
    except (TypeError, AttributeError):
      return
    raise Violation("a mutating operation succeeded on a returned mapping")
  for x in [m] + list(m.values()):
    k = next(iter(x))
    att(lambda: x.__setitem__(k, 9))
    att(lambda: x.__delitem__(k))
    att(lambda: x.update({k: 9}))
    att(lambda: x.pop(k))
    att(lambda: setattr(x, k, 9))
