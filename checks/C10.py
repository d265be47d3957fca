"""Filter, partition, map, merge and sizes on all small structures and all predicates on them."""
import collections, itertools
import jax, jax.numpy as jnp, numpy as np
import haiku as hk
from mc.core import Violation

ds = hk.data_structures
TECHNIQUE = "explicit-state enumeration: all structures and all predicates (every subset of entries) in the bound, all pairs and triples for merge, real results against the set-theoretic model"
LEVEL = "model_checking"
BOUNDS = {"quick": "structures over modules {a, a/b, b} x names {w, b} with absent/1/2 entries and absent/empty modules (1000) x 3 mapping types x all subsets of entries as predicate; "
                   "value predicates; all pairs of 100 two-module structures x 9 type pairs, all triples of 36, all 4-tuples of 7; all trees of <=3 leaves over 12 shapes and 8 dtypes for the sizes",
          "thorough": "3 entry names (structures over two modules with 3 names), all triples of 100"}
ASSUMPTIONS = ["predicates and functions are deterministic; the order in which entries are visited is not prescribed"]
MODS = ["a", "a/b", "b"]
FM = type(ds.to_immutable_dict({}))


def bundles(names, vals):
  out = [None]
  for c in itertools.product([None] + [(v,) for v in vals], repeat=len(names)):
    out.append({n: v[0] for n, v in zip(names, c) if v is not None})
  return out


def structs(mods, names, vals):
  bs = bundles(names, vals)
  return [{m: dict(b) for m, b in zip(mods, c) if b is not None} for c in itertools.product(bs, repeat=len(mods))]


def make(kind, s):
  s = {m: dict(b) for m, b in s.items()}
  if kind == "dict":
    return s
  if kind == "flat":
    return ds.to_immutable_dict(s)
  if kind == "ordered":
    return collections.OrderedDict((m, collections.OrderedDict(b)) for m, b in reversed(list(s.items())))
  if kind == "mixed":
    return collections.defaultdict(dict, {m: (ds.to_immutable_dict(b) if i % 2 else b) for i, (m, b) in enumerate(s.items())})
KINDS = ["dict", "flat", "ordered"]


def plain(x):
  return {m: dict(b) for m, b in x.items()}


def ents(s):
  return {(m, n): v for m, b in s.items() for n, v in b.items()}


def build(e):
  out = {}
  for (m, n), v in e.items():
    out.setdefault(m, {})[n] = v
  return out


def same(a, b):
  return type(a) is type(b) and (a is b or bool(np.all(a == b)))


def expect(what, got, want):
  if type(got) is not FM:
    raise Violation("%s: result is a %s" % (what, type(got)))
  for m, b in got.items():
    if type(b) is not FM:
      raise Violation("%s: bundle %r is a %s" % (what, m, type(b)))
  g = plain(got)
  if set(g) != set(want) or any(set(g[m]) != set(want[m]) for m in want) or any(not same(g[m][n], want[m][n]) for m in want for n in want[m]):
    raise Violation("%s: got %r, expected %r" % (what, g, want))


def scramble(x):
  """Changes a caller's mutable structure at both levels."""
  if isinstance(x, FM):
    return
  for m in list(x):
    if not isinstance(x[m], FM):
      x[m]["w"] = "changed"
      x[m]["new"] = 0
  x["new"] = {"q": 1}


def check_struct(s, kind, rec, preds):
  e = ents(s)
  for truth in preds(e):
    src = make(kind, s)
    calls = []
    def p(m, n, v):
      calls.append((m, n))
      if not same(v, e[(m, n)]):
        raise Violation("predicate got %r for %r" % (v, (m, n)))
      return truth[(m, n)]
    what = "%s on %r (%s), keep %r" % ("filter", s, kind, [k for k in e if truth[k]])
    f = ds.filter(p, src)
    if sorted(calls) != sorted(e):
      raise Violation("%s: predicate called on %r" % (what, calls))
    yes, no = ds.partition(p, src)
    if plain(src) != s:
      raise Violation("%s: input changed to %r" % (what, src))
    want_y = build({k: v for k, v in e.items() if truth[k]})
    want_n = build({k: v for k, v in e.items() if not truth[k]})
    full = build(e)
    m1, m2 = ds.merge(yes, no), ds.merge(no, yes)
    scramble(src)
    expect(what, f, want_y)
    expect("partition (true) " + what, yes, want_y)
    expect("partition (false) " + what, no, want_n)
    expect("merge of partition " + what, m1, full)
    expect("merge of partition, reversed " + what, m2, full)
    rec.step(4)
    rec.trace()
    rec.state(repr((sorted(full.items()), [truth[k] for k in sorted(e)])))
  # map
  for fname, fn in (("pair", lambda m, n, v: (m, n, v)), ("none", lambda m, n, v: None), ("const", lambda m, n, v: 0), ("list", lambda m, n, v: [v])):
    src = make(kind, s)
    calls = []
    def g(m, n, v):
      calls.append((m, n))
      return fn(m, n, v)
    out = ds.map(g, src)
    if sorted(calls) != sorted(e) or plain(src) != s:
      raise Violation("map on %r: function called on %r, input afterwards %r" % (s, calls, src))
    scramble(src)
    expect("map(%s) on %r (%s)" % (fname, s, kind), out, build({(m, n): fn(m, n, v) for (m, n), v in e.items()}))
    rec.step()


def all_preds(e):
  ks = sorted(e)
  for bits in itertools.product((False, True), repeat=len(ks)):
    yield dict(zip(ks, bits))


def truthy_preds(e):
  """Truth values of other types."""
  ks = sorted(e)
  for t in (1, np.bool_(True), np.ones(()), "x", jnp.ones(())):
    yield {k: t for k in ks}
  for t in (0, np.bool_(False), np.zeros(()), "", None, jnp.zeros(())):
    yield {k: t for k in ks}


def check_merge(ss, kinds, rec):
  srcs = [make(k, s) for k, s in zip(kinds, ss)]
  out = ds.merge(*srcs)
  for x, s in zip(srcs, ss):
    if plain(x) != s:
      raise Violation("merge changed its input %r to %r" % (s, x))
  e = {}
  for s in ss:
    e.update(ents(s))
  for x in srcs:
    scramble(x)
  expect("merge of %r (%s)" % (ss, kinds), out, build(e))
  rec.step()
  rec.trace()
  rec.state(("merge", repr(ss)))


def cases(tier):
  out = []
  q = tier == "quick"
  n = len(structs(MODS, ["w", "b"], [1, 2]))
  for k in KINDS + ["mixed"]:
    for lo in range(0, n, 50):
      out.append({"t": "struct", "kind": k, "lo": lo, "hi": lo + 50})
  if not q:
    n3 = len(structs(MODS[:2], ["w", "b", "c"], [1, 2]))
    for lo in range(0, n3, 40):
      out.append({"t": "struct3", "kind": "dict", "lo": lo, "hi": lo + 40})
  out.append({"t": "values"})
  for i in range(100):
    out.append({"t": "merge2", "i": i})
  for i in range(36):
    out.append({"t": "merge3", "i": i})
  if not q:
    for i in range(100):
      out.append({"t": "merge3b", "i": i})
  out.append({"t": "merge4"})
  for i in range(len(SHAPES)):
    out.append({"t": "size", "i": i})
  return out


SHAPES = [(), (0,), (1,), (2,), (3, 2), (2, 0), (1, 1, 1), (2, 3, 4), (5, 1), (7,), (0, 0), (1, 2, 1, 2)]
DTYPES = ["float32", "bfloat16", "float16", "int8", "int32", "bool", "complex64", "uint16"]
ITEM = {"float32": 4, "bfloat16": 2, "float16": 2, "int8": 1, "int32": 4, "bool": 1, "complex64": 8, "uint16": 2}


def run_case(case, rec):
  t = case["t"]
  if t in ("struct", "struct3"):
    fam = structs(MODS, ["w", "b"], [1, 2]) if t == "struct" else structs(MODS[:2], ["w", "b", "c"], [1, 2])
    for s in fam[case["lo"]:case["hi"]]:
      check_struct(s, case["kind"], rec, all_preds)
  elif t == "values":
    vals = [None, [], [1], (), "s", 0, False, np.zeros((2,)), jnp.ones((2,)), {}, {"q": 1}]
    for v in vals:
      for s in ({"a": {"w": v}}, {"a": {"w": v, "b": 1}, "b": {"w": 2}}):
        if isinstance(v, dict):
          # nested mappings are entries too; they come back frozen
          for out, want in ((ds.filter(lambda *a: True, s), s), (ds.map(lambda m, n, x: x, s), s), (ds.merge(s), s), (ds.partition(lambda *a: True, s)[0], s)):
            if out != want:
              raise Violation("entry %r came back as %r" % (s, out))
          continue
        for kind in KINDS + ["mixed"]:
          e = ents(s)
          for p in (lambda m, n, x: x is v, lambda m, n, x: n == "w", lambda m, n, x: m == "b"):
            src = make(kind, s)
            yes, no = ds.partition(p, src)
            expect("partition %r" % (s,), yes, build({k: x for k, x in e.items() if p(k[0], k[1], x)}))
            expect("partition %r" % (s,), no, build({k: x for k, x in e.items() if not p(k[0], k[1], x)}))
            expect("filter %r" % (s,), ds.filter(p, src), build({k: x for k, x in e.items() if p(k[0], k[1], x)}))
            expect("merge %r" % (s,), ds.merge(yes, no), s)
            expect("merge %r" % (s,), ds.merge(no, src), s)
            rec.step(5)
    for s in ({"a": {"w": 1, "b": 2}}, {"a": {"w": 1}, "b": {"w": 2}}):
      check_struct(s, "dict", rec, truthy_preds)
  elif t == "merge2":
    fam = structs(MODS[:2], ["w", "b"], [1, 2])
    a = fam[case["i"]]
    for j, b in enumerate(fam):
      b = {m: {n: v + 10 if v is not None else v for n, v in x.items()} for m, x in b.items()}
      for kinds in itertools.product(KINDS, repeat=2):
        check_merge([a, b], kinds, rec)
  elif t in ("merge3", "merge3b"):
    fam = structs(MODS[:2], ["w", "b"], [1]) if t == "merge3" else structs(MODS[:2], ["w", "b"], [1, 2])
    fam = [s for s in fam if True]
    if case["i"] >= len(fam):
      return
    a = fam[case["i"]]
    shift = lambda s, d: {m: {n: v + d for n, v in x.items()} for m, x in s.items()}
    for b in fam:
      for c in fam:
        check_merge([a, shift(b, 10), shift(c, 20)], ["dict", "flat", "dict"], rec)
        if t == "merge3":
          check_merge([a, shift(b, 10), shift(c, 20)], ["flat", "mixed", "ordered"], rec)
  elif t == "merge4":
    fam = structs(["a"], ["w", "b"], [1]) + [{"b": {"w": 1}}, {"a": {"w": 1}, "b": {"w": 1}}]
    shift = lambda s, d: {m: {n: v + d for n, v in x.items()} for m, x in s.items()}
    for c in itertools.product(fam, repeat=4):
      check_merge([shift(s, 10 * i) for i, s in enumerate(c)], ["dict"] * 4, rec)
    for s in fam:
      check_merge([s], ["dict"], rec)
      check_merge([s], ["flat"], rec)
    out = ds.merge()
    if len(out) != 0:
      raise Violation("merge() is %r" % (out,))
  elif t == "size":
    sh = SHAPES[case["i"]]
    cache = {}
    def arr(s, d):
      if (s, d) not in cache:
        cache[(s, d)] = jnp.zeros(s, d)
      return cache[(s, d)]
    n = lambda s: int(np.prod(s, dtype=int))
    for d in DTYPES:
      for s2, d2 in itertools.product(SHAPES, DTYPES):
        x, y = arr(sh, d), arr(s2, d2)
        nx, ny, bx, by = n(sh), n(s2), n(sh) * ITEM[d], n(s2) * ITEM[d2]
        for tree, size, nbytes in ((x, nx, bx), ({"m": {"w": x, "b": y}}, nx + ny, bx + by), ([x, (y, x)], 2 * nx + ny, 2 * bx + by),
                                   (ds.to_immutable_dict({"m": {"w": x}, "n": {"w": y, "b": y}, "o": {}}), nx + 2 * ny, bx + 2 * by),
                                   ({"m": {"w": np.zeros(sh, np.float64), "b": None}}, nx, 8 * nx), ({}, 0, 0)):
          if ds.tree_size(tree) != size or ds.tree_bytes(tree) != nbytes:
            raise Violation("tree_size/tree_bytes of %r: %r, %r; expected %r, %r" % (tree, ds.tree_size(tree), ds.tree_bytes(tree), size, nbytes))
          rec.step()
    rec.trace()
    rec.state(("size", sh))
