"""to_dot and abstract_to_dot: the drawn graph of every bounded module program against the data flow of a symbolic run of the program."""
import collections, html, itertools, re
import jax, jax.numpy as jnp, numpy as np
from jax import lax
import haiku as hk
from haiku._src import module as _module
from mc.core import Violation

TECHNIQUE = "explicit-state enumeration of all bounded programs of operations and module calls; the parsed graph of the real to_dot compared node by node and edge by edge with a symbolic run"
LEVEL = "model_checking"
BOUNDS = {"quick": "all programs of <=3 of 13 operation statements (unary, binary, constant, scalar constants, two outputs, operand-returning, custom jvp/vjp, jit, cond, scan, parameter) on the latest "
                   "values without modules, <=2 over all operand choices; all one- and two-level module programs (call, other method, constructor, property-free reuse) around all single statements and all pairs "
                   "of 5; as plain function, init, apply and inside a transform; concrete and abstract; 9 output and argument structures; failures at every statement",
          "thorough": "programs of <=4 statements, module bodies of two statements over all kinds"}
ASSUMPTIONS = ["operations on constants only are not drawn (JAX does not trace them)", "the same array passed as two different arguments is not judged",
               "operations of a module method that raises are not judged"]
CASE_TIMEOUT = 240
CHUNK = 1

NPC, JC = np.array([2., 3.], np.float32), None


def consts():
  global JC
  if JC is None:
    JC = jnp.array([4., 5.])
  return JC


@jax.custom_jvp
def cjvp(x):
  return lax.sin(lax.neg(x))
cjvp.defjvp(lambda p, t: (cjvp(*p), t[0]))


@jax.custom_vjp
def cvjp(x):
  return lax.neg(lax.sin(x))
cvjp.defvjp(lambda x: (cvjp(x), None), lambda r, g: (g,))
jitted = jax.jit(lambda x: lax.add(lax.sin(x), x))
F2 = "f32[2]"


class Boom(Exception):
  pass


class Real:
  def __init__(self, boom=None):
    self.n, self.boom, self.mods = 0, boom, []

  def tick(self):
    self.n += 1
    if self.n == self.boom:
      raise Boom()

  def stmt(self, s, v):
    self.tick()
    k, a = s[0], [v[i] for i in s[1:]] if s[0] not in ("M", "R") else []
    if k in ("sin", "neg"): v.append(getattr(lax, k)(*a))
    elif k in ("add", "mul"): v.append(getattr(lax, k)(*a))
    elif k == "npc": v.append(lax.sub(a[0], NPC))
    elif k == "jc": v.append(lax.sub(consts(), a[0]))
    elif k == "clamp": v.append(lax.clamp(np.float32(0.5), a[0], np.float32(1.5)))
    elif k == "sort": v.extend(lax.sort((a[0], a[1]), num_keys=1))
    elif k == "sg": v.append(lax.stop_gradient(a[0]))
    elif k == "jvp": v.append(cjvp(a[0]))
    elif k == "vjp": v.append(cvjp(a[0]))
    elif k == "jit": v.append(jitted(a[0]))
    elif k == "cond": v.append(lax.cond(True, lax.sin, lax.cos, a[0]))
    elif k == "scan": v.extend(lax.scan(lambda c, x: (lax.add(c, x), lax.sin(c)), a[0], lax.broadcast(a[1], (3,)))[:1])
    elif k == "p": v.append(lax.mul(a[0], hk.get_parameter("w", [2], init=lambda s, d: np.array([6., 7.], np.float32))))
    elif k == "M":
      m = Mod(self, s[2], s[3], v[s[4]], s[5])
      v.append(getattr(m, s[1])(v[s[4]]) if s[1] != "__call__" else m(v[s[4]]))
      self.mods.append((m, s[1]))
    elif k == "R":
      m, meth = self.mods[s[1]]
      v.append(getattr(m, meth)(v[s[2]]))
    else: raise AssertionError(s)

  def body(self, stmts, v):
    for s in stmts:
      self.stmt(s, v)
    return v[-1]


class Mod(hk.Module):
  def __init__(self, real, name, body, x, ctor):
    super().__init__(name=name)
    self.real, self.bd = real, body
    if ctor:
      real.body(ctor, [x])

  def __call__(self, x):
    return self.real.body(self.bd, [x])

  def meth(self, x):
    return self.real.body(self.bd, [x])


class Node:
  def __init__(self, title, outs, ins):
    self.title, self.outs, self.ins = title, outs, ins


class Val:
  def __init__(self, node, label=None, shape=F2):
    self.node, self.label, self.shape = node, label, shape


class Sym:
  """The same program on values that know where they come from."""

  def __init__(self, params):
    self.root = ["", [], []]          # title, nodes, clusters
    self.stack, self.scope, self.used, self.mods = [self.root], [], [set()], []
    self.params = params              # how a parameter of module m is labelled

  def op(self, title, ins, shapes=(F2,)):
    n = Node(title, [], ins)
    n.outs = [Val(n, shape=s) for s in shapes]
    self.stack[-1][1].append(n)
    return n.outs

  def cap(self, label):
    return Val(None, ("cap", label))

  def stmt(self, s, v):
    k, a = s[0], [v[i] for i in s[1:]] if s[0] not in ("M", "R") else []
    if k in ("sin", "neg", "add", "mul"): v += self.op(k, a)
    elif k == "npc": v += self.op("sub", [a[0], self.cap(F2)])
    elif k == "jc": v += self.op("sub", [a[0], self.cap(F2)])
    elif k == "clamp": v += self.op("clamp", [a[0], self.cap("0.5"), self.cap("1.5")])
    elif k == "sort": v += self.op("sort", a, (F2, F2))
    elif k == "sg": v += self.op("stop_gradient", a)
    elif k == "jvp": v += self.op("sin", self.op("neg", a))
    elif k == "vjp": v += self.op("neg", self.op("sin", a))
    elif k == "jit": v += self.op("pjit", a)
    elif k == "cond": v += self.op("cond", [a[0], self.cap("s32[]")])
    elif k == "scan":
      b = self.op("broadcast_in_dim", [a[1]], ("f32[3,2]",))
      v += self.op("scan", [a[0], b[0]], (F2, "f32[3,2]"))[:1]
    elif k == "p": v += self.op("mul", [a[0], self.params("/".join(self.scope[-1:]) or "~")])
    elif k == "M":
      base = s[2]
      pre = self.scope[-1] + "/" if self.scope else ""
      if self.stack[-1][0].endswith(" (__init__)"): pre += "~/"
      elif self.stack[-1][0].endswith(" (meth)"): pre += "~meth/"
      name, i = pre + base, 0
      while name in self.used[-1]:
        i += 1
        name = "%s%s_%d" % (pre, base, i)
      self.used[-1].add(name)
      self.call(name, "__init__", s[5], v[s[4]])
      self.mods.append((name, s[3], s[1]))
      v.append(self.call(name, s[1], s[3], v[s[4]]))
      self.mods[-1] = self.mods[-1]
    elif k == "R":
      name, bd, meth = self.mods[s[1]]
      v.append(self.call(name, meth, bd, v[s[2]]))
    else: raise AssertionError(s)

  def call(self, name, meth, body, x):
    c = [name + ("" if meth == "__call__" else " (%s)" % meth), [], []]
    self.stack[-1][2].append(c)
    self.stack.append(c)
    self.scope.append(name)
    self.used.append(set())
    v = [x]
    for s in body:
      self.stmt(s, v)
    self.stack.pop(); self.scope.pop(); self.used.pop()
    return v[-1]

  def body(self, stmts, v):
    for s in stmts:
      self.stmt(s, v)
    return v[-1]


# ---- parsing

def parse(dot):
  lines = dot.splitlines()
  root = ["", [], []]
  stack, ids, edges, others = [root], {}, [], {}
  title = None
  for l in lines:
    l = l.strip()
    if re.match(r"subgraph cluster_\S+ \{$", l):
      c = [None, [], []]
      stack[-1][2].append(c)
      stack.append(c)
    elif re.match(r"\}\s*(//.*)?$", l):
      if len(stack) > 1:
        stack.pop()
    elif re.match(r"label = <", l):
      t = html.unescape(re.match(r"label = <<b>(.*)</b>>;", l).group(1))
      if len(stack) > 1:
        stack[-1][0] = t
      else:
        title = t
    elif re.match(r"\d+ -> \d+;", l):
      a, b = re.match(r"(\d+) -> (\d+);", l).groups()
      edges.append((a, b))
    else:
      m = re.match(r"(\d+) \[label=<(.*?)>(,| )\s*(id=|shape=)", l)
      if m:
        i, label = m.group(1), [html.unescape(p) for p in re.sub("</?b>", "", m.group(2)).split("<br/>")]
        if m.group(4) == "id=" and m.group(3) == ",":
          if i in ids:
            raise Violation("two operations share one node: %s and %s" % (ids[i][1], label))
          stack[-1][1].append(i)
          ids[i] = ("op", label)
        else:
          others[i] = label
  return title, root, ids, edges, others


def compare(dot, sym, outs, title, what):
  t, root, ids, edges, others = parse(dot)
  if t != title:
    raise Violation("%s: the graph is titled %r, the function %r" % (what, t, title))
  ins = collections.defaultdict(list)
  pos = {}
  def number(c, path):
    for j, i in enumerate(c[1]):
      pos[i] = (path, j)
    for j, d in enumerate(c[2]):
      number(d, path + (j,))
  number(root, ())
  spos = {}
  def snumber(c, path):
    for j, n in enumerate(c[1]):
      spos[n] = (path, j)
    for j, d in enumerate(c[2]):
      snumber(d, path + (j,))
  snumber(sym.root, ())
  for a, b in edges:
    if b not in pos:
      raise Violation("%s: edge into a node that is not an operation: %s -> %s" % (what, a, b))
    if a in pos:
      src = ("op",) + pos[a]
    elif a in others:
      lab = [x for x in others[a] if x != "(reuse)"]
      src = ("arg" if lab[0].startswith("args[") else "cap",) + tuple(lab)
    else:
      raise Violation("%s: an edge starts at the undeclared node %s, into %s" % (what, a, ids[b][1]))
    ins[pos[b]].append(src)
  used = {a for a, b in edges}
  for i in others:
    if i not in used:
      raise Violation("%s: node %s is not connected" % (what, others[i]))
  outnames = collections.defaultdict(list)
  for name, v in outs:
    if v.node is not None:
      outnames[v].append(name)
  def cmp(c, s, path):
    if path and c[0] != s[0]:
      raise Violation("%s: cluster %r instead of %r" % (what, c[0], s[0]))
    if len(c[1]) != len(s[1]):
      raise Violation("%s: cluster %r has operations %s, executed were %s" % (what, s[0], [ids[i][1] for i in c[1]], [n.title for n in s[1]]))
    for i, n in zip(c[1], s[1]):
      label = ids[i][1]
      want = [n.title] + [o.shape for o in n.outs]
      names = []
      if label != want and label[0].startswith("output"):
        names, label = label[0].split(", "), label[1:]
      if label != want:
        raise Violation("%s: operation drawn as %s instead of %s (cluster %r)" % (what, label, want, s[0]))
      allowed = [x for o in n.outs for x in outnames[o]]
      if any(x not in allowed for x in names) or any(outnames[o] and not any(x in names for x in outnames[o]) for o in n.outs):
        raise Violation("%s: operation %s is marked as %s, it computes %s" % (what, n.title, names or "no output", allowed or "no output"))
      w = []
      for v in n.ins:
        w.append(("op",) + spos[v.node] if v.node is not None else v.label)
      got = ins[pos[i]]
      if sorted(map(repr, got)) != sorted(map(repr, w)):
        raise Violation("%s: operands of %s (cluster %r) drawn as %s, they are %s" % (what, n.title, s[0], sorted(map(repr, got)), sorted(map(repr, w))))
    if len(c[2]) != len(s[2]):
      raise Violation("%s: cluster %r contains %s, called were %s" % (what, s[0], [d[0] for d in c[2]], [d[0] for d in s[2]]))
    for j, (d, e) in enumerate(zip(c[2], s[2])):
      cmp(d, e, path + (j,))
  cmp(root, sym.root, ())


# ---- running

OUTS = {"last": lambda v: v[-1], "tuple": lambda v: (v[-1], v[-2]), "dict": lambda v: {"a": v[-1], "b": [v[-2], v[0]]}, "nested": lambda v: ((v[-1],), {"k": v[-2]}), "none": lambda v: None,
        "list": lambda v: [v[-2], v[-1]], "twice": lambda v: (v[-1], v[-1])}
ARGS = {"two": lambda x, y: ((x, y), ["args[%d]", "args[%d]"]),
        "one": lambda x, y: (((x, y),), ["args[%d]: 0", "args[%d]: 1"]),
        "dict": lambda x, y: (({"a": x, "b": [y]}, None), ["args[%d]: a", "args[%d]: b/0"])}


def outpaths(o):
  """[(name, value)] for an output structure."""
  res = []
  def walk(x, path):
    if isinstance(x, (tuple, list)):
      for i, e in enumerate(x): walk(e, path + [str(i)])
    elif isinstance(x, dict):
      for k in sorted(x): walk(x[k], path + [k])
    elif x is not None:
      res.append((path, x))
  walk(o, [])
  def name(p):
    head, rest = ("output[%s]" % p[0], p[1:]) if isinstance(o, tuple) else ("output", p)
    return head + (": " + "/".join(rest) if rest else "")
  return [(name(p), x) for p, x in res]


def unpack(args):
  return jax.tree_util.tree_leaves(args)


def has(prog, kinds):
  return any(s[0] in kinds or (s[0] == "M" and (has(s[3], kinds) or has(s[5], kinds))) for s in prog)


def run(prog, mode, out, args, rec, boom=None, scopes=True):
  x, y = jnp.array([1., 0.5]), jnp.array([0.25, 3.])
  a, labels = ARGS[args](x, y)
  real = [None]
  def main(*a):
    real[0] = Real(boom)
    runs[0] += 1
    v = list(unpack(a))
    real[0].body(prog, v)
    return OUTS[out](v)
  runs = [0]
  hkf = hk.transform(main)
  caplabel = lambda name: Val(None, ("cap", F2))
  off, params = 0, caplabel
  if mode == "plain":
    fun, call, title = main, lambda d: d(main)(*a), "main"
  elif mode == "init":
    off = 1
    fun, call, title = hkf.init, lambda d: d(hkf.init)(jax.random.PRNGKey(1), *a), "init_fn"
  elif mode == "apply":
    off = 2
    ps = {m: {n: jnp.asarray(v) for n, v in d.items()} for m, d in hk.transform(lambda *z: (setattr(main, "_", 0), main(*z))[1] if boom is None else Real().body(prog, list(unpack(z)))).init(None, *a).items()}
    params = lambda name: Val(None, ("arg", "args[0]: %s/w" % name, F2))
    call, title = lambda d: d(hkf.apply)(ps, None, *a), "apply_fn"
  elif mode == "inside":
    def call(d):
      def outer():
        return_[0] = d(main)(*a)
      return_ = [None]
      ps = hk.transform(lambda: main(*a)).init(None) if boom is None else hk.transform(lambda: Real().body(prog, list(unpack(a)))).init(None)
      runs[0] = 0
      hk.transform(outer).apply({m: {n: jnp.asarray(v) for n, v in b.items()} for m, b in ps.items()}, None)
      return return_[0]
    title = "main"
  sym = Sym(params)
  v = [Val(None, ("arg", (l % (off + (0 if args != "two" else i))), F2)) for i, l in enumerate(labels)]
  sym.body(prog, v)
  o = OUTS[out](v)
  outs = [] if mode == "init" else outpaths(o)
  for which, d in (("to_dot", hk.experimental.to_dot), ("abstract_to_dot", hk.experimental.abstract_to_dot)):
    what = "%s (%s, args %s, out %s) of %r" % (which, mode, args, out, prog)
    runs[0] = 0
    hk.experimental.profiler_name_scopes(enabled=scopes)
    try:
      dot = call(d)
    except Boom:
      if boom is None:
        raise
      dot = None
    if _module.modules_with_named_call != scopes:
      raise Violation("%s: the profiler name scope setting was changed" % what)
    if runs[0] != 1:
      raise Violation("%s: the function ran %d times" % (what, runs[0]))
    rec.step(len(prog)); rec.trace()
    if boom is not None:
      if dot is not None:
        raise Violation("%s: the exception was lost" % what)
      continue
    compare(dot, sym, outs, title, what)
  rec.state(repr((prog, mode, out, args)))
  rec.outcome(repr((sym.root[1] and [n.title for n in sym.root[1]], len(sym.root[2]))))


UN = ["sin", "npc", "jc", "clamp", "sg", "jvp", "vjp", "jit", "cond"]
BI = ["add", "sort", "scan"]


def stmts_at(n, last_only, params):
  """All statements over n values (last_only: operands are the latest ones)."""
  idx = [n - 1] if last_only else list(range(n))
  out = [[k, i] for k in UN + (["p"] if params else []) for i in idx]
  for k in BI:
    for i in idx:
      for j in ([n - 2] if last_only else list(range(n))):
        if k == "sort" and i == j:
          continue
        out.append([k, i, j])
  return out


def width(s):
  return 2 if s[0] == "sort" else 1


def programs(n, last_only, params, start=2):
  if n == 0:
    yield []
    return
  for p in programs(n - 1, last_only, params, start):
    w = start + sum(width(s) for s in p)
    for s in stmts_at(w, last_only, params):
      yield p + [s]


def bodies(tier):
  """Bodies of module methods (one value to start with)."""
  one = [[k, 0] for k in UN + ["p"]] + [["add", 0, 0]]
  out = [[]] + [[s] for s in one]
  second = one if tier == "thorough" else [["sin", 0], ["jvp", 0], ["p", 0], ["sg", 0], ["npc", 0]]
  for a in second:
    for b in second:
      out.append([a, [b[0], 1]])
      out.append([a, ["add", 1, 0]])
  return out


def cases(tier):
  cs = []
  def chunks(kind, items, n):
    items = list(items)
    for i in range(0, len(items), n):
      cs.append([kind, items[i:i + n]])
  # 1: operations only
  plain = [p for n in range(3) for p in programs(n, False, False)]
  plain += list(programs(3, True, False)) + (list(programs(4, True, False)) if tier == "thorough" else [])
  chunks("plain", plain, 40)
  # 2: structures
  mixed = [p for n in (1, 2) for p in programs(n, True, False)]
  chunks("struct", mixed, 6)
  # 3: modules
  mods = []
  for meth in ("__call__", "meth"):
    for b in bodies(tier):
      mods.append([["M", meth, "m", b, 1, []]])
    for b in ([["sin", 0]], [["p", 0]]):
      for c in ([["neg", 0]], [["sin", 0], ["add", 0, 1]], [["M", "__call__", "k", [["p", 0]], 0, []]]):
        mods.append([["M", meth, "m", b, 1, c]])
      for pre in ([], [["sin", 0]]):
        for post in ([], [["add", -1, 0]], [["R", 0, -1]], [["M", "__call__", "m", b, -1, []]], [["M", "meth", "n", b, 0, []]], [["M", "__call__", "m", [["npc", 0]], -1, []], ["R", 0, -1], ["R", 1, 0]]):
          mods.append(pre + [["M", meth, "m", b, -1, []]] + post)
    for m2 in ("__call__", "meth"):
      for b in ([["sin", 0]], [["p", 0]], [["jvp", 0]], [["sort", 0, 0]][:0]):
        for pre in ([], [["neg", 0]]):
          for post in ([], [["add", -1, 0]]):
            mods.append([["M", meth, "m", pre + [["M", m2, "k", b, -1, [["sin", 0]]]] + post, 0, []], ["mul", -1, 1]])
            mods.append([["M", meth, "m", pre + [["M", m2, "k", b, -1, []], ["M", m2, "k", b, -1, []]] + post, 0, []], ["mul", -1, 1]])
  chunks("mods", mods, 6)
  chunks("boom", [m for m in mods if len(m) > 1][:40 if tier == "quick" else None] + [p for p in programs(2, True, False)][:30], 4)
  return cs


def run_case(case, rec):
  kind, progs = case
  for prog in progs:
    if kind == "plain":
      run(prog, "plain", "last" if prog else "none", "two", rec)
    elif kind == "struct":
      for out in OUTS:
        for args in ARGS:
          run(prog, "plain", out, args, rec)
    elif kind == "mods":
      for mode in ("init", "apply", "inside"):
        for scopes in (True, False):
          run(prog, mode, "tuple", "two", rec, scopes=scopes)
      if not has(prog, ("p",)):
        run(prog, "apply", "dict", "dict", rec)
    elif kind == "boom":
      n = 1
      while True:
        probe = Real()
        try:
          hk.transform(lambda: probe.body(prog, [jnp.ones([2]), jnp.ones([2])])).init(None)
        except Exception as e:
          raise
        if n > probe.n:
          break
        modes = ("plain",) if not has(prog, ("M", "p", "R")) else ("init", "apply", "inside")
        for mode in modes:
          run(prog, mode, "tuple", "two", rec, boom=n, scopes=bool(n % 2))
          run(prog, mode, "tuple", "two", rec)
        n += 1
