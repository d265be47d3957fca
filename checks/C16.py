"""Recurrent cores: every core, unroll, stacking and reset pattern in the bound against step-by-step references."""
import itertools
import jax, jax.numpy as jnp, numpy as np
import haiku as hk
from mc.core import Violation
from mc import convref

TECHNIQUE = "exhaustive enumeration of cores x sizes x lengths x unrolls, of all reset patterns and of all stackings up to depth 3 on the real code, against step-by-step references in double precision"
LEVEL = "model_checking"
RULE = "state = (core, sizes, unroll, time step or reset pattern); every pattern of resets is executed"
BOUNDS = {"quick": "cores {VanillaRNN x double bias, LSTM, GRU, Conv1D/2D/3DLSTM, Identity, noisy stateful core}; input and hidden sizes 1-3, batch {none,1,2,3}, lengths 1-4; static/dynamic/loop x time/batch "
                   "major, direct and jitted; ResetCore: all reset patterns of T*B<=8 (per entry), T*B<=4 with separate signals per state leaf, element-wise signals, unbatched; 6 wrapped cores incl. non-zero initial "
                   "state and integer state; DeepRNN: all stackings of <=3 of 7 layers with and without skip connections, each reset or not",
          "thorough": "lengths 1-6, T*B<=12, DeepRNN stackings of depth 4"}
ASSUMPTIONS = ["agreement up to rounding (1e-4 relative, float32)", "T >= 1 (static_unroll of an empty sequence has no output structure)"]
CHUNK = 2
TOL = 1e-4
sig = lambda x: 1 / (1 + np.exp(-x))


def arr(shape, salt=0, lo=-1., hi=1.):
  return np.random.RandomState(997 * salt + sum((i + 1) * 31 * s for i, s in enumerate(shape))).uniform(lo, hi, shape).astype(np.float32)


def need(what, got, exp, tol=TOL):
  g, tg = jax.tree_util.tree_flatten(got)
  e, te = jax.tree_util.tree_flatten(exp)
  if len(g) != len(e):
    raise Violation("%s has %d leaves, expected %d" % (what, len(g), len(e)))
  for a, b in zip(g, e):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    if a.shape != b.shape or not np.all(np.abs(a - b) <= tol * (1 + np.abs(b))):
      raise Violation("%s is %s of shape %r, expected %s of shape %r" % (what, a.tolist(), a.shape, b.tolist(), b.shape))


def fill(params):
  """Distinct non-zero values for every parameter."""
  return {m: {k: arr(v.shape, 1 + sum(map(ord, m + k)) % 89) for k, v in b.items()} for m, b in params.items()}


# ---- cores: name -> (constructor, parameter shapes, reference step, initial state shape) ------
class Counter(hk.RNNCore):
  """Non-zero initial state with leaves of different rank and dtype."""

  def __call__(self, inputs, state):
    n, v, s = state
    n2 = n + 1
    out = inputs.sum(-1) + v.sum(-1) + n + s.sum((-1, -2))
    return out, (n2, v * 0.5 + inputs[..., :1], s + 1)

  def initial_state(self, batch_size):
    st = (jnp.asarray(7, jnp.int32), jnp.asarray([2.0, -1.0]), jnp.full((2, 1), 0.25))
    if batch_size is not None:
      st = jax.tree_util.tree_map(lambda x: jnp.broadcast_to(x, (batch_size,) + x.shape), st)
      st = (st[0], st[1] + jnp.arange(batch_size)[:, None], st[2])  # Entries start from different states.
    return st


def counter_ref(p, x, s):
  n, v, q = s
  return x.sum(-1) + v.sum(-1) + n + q.sum((-1, -2)), (n + 1, v * .5 + x[..., :1], q + 1)


def counter_init(b):
  st = (np.asarray(7), np.array([2., -1.]), np.full((2, 1), .25))
  if b is None:
    return st
  st = tuple(np.broadcast_to(x, (b,) + x.shape) for x in st)
  return st[0], st[1] + np.arange(b)[:, None], st[2]


def lstm_gates(g, c):
  i, g, f, o = np.split(g, 4, -1)
  c = sig(f + 1) * c + sig(i) * np.tanh(g)
  h = sig(o) * np.tanh(c)
  return h, (h, c)


def ref_lstm(p, x, s):
  return lstm_gates(np.concatenate([x, s[0]], -1) @ p["lstm/linear"]["w"] + p["lstm/linear"]["b"], s[1])


def ref_vanilla(p, x, s):
  a, b = p["vanilla_rnn/linear"], p["vanilla_rnn/linear_1"]
  o = np.maximum(x @ a["w"] + a["b"] + s @ b["w"] + b.get("b", 0), 0)
  return o, o


def ref_gru(p, x, s):
  w = p["gru"]
  H = s.shape[-1]
  zr = sig(x @ w["w_i"][:, :2 * H] + s @ w["w_h"][:, :2 * H] + w["b"][:2 * H])
  z, r = zr[..., :H], zr[..., H:]
  a = np.tanh(x @ w["w_i"][:, 2 * H:] + (r * s) @ w["w_h"][:, 2 * H:] + w["b"][2 * H:])
  o = (1 - z) * s + z * a
  return o, o


def dense(kind, I, H):
  """(make, expected parameter shapes, ref, init(batch))"""
  z = lambda b: np.zeros((H,) if b is None else (b, H))
  if kind == "vanilla":
    return lambda: hk.VanillaRNN(H), {"vanilla_rnn/linear": {"w": (I, H), "b": (H,)}, "vanilla_rnn/linear_1": {"w": (H, H), "b": (H,)}}, ref_vanilla, z
  if kind == "vanilla1":
    return lambda: hk.VanillaRNN(H, double_bias=False), {"vanilla_rnn/linear": {"w": (I, H), "b": (H,)}, "vanilla_rnn/linear_1": {"w": (H, H)}}, ref_vanilla, z
  if kind == "lstm":
    return lambda: hk.LSTM(H), {"lstm/linear": {"w": (I + H, 4 * H), "b": (4 * H,)}}, ref_lstm, lambda b: (z(b), z(b))
  if kind == "gru":
    return lambda: hk.GRU(H), {"gru": {"w_i": (I, 3 * H), "w_h": (H, 3 * H), "b": (3 * H,)}}, ref_gru, z
  if kind == "identity":
    return lambda: hk.IdentityCore(), {}, lambda p, x, s: (x, s), lambda b: ()
  if kind == "counter":
    return lambda: Counter(), {}, counter_ref, counter_init
  raise KeyError(kind)


DENSE = ["vanilla", "vanilla1", "lstm", "gru", "identity", "counter"]


def ref_loop(ref, p, xs, s, T):
  outs, states = [], []
  for t in range(T):
    o, s = ref(p, xs[t], s)
    outs.append(o)
    states.append(s)
  return np.stack(outs), s, states


def loop_unroll(core, xs, s, time_major=True):
  outs = []
  ax = 0 if time_major else 1
  for t in range(jax.tree_util.tree_leaves(xs)[0].shape[ax]):
    o, s = core(jax.tree_util.tree_map(lambda x: x[t] if time_major else x[:, t], xs), s)
    outs.append(o)
  return jax.tree_util.tree_map(lambda *a: jnp.stack(a, ax), *outs), s


UNROLLS = {"static": hk.static_unroll, "dynamic": hk.dynamic_unroll, "loop": loop_unroll}


def shapes(p):
  return {m: {k: v.shape for k, v in b.items()} for m, b in p.items()}


def c_step(case, rec):
  """One step from a non-zero state, for every size; batch entries are independent."""
  kind = case["kind"]
  for I, H, B in itertools.product((1, 2, 3), (1, 2, 3), (None, 1, 2, 3)):
    make, pshapes, ref, init = dense(kind, I, H)
    t = hk.transform(lambda x, s: make()(x, s))
    x = arr((I,) if B is None else (B, I), 3)
    z = init(B)
    s = jax.tree_util.tree_map(lambda a: (a + arr(a.shape, 4)).astype(np.float32) if a.dtype.kind == "f" else a + 1, z)
    what = "%s input %d hidden %d batch %r" % (kind, I, H, B)
    s_in = hk.LSTMState(*s) if kind == "lstm" else s
    p = t.init(jax.random.PRNGKey(0), x, s_in)
    if shapes(p) != pshapes:
      raise Violation("%s: parameters %r, expected %r" % (what, shapes(p), pshapes))
    p = fill(p)
    p64 = {m: {k: v.astype(np.float64) for k, v in b.items()} for m, b in p.items()}
    out, s2 = t.apply(p, None, x, s_in)
    eo, es = ref(p64, x.astype(np.float64), s)
    need(what + " output", out, eo)
    need(what + " state", s2, es)
    got = hk.transform(lambda: make().initial_state(B)).apply({}, None)
    need(what + " initial state", got, z)
    rec.step()
    rec.state(what)
  if kind in ("lstm", "gru"):
    for rank in (0, 3):
      make = dense(kind, 2, 2)[0]
      x = arr((2,) * rank)
      try:
        hk.transform(lambda: make()(jnp.asarray(x), make().initial_state(None))).init(jax.random.PRNGKey(0))
      except ValueError:
        rec.step()
        continue
      raise Violation("%s accepted input of rank %d" % (kind, rank))
  rec.trace()


def c_unroll(case, rec):
  kind, I, H, B = case["kind"], case["I"], case["H"], case["B"]
  make, pshapes, ref, init = dense(kind, I, H)
  for T in range(1, case["T"] + 1):
    xs = arr((T, I) if B is None else (T, B, I), 5)
    results = {}
    for name, unroll in UNROLLS.items():
      for tm in (True, False):
        if not tm and B is None:
          continue
        def f(x, s, unroll=unroll, tm=tm):
          core = make()
          return unroll(core, x, core.initial_state(B) if s is None else s, **({} if tm else {"time_major": False}))
        t = hk.transform(f)
        x = xs if tm else np.swapaxes(xs, 0, 1)
        p = t.init(jax.random.PRNGKey(0), x, None)
        if shapes(p) != pshapes:
          raise Violation("%s %s unroll: parameters %r, expected %r" % (kind, name, shapes(p), pshapes))
        results.setdefault("init", p)
        for a, b in zip(jax.tree_util.tree_leaves(results["init"]), jax.tree_util.tree_leaves(p)):
          if not np.array_equal(a, b):
            raise Violation("%s T=%d: %s unroll initialises parameters differently" % (kind, T, name))
        p = fill(p)
        p64 = {m: {k: v.astype(np.float64) for k, v in b.items()} for m, b in p.items()}
        z = init(B)
        nz = jax.tree_util.tree_map(lambda a: (a + arr(a.shape, 4)).astype(np.float32) if a.dtype.kind == "f" else (a + 1).astype(np.int32), z)
        for s0, s_in in ((z, None), (nz, hk.LSTMState(*nz) if kind == "lstm" else nz)):
          eo, es, _ = ref_loop(ref, p64, xs.astype(np.float64), s0, T)
          if not tm:
            eo = np.swapaxes(eo, 0, 1)
          for jit in (False, True):
            if jit and (s_in is None or T == 3):
              continue
            out, s2 = (jax.jit(t.apply) if jit else t.apply)(p, None, x, s_in)
            what = "%s I=%d H=%d B=%r T=%d %s unroll time_major=%r" % (kind, I, H, B, T, name, tm)
            need(what + " output", out, eo)
            need(what + " state", s2, es)
            rec.step()
            rec.state((what, s_in is None))
  rec.trace()


def c_conv(case, rec):
  nd, B, K, C = case["nd"], case["B"], case["K"], case["C"]
  sp = (3, 2, 2)[:nd]
  cin = 2
  cls = {1: hk.Conv1DLSTM, 2: hk.Conv2DLSTM, 3: hk.Conv3DLSTM}[nd]
  k = (K,) * nd
  xs = arr((2,) + (() if B is None else (B,)) + sp + (cin,), 5)
  nm = "conv%d_d_lstm" % nd
  for kshape, alias in ((K, False), (k, False), (k, True)):
    make = (lambda: hk.ConvNDLSTM(nd, sp, C, kshape, name=nm)) if alias and hasattr(hk, "ConvNDLSTM") else (lambda: cls(sp, C, kshape, name=nm))
    for name, unroll in UNROLLS.items():
      if kshape == K and name != "static" and isinstance(kshape, int):
        continue
      def f(x):
        core = make()
        return unroll(core, x, core.initial_state(B))
      t = hk.transform(f)
      p = t.init(jax.random.PRNGKey(0), xs)
      exp = {nm + "/input_to_hidden": {"w": k + (cin, 4 * C), "b": (4 * C,)}, nm + "/hidden_to_hidden": {"w": k + (C, 4 * C), "b": (4 * C,)}}
      if shapes(p) != exp:
        raise Violation("Conv%dDLSTM parameters %r, expected %r" % (nd, shapes(p), exp))
      p = fill(p)
      def ref(_, x, s):
        def cv(v, q):
          r = convref.conv(v if B is not None else v[None], q["w"], (1,) * nd, [convref.same_pads(n, K, 1, 1) for n in sp], (1,) * nd) + q["b"]
          return r if B is not None else r[0]
        return lstm_gates(cv(x, p[nm + "/input_to_hidden"]) + cv(s[0], p[nm + "/hidden_to_hidden"]), s[1])
      z = np.zeros((() if B is None else (B,)) + sp + (C,))
      eo, es, _ = ref_loop(ref, None, xs.astype(np.float64), (z, z), 2)
      out, s2 = t.apply(p, None, xs)
      what = "Conv%dDLSTM batch %r kernel %r channels %d %s unroll" % (nd, B, kshape, C, name)
      need(what, out, eo)
      need(what + " state", s2, es)
      rec.step()
      rec.state(what)
  rec.trace()


class Noisy(hk.RNNCore):
  """Uses parameters, hk state, random keys, nested inputs and outputs."""

  def __init__(self, draws):
    super().__init__()
    self.draws = draws

  def __call__(self, inputs, state):
    a, b = inputs["a"], inputs["b"]
    c = hk.get_state("c", [], init=jnp.zeros)
    hk.set_state("c", c + 1)
    w = hk.get_parameter("w", [2], init=hk.initializers.RandomNormal())
    keys = [hk.next_rng_key() for _ in range(self.draws)]
    h = hk.Linear(2)(a) * w + state["h"] + b[..., None] + c
    for k in keys:
      h = h + jax.random.uniform(k, ())
    return {"o": h, "k": jnp.broadcast_to(jnp.stack(keys) if keys else jnp.zeros((1, 2), jnp.uint32), h.shape[:-1] + (max(1, self.draws), 2))}, {"h": h, "n": state["n"] + 1}

  def initial_state(self, batch_size):
    s = {"h": jnp.ones(2), "n": jnp.zeros((), jnp.int32)}
    return s if batch_size is None else jax.tree_util.tree_map(lambda x: jnp.broadcast_to(x, (batch_size,) + x.shape), s)


def c_noisy(case, rec):
  """All ways to unroll give bit-identical keys and equal results, parameters and state, wherever the unroll stands among other draws."""
  key = jax.random.PRNGKey(11)
  for draws, B, T in [(case["draws"], case["B"], case["T"])]:
    for before, after, reserve in itertools.product((0, 1, 2), (0, 1), (0, 3)):
      ref = None
      for name, unroll in UNROLLS.items():
        for tm in ((True, False) if B else (True,)):
          def f(x, unroll=unroll, tm=tm):
            if reserve:
              hk.reserve_rng_keys(reserve)
            ks = [hk.next_rng_key() for _ in range(before)]
            core = Noisy(draws)
            out, st = unroll(core, x, core.initial_state(B), time_major=tm)
            if not tm:
              out = jax.tree_util.tree_map(lambda v: jnp.swapaxes(v, 0, 1), out)
            ks += [hk.next_rng_key() for _ in range(after)]
            return out, st, ks
          x = {"a": arr((T,) + ((B,) if B else ()) + (3,), 6), "b": arr((T,) + ((B,) if B else ()), 7)}
          if not tm:
            x = jax.tree_util.tree_map(lambda v: np.swapaxes(v, 0, 1), x)
          t = hk.transform_with_state(f)
          if (before, after, reserve) == (1, 1, 0):
            p, s = t.init(key, x)
          else:
            p, s = {"noisy": {"w": arr((2,), 1)}, "noisy/linear": {"w": arr((3, 2), 2), "b": arr((2,), 3)}}, {"noisy": {"c": np.float32(0)}}
          (out, st, ks), s2 = t.apply(p, s, key, x)
          res = (p if isinstance(p, dict) else {m: dict(b) for m, b in p.items()}, out["o"], st, {m: dict(b) for m, b in s2.items()})
          exact = (out["k"], ks)
          what = "noisy core: %d draws, batch %r, T=%d, %d/%d draws around, reserve %d: %s time_major=%r against static" % (draws, B, T, before, after, reserve, name, tm)
          if ref is None or reserve:
            # Reserved keys are handed out in batches that a scan does not share: only distinctness is judged then.
            ref = (res, exact)
            flat = [tuple(np.asarray(k).tolist()) for k in ks] + [tuple(r) for r in np.asarray(out["k"]).reshape(T, -1, max(1, draws), 2)[:, 0].reshape(-1, 2).tolist()] if draws else []
            if len(set(flat)) != len(flat):
              raise Violation("unroll repeats random keys: %r" % (flat,))
            rec.step()
            continue
          need(what, res, ref[0], 1e-6)
          for a, b in zip(jax.tree_util.tree_leaves(exact), jax.tree_util.tree_leaves(ref[1])):
            if not np.array_equal(a, b):
              raise Violation("%s: random keys differ" % what)
          rec.step()
          rec.state(what)
  rec.trace()


def c_plain(case, rec):
  """Outside a transform, with a plain function."""
  core = lambda x, s: (x + s, s * 2 + 1)
  for T in range(1, 5):
    xs = arr((T, 2), 8)
    for tm in (True, False):
      x = xs if tm else xs.T
      if not tm:
        x = np.swapaxes(xs, 0, 1)
      rs = [u(core, x, jnp.ones(2) if tm else jnp.ones(2), time_major=tm) for u in UNROLLS.values()]
      for r in rs[1:]:
        need("plain function T=%d time_major %r" % (T, tm), r, rs[0], 1e-6)
      rec.step()
  rec.trace()


def c_reset(case, rec):
  """All reset patterns: one signal per batch entry."""
  kind, T, B, sigkind = case["kind"], case["T"], case["B"], case["sig"]
  I, H = 2, 2
  make, pshapes, ref, init = dense(kind, I, H)
  xs = arr((T, I) if B is None else (T, B, I), 5)
  z = init(B)
  leaves, treedef = jax.tree_util.tree_flatten(z)
  nb = 1 if B is None else B
  first = jax.tree_util.tree_map(lambda a: (a + arr(a.shape, 4)).astype(np.float32) if a.dtype.kind == "f" else (a + 3).astype(np.int32), z)
  wrap = (lambda v: hk.LSTMState(*v)) if kind == "lstm" else (lambda v: v)
  dyn = case["unroll"] == "dynamic"
  def f(x, r, s):
    core = hk.ResetCore(make())
    return (hk.dynamic_unroll if dyn else loop_unroll)(core, (x, r), s)
  t = hk.transform(f)
  nl = len(leaves)
  if sigkind == "entry":
    sshape, count = ((T,) if B is None else (T, B)), T * nb
    mk = lambda bits: np.array(bits, bool).reshape(sshape)
  elif sigkind == "int":
    sshape, count = ((T,) if B is None else (T, B)), T * nb
    mk = lambda bits: np.array(bits, np.int32).reshape(sshape)
  elif sigkind == "leaf":
    sshape, count = ((T,) if B is None else (T, B)), T * nb * nl
    mk = lambda bits: wrap(jax.tree_util.tree_unflatten(treedef, [np.array(bits[i * T * nb:(i + 1) * T * nb], bool).reshape(sshape) for i in range(nl)]))
  elif sigkind == "element":  # one bit per element of the state
    sshape = (T,) + ((B,) if B else ()) + (H,)
    count = int(np.prod(sshape))
    mk = lambda bits: np.array(bits, bool).reshape(sshape)
  p = None
  ap = None
  for bits in itertools.product((0, 1), repeat=count):
    sg = mk(bits)
    s_in = wrap(first)
    if p is None:
      p = t.init(jax.random.PRNGKey(0), xs, sg, s_in)
      strip = {m.replace("reset_core/", ""): b for m, b in p.items()}
      if shapes(strip) != pshapes:
        raise Violation("ResetCore(%s) parameters %r" % (kind, shapes(p)))
      p = fill(p)
      p64 = {m.replace("reset_core/", ""): {k: v.astype(np.float64) for k, v in b.items()} for m, b in p.items()}
      ap = jax.jit(t.apply)
    s = first
    outs = []
    sleaves = [np.asarray(v) for v in jax.tree_util.tree_leaves(sg)]
    for k in range(T):
      ls = jax.tree_util.tree_leaves(s)
      new = []
      for j, (l, zz) in enumerate(zip(ls, leaves)):
        m = (sleaves[j] if sigkind == "leaf" else sleaves[0])[k].astype(bool)
        m = m.reshape(m.shape + (1,) * (np.ndim(l) - m.ndim))
        new.append(np.where(m, zz, l))
      s = jax.tree_util.tree_unflatten(treedef, new)
      o, s = ref(p64, xs[k].astype(np.float64), s)
      outs.append(o)
    out, s2 = ap(p, None, xs, sg, s_in)
    what = "ResetCore(%s) T=%d batch %r %s signal %r (%s unroll)" % (kind, T, B, sigkind, bits, case["unroll"])
    need(what + " output", out, np.stack(outs))
    need(what + " state", s2, s)
    rec.step()
    rec.state(what)
  rec.trace()


def c_resetbad(case, rec):
  for kind, B, rshape, ok in [("lstm", 2, (2,), 1), ("lstm", 2, (3,), 0), ("lstm", 2, (2, 3), 0), ("lstm", 2, (2, 2), 1), ("lstm", 2, (1,), 0), ("lstm", 2, (), 1), ("gru", 3, (3, 1), 0), ("gru", None, (), 1),
                              ("gru", None, (2,), 1), ("gru", None, (1,), 0), ("counter", 2, (2, 2), 0), ("counter", 2, (2,), 1)]:
    make, _, _, init = dense(kind, 2, 2)
    x = arr((2,) if B is None else (B, 2))
    def f():
      core = hk.ResetCore(make())
      return core((x, jnp.zeros(rshape, bool)), core.initial_state(B))
    try:
      hk.transform(f).init(jax.random.PRNGKey(0))
      good = True
    except ValueError:
      good = False
    if good != bool(ok):
      raise Violation("ResetCore(%s) batch %r with reset signal of shape %r: %s" % (kind, B, rshape, "accepted" if good else "rejected"))
    rec.step()
  rec.trace()


# ---- stacks -----------------------------------------------------------------
KINDS = ["lstm", "gru", "vanilla", "identity", "relu", "linear", "reset"]


def c_deep(case, rec):
  B = case["B"]
  for stack in itertools.product(KINDS, repeat=case["n"]):
    if case.get("first") and stack[0] != case["first"]:
      continue
    for skip in (False, True):
      cores = [k for k in stack if k not in ("relu", "linear")]
      I = 2
      xs = arr((2, I) if B is None else (2, B, I), 5)
      rs = np.array([0, 1], bool) if B is None else np.array([[0, 1], [1, 0]], bool)[:, :B]
      def build():
        ls = []
        for i, k in enumerate(stack):
          H = i + 1
          ls.append({"lstm": lambda: hk.LSTM(H, name="l%d" % i), "gru": lambda: hk.GRU(H, name="l%d" % i), "vanilla": lambda: hk.VanillaRNN(H, name="l%d" % i), "identity": lambda: hk.IdentityCore(name="l%d" % i),
                     "relu": lambda: jax.nn.relu, "linear": lambda: hk.Linear(H, name="l%d" % i), "reset": lambda: hk.DeepRNN([hk.GRU(H, name="l%d" % i), jnp.tanh], name="d%d" % i)}[k]())
        return hk.deep_rnn_with_skip_connections(ls) if skip else hk.DeepRNN(ls)
      def f(x, r, reset):
        core = build()
        if reset:
          core = hk.ResetCore(core)
          x = (x, r)
        return loop_unroll(core, x, core.initial_state(B))
      t = hk.transform(f)
      what = "stack %r skip %r batch %r" % (stack, skip, B)
      try:
        p = t.init(jax.random.PRNGKey(0), xs, rs, False)
      except ValueError:
        if skip and len(cores) < len(stack):
          rec.step()
          continue
        raise
      if skip and len(cores) < len(stack):
        raise Violation("%s: layers that are no cores accepted with skip connections" % what)
      p = fill(p)
      q = {m.split("l")[-1] if False else m: {k: v.astype(np.float64) for k, v in b.items()} for m, b in p.items()}
      byname = {}
      for m, b in q.items():
        for part in m.split("/"):
          if part[0] == "l" and part[1:].isdigit():
            byname.setdefault(int(part[1:]), {})[m[m.index("/" + part) + len(part) + 1 if "/" + part in m else len(part):].lstrip("/")] = b
      def layer(i, k, x, s):
        d = byname.get(i)
        if k == "lstm":
          return ref_lstm({"lstm/linear": d["linear"]}, x, s)
        if k == "gru":
          return ref_gru({"gru": d[""]}, x, s)
        if k == "reset":
          o, s2 = ref_gru({"gru": d[""]}, x, s[0])
          return np.tanh(o), (s2,)
        if k == "vanilla":
          return ref_vanilla({"vanilla_rnn/linear": d["linear"], "vanilla_rnn/linear_1": d["linear_1"]}, x, s)
        return x, s
      def zero(i, k):
        z = np.zeros((i + 1,) if B is None else (B, i + 1))
        return {"lstm": (z, z), "gru": z, "vanilla": z, "identity": (), "reset": (z,)}[k]
      for reset in (False, True):
        st = [zero(i, k) for i, k in enumerate(stack) if k in cores]
        outs = []
        for step in range(2):
          if reset:
            m = rs[step]
            z0 = [zero(i, k) for i, k in enumerate(stack) if k in cores]
            st = jax.tree_util.tree_map(lambda a, b: np.where(m.reshape(m.shape + (1,) * (a.ndim - m.ndim)), b, a), st, z0)
          x0 = xs[step].astype(np.float64)
          x, new, co = x0, [], []
          for i, k in enumerate(stack):
            if skip and i > 0:
              x = np.concatenate([x0, x], -1)
            if k in cores:
              x, s2 = layer(i, k, x, st[len(new)])
              new.append(s2)
              co.append(x)
            elif k == "relu":
              x = np.maximum(x, 0)
            else:
              x = x @ byname[i][""]["w"] + byname[i][""]["b"]
          st = new
          outs.append(np.concatenate(co, -1) if skip else x)
        pr = {("reset_core/" + m if reset and not m.startswith("reset") else m): b for m, b in p.items()}
        if reset:
          pr = p
        out, s2 = t.apply(pr, None, xs, rs, reset)
        need("%s reset %r output" % (what, reset), out, np.stack(outs))
        if not isinstance(s2, tuple) or len(s2) != len(cores):
          raise Violation("%s: state %r has not one element per core" % (what, s2))
        need("%s reset %r state" % (what, reset), s2, st)
        rec.step()
        rec.state((what, reset))
  rec.trace()


def cases(tier):
  q = tier == "quick"
  out = [{"t": "step", "kind": k} for k in DENSE] + [{"t": "plain"}, {"t": "resetbad"}]
  out += [{"t": "noisy", "draws": d, "B": B, "T": T} for d in (0, 1, 2, 3) for B in (None, 2) for T in range(1, 4 if q else 6)]
  for kind, B in itertools.product(DENSE, (None, 1, 2, 3)):
    for I, H in (((2, 3),) if q else ((1, 1), (2, 3), (3, 2))):
      out.append({"t": "unroll", "kind": kind, "I": I, "H": H, "B": B, "T": 4 if q else 6})
  for nd, B, K in itertools.product((1, 2, 3), (None, 2), (1, 2, 3)):
    out.append({"t": "conv", "nd": nd, "B": B, "K": K, "C": 1 if K == 2 else 2})
  lim, lim2 = (8, 4) if q else (12, 6)
  for kind, unroll in itertools.product(DENSE, ("dynamic", "loop")):
    for T, B in itertools.product((1, 2, 3, 4, 6, 8), (None, 1, 2, 3, 4)):
      n = T * (B or 1)
      if n > lim or (unroll == "loop" and n > 6):
        continue
      out.append({"t": "reset", "kind": kind, "T": T, "B": B, "sig": "entry", "unroll": unroll})
      if n <= lim2 and kind in ("lstm", "counter"):
        if n * (2 if kind == "lstm" else 3) <= 9:
          out.append({"t": "reset", "kind": kind, "T": T, "B": B, "sig": "leaf", "unroll": unroll})
      if n * 2 <= 8 and kind in ("lstm", "gru", "vanilla"):
        out.append({"t": "reset", "kind": kind, "T": T, "B": B, "sig": "element", "unroll": unroll})
      if n <= 4:
        out.append({"t": "reset", "kind": kind, "T": T, "B": B, "sig": "int", "unroll": unroll})
  for B in (None, 2):
    for n in ((1, 2) if q else (1, 2, 3)):
      out.append({"t": "deep", "n": n, "B": B})
    for k in KINDS:
      out.append({"t": "deep", "n": 3 if q else 4, "B": B, "first": k})
  out.sort(key=lambda c: -({"deep": 3, "unroll": 2, "noisy": 5}.get(c["t"], 0) + (c.get("n") == 3)))
  return out


def run_case(case, rec):
  globals()["c_" + case["t"]](case, rec)
