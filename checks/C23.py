"""Residual and depthwise networks: every architecture option in the bound, over histories of training and evaluation calls, against a numpy definition of the network."""
import itertools
import jax, jax.numpy as jnp, numpy as np
import haiku as hk
from mc.core import Violation

TECHNIQUE = "exhaustive enumeration of a bounded configuration space and of all call histories (training / evaluation / evaluation with local statistics) up to a depth on the real networks, against a float64 definition of the network written out in numpy"
LEVEL = "model_checking"
RULE = "state = (configuration, call history prefix); in every one the outputs, the parameter tree and every state entry are compared with the definition"
BOUNDS = {"quick": "ResNet blocks V1/V2: bottleneck x projection x 4 strides x 3 BatchNorm configurations (5 input sizes for the first), all call histories of length <=3 over {train, eval, eval with local statistics}; BlockGroup: 1-3 blocks; ResNet: v1/v2 x bottleneck x "
                   "2 block counts x 4 projection patterns x options, histories of length 2; ResNet18/34/50/101/152/200: parameter trees and output shapes; ResNet18 values; MobileNetV1: blocks over strides 1-3 x channels x use_bn x "
                   "sizes, networks with all stride/channel lists of length <=3 over {1,2}, default tables",
          "thorough": "as quick, block histories of length <=4, all 16 projection patterns, 4 block counts, ResNet34/50/101 values, stride lists of length 4"}
ASSUMPTIONS = ["agreement up to rounding in float64", "parameters are replaced by fixed non-trivial values before the networks are applied; their initial values are compared separately where the network fixes them (BatchNorm scale and offset, logits)"]
CHUNK = 1
CASE_TIMEOUT = 600
KEY = np.array([0, 7], np.uint32)


def run_case(case, rec):
  with jax.experimental.enable_x64():
    globals()["c_" + case["t"]](case, rec)


BN = [{"decay_rate": .9}, {"decay_rate": .75, "eps": 1e-2}, {"decay_rate": .5, "create_scale": False, "create_offset": False}]
SIZES = [(2, 4, 4, 8), (1, 5, 3, 8), (3, 1, 2, 8), (2, 2, 1, 8), (1, 7, 6, 8)]


def cases(tier):
  out = []
  for v2, bott, proj, si in itertools.product((0, 1), (0, 1), (0, 1), range(4)):
    for bi in range(3):
      out.append({"t": "block", "v2": v2, "bott": bott, "proj": proj, "stride": si, "bn": bi, "depth": 4 if tier == "thorough" else 3})
  out += [{"t": "group", "v2": v2, "bott": b, "n": n, "proj": p} for v2, b, n, p in itertools.product((0, 1), (0, 1), (1, 2, 3), (0, 1))]
  projs = list(itertools.product((0, 1), repeat=4)) if tier == "thorough" else [(0, 1, 1, 1), (1, 1, 1, 1), (1, 0, 1, 1), (1, 1, 1, 0)]
  for v2, bott, blocks, proj in itertools.product((0, 1), (0, 1), ((1, 1, 1, 1), (1, 2, 1, 2)) + (((2, 1, 1, 1), (1, 1, 3, 1)) if tier == "thorough" else ()), projs):
    out.append({"t": "resnet", "v2": v2, "bott": bott, "blocks": list(blocks), "proj": list(proj)})
  out += [{"t": "table", "depth": d, "v2": v2} for d in (18, 34, 50, 101, 152, 200) for v2 in (0, 1)]
  out += [{"t": "values", "depth": d, "v2": v2} for d in ((18,) + ((34, 50, 101) if tier == "thorough" else ())) for v2 in (0, 1)]
  out += [{"t": "lengths"}, {"t": "mob_table"}]
  out += [{"t": "mob_block", "stride": s, "ch": c, "bn": b} for s in (1, 2, 3) for c in (1, 3, 4) for b in (0, 1)]
  lists = [l for n in range(0, (5 if tier == "thorough" else 4)) for l in itertools.product((1, 2), repeat=n)]
  out += [{"t": "mob", "strides": list(s), "bn": b, "def": d} for s in lists for b in (0, 1) for d in (0, 1)]
  out.sort(key=lambda c: -({"values": 300, "mob_table": 200, "table": 100, "resnet": 50}.get(c["t"], 0) + (c["depth"] if c["t"] in ("table", "values") else 0)))
  return out


# --- the definition -------------------------------------------------------------------------------------------------------
def conv(x, w, stride, pads):
  """x NHWC, w HWIO; I == channels of x, or 1 for a depthwise convolution."""
  sh, sw = stride if isinstance(stride, (tuple, list)) else (stride, stride)
  kh, kw, ci, co = w.shape
  if pads == "SAME":
    pads = [same(x.shape[1], kh, sh), same(x.shape[2], kw, sw)]
  x = np.pad(x, [(0, 0)] + [tuple(p) for p in pads] + [(0, 0)])
  oh, ow = (x.shape[1] - kh) // sh + 1, (x.shape[2] - kw) // sw + 1
  out = np.zeros((x.shape[0], oh, ow, co))
  for i in range(kh):
    for j in range(kw):
      s = x[:, i:i + (oh - 1) * sh + 1:sh, j:j + (ow - 1) * sw + 1:sw]
      out += s @ w[i, j] if ci == x.shape[-1] else s * w[i, j, 0]
  return out


def same(n, k, s):
  t = max((-(-n // s) - 1) * s + k - n, 0)
  return t // 2, t - t // 2


def max_pool(x):
  ph, pw = same(x.shape[1], 3, 2), same(x.shape[2], 3, 2)
  oh, ow = -(-x.shape[1] // 2), -(-x.shape[2] // 2)
  x = np.pad(x, [(0, 0), ph, pw, (0, 0)], constant_values=-np.inf)
  return np.max([x[:, i:i + 2 * oh - 1:2, j:j + 2 * ow - 1:2] for i in range(3) for j in range(3)], axis=0)


relu = lambda v: np.maximum(v, 0)


class Net:
  """Evaluates the definition: knows every parameter and state entry by its path and records the shapes it should have."""

  def __init__(self, params, state):
    self.p, self.s, self.new = params, state, {}
    self.shapes, self.sshapes, self.fixed = {}, {}, {}

  def param(self, mod, name, shape, fixed=None):
    self.shapes.setdefault(mod, {})[name] = tuple(shape)
    if fixed is not None:
      self.fixed[mod, name] = fixed
    if self.p is None:
      return np.zeros(shape)
    v = self.p[mod][name]
    if v.shape != tuple(shape):
      raise Violation("parameter %s %s has shape %r, expected %r" % (mod, name, v.shape, tuple(shape)))
    return v

  def conv(self, mod, x, ch, k, stride, pads="SAME", bias=False):
    w = self.param(mod, "w", (k, k, x.shape[-1], ch))
    b = self.param(mod, "b", (ch,)) if bias else 0
    return conv(x, w, stride, pads) + b

  def depthwise(self, mod, x, k, stride, pads, bias):
    w = self.param(mod, "w", (k, k, 1, x.shape[-1]))
    b = self.param(mod, "b", (x.shape[-1],)) if bias else 0
    return conv(x, w, stride, pads) + b

  def linear(self, mod, x, n, bias=True, fixed=None):
    w = self.param(mod, "w", (x.shape[-1], n), fixed)
    return x @ w + (self.param(mod, "b", (n,), 0.) if bias else 0)

  def bn(self, mod, x, cfg, mode, scale_init=1.):
    c = x.shape[-1]
    sh = (1, 1, 1, c)
    scale = self.param(mod, "scale", sh, scale_init) if cfg.get("create_scale", True) else 1.
    offset = self.param(mod, "offset", sh, 0.) if cfg.get("create_offset", True) else 0.
    stats = x.mean((0, 1, 2)).reshape(sh), x.var((0, 1, 2)).reshape(sh)
    used = []
    for nm, v in zip(("mean_ema", "var_ema"), stats):
      path = mod + "/~/" + nm
      self.sshapes[path] = {"average": sh, "counter": (), "hidden": sh}
      old = self.s[path] if self.s is not None else {"average": np.zeros(sh), "hidden": np.zeros(sh), "counter": 0}
      if mode.startswith("train"):
        d = cfg.get("decay_rate")
        hidden = old["hidden"] * d + v * (1 - d)
        n = int(old["counter"]) + 1
        self.new[path] = {"hidden": hidden, "counter": n, "average": hidden / (1 - d ** n)}
      else:
        self.new[path] = old
      used.append(old["average"] if mode == "eval" else v)
    return (x - used[0]) / np.sqrt(used[1] + cfg.get("eps", 1e-5)) * scale + offset

  def block(self, at, x, ch, stride, proj, cfg, bott, v2, mode):
    div = 4 if bott else 1
    short = x
    layers = [("conv_0", ch // div, 1 if bott else 3, 1 if bott else stride, "batchnorm_0"), ("conv_1", ch // div, 3, stride if bott else 1, "batchnorm_1")]
    if bott:
      layers.append(("conv_2", ch, 1, 1, "batchnorm_2"))
    if not v2:
      if proj:
        short = self.bn(at + "shortcut_batchnorm", self.conv(at + "shortcut_conv", x, ch, 1, stride), cfg, mode)
      for i, (c, n, k, s, b) in enumerate(layers):
        x = self.bn(at + b, self.conv(at + c, x, n, k, s), cfg, mode, 0. if i == 2 else 1.)
        if i < len(layers) - 1:
          x = relu(x)
      return relu(x + short)
    for i, (c, n, k, s, b) in enumerate(layers):
      x = relu(self.bn(at + b, x, cfg, mode))
      if i == 0 and proj:
        short = self.conv(at + "shortcut_conv", x, ch, 1, stride)
      x = self.conv(at + c, x, n, k, s)
    return x + short

  def group(self, at, x, ch, n, stride, cfg, v2, bott, proj, mode):
    for i in range(n):
      x = self.block(at + "block_%d/~/" % i, x, ch, 1 if i else stride, proj and i == 0, cfg, bott, v2, mode)
    return x

  def resnet(self, name, x, blocks, classes, cfg, v2, bott, channels, proj, mode, logits=None):
    at = name + "/~/"
    cfg = dict({"decay_rate": .9, "eps": 1e-5}, **(cfg or {}))
    logits = logits or {}
    x = self.conv(at + "initial_conv", x, 64, 7, 2)
    if not v2:
      x = relu(self.bn(at + "initial_batchnorm", x, cfg, mode))
    x = max_pool(x)
    for i in range(4):
      x = self.group(at + "block_group_%d/~/" % i, x, channels[i], blocks[i], 2 if i else 1, cfg, v2, bott, proj[i], mode)
    if v2:
      x = relu(self.bn(at + "final_batchnorm", x, cfg, mode))
    return self.linear(at + logits.get("name", "logits"), x.mean((1, 2)), classes, logits.get("with_bias", True), None if "w_init" in logits else 0.)

  def mob_block(self, at, x, ch, stride, use_bn, mode):
    cfg = {"decay_rate": .999}
    x = self.depthwise(at + "depthwise_conv", x, 3, stride, ((1, 1), (1, 1)), not use_bn)
    x = relu(self.bn(at + "batch_norm", x, cfg, mode) if use_bn else x)
    x = self.conv(at + "pointwise_conv", x, ch, 1, 1, ((0, 0), (0, 0)), not use_bn)
    return relu(self.bn(at + "batch_norm_1", x, cfg, mode) if use_bn else x)

  def mobilenet(self, name, x, strides, channels, classes, use_bn, mode):
    at = name + "/"
    x = self.conv(at + "conv2_d", x, 32, 3, 2, ((0, 0), (0, 0)), not use_bn)
    x = relu(self.bn(at + "batch_norm", x, {"decay_rate": .999}, mode) if use_bn else x)
    for i, (s, c) in enumerate(zip(strides, channels)):
      x = self.mob_block(at + "mobile_net_v1_block%s/" % ("_%d" % i if i else ""), x, c, s, use_bn, mode)
    return self.linear(at + "logits", x.mean((1, 2)), classes)


# --- running the two against each other ------------------------------------------------------------------------------------
MODES = {"train": (True, False), "train_local": (True, True), "eval": (False, False), "local": (False, True)}


def arr(shape, salt=0):
  n = int(np.prod(shape))
  return ((np.arange(n, dtype=np.int64) * 7919 + salt * 131 + 17) % 1009 / 504.5 - 1.).reshape(shape)


def shp(t):
  return {m: {k: tuple(v.shape) for k, v in b.items()} for m, b in t.items() if b}


def tree_check(what, net, params, state):
  for kind, got, exp in (("parameters", shp(params), net.shapes), ("state", shp(state), net.sshapes)):
    if got != exp:
      keys = sorted(set(got) | set(exp))
      bad = [(k, got.get(k), exp.get(k)) for k in keys if got.get(k) != exp.get(k)]
      raise Violation("%s: %s differ (path, actual, expected): %r" % (what, kind, bad[:4]))


def close(what, got, exp, tol=1e-7):
  g, e = np.asarray(got, np.float64), np.asarray(exp, np.float64)
  if g.shape != e.shape:
    raise Violation("%s has shape %r, expected %r" % (what, g.shape, e.shape))
  if not np.all(np.abs(g - e) <= tol * (1 + np.abs(e))):
    i = np.unravel_index(np.argmax(np.abs(g - e)), g.shape)
    raise Violation("%s is %r at %r, expected %r" % (what, g[i].item(), tuple(int(v) for v in i), e[i].item()))


def np_tree(t):
  return {m: {k: np.asarray(v) for k, v in b.items()} for m, b in t.items()}


def compare(rec, what, make, ref, inputs, depth, modes=("train", "eval", "local"), jit=False, tol=1e-7, local_arg=True, values=True, histories=None, init=False):
  """make() -> module (fresh); ref(net, x, mode) -> output of the definition; inputs(i) -> i-th input."""
  f = hk.without_apply_rng(hk.transform_with_state(lambda x, mode: make()(x, *(MODES[mode] if local_arg else MODES[mode][:1]))))
  x0 = inputs(0)
  params, state = jax.eval_shape(lambda k, x: f.init(k, x, "train"), KEY, x0)
  net = Net(None, None)
  ref(net, x0, "train")
  tree_check(what, net, params, state)
  if init:
    params, state = f.init(KEY, x0, "train")
    tree_check(what, net, params, state)
    for (m, k), v in net.fixed.items():
      if not np.all(np.asarray(params[m][k]) == v):
        raise Violation("%s: initial %s %s is %r, expected %r everywhere" % (what, m, k, np.asarray(params[m][k]).reshape(-1)[:4].tolist(), v))
  else:
    state = jax.tree_util.tree_map(lambda v: np.zeros(v.shape, v.dtype), state)
  rec.step()
  if not values:
    return
  salt = 0
  new = {}
  for m in sorted(params):
    new[m] = {}
    for k in sorted(params[m]):
      salt += 1
      v = arr(params[m][k].shape, salt)
      if k == "w":
        v = v / np.sqrt(np.prod(v.shape[:-1])) * 2
      new[m][k] = v + (.7 if k == "scale" else 0)
  apply = jax.jit(f.apply, static_argnums=3) if jit else f.apply
  todo = [((), state, np_tree(state))]
  while todo:
    hist, st, rst = todo.pop()
    for mode in modes:
      h = hist + (mode,)
      if histories is not None and not any(tuple(g[:len(h)]) == h for g in histories):
        continue
      x = inputs(len(hist))
      out, st2 = apply(new, st, x, mode)
      net = Net(new, rst)
      exp = ref(net, x, mode)
      w = "%s after %s" % (what, " > ".join(h))
      close(w + ": output", out, exp, tol)
      rst2 = net.new
      for m in net.sshapes:
        for k in ("average", "counter", "hidden"):
          close(w + ": state %s %s" % (m, k), st2[m][k], rst2[m][k], tol)
      rec.step()
      rec.state((what, h))
      rec.evals(1)
      if len(h) < depth:
        todo.append((h, st2, rst2))
  rec.trace()
  rec.nontrivial(what)


def c_block(case, rec):
  v2, bott, proj = bool(case["v2"]), bool(case["bott"]), bool(case["proj"])
  stride = [1, 2, (2, 1), 3][case["stride"]]
  if not proj and stride != 1:
    return  # the shortcut would not have the shape of the output
  cfg = BN[case["bn"]]
  if bott and not v2:
    cfg = {k: v for k, v in cfg.items() if k != "create_scale"}  # a V1 bottleneck sets the initial scale, which BatchNorm refuses without a scale
  cls = hk.nets.ResNet.BlockV2 if v2 else hk.nets.ResNet.BlockV1
  for si, size in enumerate(SIZES if case["bn"] == 0 or rec.tier == "thorough" else SIZES[:1]):
    for ch in ((8, 12) if proj else (8,)):
      what = "Block%s(channels=%d, stride=%r, use_projection=%r, bottleneck=%r, bn_config=%r) on %r" % ("V2" if v2 else "V1", ch, stride, proj, bott, cfg, size)
      compare(rec, what, lambda: cls(channels=ch, stride=stride, use_projection=proj, bn_config=dict(cfg), bottleneck=bott, name="b"),
              lambda net, x, mode: net.block("b/~/", x, ch, stride, proj, cfg, bott, v2, mode), lambda i: arr(size, i), case["depth"] if si == 0 else 2, init=si == 0,
              modes=("train", "eval", "local", "train_local") if si == 1 else ("train", "eval", "local"), jit=True)
  if not v2 and case["bn"] == 0 and case["stride"] == 0:  # BlockV1 has a default decay rate
    compare(rec, "BlockV1 with an empty bn_config", lambda: cls(channels=8, stride=1, use_projection=proj, bn_config={}, bottleneck=bott, name="b"),
            lambda net, x, mode: net.block("b/~/", x, 8, 1, proj, {"decay_rate": .999}, bott, v2, mode), lambda i: arr(SIZES[0], i), 3, jit=True)


def c_group(case, rec):
  v2, bott, proj, n = bool(case["v2"]), bool(case["bott"]), bool(case["proj"]), case["n"]
  for stride in ((1, 2) if proj else (1,)):
    what = "BlockGroup(v2=%r, bottleneck=%r, num_blocks=%d, stride=%r, use_projection=%r)" % (v2, bott, n, stride, proj)
    compare(rec, what, lambda: hk.nets.ResNet.BlockGroup(channels=8, num_blocks=n, stride=stride, bn_config=BN[1], resnet_v2=v2, bottleneck=bott, use_projection=proj, name="g"),
            lambda net, x, mode: net.group("g/~/", x, 8, n, stride, BN[1], v2, bott, proj, mode), lambda i: arr((2, 5, 4, 8), i), 2, jit=True)


CH = [(64, 4, 8, 4), (64, 64, 64, 64)]
HIST2 = [("train", "eval"), ("train", "local"), ("local", "train")]


def c_resnet(case, rec):
  v2, bott, blocks, proj = bool(case["v2"]), bool(case["bott"]), tuple(case["blocks"]), tuple(bool(p) for p in case["proj"])
  # without a projection the block must keep shape: channels equal, and stride 1 (group 0 only) or a 1x1 image.
  sizes = [(2, 7, 5, 1), (1, 16, 17, 3)][:2 if rec.tier == "thorough" or blocks[1] == 1 else 1] if all(proj[1:]) else [(3, 2, 4, 2)]
  channels = []
  last = 64
  for i in range(4):
    last = last if not proj[i] else (8, 4, 8, 12)[i]
    channels.append(last)
  extra = [({}, None, {}), ({"decay_rate": .5, "eps": .1}, {"with_bias": False, "w_init": jnp.ones, "name": "head"}, {}), ({"create_scale": False}, None, {})]
  k = sum(blocks) + sum(proj)
  for si, size in enumerate(sizes):
    cfg, logits, _ = extra[(k + si) % 3]
    if bott and not v2:
      cfg = {k: v for k, v in cfg.items() if k != "create_scale"}
    what = "ResNet(%r, bottleneck=%r, v2=%r, channels=%r, use_projection=%r, bn_config=%r, logits_config=%r) on %r" % (blocks, bott, v2, channels, proj, cfg, logits and sorted(logits), size)
    compare(rec, what, lambda: hk.nets.ResNet(blocks, 3, bn_config=cfg or None, resnet_v2=v2, bottleneck=bott, channels_per_group=tuple(channels), use_projection=proj, logits_config=logits, name="r"),
            lambda net, x, mode: net.resnet("r", x, blocks, 3, cfg, v2, bott, channels, proj, mode, logits), lambda i: arr(size, i), 2, histories=HIST2 if si == 0 else HIST2[:1], jit=True, tol=1e-6, init=si == 0 and max(blocks) < 2)


TABLE = {18: ((2, 2, 2, 2), False), 34: ((3, 4, 6, 3), False), 50: ((3, 4, 6, 3), True), 101: ((3, 4, 23, 3), True), 152: ((3, 8, 36, 3), True), 200: ((3, 24, 36, 3), True)}


def named(d):
  blocks, bott = TABLE[d]
  return blocks, bott, ((256, 512, 1024, 2048) if bott else (64, 128, 256, 512)), (bott, True, True, True)


def c_table(case, rec):
  """The published depths: the whole parameter and state trees, without computing values."""
  d, v2 = case["depth"], bool(case["v2"])
  blocks, bott, channels, proj = named(d)
  cls = getattr(hk.nets, "ResNet%d" % d)
  for cfg, logits in ((None, None), ({"create_scale": False, "decay_rate": .3}, {"with_bias": False, "name": "head"}), ({"create_offset": False}, {"w_init": jnp.ones})):
    if bott and not v2 and cfg:
      cfg = {k: v for k, v in cfg.items() if k != "create_scale"}
    what = "ResNet%d(v2=%r, bn_config=%r, logits_config=%r)" % (d, v2, cfg, logits and sorted(logits))
    f = hk.without_apply_rng(hk.transform_with_state(lambda x: cls(5, bn_config=cfg, resnet_v2=v2, logits_config=logits, name="n")(x, True)))
    x = jax.ShapeDtypeStruct((1, 33, 64, 3), np.float32)
    params, state = jax.eval_shape(f.init, KEY, x)
    out, state2 = jax.eval_shape(f.apply, params, state, x)
    net = Net(None, None)
    # shapes only: the definition on an image of one pixel visits the same modules
    net.resnet("n", np.zeros((1, 1, 1, 3)), blocks, 5, cfg or {}, v2, bott, channels, proj, "train", logits)
    tree_check(what, net, params, state)
    tree_check(what, net, params, state2)
    if tuple(out.shape) != (1, 5):
      raise Violation("%s: output shape %r" % (what, out.shape))
    rec.step()
    rec.state(what)
    rec.evals(1)
  rec.nontrivial(str(case))


def c_values(case, rec):
  d, v2 = case["depth"], bool(case["v2"])
  blocks, bott, channels, proj = named(d)
  cfg = {"decay_rate": .8, "eps": 1e-2}
  cls = getattr(hk.nets, "ResNet%d" % d)
  compare(rec, "ResNet%d(v2=%r)" % (d, v2), lambda: cls(3, bn_config=cfg, resnet_v2=v2, name="n"), lambda net, x, mode: net.resnet("n", x, blocks, 3, cfg, v2, bott, channels, proj, mode),
          lambda i: arr((2, 36, 33, 1), i), 2, histories=[("train", "eval"), ("local",)], jit=True, tol=1e-6)


def c_lengths(case, rec):
  for n in range(0, 7):
    for which in ("blocks_per_group", "channels_per_group"):
      kw = {"blocks_per_group": (1,) * 4, "channels_per_group": (8,) * 4}
      kw[which] = kw[which][:1] * n
      try:
        hk.transform_with_state(lambda: hk.nets.ResNet(num_classes=2, **kw) and None).init(KEY)
        ok = True
      except ValueError:
        ok = False
      if ok != (n == 4):
        raise Violation("ResNet with %d entries in %s is %s" % (n, which, "accepted" if ok else "rejected"))
      rec.step()
  for a, b in itertools.product(range(0, 4), repeat=2):
    try:
      hk.transform_with_state(lambda: hk.nets.MobileNetV1(strides=(1,) * a, channels=(2,) * b) and None).init(KEY)
      ok = True
    except ValueError:
      ok = False
    if ok != (a == b):
      raise Violation("MobileNetV1 with %d strides and %d channels is %s" % (a, b, "accepted" if ok else "rejected"))
    rec.step()
  rec.nontrivial(str(case))


def c_mob_block(case, rec):
  s, ch, bn = case["stride"], case["ch"], bool(case["bn"])
  from haiku._src.nets import mobilenetv1
  cls = mobilenetv1.MobileNetV1Block
  for size in ((2, 4, 5, 3), (1, 1, 1, 2), (2, 3, 2, 1), (1, 6, 7, 4)):
    compare(rec, "MobileNetV1Block(%d, %d, use_bn=%r) on %r" % (ch, s, bn, size), lambda: cls(ch, s, bn, name="b"), lambda net, x, mode: net.mob_block("b/", x, ch, s, bn, mode), lambda i: arr(size, i), 3,
            modes=("train", "eval"), jit=True, local_arg=False, init=size[1] == 4)


def c_mob(case, rec):
  strides, bn = tuple(case["strides"]), bool(case["bn"])
  channels = tuple((3, 5, 2, 4)[:len(strides)])
  kw = {} if case["def"] and bn else {"use_bn": bn}
  for size in ((2, 9, 12, 3), (1, 3, 4, 1)):
    compare(rec, "MobileNetV1(%r, %r, use_bn=%r) on %r" % (strides, channels, bn, size), lambda: hk.nets.MobileNetV1(strides, channels, 4, name=None if case["def"] else "m", **kw),
            lambda net, x, mode: net.mobilenet("mobile_net_v1" if case["def"] else "m", x, strides, channels, 4, bn, mode), lambda i: arr(size, i), 2, modes=("train", "eval"), jit=True, local_arg=False, init=len(strides) == 1)


def c_mob_table(case, rec):
  strides = (1, 2, 1, 2, 1, 2, 1, 1, 1, 1, 1, 2, 1)
  channels = (64, 128, 128, 256, 256, 512, 512, 512, 512, 512, 512, 1024, 1024)
  for bn in (True, False):
    compare(rec, "MobileNetV1(use_bn=%r)" % bn, lambda: hk.nets.MobileNetV1(use_bn=bn), lambda net, x, mode: net.mobilenet("mobile_net_v1", x, strides, channels, 1000, bn, mode),
            lambda i: arr((1, 40, 35, 3), i), 1, modes=("train", "eval"), jit=True, local_arg=False, tol=1e-6)
