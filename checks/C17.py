"""Convolutions: every configuration in the bound against the sum over kernel positions, written out."""
import itertools
import jax, jax.numpy as jnp, numpy as np
import haiku as hk
from mc.core import Violation
from mc import convref

TECHNIQUE = "exhaustive enumeration of a bounded configuration space (sizes, kernels, strides, dilations, paddings, groups, formats, masks, bias, batching) on the real modules against a written-out sum in double precision"
LEVEL = "model_checking"
RULE = "state = one configuration; every configuration of the product is executed on the real module and compared element by element"
BOUNDS = {"quick": "1-D: lengths {1,2,3,5} x kernels 1-3 x strides 1-3 x rates 1-3 x 10 paddings x 2 formats; 3 spatial settings x all of {batched, 1/2/4 groups, bias, mask, 6 data formats, int/sequence arguments}; 2-D: 2 sizes x 4 "
                   "kernels x 3 strides x 3 rates x 6 paddings (all per-axis different) x 2 formats; 3-D and 4-D: 24 configurations each; transposed 1-D: lengths 1-4 x kernels 1-4 x strides 1-3 x paddings x every "
                   "admissible output shape, 2-D per-axis products; depthwise and separable: kernels x strides x paddings x multipliers x formats; rejected configurations",
          "thorough": "1-D lengths 1-8, kernels 1-5, strides 1-4, rates 1-4; transposed lengths 1-6, kernels 1-6"}
ASSUMPTIONS = ["agreement up to rounding (1e-4 relative, float32)", "a separable convolution is the composition of its two depthwise factors, the stride applied in the first"]
TOL = 1e-4


def arr(shape, salt=0):
  return np.random.RandomState(997 * salt + sum((i + 1) * 31 * s for i, s in enumerate(shape))).uniform(-1, 1, shape).astype(np.float32)


def cmp(what, got, exp, tol=TOL):
  g = np.asarray(got, np.float64)
  if g.shape != exp.shape:
    raise Violation("%s: result of shape %r, expected %r" % (what, g.shape, exp.shape))
  if not np.all(np.abs(g - exp) <= tol * (1 + np.abs(exp))):
    raise Violation("%s: result %s, expected %s" % (what, g.tolist(), exp.tolist()))


FNS = {"valid": lambda e: (0, 0), "same": lambda e: ((e - 1) // 2, e // 2), "full": lambda e: (e - 1, e - 1), "causal": lambda e: (e - 1, 0), "reverse_causal": lambda e: (0, e - 1)}
ODD = lambda e: (e, 2 * e - 1)  # a pad function of the user


def ref_pads(pads, sizes, k, s, r):
  """pads: one name/pair per axis, or "SAME"/"VALID"."""
  out = []
  for d, p in enumerate(pads):
    e = (k[d] - 1) * r[d] + 1
    if p == "SAME":
      out.append(convref.same_pads(sizes[d], k[d], s[d], r[d]))
    elif p == "VALID":
      out.append((0, 0))
    elif p == "odd":
      out.append(ODD(e))
    elif isinstance(p, str):
      out.append(FNS[p](e))
    else:
      out.append(tuple(p))
  return out


def real_pad(pads):
  p0 = pads[0]
  if p0 in ("SAME", "VALID"):
    return p0
  one = lambda p: ODD if p == "odd" else getattr(hk.pad, p) if isinstance(p, str) else tuple(p)
  if len(set(map(str, pads))) == 1 and isinstance(p0, str):
    return one(p0)
  return [one(p) for p in pads]


def first(x):
  return np.moveaxis(x, -1, 1)


CLS = {1: hk.Conv1D, 2: hk.Conv2D, 3: hk.Conv3D}
TCLS = {1: hk.Conv1DTranspose, 2: hk.Conv2DTranspose, 3: hk.Conv3DTranspose}
NAMES = {1: "conv1_d", 2: "conv2_d", 3: "conv3_d"}


def one(rec, sizes, k, s, r, pads, fmt="channels_last", cin=2, cout=2, groups=1, bias=True, mask=False, batch=2, form="seq", lower=False, nd_class=False, jit=False):
  nd = len(sizes)
  x = arr((batch or 1,) + tuple(sizes) + (cin,), 1)
  w = arr(tuple(k) + (cin // groups, cout), 2)
  b = arr((cout,), 3)
  m = (arr(w.shape, 4) > 0).astype(np.float32) if mask else None
  last = fmt in ("channels_last", "N...C") or (fmt.startswith("N") and fmt.endswith("C")) or fmt.startswith("BT") or fmt.startswith("TB")
  what = "conv sizes %r kernel %r stride %r rate %r padding %r format %r channels %d->%d groups %d bias %r mask %r batch %r%s" % (
      tuple(sizes), tuple(k), tuple(s), tuple(r), pads, fmt, cin, cout, groups, bias, mask, batch, "" if form == "seq" else " " + form)
  sq = (lambda v: v[0]) if form == "int" else (lambda v: [v[0]]) if form == "len1" else (lambda v: tuple(v)) if form == "tuple" else (lambda v: list(v))
  pad = real_pad(pads)
  if lower:
    pad = pad.lower()
  kw = dict(output_channels=cout, kernel_shape=sq(k), stride=sq(s), rate=sq(r), padding=pad, with_bias=bias, data_format=fmt, mask=m, feature_group_count=groups)
  mk = (lambda: hk.ConvND(nd, name="c", **kw)) if nd not in CLS or nd_class else (lambda: CLS[nd](name="c", **kw))
  t = hk.transform(lambda x: mk()(x))
  exp = convref.conv(x, w * (1 if m is None else m), s, ref_pads(pads, sizes, k, s, r), r, groups)
  if bias:
    exp = exp + b
  xin = x if last else first(x)
  exp = exp if last else first(exp)
  bb = b if last else b.reshape((cout,) + (1,) * nd)
  if not batch:
    xin, exp = xin[0], exp[0]
  if 0 in exp.shape:
    return
  params = {"c": dict(w=w, **({"b": bb} if bias else {}))}
  shp = jax.eval_shape(t.init, jax.random.PRNGKey(0), xin)
  got = {q: {n: v.shape for n, v in d.items()} for q, d in shp.items()}
  if got != {"c": {n: v.shape for n, v in params["c"].items()}}:
    raise Violation("%s: parameters %r, expected %r" % (what, got, {n: v.shape for n, v in params["c"].items()}))
  out = (jax.jit(t.apply) if jit else t.apply)(params, None, xin)
  cmp(what, out, exp)
  rec.step()
  rec.state(what)


PADS1 = ["SAME", "VALID", "valid", "same", "full", "causal", "reverse_causal", "odd", (1, 0), (0, 2)]


def c_one_d(case, rec):
  for r, pad, fmt in itertools.product(case["rates"], PADS1, ("channels_last", "channels_first")):
    one(rec, (case["n"],), (case["k"],), (case["s"],), (r,), [pad], fmt)
  rec.trace()


def c_options(case, rec):
  """All combinations of the options that do not concern geometry."""
  sizes, k, s, r, pads = case["g"]
  nd = len(sizes)
  fmts = ["channels_last", "channels_first", "N...C", "NC...", {1: "NWC", 2: "NHWC", 3: "NDHWC"}[nd], {1: "NCW", 2: "NCHW", 3: "NCDHW"}[nd]]
  for fmt, batch, (cin, cout, g), bias, mask in itertools.product(fmts, (None, 1, 3), ((1, 1, 1), (2, 4, 1), (2, 4, 2), (4, 4, 4), (4, 2, 2), (3, 3, 3)), (True, False), (False, True)):
    one(rec, sizes, k, s, r, pads, fmt, cin, cout, g, bias, mask, batch)
  for form, nd_class, jit in itertools.product(("int", "len1", "tuple", "seq"), (False, True), (False, True)):
    if form in ("int", "len1") and nd > 1:
      one(rec, sizes, (k[0],) * nd, (s[0],) * nd, (r[0],) * nd, pads, form=form, nd_class=nd_class, jit=jit)
    else:
      one(rec, sizes, k, s, r, pads, form=form, nd_class=nd_class, jit=jit)
  for pad in ("SAME", "VALID"):
    one(rec, sizes, k, s, r, [pad] * nd, lower=True)
  rec.trace()


PADS2 = [["SAME"] * 2, ["VALID"] * 2, ["causal", "reverse_causal"], ["same", "full"], [(1, 0), (0, 2)], ["odd"] * 2]


def c_two_d(case, rec):
  for s, r, pads, fmt in itertools.product(((1, 1), (1, 2), (2, 1)), ((1, 1), (1, 2), (2, 1)), PADS2, ("channels_last", "channels_first")):
    one(rec, case["sizes"], case["k"], s, r, pads, fmt, cin=2, cout=2, groups=2 if fmt == "channels_first" else 1, mask=fmt == "channels_last")
  rec.trace()


def c_high_d(case, rec):
  nd = case["nd"]
  sizes = (3, 2, 4, 2)[:nd]
  for k, s, r, pads, fmt in itertools.product(((2, 1, 2, 2), (1, 2, 3, 1)), ((1, 1, 1, 1), (1, 2, 2, 1)), ((1, 1, 1, 1), (1, 1, 2, 1)),
                                             (["SAME"] * 4, ["VALID"] * 4, ["causal", "same", "full", "reverse_causal"], [(1, 0), (0, 1), (0, 2), (1, 1)]), ("channels_last", "channels_first")):
    one(rec, sizes, k[:nd], s[:nd], r[:nd], pads[:nd], fmt, cin=2, cout=2, groups=2 if fmt == "channels_first" else 1)
  rec.trace()


# ---- transposed -------------------------------------------------------------
def tpads(n, k, s, pad, o):
  """(pads, output size) or None if this output size is not admissible."""
  if not isinstance(pad, str):
    return tuple(pad)
  if o is None:
    return convref.transpose_pads(k, s, pad)
  # A forward convolution of the output with this padding must give the input size.
  if pad == "VALID":
    if o < k or (o - k) // s + 1 != n:
      return None
    before = 0
  else:
    if -(-o // s) != n:
      return None
    before = max(0, (n - 1) * s + k - o) // 2
  lo = k - 1 - before
  return (lo, o + k - 1 - ((n - 1) * s + 1) - lo)


def tone(rec, sizes, k, s, pads, oshape=None, fmt="channels_last", cin=2, cout=3, bias=True, mask=False, batch=2, form="seq", nd_class=False):
  nd = len(sizes)
  x = arr((batch or 1,) + tuple(sizes) + (cin,), 1)
  w = arr(tuple(k) + (cout, cin), 2)
  b = arr((cout,), 3)
  m = (arr(w.shape, 4) > 0).astype(np.float32) if mask else None
  last = fmt in ("channels_last", "N...C", "NHWC", "NWC")
  what = "transposed conv sizes %r kernel %r stride %r padding %r output shape %r format %r bias %r mask %r batch %r" % (tuple(sizes), tuple(k), tuple(s), pads, oshape, fmt, bias, mask, batch)
  ps = [tpads(sizes[d], k[d], s[d], pads[d], None if oshape is None else oshape[d]) for d in range(nd)]
  sq = (lambda v: v[0]) if form == "int" else (lambda v: list(v))
  kw = dict(output_channels=cout, kernel_shape=sq(k), stride=sq(s), padding=pads[0] if isinstance(pads[0], str) else [tuple(p) for p in pads], output_shape=None if oshape is None else sq(oshape), with_bias=bias,
            data_format=fmt, mask=m)
  mk = (lambda: hk.ConvNDTranspose(nd, name="c", **kw)) if nd_class else (lambda: TCLS[nd](name="c", **kw))
  t = hk.transform(lambda x: mk()(x))
  xin = x if last else first(x)
  if not batch:
    xin = xin[0]
  bb = b if last else b.reshape((cout,) + (1,) * nd)
  params = {"c": dict(w=w, **({"b": bb} if bias else {}))}
  if any(p is None for p in ps):
    try:
      t.apply(params, None, xin)
    except ValueError:
      rec.step()
      return
    raise Violation("%s: accepted an output shape that does not fit" % what)
  exp = convref.conv_transpose(x, np.swapaxes(w * (1 if m is None else m), -1, -2), s, ps)
  if bias:
    exp = exp + b
  exp = exp if last else first(exp)
  if not batch:
    exp = exp[0]
  if 0 in exp.shape:
    return
  if oshape is not None:
    osp = np.shape(exp)[(1 if batch else 0):][:nd] if last else np.shape(exp)[-nd:]
    assert tuple(osp) == tuple(oshape), (what, osp)
  shp = jax.eval_shape(t.init, jax.random.PRNGKey(0), xin)
  got = {q: {n: v.shape for n, v in d.items()} for q, d in shp.items()}
  if got != {"c": {n: v.shape for n, v in params["c"].items()}}:
    raise Violation("%s: parameters %r" % (what, got))
  cmp(what, t.apply(params, None, xin), exp)
  rec.step()
  rec.state(what)


def c_tr1(case, rec):
  n, k, s = case["n"], case["k"], case["s"]
  for pad, fmt in itertools.product(("SAME", "VALID"), ("channels_last", "channels_first")):
    for o in [None] + list(range(1, n * s + k + 3)):
      if o is not None and fmt == "channels_first" and o % 2:
        continue
      tone(rec, (n,), (k,), (s,), [pad], None if o is None else (o,), fmt)
  for pair in ((0, 0), (1, 2), (2, 0)):
    tone(rec, (n,), (k,), (s,), [pair])
  rec.trace()


def c_tr2(case, rec):
  nd = case["nd"]
  sizes = (2, 3, 2)[:nd]
  for k, s, pad, fmt, batch in itertools.product(((2, 3, 1), (3, 1, 2)), ((1, 2, 2), (2, 1, 3), (3, 2, 1)), ("SAME", "VALID"), ("channels_last", "NC..."), (None, 2)):
    k, s = k[:nd], s[:nd]
    opts = []
    for d in range(nd):
      opts.append([o for o in range(1, sizes[d] * s[d] + k[d] + 2) if tpads(sizes[d], k[d], s[d], pad, o)])
    for o in [None] + ([tuple(q[0] for q in opts), tuple(q[-1] for q in opts)] if all(opts) else []):
      tone(rec, sizes, k, s, [pad] * nd, o, fmt, batch=batch, bias=s[0] != 3, mask=k[0] == 3, nd_class=s[0] == 2)
  if nd == 1:
    for fmt, batch, bias, mask in itertools.product(("channels_last", "channels_first", "N...C", "NC..."), (None, 1, 3), (True, False), (True, False)):
      for cin, cout in ((1, 1), (2, 3), (3, 1)):
        tone(rec, (3,), (2,), (2,), ["SAME"], None, fmt, cin, cout, bias, mask, batch, form="int")
  rec.trace()


# ---- depthwise and separable ------------------------------------------------
def c_depth(case, rec):
  sizes = tuple(case["sizes"])
  cin = 2
  for k, s, pad, mult, fmt, bias in itertools.product(((1, 1), (2, 3), (3, 1), 2), ((1, 1), (2, 1), 2), ("SAME", "VALID", ((1, 0), (0, 2))), (1, 2, 3), ("channels_last", "channels_first", "NHWC", "NCHW", "N...C", "NC..."), (True, False)):
    if fmt not in ("channels_last", "NCHW") and (mult == 3 or bias is False or k == (1, 1)):
      continue
    kk = (k, k) if isinstance(k, int) else k
    ss = (s, s) if isinstance(s, int) else s
    last = fmt in ("channels_last", "NHWC", "N...C")
    x = arr((2,) + sizes + (cin,), 1)
    pads = lambda q, st, sz: [pad[d] if not isinstance(pad, str) else convref.same_pads(sz[d], q[d], st[d], 1) if pad == "SAME" else (0, 0) for d in range(2)]
    w = arr(kk + (1, mult * cin), 2)
    b = arr((mult * cin,), 3)
    exp = convref.conv(x, w, ss, pads(kk, ss, sizes), (1, 1), cin) + (b if bias else 0)
    w1, w2 = arr((kk[0], 1, 1, mult * cin), 4), arr((1, kk[1], 1, mult * cin), 5)
    mid = convref.conv(x, w1, ss, pads((kk[0], 1), ss, sizes), (1, 1), cin)
    exp2 = convref.conv(mid, w2, (1, 1), pads((1, kk[1]), (1, 1), mid.shape[1:3]), (1, 1), mult * cin) + (b if bias else 0)
    for name, cls, e, ps in (("DepthwiseConv2D", hk.DepthwiseConv2D, exp, {"c": {"w": w}}), ("SeparableDepthwiseConv2D", hk.SeparableDepthwiseConv2D, exp2, {"c/~/depthwise_conv2_d": {"w": w1}, "c/~/depthwise_conv2_d_1": {"w": w2}})):
      if 0 in e.shape or 0 in mid.shape:
        continue
      bb = b if last else b.reshape((-1, 1, 1))
      if bias:
        ps = dict(ps)
        lastm = list(ps)[-1]
        ps[lastm] = dict(ps[lastm], b=bb)
      t = hk.transform(lambda x: cls(mult, k, s, pad, with_bias=bias, data_format=fmt, name="c")(x))
      xin = x if last else first(x)
      what = "%s sizes %r kernel %r stride %r padding %r multiplier %d format %r bias %r" % (name, sizes, k, s, pad, mult, fmt, bias)
      got = jax.eval_shape(t.init, jax.random.PRNGKey(0), xin)
      if {m: {n: v.shape for n, v in d.items()} for m, d in got.items()} != {m: {n: v.shape for n, v in d.items()} for m, d in ps.items()}:
        raise Violation("%s: parameters %r" % (what, got))
      cmp(what, t.apply(ps, None, xin), e if last else first(e))
      rec.step()
      rec.state(what)
  rec.trace()


def c_reject(case, rec):
  def check(what, err, f, x):
    t = hk.transform(lambda x: f()(x))
    try:
      t.init(jax.random.PRNGKey(0), x)
    except err:
      rec.step()
      return
    raise Violation("accepted: %s" % what)
  for nd, cls in CLS.items():
    ok = arr((1,) + (3,) * nd + (2,))
    for rank in range(0, 6):
      if rank not in (nd + 1, nd + 2):
        check("Conv%dD input of rank %d" % (nd, rank), ValueError, lambda: cls(2, 2), arr((2,) * rank))
        check("Conv%dDTranspose input of rank %d" % (nd, rank), ValueError, lambda: TCLS[nd](2, 2), arr((2,) * rank))
    check("3 groups of 2 channels", ValueError, lambda: cls(3, 2, feature_group_count=3), ok)
    for bad in [(2,) * nd + (2, 3), (2,) * nd + (2,), (1,) * nd + (2, 2), (2,) * nd + (1, 2), (2,) * nd + (2, 1)]:
      check("mask of shape %r" % (bad,), ValueError, lambda: cls(2, 2, mask=np.ones(bad)), ok)
      check("transposed mask of shape %r" % (bad,), ValueError, lambda: TCLS[nd](2, 2, mask=np.ones(bad)), ok)
    for fmt in ("foo", "", "CN", "NHW", "channels_middle", "CNHW"):
      check("data format %r" % fmt, ValueError, lambda: cls(2, 2, data_format=fmt), ok)
      check("data format %r" % fmt, ValueError, lambda: TCLS[nd](2, 2, data_format=fmt), ok)
    for kw in ("kernel_shape", "stride", "rate"):
      check("%s of length %d" % (kw, nd + 1), TypeError, lambda: cls(**{**dict(output_channels=2, kernel_shape=2), kw: (2,) * (nd + 1)}), ok)
    if nd > 1:
      check("%d paddings" % (nd + 1), TypeError, lambda: cls(2, 2, padding=[hk.pad.same] * (nd + 1)), ok)
    check("output shape with explicit padding", ValueError, lambda: TCLS[nd](2, 2, output_shape=3, padding=[(0, 0)] * nd), ok)
  for nd in (0, -1):
    check("%d spatial dimensions" % nd, ValueError, lambda: hk.ConvND(nd, 1, 1), arr((2, 2)))
    check("%d spatial dimensions" % nd, ValueError, lambda: hk.ConvNDTranspose(nd, 1, 1), arr((2, 2)))
  # dtypes are kept
  for dt, mk in itertools.product(("float16", "bfloat16", "float32"), (lambda: hk.Conv1D(2, 2), lambda: hk.Conv1DTranspose(2, 2))):
    t = hk.transform(lambda x: mk()(x))
    x = jnp.asarray(arr((2, 4, 2)), dt)
    p = t.init(jax.random.PRNGKey(0), x)
    if t.apply(p, None, x).dtype != x.dtype or any(v.dtype != x.dtype for v in jax.tree_util.tree_leaves(p)):
      raise Violation("convolution in %s: parameters %r" % (dt, p))
    rec.step()
  rec.trace()


def cases(tier):
  q = tier == "quick"
  out = [{"t": "reject"}]
  ns, ks, ss, rs = ((1, 2, 3, 5), (1, 2, 3), (1, 2, 3), (1, 2, 3)) if q else (range(1, 9), range(1, 6), range(1, 5), (1, 2, 3))
  geos = [((5,), (3,), (1,), (1,), ["SAME"]), ((4,), (2,), (2,), (2,), ["causal"]), ((3, 4), (2, 3), (2, 1), (1, 1), ["SAME"] * 2)]
  if not q:
    geos += [((3, 4), (3, 2), (1, 2), (2, 1), ["same", "full"]), ((2, 3, 2), (2, 1, 2), (1, 2, 1), (1, 1, 1), ["SAME"] * 3)]
  out += [{"t": "options", "g": g} for g in geos]
  out += [{"t": "high_d", "nd": nd} for nd in (3, 4)]
  out += [{"t": "depth", "sizes": z} for z in ((3, 4), (1, 2), (5, 3))]
  out += [{"t": "two_d", "sizes": z, "k": k} for z in ((3, 4), (2, 5)) for k in ((1, 2), (2, 1), (3, 2), (2, 3))]
  out += [{"t": "tr2", "nd": nd} for nd in (1, 2, 3)]
  out += [{"t": "one_d", "n": n, "k": k, "s": s, "rates": list(rs)} for n in ns for k in ks for s in ss]
  tn, tk = ((1, 2, 3, 4), (1, 2, 3, 4)) if q else (range(1, 7), range(1, 7))
  out += [{"t": "tr1", "n": n, "k": k, "s": s} for n in tn for k in tk for s in (1, 2, 3)]
  return out


CHUNK = 1


def run_case(case, rec):
  globals()["c_" + case["t"]](case, rec)
