"""Reference convolution in double precision: the sum over kernel positions, written out."""
import itertools
import numpy as np


def conv(x, w, strides, pads, dilation, groups=1):
  """x [N, *spatial, Cin], w [*kernel, Cin/groups, Cout], pads [(lo, hi)] -> [N, *out, Cout]. No kernel flip."""
  x, w = np.asarray(x, np.float64), np.asarray(w, np.float64)
  nd = x.ndim - 2
  k = w.shape[:nd]
  cin, cout = x.shape[-1], w.shape[-1]
  cg, og = cin // groups, cout // groups
  sizes = []
  for d in range(nd):
    span = (k[d] - 1) * dilation[d] + 1
    total = x.shape[1 + d] + pads[d][0] + pads[d][1]
    sizes.append(max(0, (total - span) // strides[d] + 1) if total >= span else 0)
  out = np.zeros((x.shape[0],) + tuple(sizes) + (cout,))
  for pos in itertools.product(*[range(s) for s in sizes]):
    for off in itertools.product(*[range(s) for s in k]):
      src = tuple(pos[d] * strides[d] + off[d] * dilation[d] - pads[d][0] for d in range(nd))
      if any(s < 0 or s >= x.shape[1 + d] for d, s in enumerate(src)):
        continue
      v = x[(slice(None),) + src]
      for g in range(groups):
        out[(slice(None),) + pos + (slice(g * og, (g + 1) * og),)] += v[:, g * cg:(g + 1) * cg] @ w[off][:, g * og:(g + 1) * og]
  return out


def same_pads(n, k, s, dil):
  """SAME: output length ceil(n / s), the extra element after."""
  span = (k - 1) * dil + 1
  o = -(-n // s)
  tot = max((o - 1) * s + span - n, 0)
  return (tot // 2, tot - tot // 2)


def conv_transpose(x, w, strides, pads, dilation=None):
  """Gradient-style transposed convolution without kernel flip (lax.conv_transpose, transpose_kernel=False).

  x [N, *spatial, Cin], w [*kernel, Cin, Cout]; the input is dilated by the strides, padded by pads and
  correlated with w at stride one.
  """
  nd = x.ndim - 2
  shape = list(x.shape)
  for d in range(nd):
    shape[1 + d] = (x.shape[1 + d] - 1) * strides[d] + 1
  up = np.zeros(shape)
  up[(slice(None),) + tuple(slice(None, None, s) for s in strides)] = x
  return conv(up, w, (1,) * nd, pads, dilation or (1,) * nd)


def transpose_pads(k, s, how):
  """lax.conv_transpose's padding: SAME gives length n*s, VALID gives n*s + max(k-s, 0)."""
  if how == "SAME":
    tot = k + s - 2
    lo = k - 1 if s > k - 1 else -(-tot // 2)
  else:
    tot = k + s - 2 + max(k - s, 0)
    lo = k - 1
  return (lo, tot - lo)
