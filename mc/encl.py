"""Lattices of Taylor enclosures shared by the checks C06, C07, C15, C20."""

import itertools

import numpy as np

from mc.lib import ends, LD

# Scalar coefficients.  Dyadic, so that sums of products are exact.
POINTS = [0., 1., -2., 0.5]
INTERVALS = [(-1., 2.), (0., 1.), (-2., -0.5), (0., 0.), (1.5, 1.5), (-3., 0.)]


def _fill(shape, seed, lo=-2, hi=2):
  """A deterministic asymmetric array of small dyadic numbers."""
  n = int(np.prod(shape)) if shape else 1
  vals = [((7 * k + 3 * seed + k * k * (1 + seed)) % 9 - 4) / 2.
          for k in range(n)]
  return np.clip(np.array(vals), lo, hi).reshape(shape)


def patterns(x_shape, degree, kind):
  """Values a coefficient of the given degree may take in the lattice."""
  shape = x_shape * degree
  if not shape:
    return list(POINTS) if kind == 'p' else list(INTERVALS)
  n = int(np.prod(shape))
  if n == 1:
    if kind == 'p':
      return [np.full(shape, p) for p in POINTS]
    return [(np.full(shape, a), np.full(shape, b)) for a, b in INTERVALS]
  if kind == 'p':
    return [np.zeros(shape), _fill(shape, 0), _fill(shape, 1),
            np.abs(_fill(shape, 2))]
  out = []
  for s, w in ((0, 1), (1, 2), (2, 3)):
    mid = _fill(shape, s)
    wid = np.abs(_fill(shape, w))
    out.append((mid - wid, mid + wid))
  out.append((np.zeros(shape), np.abs(_fill(shape, 4))))
  out.append((-np.abs(_fill(shape, 5)), np.zeros(shape)))
  return out


def lanes(x_shape, kinds_list, limit=None, points=None):
  """All combinations of patterns of several enclosures, as arrays of lanes.

  kinds_list: one string per enclosure, like 'ppi' (degree-2, interval last).
  Returns one enclosure (tuple of coefficients with leading lane axis) each.
  """
  options = []
  for kinds in kinds_list:
    for d, k in enumerate(kinds):
      pats = patterns(x_shape, d, k)
      options.append(pats)
  total = 1
  for o in options:
    total *= len(o)
  while limit is not None and total > limit:
    i = max(range(len(options)), key=lambda j: len(options[j]))
    if len(options[i]) <= 2:
      break
    total = total // len(options[i]) * (len(options[i]) - 1)
    # Drop from the end, but keep a sign-crossing interval / zero value.
    options[i] = options[i][:-1]
  combos = list(itertools.product(*options))
  out = []
  pos = 0
  for kinds in kinds_list:
    coeffs = []
    for k in kinds:
      col = [c[pos] for c in combos]
      if k == 'p':
        coeffs.append(np.array(col, dtype=float))
      else:
        coeffs.append((np.array([c[0] for c in col], dtype=float),
                       np.array([c[1] for c in col], dtype=float)))
      pos += 1
    out.append(tuple(coeffs))
  return out


def kinds(max_terms, c0_interval=True, min_terms=1):
  """All point/interval structures with the given numbers of terms."""
  out = []
  for n in range(min_terms, max_terms + 1):
    for t in itertools.product('pi', repeat=n):
      if t[0] == 'i' and not c0_interval:
        continue
      out.append(''.join(t))
  return out


SCALAR_REGIONS = [(-1., 1.), (0., 2.), (-2., 0.5), (-0.5, 0.), (0., 0.)]
FRACTIONS = (0., 0.25, 0.5, 0.75, 1.)


def regions(x_shape):
  """Trust regions for x - x0 (each contains 0)."""
  if not x_shape:
    return [(np.float64(a), np.float64(b)) for a, b in SCALAR_REGIONS]
  n = int(np.prod(x_shape))
  if n == 1:
    return [(np.full(x_shape, a), np.full(x_shape, b))
            for a, b in SCALAR_REGIONS]
  out = []
  for lo, hi in (((-1., -0.5, -0.25), (1., 0.25, 2.)),
                 ((0., -1., 0.), (1., 0., 0.5)),
                 ((-2., 0., -1.), (0., 0., 1.))):
    out.append((np.resize(np.array(lo), x_shape),
                np.resize(np.array(hi), x_shape)))
  return out


def points_of(region, deep=False):
  """Lattice of points z of a trust region."""
  lo, hi = np.asarray(region[0]), np.asarray(region[1])
  n = lo.size
  fr = FRACTIONS if (n == 1 or deep) else (0., 0.5, 1.)
  out = []
  for t in itertools.product(fr, repeat=n):
    t = np.array(t).reshape(lo.shape)
    out.append(lo + (hi - lo) * t)
  if n > 1:
    out.append(lo + (hi - lo) * np.linspace(0.2, 0.9, n).reshape(lo.shape))
  if np.all((lo <= 0) & (hi >= 0)):
    out.append(np.zeros(lo.shape))
  uniq = {p.tobytes(): p for p in out}
  return list(uniq.values())


def range_of(coeffs, region, x_ndim):
  """Natural interval extension of an enclosure over a box containing 0."""
  lo = hi = LD(0)
  rl, rh = np.asarray(region[0], LD), np.asarray(region[1], LD)
  for i, c in enumerate(coeffs):
    ml = mh = LD(1)
    # box of z**i: outer power.  Off-diagonal entries are independent
    # products; treating the diagonal the same way only enlarges the range.
    for _ in range(i):
      v = [np.multiply.outer(p, q) for p in (ml, mh) for q in (rl, rh)]
      ml, mh = np.minimum.reduce(v), np.maximum.reduce(v)
    cl, ch = ends(c)
    v = [p.astype(LD) * q for p in (cl, ch) for q in (ml, mh)]
    tl, th = np.minimum.reduce(v), np.maximum.reduce(v)
    n = i * x_ndim
    if n:
      axes = tuple(range(tl.ndim - n, tl.ndim))
      tl, th = tl.sum(axis=axes), th.sum(axis=axes)
    lo, hi = lo + tl, hi + th
  return lo, hi


def away_from_zero(coeffs, region, x_ndim, positive=False):
  """Whether the value stays away from 0 even if its spread is overestimated.

  Bounds on sums of products of intervals may be up to twice as wide as the
  exact range, so a derived trust region may reach 0 although the exact one
  does not.
  """
  box = np.maximum(np.abs(np.asarray(region[0])), np.abs(np.asarray(region[1])))
  dev = LD(0)
  for i, c in enumerate(coeffs):
    if i == 0:
      continue
    m = LD(1)
    for _ in range(i):
      m = np.multiply.outer(m, box.astype(LD))
    t = np.maximum(np.abs(ends(c)[0]), np.abs(ends(c)[1])).astype(LD) * m
    n = i * x_ndim
    if n:
      t = t.sum(axis=tuple(range(t.ndim - n, t.ndim)))
    dev = dev + t
  lo, hi = ends(coeffs[0])
  up = lo - 2.2 * dev > 0.01
  return up if positive else up | (hi + 2.2 * dev < -0.01)


def eval_many(coeffs, Z, x_ndim):
  """Values (lo, hi) and magnitude of a scalar-valued enclosure at rows of Z."""
  Z = np.asarray(Z, LD)
  P = Z.shape[0]
  lo, hi, mag = np.zeros(P, LD), np.zeros(P, LD), np.zeros(P, LD)
  m = np.ones(P, LD)
  for i, c in enumerate(coeffs):
    if i:
      m = (m[..., None] * Z.reshape((P,) + (1,) * (m.ndim - 1) + (-1,))
           if x_ndim else m * Z)
    cl, ch = ends(c)
    if cl.ndim != i * x_ndim:
      raise ValueError(f'coefficient {i} has shape {cl.shape}')
    with np.errstate(invalid='ignore'):
      p, q = cl.astype(LD) * m, ch.astype(LD) * m
    if not np.all(np.isfinite(p) & np.isfinite(q)):
      p, q = np.where(m == 0, 0, p), np.where(m == 0, 0, q)
    s = (lambda t: t.reshape(P, -1).sum(1)) if x_ndim else (lambda t: t)
    lo, hi = lo + s(np.minimum(p, q)), hi + s(np.maximum(p, q))
    mag = mag + s(np.maximum(np.abs(p), np.abs(q)))
  return lo, hi, mag
