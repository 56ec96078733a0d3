"""C21: the general-purpose enclosure builders, for user-supplied functions."""

import math

from mc import core

if core.WORKER:
  import numpy as np
  import jax
  import jax.numpy as jnp
  from numpy.polynomial import polynomial as npoly
  from mc.lib import *  # pylint: disable=wildcard-import
  from autobound import elementwise_functions as ef
  from autobound import primitive_enclosures as pe
  NP = backends()

BOUNDS = {
    'quick': '37 functions (polynomials up to degree 7 with dyadic '
             'coefficients, sin, cos, exp, sinh, tanh, atan, logarithms, '
             'powers of |x|, steps) x degree 0..5; all triples '
             'a <= x0 <= b of 14 lattice points where the k-th derivative is '
             'monotone; 14 functions with an even Hessian that decreases away '
             'from zero; derivative ranges that are exact or inflated; local '
             'extrema of all polynomials of degree <= 4 with roots of the '
             'derivative on the lattice, listed in any order; numpy and jax, '
             'scalars, vectors, matrices, under jit',
    'thorough': 'as quick with 25 lattice points',
}
ASSUMPTIONS = [
    'regions with |end - x0|**degree < 1e-4 do not occur (see C08)',
    'tolerance 1e-11 of the largest term of the remainder, divided by the '
    'power of the distance it is divided by',
]


def tasks(tier):
  ts = []
  for name, n in (('monotone', 16), ('even', 8), ('bounded', 8),
                  ('ratio', 4), ('extrema', 8), ('arguments', 1)):
    ts += core.shards(name, n, tier=tier)
  ts += core.shards('monotone', 8, mode='x32', tier=tier)
  ts += core.shards('even', 4, mode='x32', tier=tier)
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  core.simple_run_task(SPACES, task, stats)


def deep():
  return TIER == 'thorough'


# --- functions with all their derivatives ------------------------------------


class Fun:
  """call(x, np_like), and d(k, x) in extended precision."""

  def __init__(self, call, d, orders=9, smooth=True):
    self.call, self.d, self.orders, self.smooth = call, d, orders, smooth


def poly(*c):
  def call(x, np_like):
    del np_like
    out = 0. * x
    for a in reversed(c):
      out = out * x + a
    return out
  def d(k, x):
    return npoly.polyval(np.asarray(x, LD), npoly.polyder(
        np.array(c, LD), k)) + 0 * np.asarray(x, LD)
  return Fun(call, d)


def tanh_derivative(k, x):
  p = np.array([0, 1], LD)
  for _ in range(k):
    p = npoly.polymul(npoly.polyder(p), np.array([1, 0, -1], LD))
  return npoly.polyval(np.tanh(np.asarray(x, LD)), p)


def atan_derivative(k, x):
  t = np.arctan(np.asarray(x, LD))
  if k == 0:
    return t
  return math.factorial(k - 1) * np.cos(t)**k * np.sin(
      k * (t + LD(np.pi) / 2 + LD(6.123233995736766035868820147292e-17)))


def abs_power(n):
  """|x|**n / n!"""
  def d(k, x):
    x = np.asarray(x, LD)
    s = np.where(x < 0, LD(-1)**(n + k), LD(1)) if k <= n else 0 * x
    v = np.abs(x)**(n - k) / math.factorial(n - k) if k <= n else 0 * x
    if k == n and n % 2 == 1:
      v = np.where(x == 0, 0, v)
      s = np.where(x < 0, -1, 1) + 0 * x
    elif k <= n:
      s = np.where(x < 0, LD(-1)**k, LD(1))
    return s * v
  return Fun(lambda x, np_like: np_like.abs(x)**n / math.factorial(n), d,
             n, False)


def signed_power(n):
  """sign(x) |x|**n / n!"""
  def d(k, x):
    x = np.asarray(x, LD)
    v = np.abs(x)**(n - k) / math.factorial(n - k) if k <= n else 0 * x
    return np.where(x < 0, LD(-1)**(k + 1), LD(1)) * np.where(
        (x == 0) & (k == n), 0, v)
  return Fun(lambda x, np_like: np_like.sign(x) * np_like.abs(x)**n
             / math.factorial(n), d, n, False)


def positive_power(n):
  """max(x, 0)**n / n!"""
  def d(k, x):
    x = np.asarray(x, LD)
    v = np.maximum(x, 0)**(n - k) / math.factorial(n - k) if k <= n else 0 * x
    return np.where(x > 0, v, 0 * x)
  return Fun(lambda x, np_like: np_like.maximum(x, 0.)**n
             / math.factorial(n), d, n, False)


def _functions():
  f = {f'x**{n}': poly(*([0.] * n + [1.])) for n in range(8)}
  f['-x**3'] = poly(0., 0., 0., -1.)
  f['cubic'] = poly(.5, -1., 0., 1.)
  f['quartic'] = poly(0., 1., -2., 0., 1.)
  f['quintic'] = poly(1., -.5, .25, 1., -1., .125)
  f['sextic'] = poly(-2., 0., 3., .5, 0., -1., .25)
  L = lambda x: np.asarray(x, LD)
  f['sin'] = Fun(lambda x, m: m.sin(x), lambda k, x: (
      np.sin(L(x)), np.cos(L(x)), -np.sin(L(x)), -np.cos(L(x)))[k % 4])
  f['cos'] = Fun(lambda x, m: m.cos(x), lambda k, x: (
      np.cos(L(x)), -np.sin(L(x)), -np.cos(L(x)), np.sin(L(x)))[k % 4])
  f['-cos'] = Fun(lambda x, m: -m.cos(x), lambda k, x: (
      -np.cos(L(x)), np.sin(L(x)), np.cos(L(x)), -np.sin(L(x)))[k % 4])
  f['exp'] = Fun(lambda x, m: m.exp(x), lambda k, x: np.exp(L(x)))
  f['exp(-x/2)'] = Fun(lambda x, m: m.exp(-.5 * x),
                       lambda k, x: LD(-.5)**k * np.exp(-L(x) / 2))
  f['-exp'] = Fun(lambda x, m: -m.exp(x), lambda k, x: -np.exp(L(x)))
  f['sinh'] = Fun(lambda x, m: m.sinh(x), lambda k, x: (
      np.cosh if k % 2 else np.sinh)(L(x)))
  f['cosh'] = Fun(lambda x, m: m.cosh(x), lambda k, x: (
      np.sinh if k % 2 else np.cosh)(L(x)))
  f['tanh'] = Fun(lambda x, m: m.tanh(x), tanh_derivative)
  f['log cosh'] = Fun(
      lambda x, m: m.log(m.cosh(x)),
      lambda k, x: tanh_derivative(k - 1, x) if k else np.log(np.cosh(L(x))))
  f['atan'] = Fun(lambda x, m: m.arctan(x), atan_derivative)
  f['bell'] = Fun(lambda x, m: 1. / (1. + x * x),
                  lambda k, x: atan_derivative(k + 1, x))
  f['integral of atan'] = Fun(
      lambda x, m: x * m.arctan(x) - .5 * m.log1p(x * x),
      lambda k, x: atan_derivative(k - 1, x) if k else (
          L(x) * np.arctan(L(x)) - np.log1p(L(x)**2) / 2))
  f['log(x+4)'] = Fun(
      lambda x, m: m.log(x + 4.), lambda k, x: np.log(L(x) + 4) if k == 0 else
      LD(-1)**(k - 1) * math.factorial(k - 1) / (L(x) + 4)**k)
  f['1/(x-4)'] = Fun(
      lambda x, m: 1. / (x - 4.),
      lambda k, x: LD(-1)**k * math.factorial(k) / (L(x) - 4)**(k + 1))
  for n in (1, 2, 3, 5):
    f[f'|x|**{n}'] = abs_power(n)
  for n in (2, 3):
    f[f'signed x**{n}'] = signed_power(n)
  for n in (1, 2, 3):
    f[f'positive x**{n}'] = positive_power(n)
  return f


if core.WORKER:
  FUNS = _functions()


def lattice():
  base = [-3., -2.5, -1.75, -1., -.625, -.25, 0., .25, .5, 1., 1.375, 2., 2.75,
          3.]
  if deep():
    base = sorted(base + [-2.125, -1.375, -.875, -.5, -.125, .125, .375, .75,
                          1.125, 1.625, 2.375])
  return base


def triples(smooth, pts):
  t = np.array([(a, m, b) for a in pts for m in pts for b in pts
                if a <= m <= b and (smooth or m != 0)])
  return t[:, 0], t[:, 1], t[:, 2]


def monotone_lanes(f, k, a, b):
  """Lanes where the k-th derivative is increasing / decreasing over [a, b]."""
  t = np.linspace(0, 1, 257, dtype=LD)
  x = np.asarray(a, LD)[:, None] * (1 - t) + np.asarray(b, LD)[:, None] * t
  v = f.d(k, x)
  steps = np.diff(v, axis=1)
  tol = 1e-15 * np.abs(v).max(axis=1)[:, None]
  return np.all(steps >= -tol, axis=1), np.all(steps <= tol, axis=1)


def exact_ratio(f, k, x0, x):
  z = np.asarray(x, LD) - np.asarray(x0, LD)
  r = f.d(0, x)
  size = np.abs(r)
  for i in range(k):
    t = f.d(i, x0) * z**i / math.factorial(i)
    r, size = r - t, np.maximum(size, np.abs(t))
  ck = f.d(k, x0) / math.factorial(k)
  with np.errstate(all='ignore'):
    out = np.where(z == 0, ck, r / z**k)
    err = np.where(z == 0, 0, (size / np.abs(z)**k))
  return out, np.abs(ck) + err


def tolerance():
  return 1e-11 if is_x64() else 2e-5


FORMS = ('np', 'jnp', 'matrix', 'scalar', 'jit')


def run_form(form, build, x0, a, b, coeffs):
  """Calls build(x0, (a, b), coeffs, np_like) with the arguments in a form."""
  dt = np.float64 if is_x64() else np.float32
  args = [np.asarray(v, dt) for v in (x0, a, b)] + [
      np.asarray(c, dt) for c in coeffs]
  def call(np_like):
    return lambda x0, a, b, *c: build(x0, (a, b), list(c), np_like)
  if form == 'np':
    return call(np)(*args)
  if form == 'jnp':
    return call(jnp)(*map(jnp.asarray, args))
  if form == 'jit':
    return jax.jit(call(jnp))(*map(jnp.asarray, args))
  n = x0.shape[0]
  if form == 'matrix':
    m = [np.stack([v, v[::-1]]) for v in args]
    e = call(np)(*m)
    flat = lambda c: np.asarray(c)[0] if np.ndim(c) else c
    back = lambda c: np.asarray(c)[1][::-1] if np.ndim(c) else c
    one = tuple(tuple(map(flat, c)) if isinstance(c, tuple) else flat(c)
                for c in e)
    two = tuple(tuple(map(back, c)) if isinstance(c, tuple) else back(c)
                for c in e)
    for p, q in zip(one, two):
      if not all(np.array_equal(s, t, equal_nan=True)
                 for s, t in zip(ends(p), ends(q))):
        raise AssertionError('rows of a matrix interfere')
    return one
  rows = [call(np)(*[dt(v[i]) for v in args]) for i in range(n)]
  return tuple(
      tuple(np.array([r[k][j] for r in rows]) for j in (0, 1))
      if isinstance(rows[0][k], tuple) else np.array([r[k] for r in rows])
      for k in range(len(rows[0])))


def verify(ch, name, f, k, a, x0, b, e, exact=None):
  """Structure, coefficients, containment, and (if given) the exact interval."""
  ch.check(isinstance(e, tuple) and len(e) == k + 1, f'terms:{name}',
           lambda: f'{len(e)} terms for degree {k}')
  ch.check(not any(isinstance(c, tuple) for c in e[:-1])
           and isinstance(e[-1], tuple) and len(e[-1]) == 2,
           f'structure:{name}')
  rt = tolerance()
  for i, c in enumerate(e[:-1]):
    w = f.d(i, x0) / math.factorial(i)
    j = first_bad(np.abs(np.asarray(c) - w) <= rt * (1 + np.abs(w)))
    if j is not None:
      ch.fail(f'coefficient:{name}:{i}', f'{np.asarray(c)[j]} != {w[j]} at '
              f'{x0[j]}')
  lo, hi = (np.asarray(t) for t in e[-1])
  noise = sum(exact_ratio(f, k, x0, t)[1] for t in (a, b, np.clip(-x0, a, b)))
  noise = rt * noise
  where = lambda i: f'{name} a={a[i]!r} x0={x0[i]!r} b={b[i]!r}: '
  i = first_bad(lo <= hi + 2 * noise)
  if i is not None:
    ch.fail(f'reversed:{name}', where(i) + f'{lo[i]} > {hi[i]}')
  if exact is not None:
    for got, want, what in ((lo, exact[0], 'lower'), (hi, exact[1], 'upper')):
      i = first_bad(np.abs(got - want) <= noise)
      if i is not None:
        ch.fail(f'{what}:{name}', where(i) + f'{got[i]!r}, exact {want[i]!r}')
  for t in np.linspace(0, 1, 17):
    x = np.asarray(a, LD) * (1 - LD(t)) + np.asarray(b, LD) * LD(t)
    z = x - x0
    fx = f.d(0, x)
    p, size = LD(0), np.abs(fx)
    for i in range(k):
      term = f.d(i, x0) / math.factorial(i) * z**i
      p, size = p + term, np.maximum(size, np.abs(term))
    u, v = lo * z**k, hi * z**k
    tol = rt * size * 4 + noise * np.abs(z)**k
    ok = (p + np.minimum(u, v) - tol <= fx) & (fx <= p + np.maximum(u, v) + tol)
    ch.count(evaluations=ok.size)
    i = first_bad(ok)
    if i is not None:
      ch.fail(f'contains:{name}', where(i) + f'f({x[i]}) = {fx[i]!r} not in '
              f'[{(p + np.minimum(u, v))[i]!r}, {(p + np.maximum(u, v))[i]!r}]')


def coefficients(f, k, x0):
  return [f.d(i, x0) / math.factorial(i) for i in range(k + 1)]


def monotone(ch):
  name = ch.pick(list(FUNS))
  k = ch.choose(6)
  ch.shard()
  f = FUNS[name]
  if k > f.orders:
    return
  a, x0, b = triples(f.smooth, lattice())
  inc, dec = monotone_lanes(f, k, a, b)
  forms = list(FORMS)
  for increasing in (True, False):
    keep = inc if increasing else dec
    if not keep.any():
      continue
    aa, xx, bb = a[keep], x0[keep], b[keep]
    ra, rb = exact_ratio(f, k, xx, aa)[0], exact_ratio(f, k, xx, bb)[0]
    want = (ra, rb) if increasing else (rb, ra)
    for form in forms:
      pick = slice(None, None, 1 if form != 'scalar' else 1 + xx.size // 40)
      p, q, r = aa[pick], xx[pick], bb[pick]
      def build(x0, region, coeffs, np_like):
        return pe.sharp_enclosure_monotonic_derivative(
            x0, k, region, lambda x: f.call(x, np_like), coeffs, increasing,
            np_like)
      e = run_form(form, build, q, p, r, coefficients(f, k, q))
      ch.count(1, q.size)
      verify(ch, f'monotone:{name}:{k}:{form}', f, k, p, q, r, e,
             (want[0][pick], want[1][pick]))
  ch.outcome((name, k, int(inc.sum()), int(dec.sum())))


def with_line(f, slope, offset, name):
  d = lambda k, x: f.d(k, x) + (slope * np.asarray(x, LD) + offset if k == 0
                                else slope if k == 1 else 0)
  return Fun(lambda x, m: f.call(x, m) + slope * x + offset, d, f.orders,
             f.smooth)


EVEN = ('x**0', 'x**1', 'x**2', '-x**4', '-x**6', '-cos', 'log cosh',
        'integral of atan', '-|x|**3', '-|x|**5', 'concave', '-cosh')


def even_function(name):
  if name == 'concave':
    return poly(1., 0., -.5, 0., -.25)
  if name[0] == '-' and name != '-cos':
    f = {'-x**4': 'x**4', '-x**6': 'x**6', '-|x|**3': '|x|**3',
         '-|x|**5': '|x|**5', '-cosh': 'cosh'}[name]
    g = FUNS[f]
    return Fun(lambda x, m: -g.call(x, m), lambda k, x: -g.d(k, x), g.orders,
               g.smooth)
  return FUNS[name]


def even(ch):
  name = ch.pick(EVEN)
  slope, offset = ch.pick([(0., 0.), (2., -1.), (-.5, 4.)])
  form = ch.pick(FORMS)
  ch.shard()
  f = with_line(even_function(name), slope, offset, name)
  a, x0, b = triples(True, lattice())
  if form == 'scalar':
    n = 1 + x0.size // 60
    a, x0, b = a[::n], x0[::n], b[::n]
  def build(x0, region, coeffs, np_like):
    return pe.sharp_quadratic_enclosure_even_symmetric_hessian(
        x0, region, lambda x: f.call(x, np_like), coeffs, np_like)
  e = run_form(form, build, x0, a, b, coefficients(f, 2, x0))
  ratios = [exact_ratio(f, 2, x0, t)[0] for t in (a, b)]
  top = exact_ratio(f, 2, x0, np.clip(-x0, a, b))[0]
  ch.count(1, x0.size)
  verify(ch, f'even:{name}:{slope}:{form}', f, 2, a, x0, b, e,
         (np.minimum(*ratios), top))
  # the exact range, found without using the symmetry
  lo, hi = (np.asarray(t) for t in e[-1])
  for t in np.linspace(0, 1, 33):
    x = np.asarray(a, LD) * (1 - LD(t)) + np.asarray(b, LD) * LD(t)
    far = np.abs(x - x0) >= .02
    r, s = exact_ratio(f, 2, x0, x)
    tol = tolerance() * s * 4
    i = first_bad((lo - tol <= r) & (r <= hi + tol) | ~far)
    if i is not None:
      ch.fail(f'range:{name}', f'a={a[i]} x0={x0[i]} b={b[i]}: remainder ratio '
              f'{r[i]} at {x[i]} not in [{lo[i]}, {hi[i]}]')
  ch.outcome((name, slope, form, lo.tolist()))


def bounded(ch):
  """From any valid bound of the k-th derivative."""
  name = ch.pick(list(FUNS))
  k = ch.choose(6)
  ch.shard()
  f = FUNS[name]
  if k > f.orders:
    return
  a, x0, b = triples(f.smooth, lattice())
  t = np.linspace(0, 1, 129, dtype=LD)
  x = np.asarray(a, LD)[:, None] * (1 - t) + np.asarray(b, LD)[:, None] * t
  v = f.d(k, x)
  step = np.abs(np.diff(v, axis=1)).max(axis=1)
  for extra in (0., 1.5):
    lo = (v.min(axis=1) - step - extra).astype(float)
    hi = (v.max(axis=1) + step + extra).astype(float)
    coeffs = [np.asarray(c, float) for c in coefficients(f, k, x0)[:k]]
    for m in (np, jnp):
      e = pe.bounded_derivative_enclosure(
          k, [m.asarray(c) for c in coeffs], (m.asarray(lo), m.asarray(hi)))
      ch.count(1, x0.size)
      fact = math.factorial(k)
      verify(ch, f'bounded:{name}:{k}', f, k, a, x0, b, e)
      for got, want in zip(e[-1], (lo / fact, hi / fact)):
        ch.check(np.all(close(got, want, 1e-12, 1e-300)),
                 f'bounded-interval:{name}:{k}',
                 'not the bound of the derivative divided by the factorial')
  ch.outcome((name, k))


def ratio(ch):
  name = ch.pick(list(FUNS))
  k = ch.choose(6)
  ch.shard()
  f = FUNS[name]
  if k > f.orders:
    return
  pts = lattice()
  g = np.array([(p, q) for p in pts for q in pts if f.smooth or p])
  x0, x = g[:, 0], g[:, 1]
  want, size = exact_ratio(f, k, x0, x)
  for m in (np, jnp):
    got = np.asarray(pe.taylor_remainder_ratio(
        m.asarray(x0), k, lambda t: f.call(t, m),
        [m.asarray(np.asarray(c, float)) for c in coefficients(f, k, x0)],
        m.asarray(x), m))
    ch.count(1, x0.size)
    i = first_bad(np.abs(got - want) <= 1e-11 * size)
    if i is not None:
      ch.fail(f'ratio:{name}:{k}', f'x0={x0[i]} x={x[i]}: {got[i]!r}, exact '
              f'{want[i]!r}')
  ch.outcome((name, k, want.astype(float).tolist()))


def extrema(ch):
  """Minimum and maximum of functions with known local extrema."""
  n = ch.choose(4)
  roots = []
  for _ in range(n):
    larger = [p for p in (-2., -1., .5, 2.) if not roots or p > roots[-1]]
    if not larger:
      return
    roots.append(ch.pick(larger))
  sign = ch.pick([1., -1.])
  ch.shard()
  c = npoly.polyint(sign * npoly.polyfromroots(roots) if roots
                    else np.array([sign]))
  f = poly(*[float(v) for v in c])
  second = [float(f.d(2, r)) for r in roots]
  minima = [r for r, s in zip(roots, second) if s > 0]
  maxima = [r for r, s in zip(roots, second) if s < 0]
  pts = sorted(set(lattice()) | {-2., -1., .5, 2.})
  iv = np.array([(p, q) for p in pts for q in pts if p <= q])
  a, b = iv[:, 0], iv[:, 1]
  cand = [f.d(0, a), f.d(0, b)] + [
      np.where((a <= r) & (r <= b), f.d(0, r), f.d(0, a)) for r in roots]
  want_min, want_max = np.minimum.reduce(cand), np.maximum.reduce(cand)
  for m in (np, jnp):
    for rev in (False, True):
      lo_pts = tuple(minima[::-1] if rev else minima)
      hi_pts = tuple(maxima[::-1] if rev else maxima)
      fun = lambda x: f.call(m.asarray(x), m)
      got_min = ef.minimum_value(fun, m.asarray(a), m.asarray(b), lo_pts, m)
      got_max = ef.maximum_value(fun, m.asarray(a), m.asarray(b), hi_pts, m)
      ch.count(2, 2 * a.size)
      for got, want, what in ((got_min, want_min, 'minimum'),
                              (got_max, want_max, 'maximum')):
        got = np.asarray(got)
        ch.check(got.shape == want.shape, f'shape:{what}')
        i = first_bad(np.abs(got - want) <= 1e-11 * (1 + np.abs(want)))
        if i is not None:
          ch.fail(f'{what}', f'{c} over [{a[i]}, {b[i]}]: {got[i]!r}, exact '
                  f'{want[i]!r}')
      # one interval at a time
      for i in range(0, a.size, 17):
        for got, want in ((ef.minimum_value(fun, a[i], b[i], lo_pts, m),
                           want_min[i]),
                          (ef.maximum_value(fun, a[i], b[i], hi_pts, m),
                           want_max[i])):
          ch.check(abs(float(got) - float(want)) <= 1e-11 * (1 + abs(want)),
                   'scalar', lambda: f'{c} over [{a[i]}, {b[i]}]: {got} {want}')
  ch.outcome((roots, sign))


def arguments(ch):
  """A wrong number of coefficients or a negative degree is refused."""
  k = ch.choose(4)
  given = ch.choose(6)
  one = np.array(1.)
  region = (np.array(0.), np.array(2.))
  coeffs = [one] * given
  def refused(fun):
    try:
      fun()
    except ValueError:
      return True
    return False
  ch.count(3, 3)
  ch.check(refused(lambda: pe.bounded_derivative_enclosure(
      k, coeffs, region)) == (given != k), f'bounded:{k}:{given}')
  ch.check(refused(lambda: pe.taylor_remainder_ratio(
      one, k, np.exp, coeffs, 2. * one, np)) == (given != k + 1),
           f'ratio:{k}:{given}')
  for inc in (True, False):
    ch.check(refused(lambda: pe.sharp_enclosure_monotonic_derivative(
        one, k, region, np.exp, coeffs, inc, np)) == (given != k + 1),
             f'monotone:{k}:{given}')
    ch.check(refused(lambda: pe.sharp_enclosure_monotonic_derivative(
        one, -1 - k, region, np.exp, coeffs, inc, np)), f'negative:{k}')
  ch.outcome((k, given))


SPACES = dict(monotone=monotone, even=even, bounded=bounded, ratio=ratio,
              extrema=extrema, arguments=arguments)
