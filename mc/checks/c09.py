"""C09: primitive enclosures are sharp whenever sharpness is promised."""

import math

from mc import core

if core.WORKER:
  import numpy as np
  from mc import ref, prim
  from mc.lib import *  # pylint: disable=wildcard-import
  NP = backends()

BOUNDS = {
    'quick': 'same (function, degree, a, x0, b) space as C08: all triples over '
             'a lattice with all critical points; numpy, scalars, jax f64/f32',
}
ASSUMPTIONS = [
    'trust regions inside the domain of the function and its derivatives',
    'lanes where |end - x0|**degree < 2e-12, or where rounding of the '
    'remainder ratio exceeds 1e-4 of the interval, are left out',
]


def tasks(tier):
  ts = core.shards('fine', 16)
  ts += core.shards('scalars', 6)
  ts += core.shards('jax', 6)
  ts += core.shards('jax', 6, mode='x32')
  return ts


def run_task(task, stats):
  core.simple_run_task(SPACES, task, stats)


def derivative_range(fn, k, a, b):
  """Exact range of the k-th derivative over [a, b], and monotonicity."""
  d = lambda x: prim.deriv(fn, k, x)
  lo, hi = np.minimum(d(a), d(b)), np.maximum(d(a), d(b))
  slack = LD(1e-9)
  interior = np.zeros(np.shape(a), bool)   # certainly not monotone
  possible = np.zeros(np.shape(a), bool)   # may be judged not monotone
  if isinstance(fn, tuple):
    p = fn[1]
    if p == int(p) and p >= 0 and p - k > 0 and (p - k) % 2 == 0:
      interior = (a < 0) & (b > 0)
      possible = interior
      lo = np.where(interior, np.minimum(lo, 0), lo)
      hi = np.where(interior, np.maximum(hi, 0), hi)
  elif fn == 'cbrt':
    pass
  else:
    for x, is_min in ref.extrema(fn, k):
      interior |= (a < x - slack) & (b > x + slack)
      possible |= (a < x + slack) & (b > x - slack)
      inside = (a <= x) & (x <= b)
      v = d(x)
      lo = np.where(inside, np.minimum(lo, v), lo)
      hi = np.where(inside, np.maximum(hi, v), hi)
    # An interval that ends at an extremum is monotone.
    for x, _ in ref.extrema(fn, k):
      exact = (x == 0)
      if exact:
        others = np.zeros(np.shape(a), bool)
        for y, _ in ref.extrema(fn, k):
          if y != x:
            others |= (a < y + slack) & (b > y - slack)
        possible &= ~(((a == x) | (b == x)) & ~others)
  return lo, hi, interior, possible


def in_domain(fn, degree, a, b):
  if fn in ('log',):
    return a > 0
  if fn == 'cbrt':
    return (a > 0) | (b < 0)
  if isinstance(fn, tuple):
    p = fn[1]
    if p == int(p):
      return np.ones(a.shape, bool) if p >= 0 else (a > 0) | (b < 0)
    return a > 0
  return np.ones(a.shape, bool)


def ratio(fn, degree, coeffs, x0, x):
  """Exact normalised remainder (f(x) - sum_{i<k} c_i z^i) / z^k."""
  z = prim.ld(x) - prim.ld(x0)
  with np.errstate(all='ignore'):
    r = prim.value(fn, x)
    for i in range(degree):
      r = r - coeffs[i] * z**i
    out = r / z**degree
  return np.where(z == 0, coeffs[degree], out)


def sharp(ch, fn, degree, a, x0, b, e, tag=''):
  _, lo, hi = prim.decode(ch, e, degree, x0.shape)
  coeffs = prim.reference(fn, degree, x0)
  name = f'{tag}{fn}:{degree}'
  noise, guarded = prim.noise(fn, degree, a, x0, b, coeffs)
  use = in_domain(fn, degree, a, b) & ~guarded & (x0 != (
      0 if fn in ('abs', 'cbrt') else np.inf))
  ra, rb = ratio(fn, degree, coeffs, x0, a), ratio(fn, degree, coeffs, x0, b)
  dlo, dhi, interior, possible = derivative_range(fn, degree, a, b)
  fact = LD(math.factorial(degree))
  with np.errstate(all='ignore'):
    scale = np.abs(dlo / fact) + np.abs(dhi / fact)
    env = prim.envelope(fn, degree, a) + prim.envelope(fn, degree, b)
    tol = noise + 100 * prim.eps() * (scale + env) + prim.tiny()
    use &= noise <= 1e-4 * (scale + env + 1e-300) + (scale == 0)
    # 1. never wider than the range of the derivative (mean value theorem);
    # for abs the derivative range is that of sign(x).
    ok = (lo >= dlo / fact - tol) & (hi <= dhi / fact + tol) | ~use
  ch.count(evaluations=int(use.sum()))
  i = first_bad(ok)
  if i is not None:
    ch.fail(f'wide:{name}', f'{fn} degree {degree} a={a[i]!r} x0={x0[i]!r} '
            f'b={b[i]!r}: ({lo[i]!r}, {hi[i]!r}) exceeds derivative range/k! '
            f'({dlo[i]/fact!r}, {dhi[i]/fact!r})')
  # 2. attained
  softplus2 = fn == 'softplus' and degree == 2
  if softplus2:
    wl = np.minimum(ra, rb)
    wh = ratio(fn, degree, coeffs, x0, np.clip(-x0, a, b))
    near = np.abs(np.clip(-x0, a, b) - x0)
    must = use & ((near == 0) | (near >= 0.05))
  else:
    wl, wh = np.minimum(ra, rb), np.maximum(ra, rb)
    must = use & ~possible
    if fn == 'abs' and degree == 1:
      # sign is monotone
      must = use
  ch.count(evaluations=int(must.sum()))
  for got, want, what in ((lo, wl, 'lower'), (hi, wh, 'upper')):
    with np.errstate(all='ignore'):
      i = first_bad((np.abs(got - want) <= tol) | ~must)
    if i is not None:
      ch.fail(f'{what}:{name}', f'{fn} degree {degree} a={a[i]!r} x0={x0[i]!r}'
              f' b={b[i]!r}: {what} end {got[i]!r}, sharp value {want[i]!r} '
              f'(tolerance {tol[i]!r})')
  ch.outcome((fn, degree, lo.tolist(), hi.tolist()))


def fine(ch):
  fn, top = ch.pick(prim.FUNCTIONS)
  degree = ch.choose(top + 1)
  ch.shard()
  a, x0, b = prim.triples(fn, degree, prim.lattice(fn, 'fine'))
  ch.count(transitions=x0.size)
  sharp(ch, fn, degree, a, x0, b, prim.call(fn, degree, a, x0, b, np))
  if x0.size % 2:
    a, x0, b = a[1:], x0[1:], b[1:]
  a, x0, b = (v.reshape(2, -1) for v in (a, x0, b))
  sharp(ch, fn, degree, a, x0, b, prim.call(fn, degree, a, x0, b, np),
        'matrix:')


def scalars(ch):
  fn, top = ch.pick(prim.FUNCTIONS)
  degree = ch.choose(min(4, top) + 1)
  ch.shard()
  a, x0, b = prim.triples(fn, degree, prim.lattice(fn, 'coarse'))
  for i in range(x0.size):
    ch.count(1)
    e = prim.call(fn, degree, a[i], x0[i], b[i], np)
    e = tuple(np.reshape(c, (1,)) for c in e[:-1]) + (
        tuple(np.reshape(c, (1,)) for c in e[-1]),)
    sharp(ch, fn, degree, a[i:i+1], x0[i:i+1], b[i:i+1], e, 'scalar:')


def jax_arrays(ch):
  fn, top = ch.pick(prim.FUNCTIONS)
  degree = ch.choose(min(4 if is_x64() else 2, top) + 1)
  ch.shard()
  a, x0, b = prim.triples(fn, degree, prim.lattice(fn, 'coarse'))
  ch.count(transitions=x0.size)
  sharp(ch, fn, degree, a, x0, b,
        prim.call(fn, degree, a, x0, b, NP['jnp']), 'jax:')


SPACES = dict(fine=fine, scalars=scalars, jax=jax_arrays)
