"""C08: primitive enclosures contain the function over the trust region."""

import math

from mc import core

if core.WORKER:
  import numpy as np
  from mc import ref, prim
  from mc.lib import *  # pylint: disable=wildcard-import
  NP = backends()

BOUNDS = {
    'quick': 'abs, exp, log, sigmoid, softplus, swish, cbrt and 23 exponents; '
             'every supported degree up to 8; all triples a <= x0 <= b over '
             'up to 29 lattice points including all critical points of all '
             'derivatives; containment at all lattice points, mid points and '
             'the end points; the same for 5-point lattices of width '
             '2**-14 to 2**8 (degree <= 4); numpy arrays, scalars, jax f64 and f32',
    'thorough': 'as quick, with mid points of the lattice as end points too',
}
ASSUMPTIONS = [
    'lanes where |end - x0|**degree < 2e-12 are left out: the code documents '
    'that its guard against division by zero is not strictly valid there '
    '(space guard reports examples, listed in known_findings.txt)',
    'tolerance: 40 ulps of the quantities entering the remainder ratio',
]


def tasks(tier):
  ts = core.shards('fine', 24, tier=tier)
  ts += core.shards('guard', 1) + core.shards('guard', 1, mode='x32')
  ts += core.shards('large', 4)
  ts += core.shards('scaled', 8)
  ts += core.shards('scalars', 8)
  ts += core.shards('jax', 8)
  ts += core.shards('jax', 8, mode='x32')
  return ts


def run_task(task, stats):
  core.simple_run_task(SPACES, task, stats)


def pick(ch, max_degree=8):
  fn, top = ch.pick(prim.FUNCTIONS)
  degree = ch.choose(min(top, max_degree) + 1)
  return fn, degree


def contain(ch, fn, degree, a, x0, b, e, sample, tag=''):
  coeffs, lo, hi = prim.decode(ch, e, degree, x0.shape)
  exact = prim.reference(fn, degree, x0)
  name = f'{tag}{fn}:{degree}'
  # coefficients below the last
  for k, c in enumerate(coeffs):
    w = exact[k]
    if fn == 'abs' and k == 1:
      continue
    env = prim.envelope(fn, k, x0)
    tol = 60 * prim.eps() * (np.abs(w) + env) + prim.tiny()
    ch.count(evaluations=c.size)
    i = first_bad(np.abs(c - w) <= tol)
    if i is not None:
      ch.fail(f'coefficient:{name}:{k}', f'coefficient {k} of {fn} at '
              f'{x0[i]!r} is {c[i]!r}, expected {w[i]!r}')
  noise, guarded = prim.noise(fn, degree, a, x0, b, exact)
  if np.any(np.isnan(lo) | np.isnan(hi)):
    i = first_bad(~(np.isnan(lo) | np.isnan(hi)))
    ch.fail(f'nan:{name}', f'final interval ({lo[i]}, {hi[i]}) for '
            f'a={a[i]!r} x0={x0[i]!r} b={b[i]!r}')
  i = first_bad((lo <= hi + 2 * noise + prim.tiny()) | guarded)
  if i is not None:
    ch.fail(f'reversed:{name}', f'final interval ({lo[i]!r}, {hi[i]!r}) for '
            f'a={a[i]!r} x0={x0[i]!r} b={b[i]!r}')
  xs = [np.full(x0.shape, s) for s in sample]
  xs += [a, b, (a + x0) / 2, (b + x0) / 2, (3 * a + x0) / 4, (3 * b + x0) / 4]
  for x in xs:
    inside = (a <= x) & (x <= b)
    if fn == 'log':
      inside &= x > 0
    if isinstance(fn, tuple):
      p = fn[1]
      if p != int(p):
        inside &= (x >= 0) if p > 0 else (x > 0)
      elif p < 0:
        inside &= x != 0
    with np.errstate(all='ignore'):
      f = prim.value(fn, x)
      z = prim.ld(x) - prim.ld(x0)
      p0 = np.zeros(x0.shape, LD)
      mag = np.abs(f)
      for k in range(degree):
        t = coeffs[k] * z**k
        p0 = p0 + t
        mag = np.maximum(mag, np.abs(t))
      zk = z**degree
      t1 = scale_zero_inf(prim.ld(lo), zk)
      t2 = scale_zero_inf(prim.ld(hi), zk)
      l, h = p0 + np.minimum(t1, t2), p0 + np.maximum(t1, t2)
      tol = 60 * prim.eps() * mag + noise * np.abs(zk) + prim.tiny()
      ok = ((l <= f + tol) & (f <= h + tol)) | ~inside | guarded
    ch.count(evaluations=int(inside.sum()))
    i = first_bad(ok)
    if i is not None:
      ch.fail(f'contains:{name}', f'{fn} degree {degree} a={a[i]!r} '
              f'x0={x0[i]!r} b={b[i]!r}: f({x[i]!r})={f[i]!r} not in '
              f'({l[i]!r}, {h[i]!r}) final=({lo[i]!r}, {hi[i]!r}) '
              f'tol={tol[i]!r}')
  ch.outcome((fn, degree, lo.tolist(), hi.tolist()))


def fine(ch):
  fn, degree = pick(ch)
  ch.shard()
  pts = prim.lattice(fn, 'fine')
  a, x0, b = prim.triples(fn, degree, pts)
  mids = [(p + q) / 2 for p, q in zip(pts, pts[1:])]
  ch.count(transitions=x0.size)
  e = prim.call(fn, degree, a, x0, b, np)
  contain(ch, fn, degree, a, x0, b, e, pts + mids)
  # Matrix layout must be the same elementwise.
  if x0.size % 2:
    a, x0, b = a[1:], x0[1:], b[1:]
  sh = (2, -1)
  a2, x2, b2 = a.reshape(sh), x0.reshape(sh), b.reshape(sh)
  e2 = prim.call(fn, degree, a2, x2, b2, np)
  contain(ch, fn, degree, a2, x2, b2, e2, pts[::3] + mids[::3], 'matrix:')


def large(ch):
  fn, degree = pick(ch, 4)
  if isinstance(fn, tuple) and abs(fn[1]) > 4:
    return
  ch.shard()
  pts = prim.lattice(fn, 'large')
  a, x0, b = prim.triples(fn, degree, pts)
  ch.count(transitions=x0.size)
  e = prim.call(fn, degree, a, x0, b, np)
  contain(ch, fn, degree, a, x0, b, e, pts, 'large:')


def scalars(ch):
  fn, degree = pick(ch, 4)
  kind = ch.pick(['zero_d', 'float64', 'mixed'])
  ch.shard()
  pts = prim.lattice(fn, 'coarse')
  a, x0, b = prim.triples(fn, degree, pts)
  for i in range(x0.size):
    ch.count(1)
    if kind == 'mixed':
      # zero-dimensional reference point, one-element arrays as region
      e = prim.call(fn, degree, a[i:i+1], x0[i:i+1], b[i:i+1], np)
    else:
      conv = np.asarray if kind == 'zero_d' else np.float64
      e = prim.call(fn, degree, a[i], x0[i], b[i], np, conv)
      e = tuple(np.reshape(c, (1,)) for c in e[:-1]) + (
          tuple(np.reshape(c, (1,)) for c in e[-1]),)
    contain(ch, fn, degree, a[i:i+1], x0[i:i+1], b[i:i+1], e, pts, 'scalar:')


def jax_arrays(ch):
  fn, degree = pick(ch, 4)
  if not is_x64() and degree > 3:
    return
  ch.shard()
  np_ = NP['jnp']
  pts = prim.lattice(fn, 'coarse')
  a, x0, b = prim.triples(fn, degree, pts)
  ch.count(transitions=x0.size)
  e = prim.call(fn, degree, a, x0, b, np_)
  contain(ch, fn, degree, a, x0, b, e, pts + [0.1, -0.7, 2.2], 'jax:')


def scaled(ch):
  """Narrow regions, and regions at a small distance from zero."""
  fn, degree = pick(ch, 4)
  np_name = ch.pick(['np', 'jnp'])
  ch.shard()
  k = ch.pick([-14, -11, -8, -5] + ([4, 8] if np_name == 'np' else []))
  s = 2.**k
  sets = []
  if fn == 'log' or fn == 'abs' or isinstance(fn, tuple):
    sets.append([s * m for m in (0.5, 0.75, 1., 1.25, 1.9)])
    if fn in ('abs',) or isinstance(fn, tuple) and fn[1] == int(fn[1]):
      sets.append([-s * m for m in (1.9, 1.25, 1., 0.75, 0.5)])
  if k < 0:
    for c in (-1.75, -0.5, 0., 0.625, 2.5):
      if c <= 0 and (fn in ('log', 'cbrt') or isinstance(fn, tuple)):
        continue
      sets.append([c + s * m for m in (-1., -0.5, 0., 0.25, 1.)])
  for pts in sets:
    a, x0, b = prim.triples(fn, degree, pts)
    if not x0.size:
      continue
    if not is_x64():
      a, x0, b = (t.astype(np.float32) for t in (a, x0, b))
    ch.count(transitions=x0.size)
    e = prim.call(fn, degree, a, x0, b, NP[np_name])
    contain(ch, fn, degree, a, x0, b, e, pts, 'scaled:')


GUARD = {
    # Regions so small that the documented guard (or, in float32, roundoff of
    # the remainder ratio) makes the enclosure invalid; see known_findings.txt.
    'x64': [('log', 4, 5e-5, 1e-4, 2e-4), (('pow', -1), 4, 5e-5, 1e-4, 2e-4)],
    'x32': [('softplus', 2, 8.4769, 8.48, 11.58)],
}


def guard(ch):
  fn, degree, a, x0, b = ch.pick(GUARD['x64' if is_x64() else 'x32'])
  dt = np.float64 if is_x64() else np.float32
  a, x0, b = (np.array([v], dt) for v in (a, x0, b))
  e = prim.call(fn, degree, a, x0, b, NP['jnp'])
  coeffs, lo, hi = prim.decode(ch, e, degree, x0.shape)
  bad = []
  for x in np.linspace(a[0], b[0], 9).astype(dt):
    z = LD(x) - LD(x0[0])
    p = sum(LD(c[0]) * z**k for k, c in enumerate(coeffs))
    t = [LD(c[0]) * z**degree for c in (lo, hi)]
    f = prim.value(fn, prim.ld(x))
    if not p + min(t) - 1e-4 <= f <= p + max(t) + 1e-4:
      bad.append((float(x), float(f), float(p + min(t)), float(p + max(t))))
  ch.count(9)
  ch.outcome((fn, bad))
  ch.check(not bad, f'{fn}:{degree}:{a[0]:.6g}:{x0[0]:.6g}:{b[0]:.6g}',
           lambda: f'(x, f, lower, upper): {bad}')


SPACES = dict(guard=guard, fine=fine, large=large, scalars=scalars, jax=jax_arrays,
              scaled=scaled)
