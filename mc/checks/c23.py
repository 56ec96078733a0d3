"""C23: bounds are equivariant: they transform as the function does."""

from mc import core

if core.WORKER:
  import numpy as np
  import jax
  import jax.numpy as jnp
  from autobound import primitive_enclosures as pe
  from autobound.jax import jax_bound
  from mc.lib import *  # pylint: disable=wildcard-import
from mc import programs as P
from mc.checks import c22

BOUNDS = {
    'quick': 'scalar programs on 44 lanes: all 29 unary operations, 406 '
             'compositions, 14 x 14 arguments of +, -, *, / and 341 nested '
             'programs, degree 0..4, both modes, 3 trust regions; '
             'substitutions x -> s*x + t for s in {-1, 2, -1/4}, t in {0, 1}, '
             's = 2**24 and -2**-24; '
             'results negated, scaled and shifted (7 ways, or 3), operands of '
             'sums, products and differences exchanged; 13 programs of a '
             'vector: all 6 permutations of its components and 3 diagonal '
             'scalings; 9 programs of arrays: all orders of the elements of '
             'the result; 73 identities of built-in functions (mirrored and '
             'scaled arguments) on a lattice of 11 points, both back ends',
    'thorough': 'as quick with 841 compositions and 1024 nested programs, and '
                'all degrees and modes for each program',
}
ASSUMPTIONS = [
    'lanes where an end of an intermediate trust region is very close to the '
    'reference point are left out (see C08)',
    'equality up to 1e-9 of the coefficients (float64), 5e-3 (float32)',
]


def tasks(tier):
  ts = []
  for name, n in (('unary', 8), ('pairs', 24), ('binary', 12), ('nested', 8),
                  ('vectors', 8), ('elements', 4),
                  ('identities', 4)):
    ts += core.shards(name, n, tier=tier)
  ts += core.shards('unary', 2, mode='x32', tier=tier)
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  c22.TIER = TIER
  core.simple_run_task(SPACES, task, stats)


def deep():
  return TIER == 'thorough'


# (scale, shift): x -> scale * x + shift; dyadic, so that nothing is rounded.
SUBSTITUTIONS = ((-1., 0.), (2., 0.), (-.25, 1.), (1., 1.))
# Changes of unit: absolute tolerances anywhere show up here.
UNITS = ((2.**24, 0.), (-2.**-24, 0.))


def same(ch, key, what, a, b, factor, usable, noise, S, C, sizes=None):
  """a[k] == factor(k) * b[k] for all coefficients, on the usable lanes."""
  rtol = 1e-9 if is_x64() else 5e-3
  ch.check(len(a) == len(b), f'terms:{key}',
           lambda: f'{what}: {len(a)} and {len(b)} coefficients')
  for k, (ca, cb) in enumerate(zip(a, b)):
    (al, ah), (bl, bh) = c22.lanes(ca, S), c22.lanes(cb, S)
    f = factor(k)
    al, ah = (al / f, ah / f) if f > 0 else (ah / f, al / f)
    with np.errstate(invalid='ignore', over='ignore'):
      tol = rtol * (1 + np.abs(bl) + np.abs(bh))
      if k == len(a) - 1:
        tol = tol + noise
      if sizes is not None:
        tol = tol + rtol * sizes / abs(f)
      tol = np.where(np.isfinite(tol), tol, np.inf)
      ok = ((al == bl) | (np.abs(al - bl) <= tol)) & (
          (ah == bh) | (np.abs(ah - bh) <= tol))
      # Both or neither are nan.
      nan_a, nan_b = np.isnan(al) | np.isnan(ah), np.isnan(bl) | np.isnan(bh)
      ok = np.where(nan_a | nan_b, nan_a == nan_b, ok) | ~usable
      ok |= np.isinf(bl) | np.isinf(bh)
    ch.count(evaluations=int(usable.sum()))
    i = first_bad(ok)
    if i is not None:
      ch.fail(f'{key}:{k}', f'{what} at u = {S[i]}*x + {C[i]}: coefficient '
              f'{k}, transformed back, is [{al[i]}, {ah[i]}], should be '
              f'[{bl[i]}, {bh[i]}]')


def run_all(ch, prog, regions, degrees, modes=(False, True),
            substitutions=SUBSTITUTIONS, results=7):
  ch.shard()
  region = ch.pick(regions)
  degree = ch.pick([d for d in degrees if d <= P.top_degree(prog)])
  prop = ch.pick(modes)
  if not is_x64() and degree > 1:
    return
  x0, lo, hi = region
  S, C = P.lane_constants(x0)
  base = P.coefficients(ch, prog, S, C, degree, prop, region)
  usable, noise = c22.usable_lanes(ch, prog, S, C, degree, prop, region)
  name = f'{prog}:{degree}:{prop}'
  where = f'{prog}, degree {degree}, propagate={prop}, x0={x0}, region [{lo}, {hi}]'
  # f(x) = g(s*x + t): the bounds of g at s*x0 + t are those of f, scaled.
  for s, t in substitutions:
    ends_ = sorted((s * lo + t, s * hi + t))
    moved = P.compute(prog, S / s, C - S * t / s, degree, prop, s * x0 + t,
                      *ends_)
    ch.count(1)
    same(ch, f'substitution:{name}:{s}:{t}',
         f'{where}, x replaced by {s}*x + {t}', base,
         [ends_of(c) for c in moved.coefficients], lambda k: s**k, usable,
         noise, S, C)
  # results
  for op, factor, shift in (('neg', -1., 0.),
                            ('const:rmul:float:-4.0', -4., 0.),
                            ('1-u', -1., 1.), ('const:mul:float:2.0', 2., 0.),
                            ('const:mul:array:3.0', 3., 0.), ('u-3', 1., -3.),
                            ('const:div:float:-2.0', -.5, 0.))[:results]:
    other = P.coefficients(ch, (op, prog), S, C, degree, prop, region)
    first = tuple(e - shift for e in ends(other[0]))
    same(ch, f'{op}:{name}', f'{where}: {op} of it',
         (first,) + tuple(other[1:]), base, lambda k: factor, usable, noise, S,
         C, np.abs(shift))
  if prog[0] in P.BINARY and prog[0] != 'div':
    op, a, b = prog
    swapped = P.coefficients(ch, (op, b, a), S, C, degree, prop, region)
    sign = -1. if op == 'sub' else 1.
    same(ch, f'exchange:{name}', f'{where}: operands exchanged', swapped, base,
         lambda k: sign, usable, noise, S, C)
    if op in ('mul',):
      for x, y in ((('neg', a), b), (a, ('neg', b))):
        if isinstance(a, float) or isinstance(b, float):
          continue
        other = P.coefficients(ch, (op, x, y), S, C, degree, prop, region)
        same(ch, f'sign:{name}', f'{where}: one factor negated', other, base,
             lambda k: -1., usable, noise, S, C)
  ch.outcome((name, region, [np.asarray(c).tobytes() for c in base]))


def ends_of(c):
  return tuple(np.asarray(e) for e in c) if isinstance(c, tuple) else (
      np.asarray(c))


def unary(ch):
  run_all(ch, (ch.pick(list(P.UNARY)), 'u'), c22.CENTERS, range(5),
          substitutions=SUBSTITUTIONS + (UNITS if is_x64() else ()))


def pairs(ch):
  f = ch.pick(list(P.UNARY) if deep() else list(P.TRIPLE_OPS))
  g = ch.pick(list(P.UNARY))
  k = P.hash_of(f, g)
  run_all(ch, (f, (g, 'u')), [c22.CENTERS[k % 3]],
          range(5) if deep() else [(0, 2), (1,), (2,), (3,)][k % 4],
          (False, True) if deep() else (k % 8 < 4,),
          SUBSTITUTIONS if deep() else SUBSTITUTIONS[:1] + SUBSTITUTIONS[2:3],
          7 if deep() else 3)


def binary(ch):
  op = ch.pick(P.BINARY)
  a, b = ch.pick(P.PAIR_ARGS), ch.pick(P.PAIR_ARGS)
  if isinstance(a, float) and isinstance(b, float):
    ch.shard()
    return
  k = P.hash_of(op, a, b)
  run_all(ch, (op, a, b), [c22.CENTERS[k % 3]],
          range(5) if deep() else [(0, 2), (1,), (3,), (2,)][k % 4],
          (False, True) if deep() else (k % 2 == 0,),
          SUBSTITUTIONS + UNITS if deep() else
          SUBSTITUTIONS[:1] + SUBSTITUTIONS[2:3] + UNITS[k % 2:][:1],
          7 if deep() else 3)


def nested(ch):
  prog = P.choose_nested(ch)
  k = P.hash_of(prog)
  if not deep() and k % 3:
    ch.shard()
    return
  run_all(ch, prog, [c22.CENTERS[k // 3 % 3]], range(4) if deep() else [k % 4],
          (False, True) if deep() else (k % 8 < 4,),
          SUBSTITUTIONS if deep() else SUBSTITUTIONS[:1], 7 if deep() else 3)


# --- functions of vectors ----------------------------------------------------


def permuted(c, perm, factors, k):
  """Coefficient k of f(x) from that of g(y), y = factors * x[perm]."""
  c = np.asarray(c)
  n = len(perm)
  # y = M x with M[i, perm[i]] = factors[i]; one axis of c per factor of z.
  inverse = np.argsort(perm)
  for axis in range(c.ndim - k, c.ndim):
    shape = [1] * c.ndim
    shape[axis] = n
    c = np.take(c * np.reshape(factors, shape), inverse, axis=axis)
  return c


def swap_ends(l, h):
  return np.minimum(l, h), np.maximum(l, h)


def vectors(ch):
  from mc.checks import c16
  import itertools
  vector, _ = c16.array_programs()
  name = ch.pick(list(vector))
  ch.shard()
  f = vector[name]
  degree = ch.choose(4)
  prop = ch.flag()
  y0, lo, hi = (np.array(t) for t in ch.pick([
      ([.25, -.5, 1.], [-.25, -1., .5], [1., 0., 1.75]),
      ([-1., 2., .5], [-2., 2., .25], [-.5, 2., .5])], 'region'))
  base = ch.cache.get((name, degree, prop, y0.tobytes()))
  if base is None:
    b = jax_bound.taylor_bounds(f, degree, prop)(
        jnp.asarray(y0), (jnp.asarray(lo), jnp.asarray(hi)))
    base = [ends(c) for c in b.coefficients]
    ch.cache[(name, degree, prop, y0.tobytes())] = base
    ch.count(1)
  transforms = [(p, (1.,) * 3) for p in itertools.permutations(range(3))]
  transforms += [((0, 1, 2), d) for d in ((-1., 1., 1.), (-1., -1., -1.),
                                          (2., -.5, 4.))]
  perm, factors = ch.pick(transforms, 'transform')
  perm, factors = list(perm), np.array(factors)
  m = np.zeros((3, 3))
  m[range(3), perm] = factors
  g = lambda x: f(jnp.asarray(m) @ x)
  inv = np.linalg.inv(m)
  x0 = inv @ y0
  l, h = swap_ends(inv @ lo, inv @ hi)
  b = jax_bound.taylor_bounds(g, degree, prop)(
      jnp.asarray(x0), (jnp.asarray(l), jnp.asarray(h)))
  ch.count(1)
  key = f'vector:{name}:{degree}:{prop}'
  coeffs = [ends(c) for c in b.coefficients]
  ch.check(len(coeffs) == len(base), f'terms:{key}',
           lambda: f'{len(coeffs)} {len(base)}')
  for k, ((cl, c_h), (bl, bh)) in enumerate(zip(coeffs, base)):
    wl, wh = swap_ends(permuted(bl, perm, factors, k),
                       permuted(bh, perm, factors, k))
    tol = 1e-9 * (1 + np.abs(wl) + np.abs(wh))
    ch.check(wl.shape == np.shape(cl) and bool(np.all(
        (np.abs(cl - wl) <= tol) & (np.abs(c_h - wh) <= tol))),
             f'{key}:{k}', lambda: f'{name}, degree {degree}, '
             f'propagate={prop}, y0={y0}, region [{lo}, {hi}], y = {m} x: '
             f'coefficient {k} is [{cl}, {c_h}], should be [{wl}, {wh}]')
  ch.outcome((key, [np.asarray(e).tobytes() for c in coeffs for e in c]))


def elements(ch):
  """Reordering the elements of the argument of an elementwise program."""
  import itertools
  progs = [('exp', 'u'), ('sigmoid', ('square', 'u')), ('mul', 'u', ('log', 'u')),
           ('softplus', ('neg', 'u')), ('div', ('exp', 'u'), ('2u+1', 'u')),
           ('swish', 'u'), ('cbrt', 'u'), ('pow1.5', 'u'), ('abs', 'u')]
  prog = ch.pick(progs)
  ch.shard()
  degree = ch.pick([d for d in range(4) if d <= P.top_degree(prog)])
  prop = ch.flag()
  perm = list(ch.pick(list(itertools.permutations(range(4)))))
  S, C = np.array([1., -.5, .25, 2.]), np.array([2., 1.5, 3., .5])
  if prog[0] in ('swish', 'softplus', 'abs', 'cbrt'):
    C = np.array([2., -1.5, -.125, -1.])
  region = (.5, -.25 if prog[0] != 'abs' else .25, 1.25)
  base = P.coefficients(ch, prog, S, C, degree, prop, region)
  other = P.compute(prog, S[perm], C[perm], degree, prop, *region)
  shaped = P.compute(prog, S.reshape(2, 2), C.reshape(2, 2), degree, prop,
                     *region)
  ch.count(2)
  key = f'elements:{prog}:{degree}:{prop}'
  for k, c in enumerate(base):
    for what, got, want in (
        ('reordered', other.coefficients[k],
         lambda e: np.broadcast_to(e, (4,))[perm]),
        ('reshaped', shaped.coefficients[k],
         lambda e: np.broadcast_to(e, (4,)).reshape(2, 2))):
      for e, g in zip(ends(c), ends(got)):
        w = want(e)
        ch.check(bool(np.all(np.isclose(np.broadcast_to(g, w.shape), w, 1e-12,
                                        1e-12, equal_nan=True))),
                 f'{key}:{k}', lambda: f'{prog} degree {degree} '
                 f'propagate={prop}, elements {what} {perm}: coefficient {k} '
                 f'is {g}, should be {w}')
  ch.outcome((key, [np.asarray(c).tobytes() for c in base]))


# --- symmetries of the built-in functions ------------------------------------


def enclosure_of(name, exponent, x0, region, degree, np_like):
  if name == 'pow':
    return pe.pow_enclosure(exponent, x0, region, degree, np_like)
  return getattr(pe, f'{name}_enclosure')(x0, region, degree, np_like)


def identities(ch):
  """f(s*u) == c*f(u) + a + b*u, for the built-in functions."""
  # (function, exponent, s, c, a, b, degrees, needs positive u)
  cases = []
  for p in (2, 3, 4, 5, -1, -2, -3):
    sign = (-1.)**p
    cases.append(('pow', p, -1., sign, 0., 0., 5, False))
    for s in (2., .25, 2.**12, 2.**-12):
      cases.append(('pow', p, s, s**p, 0., 0., 5, False))
  for p in (.5, 1.5, -.5, 2.5):
    for s in (4., 2.**-4, 2.**12, 2.**-12):
      cases.append(('pow', p, s, s**p, 0., 0., 5, True))
  for s in (-1., 8., -2.**-12, 2.**12):
    cases.append(('abs', None, s, abs(s), 0., 0., 2, False))
    cases.append(('cbrt', None, s, np.cbrt(s), 0., 0., 5, False))
  for s in (2., 2.**-12, 2.**12):
    cases.append(('log', None, s, 1., np.log(s), 0., 5, True))
  cases += [('sigmoid', None, -1., -1., 1., 0., 4, False),
            ('softplus', None, -1., 1., 0., -1., 5, False),
            ('swish', None, -1., 1., 0., -1., 4, False)]
  case = ch.pick(cases)
  name, exponent, s, c, a, b, top, positive = case
  ch.shard()
  degree = ch.choose(top)
  backend = ch.pick(['np', 'jnp'] if degree < 3 else ['np'])
  np_like = np if backend == 'np' else jnp
  grid = np.array([-6., -2.5, -1., -.5, -.125, 0., .125, .5, 1., 3., 7.])
  if positive:
    grid = grid[grid > 0]
  L, X, H = (t.ravel() for t in np.meshgrid(grid, grid, grid, indexing='ij'))
  keep = (L <= X) & (X <= H)
  # The functions need not be differentiable at 0.
  if name in ('abs', 'cbrt') or (exponent is not None and exponent < 0):
    keep &= X != 0
  # The guard of taylor_remainder_ratio (see C08) must not be active.
  for gap in (X - L, H - X):
    keep &= (gap == 0) | ((np.abs(s) * gap)**degree > 2e-12)
  L, X, H = L[keep], X[keep], H[keep]
  if not X.size:
    return
  l, h = (s * L, s * H) if s > 0 else (s * H, s * L)
  with np.errstate(all='ignore'):
    base = enclosure_of(name, exponent, np_like.asarray(X),
                        (np_like.asarray(L), np_like.asarray(H)), degree,
                        np_like)
    moved = enclosure_of(name, exponent, np_like.asarray(s * X),
                         (np_like.asarray(l), np_like.asarray(h)), degree,
                         np_like)
  ch.count(2)
  key = f'identity:{name}:{exponent}:{s}:{degree}:{backend}'
  ch.check(len(base) == len(moved) == degree + 1, f'terms:{key}',
           lambda: f'{len(base)} {len(moved)}')
  for k, (u, v) in enumerate(zip(base, moved)):
    with np.errstate(all='ignore'):
      # What coefficient k of the other side of the identity is: f(s*u) in
      # powers of z = u - x0 has coefficients moved[k] * s**k.
      ul, uh = (np.broadcast_to(np.asarray(e, float), X.shape)
                for e in ends(u))
      shift = (a + b * X if k == 0 else b if k == 1 else 0.)
      # With an interval coefficient of degree 0, b*u varies over the region.
      if k == 0 and isinstance(u, tuple) and b:
        return
      wl, wh = (c * ul + shift, c * uh + shift)[::1 if c > 0 else -1]
      vl, vh = (np.broadcast_to(np.asarray(e, float), X.shape) * s**k
                for e in ends(v))
      if s**k < 0:
        vl, vh = vh, vl
      # Roundoff of the values that remainders are differences of.
      gap = np.minimum(np.where(X > L, X - L, np.inf),
                       np.where(H > X, H - X, np.inf))
      scale = np.abs(wl) + np.abs(wh) + np.abs(shift)
      noise = 0.
      if k == degree and k > 0:
        size = np.abs(np.asarray(base[0], float)) * abs(c) + np.abs(
            a + b * X) + sum(
                np.abs(np.asarray(base[j], float)) * abs(c) * gap**j
                for j in range(1, k))
        noise = np.where(np.isfinite(gap), size / gap**k, 0.) * 1e-13
      tol = 1e-10 * scale + noise + 1e-14 * abs(c)
      ok = ((vl == wl) | (np.abs(vl - wl) <= tol)) & (
          (vh == wh) | (np.abs(vh - wh) <= tol))
      nan_v, nan_w = np.isnan(vl) | np.isnan(vh), np.isnan(wl) | np.isnan(wh)
      ok = np.where(nan_v | nan_w, nan_v == nan_w, ok)
    ch.count(evaluations=X.size)
    i = first_bad(ok)
    if i is not None:
      ch.fail(f'{key}:{k}', f'{name} {exponent or ""} of {s}*u, degree '
              f'{degree}, {backend}, u0={X[i]} in [{L[i]}, {H[i]}]: '
              f'coefficient {k} is [{vl[i]}, {vh[i]}], should be '
              f'[{wl[i]}, {wh[i]}]')
  ch.outcome((key, [np.asarray(e).tobytes() for c_ in moved for e in ends(c_)]))


SPACES = {'unary': unary, 'pairs': pairs, 'binary': binary, 'nested': nested,
          'vectors': vectors, 'elements': elements,
          'identities': identities}
