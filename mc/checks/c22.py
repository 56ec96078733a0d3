"""C22: bounds tighten, and converge, as the trust region shrinks."""

from mc import core

if core.WORKER:
  import numpy as np
  import jax
  import jax.numpy as jnp
  from autobound.jax import jax_bound
  from mc.lib import *  # pylint: disable=wildcard-import
from mc import encl
from mc import programs as P

BOUNDS = {
    'quick': 'scalar programs on 44 lanes: all 29 unary operations, 406 '
             'of their compositions, 14 x 14 arguments of +, -, *, / and 341 nested '
             'programs; trust regions around 3 reference points, shrunk on '
             'either side by 1, 1/2, 1/8 and 0 (all 24 steps of that lattice '
             'for unary programs, a chain of 4 for the others), and by 1/32 '
             'and 1/128 for convergence; degree 0..4, both modes; 20 array '
             'programs with 4 x 4 (scalar) or 8 chains of (vector) regions',
    'thorough': 'as quick with the whole lattice, and all degrees, for all '
                'programs',
}
ASSUMPTIONS = [
    'lanes where an end of an intermediate trust region is very close to the '
    'reference point are left out (see C08)',
    'convergence is required where the program is smooth at the reference '
    'point, and only from scale 1/32 to 1/128: the width of the last '
    'coefficient must at least halve',
    'tolerance 1e-9 of the coefficients (float64), 5e-3 (float32)',
]


def tasks(tier):
  ts = []
  for name, n in (('unary', 12), ('pairs', 32), ('binary', 12), ('nested', 8),
                  ('arrays', 12)):
    ts += core.shards(name, n, tier=tier)
  ts += core.shards('unary', 4, mode='x32', tier=tier)
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  core.simple_run_task(SPACES, task, stats)


def deep():
  return TIER == 'thorough'


SHRINK = (1., .5, .125, 0.)
CENTERS = ((.5, -.5, 1.5), (-1., -2., -.75), (.5, .5, 1.5))


def shrunk(region, s, t):
  x0, lo, hi = region
  return x0, x0 + s * (lo - x0), x0 + t * (hi - x0)


def usable_lanes(ch, prog, S, C, degree, prop, region):
  """Lanes where rounding does not dominate the remainder (see C08)."""
  key = ('usable', prog, degree, prop, region)
  if key not in ch.cache:
    oracle = P.Oracle(prog, *region, S, C)
    bounds_of = lambda a: P.coefficients(ch, a, S, C, degree, False, region)
    ok = oracle.regular(degree, bounds_of, 1e-8)
    near = nearest(ch, prog, oracle, S, C, degree, prop, region)
    ok = ok & (near > 1e-8)
    # f must be defined at the ends of the region (and so at most points).
    for x in region:
      ok = ok & oracle.defined[oracle.xs.index(x)]
    scale = np.max(oracle.scales, 0)
    scale = np.where(np.isfinite(scale), scale, 0)
    with np.errstate(over='ignore'):
      noise = (1e-14 if is_x64() else 5e-6) * 64 * (1 + scale) / near
    ch.cache[key] = ok, noise if degree else 0 * noise
  return ch.cache[key]


def nearest(ch, prog, oracle, S, C, degree, prop, region):
  """Least (|end - center| / slope)**degree by which a remainder is divided.

  The noise this causes in a remainder's coefficient is then multiplied by the
  degree-th power of the slope of the argument.
  """
  least = np.full(oracle.S.shape, np.inf)
  if degree == 0:
    return least
  distances = [abs(t - region[0])**degree for t in region[1:]]
  least = np.minimum(least, min([d for d in distances if d] or [np.inf]))
  tr = (np.float64(region[1] - region[0]), np.float64(region[2] - region[0]))
  u0 = oracle.S.astype(LD) * LD(oracle.x0) + oracle.C.astype(LD)
  for op, _, arg in P.nodes(prog):
    if (op != 'div' and P.polynomial_degree((op, 'u')) is not None
        or isinstance(arg, float) or arg == 'u'):
      continue
    coeffs = [ends(c) for c in P.coefficients(ch, arg, S, C, degree, False,
                                              region)]
    ranges = [encl.range_of(coeffs, tr, 0)] if len(coeffs) > 1 else []
    v = P.value(arg, u0)
    if prop:
      # The region is somewhere between the exact range and those above.
      values = np.array([np.broadcast_to(P.value(arg, u), S.shape)
                         for u in oracle.u])
      with np.errstate(invalid='ignore'):
        ranges.append((values.min(0), values.max(0)))
    for l, h in ranges:
      with np.errstate(invalid='ignore', divide='ignore'):
        slope = np.maximum(1, (h - l) / (tr[1] - tr[0]) if tr[1] > tr[0] else 1)
        for d in ((v - l) / slope, (h - v) / slope):
          least = np.fmin(least, np.where(np.isfinite(d), np.abs(d)**degree,
                                          np.inf))
  return least


def lanes(c, S):
  return tuple(np.broadcast_to(e, S.shape) for e in ends(c))


def inside(ch, prog, degree, prop, outer, inner, S, C):
  """Every coefficient for `inner` lies in the one for `outer`."""
  a = P.coefficients(ch, prog, S, C, degree, prop, outer)
  b = P.coefficients(ch, prog, S, C, degree, prop, inner)
  name = f'{prog}:{degree}:{prop}'
  where = f'x0={outer[0]}, regions {list(outer[1:])} and {list(inner[1:])}'
  ok1, noise1 = usable_lanes(ch, prog, S, C, degree, prop, outer)
  ok2, noise2 = usable_lanes(ch, prog, S, C, degree, prop, inner)
  usable = ok1 & ok2
  rtol = 1e-9 if is_x64() else 5e-3
  ch.check(len(a) == len(b), f'terms:{name}',
           lambda: f'{prog}, degree {degree}, {where}: {len(a)} and {len(b)} '
           'coefficients')
  with np.errstate(invalid='ignore', over='ignore'):
    for k, (ca, cb) in enumerate(zip(a, b)):
      (al, ah), (bl, bh) = lanes(ca, S), lanes(cb, S)
      if k < degree:
        # The Taylor coefficients do not depend on the region at all (in
        # float arithmetic, either).
        ok = ((al == bl) | np.isnan(al) | np.isnan(bl)) & (
            (ah == bh) | np.isnan(ah) | np.isnan(bh))
        tol = 0.
        tol = rtol * (1 + np.abs(al) + np.abs(ah))
        ok |= (np.abs(al - bl) <= tol) & (np.abs(ah - bh) <= tol)
      else:
        tol = rtol * (1 + np.abs(al) + np.abs(ah))
        # a relative error of the value, divided by the power of the distance
        tol = tol + np.maximum(noise1, noise2)
        tol = np.where(np.isfinite(tol), tol, np.inf)
        ok = ((al <= bl) | (al <= bl + tol)) & ((bh <= ah) | (bh <= ah + tol))
        ok |= np.isnan(al) | np.isnan(ah)
      ok |= ~usable | ((al == -np.inf) & (ah == np.inf))
      ch.count(evaluations=int(usable.sum()))
      i = first_bad(ok)
      if i is not None:
        ch.fail(f'inside:{name}:{k}',
                f'{prog} at u = {S[i]}*x + {C[i]}, degree {degree}, '
                f'propagate={prop}, {where}: coefficient {k} is '
                f'[{al[i]}, {ah[i]}] and [{bl[i]}, {bh[i]}]')
  ch.outcome((name, outer, inner, [np.asarray(c).tobytes() for c in b]))


def smooth_lanes(prog, x0, S, C, margin):
  """Lanes where every operation is smooth within a distance of x0."""
  u0 = S.astype(LD) * LD(x0) + C.astype(LD)
  one = S.astype(LD)
  ok = np.ones(S.shape, bool)
  with np.errstate(all='ignore'):
    for op, domain, arg in P.nodes(prog):
      v, d = P.jet(arg, [u0, one])
      v, d = (np.broadcast_to(t, S.shape) for t in (v, d))
      if domain != 'all':
        ok &= (v if domain == 'positive' else np.abs(v)) > 4 * margin * np.abs(d)
        ok &= (v if domain == 'positive' else np.abs(v)) > 1e-6
      # The argument hardly varies at this scale.
      ok &= np.isfinite(v) & np.isfinite(d) & (
          margin * np.abs(d) < .25)
    j = P.jet(prog, [u0, one])
    ok &= np.isfinite(np.broadcast_to(j[0], S.shape))
    ok &= np.abs(np.broadcast_to(j[0], S.shape)) < 1e8
  return ok


def converges(ch, prog, degree, prop, region, S, C):
  """The last coefficient narrows at least as fast as half the scale."""
  x0 = region[0]
  ts = (1 / 32, 1 / 128)
  widths, tols = [], []
  size = max(abs(e - x0) for e in region[1:])
  smallest = min(abs(e - x0) for e in region[1:] if e != x0)
  for t in ts:
    c = P.coefficients(ch, prog, S, C, degree, prop, shrunk(region, t, t))
    if len(c) <= degree:
      return
    l, h = lanes(c[-1], S)
    widths.append(h - l)
    oracle = P.Oracle(prog, *shrunk(region, t, t), S, C)
    s = np.max(oracle.scales, 0)
    with np.errstate(all='ignore'):
      noise = (1e-14 if is_x64() else 5e-6) * 64 * np.where(
          np.isfinite(s), s, 0) / (t * smallest)**degree
      # Noise in the range of an argument is amplified likewise.
      rel = (1e-12 if is_x64() else 1e-3) / (t * smallest)**max(degree, 1)
      tols.append(noise + (np.abs(l) + np.abs(h)) * rel + 1e-12)
  usable = smooth_lanes(prog, x0, S, C, ts[0] * size)
  for t in ts:
    r = shrunk(region, t, t)
    near = nearest(ch, prog, P.Oracle(prog, *r, S, C), S, C, degree, prop, r)
    usable &= near > 1e-8
  with np.errstate(invalid='ignore'):
    ok = (widths[1] <= widths[0] / 2 + tols[1]) | ~usable
    ok |= ~np.isfinite(tols[1])
  ch.count(evaluations=int(usable.sum()))
  i = first_bad(ok)
  if i is not None:
    ch.fail(f'converges:{prog}:{degree}:{prop}',
            f'{prog} at u = {S[i]}*x + {C[i]}, degree {degree}, '
            f'propagate={prop}, x0={x0}: coefficient {degree} has width '
            f'{widths[0][i]} and {widths[1][i]} for regions '
            f'{[shrunk(region, t, t)[1:] for t in ts]}')


def lattice_steps():
  n = len(SHRINK)
  for i in range(n):
    for j in range(n):
      if i + 1 < n:
        yield (SHRINK[i], SHRINK[j]), (SHRINK[i + 1], SHRINK[j])
      if j + 1 < n:
        yield (SHRINK[i], SHRINK[j]), (SHRINK[i], SHRINK[j + 1])


CHAINS = [((1., 1.), (.5, 1.), (.5, .125), (.125, .125), (0., .125)),
          ((1., 1.), (1., .125), (.5, .125), (.125, .125), (.125, 0.)),
          ((1., 1.), (.5, .5), (.125, .125), (0., 0.)),
          ((1., 1.), (1., 0.), (.125, 0.), (0., 0.))]


def run_all(ch, prog, regions, degrees, lattice, modes=(False, True)):
  ch.shard()
  region = ch.pick(regions)
  degree = ch.pick([d for d in degrees if d <= P.top_degree(prog)])
  prop = ch.pick(modes)
  if not is_x64() and degree > 1:
    return
  S, C = P.lane_constants(region[0])
  if lattice:
    steps = sorted(set(lattice_steps()))
  else:
    chain = CHAINS[P.hash_of(prog) % 4]
    steps = list(zip(chain, chain[1:]))
  for s, t in steps:
    outer, inner = shrunk(region, *s), shrunk(region, *t)
    if outer != inner:
      inside(ch, prog, degree, prop, outer, inner, S, C)
  if is_x64() or degree == 0:
    converges(ch, prog, degree, prop, region, S, C)


def unary(ch):
  run_all(ch, (ch.pick(list(P.UNARY)), 'u'), CENTERS, range(5), True)


def pairs(ch):
  f = ch.pick(list(P.UNARY) if deep() else list(P.TRIPLE_OPS))
  g = ch.pick(list(P.UNARY))
  k = P.hash_of(f, g)
  run_all(ch, (f, (g, 'u')), CENTERS if deep() else [CENTERS[k % 3]],
          range(5) if deep() else [(0, 2), (1,), (2,), (3,)][k % 4], deep(),
          (False, True) if deep() else (k % 8 < 4,))


def binary(ch):
  op = ch.pick(P.BINARY)
  a, b = ch.pick(P.PAIR_ARGS), ch.pick(P.PAIR_ARGS)
  if isinstance(a, float) and isinstance(b, float):
    return
  k = P.hash_of(op, a, b)
  run_all(ch, (op, a, b), CENTERS if deep() else [CENTERS[k % 3]],
          range(5) if deep() else [(0, 2), (1,), (3,), (2,)][k % 4], deep(),
          (False, True) if deep() else (k % 2 == 0,))


def nested(ch):
  prog = P.choose_nested(ch)
  k = P.hash_of(prog)
  if not deep() and k % 3:
    ch.shard()
    return
  run_all(ch, prog, [CENTERS[k % 3 if deep() else k // 3 % 3]], range(4) if deep() else [k % 4], deep(),
          (False, True) if deep() else (k % 2 < 1,))


# --- array programs ----------------------------------------------------------


def arrays(ch):
  from mc.checks import c16
  vector, scalar = c16.array_programs()
  progs = [(n, f, 1) for n, f in vector.items()] + [
      (n, f, 0) for n, f in scalar.items()]
  name, f, nd = ch.pick(progs, 'program')
  ch.shard()
  degree = ch.choose(4)
  prop = ch.flag()
  if nd:
    x0, lo, hi = ch.pick([
        ([.25, -.5, 1.], [-.25, -1., .5], [1., 0., 1.75]),
        ([-1., 2., .5], [-2., 2., .25], [-.5, 2., .5])], 'region')
    t1, t2 = np.array([1., 1., .5]), np.array([.5, 0., .5])
    orders = [[((1.,) * 3, (1.,) * 3), (t1, (1.,) * 3), (t1, t2),
               (np.minimum(t1, t2), t2), (np.minimum(t1, t2), t2 * .25),
               ((0.,) * 3, t2 * .25)]]
    chain = orders[0]
  else:
    x0, lo, hi = ch.pick([(.5, -.25, 1.25), (.5, .5, 1.5), (-1., -1.5, -1.)])
    chain = [(1., 1.), (1., .5), (.5, .5), (.125, .5), (.125, 0.), (0., 0.)]
  x0, lo, hi = (np.array(t) for t in (x0, lo, hi))
  previous = None
  for s, t in chain:
    l, h = x0 + np.array(s) * (lo - x0), x0 + np.array(t) * (hi - x0)
    b = jax_bound.taylor_bounds(f, degree, prop)(
        jnp.asarray(x0), (jnp.asarray(l), jnp.asarray(h)))
    ch.count(1)
    c = [tuple(np.asarray(e) for e in ends(t)) for t in b.coefficients]
    key = f'{name}:{nd}:{degree}:{prop}'
    if previous is not None:
      ch.check(len(c) == len(previous[0]), f'terms:{key}',
               lambda: f'{len(previous[0])} {len(c)}')
      for k, ((al, ah), (bl, bh)) in enumerate(zip(previous[0], c)):
        ch.check(al.shape == bl.shape, f'shape:{key}:{k}',
                 lambda: f'{al.shape} {bl.shape}')
        tol = 1e-9 * (1 + np.abs(al) + np.abs(ah))
        ok = (al <= bl + tol) & (bh <= ah + tol)
        if k < degree:
          ok = (np.abs(al - bl) <= tol) & (np.abs(ah - bh) <= tol)
        ch.check(bool(np.all(ok)), f'inside:{key}:{k}',
                 lambda: f'{name} degree {degree} propagate={prop} x0={x0}: '
                 f'coefficient {k} is [{al}, {ah}] for the region '
                 f'{previous[1]} and [{bl}, {bh}] for {[l, h]}')
    previous = c, [l, h]
    ch.outcome((key, str([l, h]), [e.tobytes() for p in c for e in p]))
  # The last region is the point itself, or one side of it.
  if not nd:
    for k, (bl, bh) in enumerate(previous[0]):
      ch.check(bool(np.all(bh - bl <= 1e-9 * (1 + np.abs(bl)))),
               f'point:{key}:{k}', lambda: f'{name} degree {degree} '
               f'propagate={prop} x0={x0}: coefficient {k} is [{bl}, {bh}] '
               'for a region of a single point')


SPACES = {'unary': unary, 'pairs': pairs, 'binary': binary, 'nested': nested,
          'arrays': arrays}
