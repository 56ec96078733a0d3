"""C16: propagating trust regions only tightens; degree 0 is the range."""

from mc import core

if core.WORKER:
  import numpy as np
  import jax
  import jax.numpy as jnp
  from autobound.jax import jax_bound
  from mc.lib import *  # pylint: disable=wildcard-import
from mc import programs as P

BOUNDS = {
    'quick': 'all 29 unary operations and their 841 compositions, binary '
             'programs over 14 sub-programs, 1024 nested binary programs, 20 '
             'array programs of vector and scalar inputs; 44 lanes; degree '
             '0..4; both modes compared coefficient by coefficient and at 12 '
             'points of the region; degree 0 of 29 + 841 + 512 chains '
             'compared with the exact range',
    'thorough': 'as quick with all degrees and regions, and more chains',
}
ASSUMPTIONS = [
    'lanes where an end of an intermediate trust region is very close to the '
    'reference point are left out (see C08)',
    'tolerance 1e-9 of the largest term (float64), 5e-3 (float32)',
]


def tasks(tier):
  ts = []
  for name, n in (('unary', 6), ('pairs', 32), ('binary', 16), ('nested', 8),
                  ('chains', 16), ('arrays', 12)):
    ts += core.shards(name, n, tier=tier)
  ts += core.shards('unary', 4, mode='x32', tier=tier)
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  core.simple_run_task(SPACES, task, stats)


def deep():
  return TIER == 'thorough'


def examine(ch, prog, degree, region):
  x0, lo, hi = region
  S, C = P.lane_constants(x0)
  name = f'{prog}:{degree}'
  plain = P.coefficients(ch, prog, S, C, degree, False, region)
  tight = P.coefficients(ch, prog, S, C, degree, True, region)
  oracle = P.Oracle(prog, x0, lo, hi, S, C)
  bounds_of = lambda a: P.coefficients(ch, a, S, C, degree, False, region)
  usable = oracle.regular(degree, bounds_of, 1e-8)
  # trust regions computed by propagation
  bounds_of = lambda a: P.coefficients(ch, a, S, C, 0, False, region)
  usable = usable & regular_ranges(prog, oracle, bounds_of, degree)
  # f must have the derivatives used at the reference point
  usable = usable & np.isfinite(
      np.max([np.broadcast_to(np.abs(j), S.shape)
              for j in oracle.jets(degree)], 0))
  rtol = 1e-9 if is_x64() else 5e-3
  ch.check(len(tight) <= degree + 1, f'degree:{name}',
           lambda: f'{len(tight)} coefficients')
  def broadcast(c):
    return tuple(np.broadcast_to(e, S.shape) for e in ends(c))
  for k in range(max(len(plain), len(tight))):
    if k >= len(plain) or k >= len(tight):
      # The other one has no such coefficient: it is zero.
      l, h = broadcast((tight if k < len(tight) else plain)[k])
      l2, h2 = np.zeros_like(l), np.zeros_like(l)
      tl, th, pl, ph = ((l, h, l2, h2) if k < len(tight) else (l2, h2, l, h))
    else:
      tl, th = broadcast(tight[k])
      pl, ph = broadcast(plain[k])
    with np.errstate(invalid='ignore', over='ignore'):
      tol = rtol * (1e3 * (1 + np.abs(pl) + np.abs(ph)) if k else
                    1 + np.abs(tl) + np.abs(th))
      scale = np.max([s for s in oracle.scales], 0)
      tol = tol + np.where(np.isfinite(scale), scale, 0) * 1e-2 * rtol
      tol = np.where(np.isfinite(tol), tol, np.inf)
      ok = (pl - tol <= tl) & (th <= ph + tol)
      ok |= np.isnan(pl) | np.isnan(ph) | (pl <= tl) & (th <= ph)
      # Infinite coefficients give nan where they meet a zero.
      ok |= ((np.isnan(tl) | np.isnan(th))
             & (np.isinf(pl) | np.isinf(ph)))
      if degree == 0:
        same = (tl == pl) & (th == ph)
        ok &= same | np.isnan(pl) | np.isnan(ph)
    ok |= ~usable
    ch.count(evaluations=int(usable.sum()))
    i = first_bad(ok)
    if i is not None:
      ch.fail(f'wider:{name}:{k}', f'{prog} at u = {S[i]}*x + {C[i]}, '
              f'x0={x0}, region [{lo}, {hi}], degree {degree}: coefficient '
              f'{k} is [{tl[i]}, {th[i]}] with propagation, [{pl[i]}, '
              f'{ph[i]}] without')
  # Both contain f (pointwise; f's domain as in C01).
  for x, f, scale, defined in zip(oracle.xs, oracle.values, oracle.scales,
                                  oracle.defined):
    z = LD(x) - LD(x0)
    rl, rh = (np.broadcast_to(e, S.shape)
              for e in eval_enclosure(tight, z, 0))
    with np.errstate(invalid='ignore', over='ignore'):
      tol = rtol * (magnitude(tight, z, 0) + np.abs(f) + scale) + (
          1e-300 if is_x64() else 1e-30)
      nan = np.isnan(rl) | np.isnan(rh)
      ok = (rl <= f + tol) & (f <= rh + tol) | nan | ~defined | ~usable
    ch.count(evaluations=int((defined & usable).sum()))
    i = first_bad(ok)
    if i is not None:
      ch.fail(f'contains:{name}', f'{prog} at u = {S[i]}*x + {C[i]}, x0={x0}, '
              f'region [{lo}, {hi}], degree {degree}, propagating: f({x}) = '
              f'{f[i]} not in [{rl[i]}, {rh[i]}]')
  ch.outcome((name, region, [np.asarray(c).tobytes() for c in tight]))


def regular_ranges(prog, oracle, bounds_of, degree):
  """As Oracle.regular, for the trust regions that propagation computes."""
  ok = np.ones(oracle.S.shape, bool)
  if degree == 0:
    return ok
  u0 = oracle.S.astype(LD) * LD(oracle.x0) + oracle.C.astype(LD)
  for op, _, arg in P.nodes(prog):
    if op in ('square', 'cube', 'pow4', 'pow1', 'pow0', 'pow2.', '2u+1',
              '1-u', 'u/4', 'u-3', 'neg') or isinstance(arg, float):
      continue
    l, h = ends(bounds_of(arg)[0])
    v = P.value(arg, u0)
    for d in (v - l, h - v):
      with np.errstate(invalid='ignore'):
        ok &= ~((np.abs(d) > 1e-14 * (1 + np.abs(v)))
                & (np.abs(d)**degree < 1e-8))
        # tiny spurious differences are amplified by the division
        if degree > 1:
          ok &= (d == 0) | (np.abs(d)**degree > 1e-8) | ~np.isfinite(d)
  return ok


def run_all(ch, prog, regions, degrees):
  ch.shard()
  region = ch.pick(regions)
  degree = ch.pick([d for d in degrees if d <= P.top_degree(prog)])
  if not is_x64() and degree > 2:
    return
  examine(ch, prog, degree, region)


def unary(ch):
  run_all(ch, (ch.pick(list(P.UNARY)), 'u'), P.REGIONS, range(6))


def pairs(ch):
  f, g = ch.pick(list(P.UNARY)), ch.pick(list(P.UNARY))
  k = P.hash_of(f, g)
  run_all(ch, (f, (g, 'u')), P.REGIONS if deep() else [P.REGIONS[k % 3]],
          range(6) if deep() else [(0, 2), (1, 3), (0, 4), (1, 2)][k % 4])


def binary(ch):
  op = ch.pick(P.BINARY)
  a, b = ch.pick(P.PAIR_ARGS), ch.pick(P.PAIR_ARGS)
  if isinstance(a, float) and isinstance(b, float):
    return
  k = P.hash_of(op, a, b)
  run_all(ch, (op, a, b), P.REGIONS[:3] if deep() else [P.REGIONS[k % 3]],
          range(6) if deep() else [(0, 2), (1, 3), (2, 4)][k % 3])


def nested(ch):
  prog = P.choose_nested(ch)
  k = P.hash_of(prog)
  run_all(ch, prog, [P.REGIONS[k % 3]], range(5) if deep() else [k % 4])


# --- degree 0 is the exact range of a chain ---------------------------------

MONOTONE = {'neg': -1, 'exp': 1, 'log': 1, 'sqrt': 1, 'cbrt': 1, 'rsqrt': -1,
            'sigmoid': 1, 'logistic': 1, 'softplus': 1, 'cube': 1, 'pow1': 1,
            'pow.5': 1, 'pow1.5': 1, 'pow-.5': -1, '2u+1': 1, '1-u': -1,
            'u/4': 1, 'u-3': 1}
# minimum at the given argument, monotone on both sides
VALLEY = {'abs': 0., 'square': 0., 'pow4': 0., 'pow2.': 0.}


def exact_range(op, l, h):
  with np.errstate(all='ignore'):
    f = P.UNARY[op][0]
    a, b = f(l), f(h)
    if op in MONOTONE:
      return (a, b) if MONOTONE[op] > 0 else (b, a)
    lo, hi = np.minimum(a, b), np.maximum(a, b)
    if op in VALLEY:
      return np.where((l <= 0) & (h >= 0), 0, lo), hi
    if op == 'swish':
      m = LD('-1.27846454276107379510935873902298')
      v = LD('-0.27846454276107379510935873902298')
      return np.where((l <= m) & (h >= m), v, lo), hi
    if op in ('reciprocal', 'pow-2', 'pow-3', '2/u'):
      bad = (l <= 0) & (h >= 0)
      return np.where(bad, np.nan, lo), np.where(bad, np.nan, hi)
    if op == 'pow0':
      return np.ones_like(l), np.ones_like(h)
  raise ValueError(op)


def chains(ch):
  """Chains of one-argument operations: each occurs once, so it is exact."""
  n = 1 + ch.choose(3)
  ops = [list(P.UNARY), list(P.UNARY),
         P.TRIPLE_OPS if deep() else P.TRIPLE_OPS[:9]][n - 1]
  names = [ch.pick(ops) for _ in range(n)]
  prog = 'u'
  for o in names:
    prog = (o, prog)
  ch.shard()
  k = P.hash_of(*names)
  for region in P.REGIONS[:3] if n == 1 or deep() else [P.REGIONS[k % 3]]:
    x0, lo, hi = region
    S, C = P.lane_constants(x0)
    u = [S.astype(LD) * LD(x) + C.astype(LD) for x in (lo, hi)]
    l, h = np.minimum(*u), np.maximum(*u)
    ok = np.ones(S.shape, bool)
    p = 'u'
    for o in names:
      domain = P.UNARY[o][2]
      if domain == 'positive':
        ok &= l > 1e-3
      if domain == 'nonzero' and o != 'cbrt':
        ok &= (l > 1e-3) | (h < -1e-3)
      if o in ('square', 'cube', 'pow4', 'pow2.', 'cbrt'):
        # Powers of arrays of intervals (and cbrt) need not be tight.
        ok &= (l > 1e-3) | (h < -1e-3)
      if o == 'exp':
        ok &= h < 300
      l, h = exact_range(o, l, h)
      with np.errstate(invalid='ignore'):
        ok &= (np.abs(l) < 1e12) & (np.abs(h) < 1e12)
      p = (o, p)
    us = [np.minimum(*u), np.maximum(*u)]
    scale = np.maximum(*(P.scale(prog, x)[1] for x in us))
    for prop in (False, True):
      c = P.coefficients(ch, prog, S, C, 0, prop, region)
      ch.check(len(c) == 1, f'terms:{prog}', lambda: f'{len(c)} coefficients')
      a, b = (np.broadcast_to(e, S.shape) for e in ends(c[0]))
      with np.errstate(all='ignore'):
        tol = 1e-9 * (np.abs(l) + np.abs(h) + np.abs(scale)) + 1e-300
        good = (np.abs(a - l) <= tol) & (np.abs(b - h) <= tol) | ~ok | np.isinf(tol)
      ch.count(evaluations=int(ok.sum()))
      i = first_bad(good)
      if i is not None:
        ch.fail(f'range:{prog}', f'{prog} at u = {S[i]}*x + {C[i]}, region '
                f'[{lo}, {hi}]: degree 0 gives [{a[i]}, {b[i]}], the range is '
                f'[{l[i]}, {h[i]}] (propagate={prop})')
      ch.outcome((prog, region, a.tobytes(), b.tobytes()))


# --- array programs ---------------------------------------------------------


def array_programs():
  w = np.array([[.5, -1., 2.], [1.5, .25, -.75]])
  v = np.array([1., -2., .5])
  nn = jax.nn
  vector = {
      'dot': lambda x: jnp.dot(v, jnp.exp(x)),
      'sigmoid(Wx)': lambda x: nn.sigmoid(w @ x),
      'softplus(Wx) sum': lambda x: jnp.sum(nn.softplus(w @ x)),
      'W exp(x) + b': lambda x: w @ jnp.exp(x) + w[:, 0],
      'sum x*x': lambda x: jnp.sum(x * x),
      'x/(1+exp)': lambda x: x / (1 + jnp.exp(x)),
      'reshape': lambda x: jnp.reshape(nn.sigmoid(x), (3, 1)) * w[0],
      'outer': lambda x: jnp.outer(x, nn.softplus(x)),
      'two layers': lambda x: nn.swish(w.T @ nn.sigmoid(w @ x)),
      'const': lambda x: x + nn.softplus(jnp.asarray(v)),
      'log sum': lambda x: jnp.log(jnp.sum(jnp.exp(x))),
      'square(sum)': lambda x: jnp.sum(x)**2 - jnp.sum(x**2),
      'concat-free mean': lambda x: jnp.mean(jnp.exp(-x) * v),
  }
  scalar = {
      'vec*x': lambda x: nn.sigmoid(v * x),
      'mat*x': lambda x: jnp.sum(nn.softplus(w * x), axis=0),
      'loss': lambda x: jnp.mean((w @ (v - x * v) - 1.)**2),
      'broadcast': lambda x: jnp.exp(jnp.broadcast_to(x, (2, 3))) * w,
      'dot': lambda x: jnp.dot(jnp.exp(v * x), nn.swish(v * x)),
      'log': lambda x: jnp.log(jnp.sum(jnp.exp(v * x))),
      'div': lambda x: v / (2 + jnp.exp(x * v)),
  }
  return vector, scalar


def arrays(ch):
  vector, scalar = array_programs()
  progs = [(n, f, 1) for n, f in vector.items()] + [
      (n, f, 0) for n, f in scalar.items()]
  name, f, nd = ch.pick(progs, 'program')
  ch.shard()
  degree = ch.choose(4)
  if nd:
    x0, lo, hi = ch.pick([
        ([.25, -.5, 1.], [-.25, -1., .5], [1., 0., 1.75]),
        ([.25, -.5, 1.], [.25, -.5, 1.], [1., 0., 1.75]),
        ([-1., 2., .5], [-2., 2., .25], [-.5, 2., .5])], 'region')
  else:
    x0, lo, hi = ch.pick([(.5, -.25, 1.25), (.5, .5, 1.5), (-1., -1.5, -1.)])
  x0, lo, hi = (np.array(t) for t in (x0, lo, hi))
  b = [jax_bound.taylor_bounds(f, degree, p)(jnp.asarray(x0), (
      jnp.asarray(lo), jnp.asarray(hi))) for p in (False, True)]
  ch.count(2)
  shape = np.shape(f(jnp.asarray(x0)))
  key = f'{name}:{nd}:{degree}'
  plain, tight = (t.coefficients for t in b)
  ch.check(len(plain) == len(tight), f'terms:{key}',
           lambda: f'{len(plain)} {len(tight)}')
  for k, (p, t) in enumerate(zip(plain, tight)):
    (pl, ph), (tl, th) = ends(p), ends(t)
    tol = 1e-9 * (1 + np.abs(pl) + np.abs(ph))
    ok = (pl - tol <= tl) & (th <= ph + tol)
    if degree == 0:
      ok &= (pl == tl) & (ph == th)
    ch.check(bool(np.all(ok)) and tl.shape == pl.shape, f'wider:{key}:{k}',
             lambda: f'{name} degree {degree} x0={x0} region [{lo}, {hi}]: '
             f'coefficient {k} {t} with, {p} without propagation')
  corners = [lo, hi, x0, (lo + hi) / 2, (lo + x0) / 2, (3 * hi + x0) / 4]
  if nd:
    corners += [np.where(np.array(m), lo, hi)
                for m in np.ndindex(*(2,) * 3)]
  for x in corners:
    fx = np.asarray(f(jnp.asarray(x)))
    for c in (plain, tight):
      l, h = eval_enclosure(c, x - x0, nd)
      tol = 1e-9 * (1 + magnitude(c, x - x0, nd))
      ch.check(np.shape(l) == shape and bool(
          np.all((l <= fx + tol) & (fx <= h + tol))), f'contains:{key}',
               lambda: f'{name} degree {degree} x0={x0} region [{lo}, {hi}]: '
               f'f({x}) = {fx} not in [{l}, {h}] of shape {np.shape(l)}')
  ch.outcome((key, [np.asarray(c).tobytes() for c in tight]))


SPACES = {'unary': unary, 'pairs': pairs, 'binary': binary, 'nested': nested,
          'chains': chains, 'arrays': arrays}
