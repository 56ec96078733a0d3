"""C01: bounds of scalar-input functions contain the function everywhere."""

from mc import core

if core.WORKER:
  import numpy as np
  import jax
  import jax.numpy as jnp
  from autobound.jax import jax_bound
  from mc.lib import *  # pylint: disable=wildcard-import
from mc import programs as P

BOUNDS = {
    'quick': 'all 29 unary operations, all 841 compositions of two (three '
             'degrees each), all '
             'sums, differences, products and quotients of pairs of 14 '
             'sub-programs, 512 compositions of three (one degree each); 44 lanes (reference '
             'value x slope) per program; 4 trust regions (two-sided, '
             'one-sided, degenerate); powers with 146 exponents written '
             'in 8 ways; arithmetic with 10 constants of 9 types; degree 0..4; both propagation modes; '
             'containment at 12 points of the region per lane',
    'thorough': 'as quick with degree 5, more lanes, all trust regions for '
                'all programs, and all compositions of three of 14 operations',
}
ASSUMPTIONS = [
    'lanes where a trust region of an intermediate is so small (or so '
    'one-sided) that the documented 1e-12 guard or rounding noise of the '
    'remainder ratio matters are left out (C08 covers them)',
    'tolerance 1e-9 of the largest term (float64), 5e-3 (float32)',
]

def tasks(tier):
  ts = []
  for name, n in (('unary', 8), ('pairs', 40), ('triples', 16),
                  ('binary', 24), ('nested', 12), ('scalars', 12),
                  ('exponents', 12), ('constants', 8)):
    ts += core.shards(name, n, cost=2 if name == 'pairs' else 1)
  ts += core.shards('unary', 4, mode='x32')
  ts += core.shards('constants', 4, mode='x32')
  ts += core.shards('scalars', 4, mode='x32')
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  core.simple_run_task(SPACES, task, stats)


def deep():
  return TIER == 'thorough'


def examine(ch, prog, degree, prop, region, S, C, scalar=False):
  x0, lo, hi = region
  oracle = P.Oracle(prog, x0, lo, hi, S, C)
  coeffs = P.coefficients(ch, prog, S, C, degree, prop, region)
  name = f'{prog}:{degree}:{int(prop)}'
  ch.check(1 <= len(coeffs) <= degree + 1, f'degree:{name}',
           lambda: f'{len(coeffs)} coefficients')
  bounds_of = lambda a: P.coefficients(ch, a, S, C, degree, False, region)
  comfy = P.comfortable(prog, bounds_of, degree, lo, hi, x0)
  comfy = np.broadcast_to(comfy, S.shape)
  regular = oracle.regular(degree, bounds_of)
  rtol = 1e-9 if is_x64() else 5e-3
  for x, f, scale, defined in zip(oracle.xs, oracle.values, oracle.scales,
                                  oracle.defined):
    z = LD(x) - LD(x0)
    rl, rh = eval_enclosure(coeffs, z, 0)
    mag = magnitude(coeffs, z, 0)
    rl, rh, mag = (np.broadcast_to(t, S.shape) for t in (rl, rh, mag))
    tol = rtol * (mag + np.abs(f) + scale) + (1e-300 if is_x64() else 1e-30)
    nan = np.isnan(rl) | np.isnan(rh)
    with np.errstate(invalid='ignore'):
      ok = (rl <= f + tol) & (f <= rh + tol)
    ok |= ~defined | ~regular | (nan & ~comfy)
    ch.count(evaluations=int((defined & regular).sum()))
    i = first_bad(ok)
    if i is not None:
      what = 'nan' if nan[i] else 'contains'
      ch.fail(f'{what}:{name}', f'{prog} at u = {S[i]}*x + {C[i]}, x0={x0}, '
              f'region [{lo}, {hi}], degree {degree}, propagate={prop}: '
              f'f({x}) = {f[i]} not in [{rl[i]}, {rh[i]}]; coefficients '
              f'{[np.asarray(c)[..., i[0]].tolist() if np.ndim(c) > (1 if isinstance(c, tuple) else 0) else c for c in coeffs]}')
  ch.outcome((name, region, [np.asarray(c).tobytes() for c in coeffs]))


def lanes_for(x0):
  if deep():
    return P.lane_constants(
        x0, P.C_POINTS + (-12., -4., -1.5, -.75, .75, 1.5, 4., 12.))
  return P.lane_constants(x0)


def degrees(prog):
  return min(P.top_degree(prog), 5 if deep() else 4)


def run_all(ch, prog, regions, degree_list=None, shard=True):
  top = degrees(prog)
  if shard:
    ch.shard()
  region = ch.pick(regions)
  ds = [d for d in (degree_list or range(top + 1)) if d <= top]
  degree = ch.pick(ds)
  prop = ch.flag()
  if not is_x64() and degree > 2:
    return
  S, C = lanes_for(region[0])
  examine(ch, prog, degree, prop, region, S, C)


def unary(ch):
  prog = (ch.pick(list(P.UNARY)), 'u')
  ch.shard()
  run_all(ch, prog, P.REGIONS, shard=False)


def pairs(ch):
  f, g = ch.pick(list(P.UNARY)), ch.pick(list(P.UNARY))
  regions = P.REGIONS if deep() else [P.REGIONS[(P.hash_of(f, g)) % 3]]
  run_all(ch, (f, (g, 'u')), regions,
          None if deep() else [(0, 2, 3), (1, 2, 4)][P.hash_of(g, f) % 2])


def triples(ch):
  ops = P.TRIPLE_OPS if deep() else P.TRIPLE_OPS[:8]
  f, g, h = ch.pick(ops), ch.pick(ops), ch.pick(ops)
  k = P.hash_of(f, g, h)
  regions = P.REGIONS[:3] if deep() else [P.REGIONS[k % 3]]
  run_all(ch, (f, (g, (h, 'u'))), regions,
          None if deep() else [(0, 1, 2, 3, 4)[k % 5]])


def binary(ch):
  op = ch.pick(P.BINARY)
  a, b = ch.pick(P.PAIR_ARGS), ch.pick(P.PAIR_ARGS)
  if isinstance(a, float) and isinstance(b, float):
    return
  k = P.hash_of(op, str(a), str(b))
  run_all(ch, (op, a, b), P.REGIONS[:3] if deep() else [P.REGIONS[k % 3]])


def nested(ch):
  prog = P.choose_nested(ch)
  k = P.hash_of(prog)
  run_all(ch, prog, [P.REGIONS[k % 3]],
          None if deep() else [(0, 1, 2, 3)[k % 4]])


def scalars(ch):
  """f: scalar -> scalar, no lanes, values read through lower and upper."""
  ops = list(P.UNARY)
  k = ch.choose(len(ops) + 60)
  if k < len(ops):
    prog = (ops[k], 'u')
  else:
    n = k - len(ops)
    a, b = P.PAIR_ARGS[n % 13], P.PAIR_ARGS[(3 * n + 1) % 13]
    prog = (P.BINARY[n % 4], a, b) if n < 40 else (ops[(n - 20) % len(ops)], b)
  ch.shard()
  x0, lo, hi = ch.pick([(.75, .25, 1.5), (2., 2., 3.), (1.25, .5, 1.25)] + (
      [] if not deep() else [(-.5, -.75, -.25), (-2., -3., -1.)]))
  degree = ch.choose(min(degrees(prog), 3) + 1)
  if not is_x64() and degree > 1:
    return
  prop = ch.flag()
  kind = ch.pick(['array', 'python'])
  f = P.to_jax(prog)
  ch.count(1)
  S, C = np.array([1.]), np.array([0.])
  oracle = P.Oracle(prog, x0, lo, hi, S, C)
  conv = jnp.asarray if kind == 'array' else float
  bound = jax_bound.taylor_bounds(f, degree, prop)(
      conv(x0), (conv(lo), conv(hi)))
  bounds_of = lambda a: P.coefficients(ch, a, S, C, degree, False, (x0, lo, hi))
  if not oracle.regular(degree, bounds_of).all():
    return
  comfy = bool(np.all(P.comfortable(prog, bounds_of, degree, lo, hi, x0)))
  name = f'scalar:{prog}:{degree}:{int(prop)}'
  rtol = 1e-9 if is_x64() else 5e-3
  for x, v, scale, defined in zip(oracle.xs, oracle.values, oracle.scales,
                                  oracle.defined):
    if not defined[0]:
      continue
    f_x = v[0]
    l = np.asarray(bound.lower(conv(x)))
    h = np.asarray(bound.upper(conv(x)))
    ch.check(np.shape(l) == () and np.shape(h) == (), f'shape:{name}',
             lambda: f'{np.shape(l)} {np.shape(h)}')
    mag = float(magnitude(bound.coefficients, x - x0, 0))
    tol = rtol * (mag + abs(f_x) + scale[0])
    if not comfy and (np.isnan(l) or np.isnan(h)):
      continue
    ch.check(bool(not np.isfinite(f_x) or l <= f_x + tol and f_x <= h + tol),
             f'contains:{name}', lambda: (
                 f'{prog} x0={x0} region [{lo}, {hi}] degree {degree} '
                 f'propagate={prop}: f({x})={f_x} not in [{l}, {h}]'))


def exponents(ch):
  """Powers with every exponent of a lattice, written in every way."""
  prog = P.choose_power(ch)
  if prog is None:
    return
  k = P.hash_of(prog)
  inner = ('softplus', 'u') if k % 3 == 0 and not deep() else 'u'
  prog = (prog[0], inner)
  run_all(ch, prog, P.REGIONS[:3] if deep() else [P.REGIONS[k % 3]],
          None if deep() else [(0, 1, 2, 3, 4)[k % 5]], shard=False)


def constants(ch):
  """Arithmetic with constants of every type, alone and inside."""
  prog = P.choose_constant(ch)
  if prog is None:
    return
  k = P.hash_of(prog)
  outer = (None, 'softplus', 'square')[k % 3]
  if outer:
    prog = (outer, prog)
  region = P.REGIONS[k % 3]
  degree, prop = (0, 1, 2)[k // 3 % 3], bool(k % 2)
  if deep():
    region, degree, prop = (ch.pick(P.REGIONS[:3]), ch.choose(4), ch.flag())
  S, C = lanes_for(region[0])
  examine(ch, prog, degree, prop, region, S, C)


SPACES = {'exponents': exponents, 'constants': constants, 'unary': unary, 'pairs': pairs, 'triples': triples,
          'binary': binary, 'nested': nested, 'scalars': scalars}
