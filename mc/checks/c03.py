"""C03: all coefficients but the last are the Taylor coefficients of f."""

from mc import core

if core.WORKER:
  import numpy as np
  from mc.lib import *  # pylint: disable=wildcard-import
from mc import programs as P

BOUNDS = {
    'quick': 'all 29 unary operations and all their 841 compositions, all '
             'sums, differences, products and quotients of 14 sub-programs, '
             '1024 nested binary programs, all polynomial programs with up '
             'to three operations; powers with 146 exponents written in 8 '
             'ways; arithmetic with 10 constants of 9 types; 44 lanes (reference value x slope); '
             'degree 1..5, both propagation modes for single operations',
    'thorough': 'as quick with all degrees and regions, and all compositions '
                'of three of 14 operations',
}
ASSUMPTIONS = [
    'the exact Taylor coefficients are computed by truncated power series '
    'arithmetic in extended precision',
    'tolerance: 1e-9 relative plus 1e4 times the error of evaluating the '
    'series in double precision',
]


def tasks(tier):
  ts = []
  for name, n in (('unary', 6), ('pairs', 32), ('binary', 16), ('nested', 8),
                  ('polynomials', 16), ('exponents', 12), ('constants', 8)):
    ts += core.shards(name, n, tier=tier)
  if tier == 'thorough':
    ts += core.shards('triples', 64, tier=tier)
  ts += core.shards('unary', 4, mode='x32', tier=tier)
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  core.simple_run_task(SPACES, task, stats)


def deep():
  return TIER == 'thorough'


def jets64(prog, S, C, x0, degree):
  u0 = S * x0 + C
  j = [u0] + [np.zeros_like(u0) for _ in range(degree)]
  j[1] = S.copy()
  with np.errstate(all='ignore'):
    return P.jet(prog, j)


def examine(ch, prog, degree, prop, region):
  x0, lo, hi = region
  S, C = P.lane_constants(x0)
  oracle = P.Oracle(prog, x0, lo, hi, S, C)
  coeffs = P.coefficients(ch, prog, S, C, degree, prop, region)
  name = f'{prog}:{degree}:{int(prop)}'
  ch.check(1 <= len(coeffs) <= degree + 1, f'degree:{name}',
           lambda: f'{len(coeffs)} coefficients for degree {degree}')
  exact = oracle.jets(degree)
  exact = [np.broadcast_to(e, S.shape) for e in exact]
  approx = [np.broadcast_to(e, S.shape) for e in jets64(prog, S, C, x0, degree)]
  size = np.max([np.abs(e) for e in exact], 0)
  finite = size < (1e200 if is_x64() else 1e30)
  # the value itself must be in the interior of the domain of every operation
  if is_x64():
    rtol, wobble = 1e-9, 1e4
  else:
    rtol, wobble = 2e-3, 1e13
  def tolerance(k):
    t = (rtol * np.abs(exact[k]) + wobble * np.abs(exact[k] - approx[k])
         + rtol * 1e-2 * (1 + size))
    return np.where(np.isfinite(t), t, np.inf)
  for k, c in enumerate(coeffs[:-1]):
    ch.check(not is_interval(c), f'interval:{name}:{k}',
             lambda: f'coefficient {k} of {len(coeffs)} is an interval')
    with np.errstate(invalid='ignore'):
      ok = np.abs(np.broadcast_to(c, S.shape) - exact[k]) <= tolerance(k)
    ok = ok | ~finite
    ch.count(evaluations=int(finite.sum()))
    i = first_bad(ok)
    if i is not None:
      ch.fail(f'coefficient:{name}:{k}', f'{prog} at u = {S[i]}*x + {C[i]}, '
              f'x0={x0}, region [{lo}, {hi}], degree {degree}: coefficient '
              f'{k} is {np.broadcast_to(c, S.shape)[i]}, expected '
              f'{exact[k][i]}')
  # The final coefficient contains the Taylor coefficient.
  bounds_of = lambda a: P.coefficients(ch, a, S, C, degree, False, region)
  comfy = np.broadcast_to(
      P.comfortable(prog, bounds_of, degree, lo, hi, x0), S.shape)
  usable = finite & comfy & oracle.regular(degree, bounds_of)
  k = len(coeffs) - 1
  l, h = (np.broadcast_to(e, S.shape) for e in ends(coeffs[-1]))
  tol = tolerance(k) + rtol * (np.abs(l) + np.abs(h))
  with np.errstate(invalid='ignore'):
    ok = (l <= exact[k] + tol) & (exact[k] <= h + tol) | ~usable
  ch.count(evaluations=int(usable.sum()))
  i = first_bad(ok)
  if i is not None:
    ch.fail(f'final:{name}', f'{prog} at u = {S[i]}*x + {C[i]}, x0={x0}, '
            f'region [{lo}, {hi}], degree {degree}, propagate={prop}: final '
            f'coefficient [{l[i]}, {h[i]}] excludes {exact[k][i]}')
  p = P.polynomial_degree(prog)
  if p is not None and p <= degree:
    tol = 4 * rtol * (1 + size)
    ok = (h - l <= tol) & (np.abs(l - exact[k]) <= tol)
    i = first_bad(ok)
    if i is not None:
      ch.fail(f'polynomial:{name}', f'{prog} has degree {p} but degree '
              f'{degree} gives the final coefficient [{l[i]}, {h[i]}], '
              f'expected {exact[k][i]}')
    for j in range(len(coeffs), degree + 1):
      ch.check(bool(np.all(np.abs(exact[j]) <= tol)), f'missing:{name}:{j}',
               lambda: f'{prog}: coefficient {j} is missing')
  ch.outcome((name, region, [np.asarray(c).tobytes() for c in coeffs]))


def top(prog):
  return min(P.top_degree(prog), 5)


def run_all(ch, prog, regions, degree_list=None, shard=True, both=False):
  if shard:
    ch.shard()
  region = ch.pick(regions)
  degree = ch.pick([d for d in (degree_list or range(1, 6)) if d <= top(prog)])
  prop = ch.flag() if both else False
  if not is_x64() and degree > 2:
    return
  examine(ch, prog, degree, prop, region)


def unary(ch):
  prog = (ch.pick(list(P.UNARY)), 'u')
  ch.shard()
  run_all(ch, prog, P.REGIONS, shard=False, both=True)


def pairs(ch):
  f, g = ch.pick(list(P.UNARY)), ch.pick(list(P.UNARY))
  k = P.hash_of(f, g)
  run_all(ch, (f, (g, 'u')), P.REGIONS if deep() else [P.REGIONS[k % 3]],
          None if deep() else [(1, 3), (2, 4), (1, 5), (2, 3)][k % 4],
          both=deep())


def triples(ch):
  f, g, h = (ch.pick(P.TRIPLE_OPS) for _ in range(3))
  k = P.hash_of(f, g, h)
  run_all(ch, (f, (g, (h, 'u'))), [P.REGIONS[k % 3]], [1, 2, 3, 4])


def binary(ch):
  op = ch.pick(P.BINARY)
  a, b = ch.pick(P.PAIR_ARGS), ch.pick(P.PAIR_ARGS)
  if isinstance(a, float) and isinstance(b, float):
    return
  k = P.hash_of(op, a, b)
  run_all(ch, (op, a, b), P.REGIONS[:3] if deep() else [P.REGIONS[k % 3]],
          None if deep() else [(1, 4), (2, 5), (1, 3)][k % 3], both=deep())


def nested(ch):
  prog = P.choose_nested(ch)
  k = P.hash_of(prog)
  run_all(ch, prog, [P.REGIONS[k % 3]], None if deep() else [1 + k % 4])


LEAVES = ('u', ('square', 'u'), ('2u+1', 'u'), 3.)
POWERS = ('square', 'cube', 'pow4', 'pow1', 'pow0', 'neg', '1-u', 'pow2.')


def polynomials(ch):
  """Sums, products and powers: must be represented exactly."""
  kind = ch.choose(4)
  if kind == 0:
    prog = (ch.pick(POWERS), (ch.pick(POWERS), 'u'))
  elif kind == 1:
    prog = (ch.pick(('add', 'sub', 'mul')), ch.pick(LEAVES), ch.pick(LEAVES))
  elif kind == 2:
    prog = (ch.pick(('add', 'sub', 'mul')),
            (ch.pick(('add', 'sub', 'mul')), ch.pick(LEAVES), ch.pick(LEAVES)),
            ch.pick(LEAVES))
  else:
    prog = (ch.pick(POWERS), (ch.pick(('add', 'sub', 'mul')),
                              ch.pick(LEAVES), ch.pick(LEAVES)))
  d = P.polynomial_degree(prog)
  ch.shard()
  region = P.REGIONS[P.hash_of(prog) % 3]
  degrees = sorted({max(1, min(d, 5)), max(1, min(d + 1, 5)), min(max(1, d - 1), 5)})
  examine(ch, prog, ch.pick(degrees), ch.flag(), region)


def exponents(ch):
  prog = P.choose_power(ch)
  if prog is None:
    return
  k = P.hash_of(prog)
  region = P.REGIONS[k % 3]
  examine(ch, prog, ch.pick((1, 3) if k % 2 else (2, 4)), False, region)


def constants(ch):
  prog = P.choose_constant(ch)
  if prog is None:
    return
  k = P.hash_of(prog)
  outer = (None, 'sigmoid', 'cube')[k % 3]
  if outer:
    prog = (outer, prog)
  examine(ch, prog, (1, 2, 3)[k // 3 % 3], False, P.REGIONS[k % 3])


SPACES = {'exponents': exponents, 'constants': constants,
          'unary': unary, 'pairs': pairs, 'triples': triples,
          'binary': binary, 'nested': nested, 'polynomials': polynomials}
