"""C06: arithmetic on Taylor enclosures is sound for any operation sequence."""

import itertools

from mc import core

if core.WORKER:
  import numpy as np
  from mc import encl
  from mc.lib import *  # pylint: disable=wildcard-import
  from autobound import enclosure_arithmetic as ea
  NP = backends()

BOUNDS = {
    'quick': 'all pairs of enclosures with up to 4+3 / 3+4 terms in every '
             'point/interval structure over a lattice of coefficients '
             '(scalar x; 5 trust regions, maximum degree 0..4), up to 3+3 '
             'terms for vector and matrix x; add, subtract, negative, '
             'multiply, divide, 12 exponents, 4 bilinear maps; broadcasting '
             'of 10 pairs of value shapes; all operation sequences of length '
             'up to 3 over 13 operations from 4 leaves; the same enclosure '
             'as both operands; numpy, and jax for '
             'every operation; map_over_enclosure, expand_multiple_dims and '
             'as_taylor_enclosure on every structure of up to 4 coefficients',
    'thorough': 'as quick with up to 4+4 terms and sequences of length 4',
}
ASSUMPTIONS = [
    'dyadic coefficients; tolerance 1e-11 of the largest term',
    'division and fractional powers: lanes where the natural interval '
    'extension of the argument over the trust region reaches 0 may return '
    'infinite or nan coefficients, but not bounds that exclude the value',
]


def tasks(tier):
  ts = []
  for name, n in (('binary', 32), ('binary_vector', 16), ('unary', 16),
                  ('unary_vector', 12), ('bilinear', 16), ('broadcast', 8),
                  ('sequences', 24), ('jax_ops', 8), ('aliased', 8),
                  ('utilities', 4)):
    ts += core.shards(name, n, tier=tier)
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  core.simple_run_task(SPACES, task, stats)


POWERS = [0, 1, 2, 3, 4, 2.0, -1, -2, -3, 0.5, 1.5, -0.5]


def tol_of(*mags):
  return 1e-11 * sum(mags) + 1e-300


def verify(ch, name, result, max_degree, x_shape, points, image, describe,
           skip=None, exact=False):
  """Checks degree, structure and containment at every point.

  image(z) -> (lo, hi, magnitude): exact set of values at z.
  skip: lanes where nan (but not exclusion) is acceptable.
  """
  ch.check(isinstance(result, tuple) and len(result) >= 1, f'type:{name}',
           lambda: f'{type(result)} {describe()}')
  ch.check(len(result) - 1 <= max_degree, f'degree:{name}',
           lambda: f'degree {len(result)-1} > {max_degree}: {describe()}')
  if exact:
    ch.check(not any(isinstance(c, tuple) for c in result),
             f'interval:{name}', lambda: f'{result} {describe()}')
  for z in points:
    lo, hi, mag = image(z)
    rl, rh = eval_enclosure(result, z, len(x_shape))
    lo, hi, rl, rh = np.broadcast_arrays(lo, hi, rl, rh)
    tol = tol_of(mag) + 1e-11 * (np.abs(lo) + np.abs(hi))
    tol = tol + 2e-13 * magnitude(result, z, len(x_shape))
    with np.errstate(invalid='ignore'):
      ok = (rl <= lo + tol) & (hi <= rh + tol)
      if exact:
        ok &= (np.abs(rl - lo) <= tol) & (np.abs(rh - hi) <= tol)
    undefined = np.isnan(lo) | np.isnan(hi)
    ok |= undefined
    if skip is not None:
      ok |= np.broadcast_to(skip, ok.shape) & (np.isnan(rl) | np.isnan(rh))
    ch.count(evaluations=ok.size)
    i = first_bad(ok)
    if i is not None:
      ch.fail(f'contains:{name}', f'at z={z!r} lane {i}: value '
              f'({lo[i]!r}, {hi[i]!r}) not in ({rl[i]!r}, {rh[i]!r}); '
              f'{describe(i)}')
  ch.outcome((name, [np.asarray(ends(c)).tobytes() for c in result]))


def lane_of(enc, i):
  i = i[0] if i else 0
  def g(c):
    c = np.asarray(c)
    return c[i].tolist() if c.ndim and i < c.shape[0] else c.tolist()
  return [tuple(map(g, c)) if isinstance(c, tuple) else g(c) for c in enc]


def describe_with(encs, region, result, max_degree):
  def d(i=()):
    return (f'operands {[lane_of(e, i) for e in encs]} region {region} '
            f'max_degree {max_degree} result {lane_of(result, i)}')
  return d


def image2(f, a, b, n):
  def image(z):
    u, v = eval_enclosure(a, z, n), eval_enclosure(b, z, n)
    lo, hi = f(u, v)
    return lo, hi, magnitude(a, z, n) * (1 + magnitude(b, z, n)) + magnitude(
        b, z, n)
  return image


if core.WORKER:
  BINARY = {'add': iadd, 'subtract': isub, 'multiply': imul, 'divide': idiv}


def run_binary(ch, x_shape, ka, kb, region, D, np_like, limit, ops):
  n = len(x_shape)
  a, b = encl.lanes(x_shape, [ka, kb], limit)
  if np_like is not np:
    conv = lambda e: tuple(
        tuple(map(np_like.asarray, c)) if isinstance(c, tuple)
        else np_like.asarray(c) for c in e)
  else:
    conv = lambda e: e
  ar = ea.TaylorEnclosureArithmetic(D, region, np_like)
  points = encl.points_of(region)
  for op in ops:
    skip = None
    if op == 'divide':
      if kb[0] == 'i' and D > 0:
        continue
      lo, hi = encl.range_of(b, region, n)
      keep = np.broadcast_to(np.asarray(lo * hi > 0.01),
                             np.shape(ends(b[0])[0]))
      if not keep.any():
        continue
      sel = lambda e: tuple(
          tuple(x[keep] for x in c) if isinstance(c, tuple) else c[keep]
          for c in e)
      aa, bb = sel(a), sel(b)
      skip = ~np.asarray(encl.away_from_zero(bb, region, n))
    else:
      aa, bb = a, b
    ch.count(1)
    result = getattr(ar, op)(conv(aa), conv(bb))
    terms = (len(ka) + len(kb) - 1 if op == 'multiply'
             else max(len(ka), len(kb)))
    exact = (op != 'divide' and 'i' not in ka + kb and terms - 1 <= D)
    verify(ch, f'{op}', result, D, x_shape, points,
           image2(BINARY[op], aa, bb, n),
           describe_with([aa, bb], region, result, D), skip, exact)


def aliased(ch):
  """One enclosure object as both operands: it stands for two functions."""
  x_shape = ch.pick([(), (2,), (1, 2)])
  n = len(x_shape)
  ka = ch.pick(encl.kinds(3 if n else 4))
  ch.shard()
  region = ch.pick(encl.regions(x_shape))
  D = ch.choose(5 if not n else 4)
  a, = encl.lanes(x_shape, [ka], 100)
  points = encl.points_of(region)
  for np_like in (np, NP['jnp']) if D == 2 else (np,):
    conv = lambda c: (tuple(map(np_like.asarray, c)) if isinstance(c, tuple)
                      else np_like.asarray(c))
    ar = ea.TaylorEnclosureArithmetic(D, region, np_like)
    for op in BINARY:
      aa, skip = a, None
      if op == 'divide':
        if ka[0] == 'i' and D > 0:
          continue
        lo, hi = encl.range_of(a, region, n)
        keep = np.broadcast_to(np.asarray(lo * hi > 0.01),
                               np.shape(ends(a[0])[0]))
        if not keep.any():
          continue
        aa = tuple(tuple(x[keep] for x in c) if isinstance(c, tuple)
                   else c[keep] for c in a)
        skip = ~np.asarray(encl.away_from_zero(aa, region, n))
      u = tuple(map(conv, aa))
      for v in (u, tuple(list(u))):    # the same tuple, the same coefficients
        ch.count(1)
        r = getattr(ar, op)(u, v)
        verify(ch, f'aliased:{op}', r, D, x_shape, points,
               image2(BINARY[op], aa, aa, n),
               describe_with([aa, aa], region, r, D), skip)
    if n <= 1:
      T = MAPS['hadamard']
      u = tuple(map(conv, spread(a, 2)))
      if np_like is np:
        ch.count(1)
        r = ar.arbitrary_bilinear(u, u, pairwise(T))
        verify(ch, 'aliased:bilinear', r, D, x_shape, points,
               image2(imul, spread(a, 2), spread(a, 2), n),
               describe_with([u, u], region, r, D))


def pair_structures(max_a, max_b, total):
  out = []
  for ka in encl.kinds(max_a):
    for kb in encl.kinds(max_b):
      if len(ka) + len(kb) <= total:
        out.append((ka, kb))
  return out


def binary(ch):
  ka, kb = ch.pick(pair_structures(4, 4, 8 if TIER == 'thorough' else 7))
  ch.shard()
  region = ch.pick(encl.regions(()))
  D = ch.choose(5)
  limit = 700 if TIER == 'thorough' else 300
  run_binary(ch, (), ka, kb, region, D, np, limit, list(BINARY))


def binary_vector(ch):
  x_shape = ch.pick([(2,), (1,), (3,), (1, 2)])
  big = len(x_shape) == 2 or x_shape == (3,)
  ka, kb = ch.pick(pair_structures(3, 3, 4 if big else 6))
  ch.shard()
  region = ch.pick(encl.regions(x_shape))
  D = ch.choose(4)
  run_binary(ch, x_shape, ka, kb, region, D, np,
             300 if TIER == 'thorough' else 120, list(BINARY))


def run_unary(ch, x_shape, ka, region, D, np_like, limit, powers):
  n = len(x_shape)
  a, = encl.lanes(x_shape, [ka], limit)
  if np_like is not np:
    conv = lambda e: tuple(
        tuple(map(np_like.asarray, c)) if isinstance(c, tuple)
        else np_like.asarray(c) for c in e)
  else:
    conv = lambda e: e
  ar = ea.TaylorEnclosureArithmetic(D, region, np_like)
  points = encl.points_of(region)
  ch.count(1)
  r = ar.negative(conv(a))
  def neg_image(z):
    lo, hi = ineg(eval_enclosure(a, z, n))
    return lo, hi, magnitude(a, z, n)
  verify(ch, 'negative', r, D, x_shape, points, neg_image,
         describe_with([a], region, r, D), None,
         'i' not in ka and len(ka) - 1 <= D)
  lo, hi = encl.range_of(a, region, n)
  shape = np.shape(ends(a[0])[0])
  for p in powers:
    whole = p == int(p)
    skip = None
    aa = a
    if not (whole and p >= 0):
      if ka[0] == 'i' and D > 0:
        continue
      # keep lanes whose value set stays inside the domain
      keep = np.broadcast_to(np.asarray(lo * hi > 0.01 if whole else lo > 0.05),
                             shape)
      if not keep.any():
        continue
      aa = tuple(tuple(x[keep] for x in c) if isinstance(c, tuple) else c[keep]
                 for c in a)
      skip = ~np.asarray(encl.away_from_zero(aa, region, n, not whole))
    ch.count(1)
    r = ar.power(conv(aa), p)
    def image(z):
      u = eval_enclosure(aa, z, n)
      m = magnitude(aa, z, n)
      if whole and p >= 0:
        v = ipow(u, int(p))
        return v[0], v[1], (1 + m)**p
      if whole:
        q = ipow(u, int(-p))
        return 1 / q[1], 1 / q[0], m**-p / np.minimum(*q)**2 * 0.1 + 1 / q[0]
      v = [np.asarray(t)**LD(p) for t in u]
      return np.minimum(*v), np.maximum(*v), 1 + m
    exact = (whole and p >= 0 and 'i' not in ka
             and (len(ka) - 1) * p <= D)
    verify(ch, f'power:{p}', r, D, x_shape, points, image,
           describe_with([aa], region, r, D), skip, exact)


def unary(ch):
  ka = ch.pick(encl.kinds(4))
  region = ch.pick(encl.regions(()))
  ch.shard()
  D = ch.choose(5)
  run_unary(ch, (), ka, region, D, np,
            900 if TIER == 'thorough' else 500, POWERS)


def unary_vector(ch):
  x_shape = ch.pick([(2,), (1,), (3,), (1, 2)])
  ka = ch.pick(encl.kinds(3))
  ch.shard()
  region = ch.pick(encl.regions(x_shape))
  D = ch.choose(4)
  powers = [p for p in POWERS if x_shape in ((1,), (2,)) or p not in (4, 3)]
  run_unary(ch, x_shape, ka, region, D, np, 80, powers)


def jax_ops(ch):
  x_shape = ch.pick([(), (2,)])
  ka, kb = ch.pick([('ppp', 'ppi'), ('pi', 'pp'), ('ppi', 'ipi'), ('p', 'pi')])
  region = ch.pick(encl.regions(x_shape)[:2])
  D = ch.choose(3)
  ch.shard()
  run_binary(ch, x_shape, ka, kb, region, D, NP['jnp'], 60, list(BINARY))
  run_unary(ch, x_shape, kb, region, D, NP['jnp'], 60, [0, 2, 3, -1, 0.5])


# --- bilinear maps ----------------------------------------------------------


# Each map: tensor T[i, j, k] of 0/1, (L, I) x (L, J) -> (L, K).
def _maps():
  had = np.zeros((2, 2, 2)); had[0, 0, 0] = had[1, 1, 1] = 1
  dot = np.zeros((2, 2, 1)); dot[0, 0, 0] = dot[1, 1, 0] = 1
  conv = np.zeros((2, 2, 3))
  for i in range(2):
    for j in range(2):
      conv[i, j, i + j] = 1
  outer = np.zeros((2, 3, 6))
  for i in range(2):
    for j in range(3):
      outer[i, j, 3 * i + j] = 1
  return {'hadamard': had, 'dot': dot, 'conv': conv, 'outer': outer}


if core.WORKER:
  MAPS = _maps()


def pairwise(T):
  """pairwise_batched_bilinear for u:(L, I)+P, v:(L, J)+Q -> (L, K)+P+Q."""
  def fun(u, v, p, q):
    u, v = np.asarray(u), np.asarray(v)
    if u.ndim != 2 + p or v.ndim != 2 + q:
      raise ValueError(f'operands of shapes {u.shape}, {v.shape} '
                       f'with p={p}, q={q}')
    P, Q = u.shape[2:], v.shape[2:]
    u2 = u.reshape(u.shape[:2] + (-1,))
    v2 = v.reshape(v.shape[:2] + (-1,))
    r = np.einsum('lip,ljq,ijk->lkpq', u2, v2, T)
    return r.reshape(r.shape[:2] + P + Q)
  return fun


def spread(enc, width):
  """(L, ...) -> (L, width, ...): element k takes lane l + 3*k."""
  def g(x):
    return np.stack([np.roll(x, 3 * k, axis=0) for k in range(width)], axis=1)
  return tuple(tuple(map(g, c)) if isinstance(c, tuple) else g(c) for c in enc)


def bilinear(ch):
  x_shape = ch.pick([(), (1,), (2,)])
  total = 6 if x_shape == () else 5
  ka, kb = ch.pick(pair_structures(3, 3, total))
  ch.shard()
  name = ch.pick(list(MAPS) if x_shape == () else ['dot', 'conv'])
  region = ch.pick(encl.regions(x_shape)[:4])
  D = ch.choose(4)
  n = len(x_shape)
  T = MAPS[name]
  a, b = encl.lanes(x_shape, [ka, kb], 60)
  a, b = spread(a, T.shape[0]), spread(b, T.shape[1])
  ar = ea.TaylorEnclosureArithmetic(D, region, np)
  ch.count(1)
  r = ar.arbitrary_bilinear(a, b, pairwise(T))
  def image(z):
    u, v = eval_enclosure(a, z, n), eval_enclosure(b, z, n)
    us = tuple(x[:, :, None] for x in u)
    vs = tuple(x[:, None, :] for x in v)
    lo, hi = imul(us, vs)
    m = np.multiply(magnitude(a, z, n)[:, :, None],
                    magnitude(b, z, n)[:, None, :])
    f = lambda x: np.einsum('lij,ijk->lk', x, T.astype(LD))
    return f(lo), f(hi), f(m)
  exact = 'i' not in ka + kb and len(ka) + len(kb) - 2 <= D
  verify(ch, f'bilinear:{name}', r, D, x_shape, encl.points_of(region), image,
         describe_with([a, b], region, r, D), None, exact)


# --- broadcasting of values -------------------------------------------------


SHAPES = [((), (2,)), ((2,), ()), ((1,), (2,)), ((3,), (2, 3)),
          ((2, 3), (3,)), ((2, 1), (3,)), ((1, 3), (2, 1)), ((2, 2), (2, 2)),
          ((), ()), ((3,), (1,))]


def broadcast(ch):
  """Values of different shapes: numpy broadcasting, element by element."""
  x_shape = ch.pick([(), (2,), (3,)])
  sa, sb = ch.pick(SHAPES)
  ka, kb = ch.pick([('pp', 'ppi'), ('p', 'pi'), ('pi', 'p'), ('pi', 'ppi'),
                    ('ppp', 'pp')])
  ch.shard()
  region = ch.pick(encl.regions(x_shape)[:3])
  D = ch.choose(4)
  n = len(x_shape)
  def make(shape, kinds, seed):
    out = []
    size = int(np.prod(shape)) if shape else 1
    for d, k in enumerate(kinds):
      pats = encl.patterns(x_shape, d, k)
      vals = [pats[(seed + 3 * d + e * (1 + d)) % len(pats)]
              for e in range(size)]
      full = shape + x_shape * d
      if k == 'p':
        out.append(np.array(vals, dtype=float).reshape(full))
      else:
        out.append(tuple(np.array([v[j] for v in vals], dtype=float)
                         .reshape(full) for j in (0, 1)))
    return tuple(out)
  a, b = make(sa, ka, 1), make(sb, kb, 2)
  ar = ea.TaylorEnclosureArithmetic(D, region, np)
  want = np.broadcast_shapes(sa, sb)
  for op in ('add', 'subtract', 'multiply'):
    ch.count(1)
    r = getattr(ar, op)(a, b)
    for z in encl.points_of(region):
      v = eval_enclosure(r, z, n)
      ch.check(v[0].shape == want, f'shape:{op}',
               lambda: f'{sa} {op} {sb} has shape {v[0].shape}')
    terms = (len(ka) + len(kb) - 1 if op == 'multiply'
             else max(len(ka), len(kb)))
    verify(ch, f'broadcast:{op}', r, D, x_shape, encl.points_of(region),
           image2(BINARY[op], a, b, n),
           lambda i=(): f'{i} {a} {b} {region} {D} -> {r}', None,
           'i' not in ka + kb and terms - 1 <= D)


# --- sequences --------------------------------------------------------------


def apply_and_check(ch, ar, op, cur, cv, other, ov, D, n, points, what):
  ch.count(1)
  if op == 'rsubtract':
    new, nv = ar.subtract(other, cur), [q - p for p, q in zip(cv, ov)]
  elif op == 'negative':
    new, nv = ar.negative(cur), [-p for p in cv]
  elif op == 'reciprocal':
    new, nv = ar.power(cur, -1), [1 / p for p in cv]
  elif op.startswith('power'):
    k = int(op[5:])
    new, nv = ar.power(cur, k), [p**k for p in cv]
  else:
    new = getattr(ar, op)(cur, other)
    f = {'add': lambda p, q: p + q, 'subtract': lambda p, q: p - q,
         'multiply': lambda p, q: p * q, 'divide': lambda p, q: p / q}[op]
    nv = [f(p, q) for p, q in zip(cv, ov)]
  ch.check(len(new) - 1 <= D, f'sequence-degree:{op}', lambda: (
      f'{what}: degree {len(new)-1} > {D}'))
  nv = np.array(nv, LD)
  lo, hi, mag = encl.eval_many(new, points, n)
  tol = 1e-10 * (mag + np.abs(nv)) + 1e-12
  ok = (lo - tol <= nv) & (nv <= hi + tol)
  ch.count(evaluations=ok.size)
  i = first_bad(ok)
  if i is not None:
    ch.fail(f'sequence:{op}', f'{what} degree {D}: value {nv[i]} at '
            f'z={points[i[0]]} not in [{lo[i]}, {hi[i]}]; enclosure {new}')
  ch.check(all(np.isfinite(t).all() for c in new for t in ends(c)),
           f'sequence-infinite:{op}', lambda: f'{what} -> {new}')
  return new, tuple(nv)


def sequences(ch):
  """All operation sequences on a stack of known functions of x."""
  x_shape = ch.pick([(), (2,)])
  deep = TIER == 'thorough'
  D = ch.pick([0, 1, 2, 3] if deep or not x_shape else [2, 1])
  region = ch.pick(encl.regions(x_shape)[:2 if deep or not x_shape else 1])
  x0 = ch.pick([1.5, -0.5] if deep and x_shape == () else [1.5])
  n = len(x_shape)
  depth = 4 if TIER == 'thorough' else 3
  if n:
    x0v = np.array([1.5, -0.5])
    w = np.array([1., -0.5])
    leaf_x = (np.asarray(x0v @ w), w)
    f_x = lambda z: (x0v + z) @ w.astype(LD)
    quad = np.array([[1., 0.25], [-0.5, 0.5]])
    leaf_q = (np.asarray(3.), np.zeros(2), (quad - 0.5, quad + 0.25))
    f_q = lambda z: 3 + z @ quad.astype(LD) @ z
    leaf_w = (np.asarray(2.), (w - 1., w + 0.5))
    f_w = lambda z: 2 + np.sum((w - 0.25 * np.cos(z)) * z)
  else:
    leaf_x = (np.asarray(x0), np.asarray(1.))
    f_x = lambda z: LD(x0) + z
    leaf_q = (np.asarray(3.), np.asarray(0.), (np.asarray(-0.5),
                                               np.asarray(1.25)))
    f_q = lambda z: 3 + z * z
    leaf_w = (np.asarray(2.), (np.asarray(-1.), np.asarray(1.5)))
    f_w = lambda z: 2 + (0.25 - np.cos(3 * z)) * z
  leaf_c = (np.asarray(2.),)
  f_c = lambda z: LD(2)
  ar = ea.TaylorEnclosureArithmetic(D, region, np)
  points = [LD(1) * z for z in encl.points_of(region)]
  vals = lambda f: tuple(LD(f(z)) for z in points)
  pool = [(leaf_x, vals(f_x), 'x'), (leaf_q, vals(f_q), 'q'),
          (leaf_w, vals(f_w), 'w'), (leaf_c, vals(f_c), 'c')]
  for e, v, name in pool:     # the leaves are enclosures of their functions
    for z, t in zip(points, v):
      lo, hi = eval_enclosure(e, z, n)
      assert lo - 1e-12 <= t <= hi + 1e-12, (name, z, t, lo, hi)
  history = []
  for step in range(depth):
    # the new result is one of: unary of the last value, or binary of the last
    # value with any value of the pool
    cur, cv, cname = pool[-1]
    op = ch.pick(['add', 'subtract', 'rsubtract', 'multiply', 'negative',
                  'power0', 'power1', 'power2', 'power3', 'reciprocal',
                  'divide'] if deep or step < depth - 1 else
                 ['add', 'subtract', 'multiply', 'power2', 'power3', 'divide'])
    if op in ('add', 'subtract', 'rsubtract', 'multiply', 'divide'):
      j = ch.choose(len(pool))
      if step == 0 and j == 3 and op == 'divide':
        pass
      other, ov, oname = pool[j]
    else:
      other = ov = None
    if step == 0:
      ch.shard()
    history.append((op, None if other is None else oname))
    if op in ('reciprocal', 'divide'):
      den, dv = (cur, cv) if op == 'reciprocal' else (other, ov)
      if isinstance(den[0], tuple) and D > 0:
        raise core.Prune()
      if not encl.away_from_zero(den, region, n):
        raise core.Prune()
    memo_key = (x_shape, D, repr(region), x0, tuple(history))
    if memo_key in ch.cache:
      new, nv = ch.cache[memo_key]
    else:
      new, nv = apply_and_check(ch, ar, op, cur, cv, other, ov, D, n, points,
                                f'{history} region {region} x0 {x0}')
      ch.state((step, repr(region), x0, D, n,
                [np.asarray(ends(c)).tobytes() for c in new]))
      if step < depth - 1:
        ch.cache[memo_key] = new, nv
    pool = pool + [(new, nv, f'r{step}')]


class _Recorder:
  """A function of an array whose every argument is remembered."""

  def __init__(self, fun):
    self.fun = fun
    self.args = []

  def __call__(self, a):
    assert not isinstance(a, tuple), a
    self.args.append(np.asarray(a))
    return self.fun(a)


def utilities(ch):
  """Structure-preserving helpers: every structure of up to 4 coefficients."""
  n_coeffs = 1 + ch.choose(4)
  kinds = tuple(ch.pick(['point', 'interval', 'thin'])
                for _ in range(n_coeffs))
  ch.shard()
  shape = ch.pick([(), (2,), (2, 1), (1, 3), (3, 2, 2)])
  backend = ch.pick(['np', 'jnp'])
  np_like = NP[backend]
  size = int(np.prod(shape))
  base = np.arange(1, size + 1, dtype=float).reshape(shape)
  coeffs = []
  for i, kind in enumerate(kinds):
    lo = np_like.asarray(base * (i + 1) - 3.)
    if kind == 'point':
      coeffs.append(lo)
    else:
      coeffs.append((lo, lo if kind == 'thin' else lo + 0.25 * (i + 1)))
  what = lambda: f'{kinds} shape {shape} {backend}'

  # map_over_enclosure: fun of every array, the structure kept.
  for fname, f in (('negate', lambda a: -a), ('lift', lambda a: a[None]),
                   ('widen', lambda a: 2. * a + 1.)):
    rec = _Recorder(f)
    out = ea.map_over_enclosure(tuple(coeffs), rec)
    ch.count(1, 1)
    ch.check(isinstance(out, tuple) and len(out) == n_coeffs,
             'map:length', lambda: f'{fname} {out} {what()}')
    for c, o in zip(coeffs, out):
      ch.check(isinstance(o, tuple) == isinstance(c, tuple), 'map:structure',
               lambda: f'{fname} {c} -> {o} {what()}')
      for u, v in zip(ends(c), ends(o)):
        w = np.asarray(f(u))
        v = np.asarray(v)
        ch.check(v.shape == w.shape and np.array_equal(v, w), 'map:value',
                 lambda: f'{fname} {u} -> {v} {what()}')
    want = sum(2 if isinstance(c, tuple) else 1 for c in coeffs)
    ch.check(len(rec.args) == want, 'map:calls',
             lambda: f'{len(rec.args)} calls, {want} arrays {what()}')

  # as_taylor_enclosure: the same numbers, whatever array-likes they came as.
  loose = tuple(tuple(np.asarray(u).tolist() for u in c)
                if isinstance(c, tuple) else np.asarray(c).tolist()
                for c in coeffs)
  if shape == ():
    sources = (tuple(coeffs), list(coeffs), loose)
  else:
    sources = (tuple(coeffs), list(coeffs))
  for src in sources:
    out = ea.as_taylor_enclosure(src, np_like)
    ch.count(1, 1)
    ch.check(isinstance(out, tuple) and len(out) == n_coeffs, 'as:length',
             lambda: f'{src} -> {out}')
    for c, o in zip(coeffs, out):
      ch.check(isinstance(o, tuple) == isinstance(c, tuple), 'as:structure',
               lambda: f'{c} -> {o} {what()}')
      for u, v in zip(ends(c), ends(o)):
        ch.check(hasattr(v, 'shape') and
                 np.array_equal(np.asarray(u), np.asarray(v)),
                 'as:value', lambda: f'{u} -> {v} {what()}')

  # expand_multiple_dims: n axes of size 1, where asked, nothing else moved.
  arr = coeffs[0][0] if isinstance(coeffs[0], tuple) else coeffs[0]
  for n in range(4):
    for axis in (None, *range(len(shape) + 1)):
      at = len(shape) if axis is None else axis
      out = np.asarray(ea.expand_multiple_dims(arr, n, axis) if axis is not None
                       else ea.expand_multiple_dims(arr, n))
      want = np.asarray(arr).reshape(shape[:at] + (1,) * n + shape[at:])
      ch.count(1, 1)
      ch.check(out.shape == want.shape and np.array_equal(out, want),
               'expand', lambda: f'n {n} axis {axis} -> {out.shape} {what()}')
  ch.state((kinds, shape, backend))


SPACES = {'binary': binary, 'binary_vector': binary_vector, 'unary': unary,
          'unary_vector': unary_vector, 'bilinear': bilinear,
          'broadcast': broadcast, 'sequences': sequences, 'jax_ops': jax_ops,
          'aliased': aliased, 'utilities': utilities}
