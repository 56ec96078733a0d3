"""C07: composition and degree reduction of enclosures stay sound."""

import itertools

from mc import core

if core.WORKER:
  import numpy as np
  from mc import encl, prim, ref
  from mc.lib import *  # pylint: disable=wildcard-import
  from autobound import enclosure_arithmetic as ea
  from autobound import primitive_enclosures as pe
  NP = backends()

BOUNDS = {
    'quick': 'elementwise enclosures with up to 4 terms (5 for scalar x) and '
             'argument enclosures with up to 3 terms in every point/interval '
             'structure over a coefficient lattice, maximum degree 0..4; '
             'all primitive enclosure functions applied to all lattice '
             'enclosures with derived, exact, and inflated trust regions; '
             'degree reduction of all lattice enclosures with up to 5 terms '
             'to every degree; scalar, vector and matrix x; scalar, vector '
             'and matrix values',
    'thorough': 'as quick with more lanes and 5x4 terms',
}
ASSUMPTIONS = [
    'tolerance 1e-11 of the largest term of the composition',
    'primitive functions are applied where the value, over-estimated by a '
    'factor 2.2, stays inside the domain',
]


def tasks(tier):
  ts = []
  for name, n in (('compose', 24), ('compose_vector', 16),
                  ('compose_shapes', 4), ('reduce', 8), ('reduce_vector', 8),
                  ('functions', 24), ('recorder', 4), ('long', 8), ('jax_ops', 8)):
    ts += core.shards(name, n)
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  core.simple_run_task(SPACES, task, stats)


def deep():
  return TIER == 'thorough'


W = (0., 0.25, 0.5, 0.75, 1.)


def elementwise_value(coeffs, w):
  """Exact interval value of an elementwise enclosure at a point w."""
  lo = hi = LD(0)
  mag = LD(0)
  m = LD(1)
  for i, c in enumerate(coeffs):
    if i:
      m = m * w
    cl, ch = ends(c)
    p, q = cl.astype(LD) * m, ch.astype(LD) * m
    lo, hi = lo + np.minimum(p, q), hi + np.maximum(p, q)
    mag = mag + np.maximum(np.abs(p), np.abs(q))
  return lo, hi, mag


def inside(ch, name, result, z, n, lo, hi, mag, describe):
  rl, rh = eval_enclosure(result, z, n)
  rl, rh, lo, hi = np.broadcast_arrays(rl, rh, lo, hi)
  tol = (1e-11 * (mag + np.abs(lo) + np.abs(hi))
         + 2e-13 * magnitude(result, z, n) + 1e-300)
  with np.errstate(invalid='ignore'):
    ok = (rl <= lo + tol) & (hi <= rh + tol)
  ch.count(evaluations=ok.size)
  i = first_bad(ok)
  if i is not None:
    ch.fail(f'contains:{name}', f'at z={z!r}, lane {i}: value ({lo[i]!r}, '
            f'{hi[i]!r}) not in ({rl[i]!r}, {rh[i]!r}): {describe(i)}')


def lane(enc, i):
  k = i[0] if i else 0
  def g(c):
    c = np.asarray(c)
    return c[k].tolist() if c.ndim and k < c.shape[0] else c.tolist()
  return [tuple(map(g, c)) if isinstance(c, tuple) else g(c) for c in enc]


def run_compose(ch, x_shape, ke, ka, region, D, limit, conv=None, np_like=None):
  np_like = np_like or np
  n = len(x_shape)
  # Elementwise coefficients have no x dimensions: use scalar patterns.
  e_full, = encl.lanes((), [ke], None)
  a_full, = encl.lanes(x_shape, [ka], limit)
  # All pairs (lane of e, lane of a), thinned deterministically by striding
  # the product so that every lane of each appears with many of the other.
  ne, na = len(ends(e_full[0])[0]), len(ends(a_full[0])[0])
  total = ne * na
  cap = 4000 if deep() else 1200
  stride = max(1, -(-total // cap))
  if stride > 1:
    while np.gcd(stride, ne) != 1 or np.gcd(stride, na) != 1:
      stride += 1
  idx = np.arange(0, total, stride)
  ie, ia = idx % ne, (idx // ne) % na
  take = lambda enc, ix: tuple(
      tuple(t[ix] for t in c) if isinstance(c, tuple) else c[ix] for c in enc)
  e, a = take(e_full, ie), take(a_full, ia)
  ar = ea.TaylorEnclosureArithmetic(D, region, np_like)
  ch.count(1)
  r = ar.compose_enclosures(conv(e) if conv else e, conv(a) if conv else a)
  check_composition(ch, 'compose', r, e, a, region, D, n)


def check_composition(ch, name, r, e, a, region, D, n):
  ch.check(isinstance(r, tuple) and 1 <= len(r) <= D + 1, f'degree:{name}',
           lambda: f'{len(r)} coefficients, max_degree {D}')
  diff = (0 * ends(a[0])[0],) + a[1:]
  for z in encl.points_of(region):
    dl, dh = eval_enclosure(diff, z, n)
    amag = magnitude(diff, z, n)
    point = not any(isinstance(c, tuple) for c in a[1:])
    for t in ((0.,) if point else W):
      w = dl + (dh - dl) * LD(t)
      lo, hi, mag = elementwise_value(e, w)
      emag = elementwise_value(
          tuple(np.maximum(np.abs(ends(c)[0]), np.abs(ends(c)[1]))
                for c in e), amag)[2]
      inside(ch, name, r, z, n, lo, hi, mag + emag, lambda i: (
          f'elementwise {lane(e, i)} argument {lane(a, i)} region {region} '
          f'max_degree {D} w={w[i] if i else w} result {lane(r, i)}'))
  ch.outcome((name, [np.asarray(ends(c)).tobytes() for c in r]))


def e_kinds(max_terms):
  out = []
  for k in range(1, max_terms + 1):
    if k <= 3:
      out += [''.join(t) for t in itertools.product('pi', repeat=k)]
    else:
      # all but one structure pattern with a single interval, and all of them
      out += ['p' * j + 'i' + 'p' * (k - 1 - j) for j in range(k)]
      out += ['p' * k, 'i' * k, 'p' + 'i' * (k - 1)]
  return out


def compose(ch):
  ke = ch.pick(e_kinds(5))
  ka = ch.pick(encl.kinds(4 if deep() else 3, c0_interval=False))
  ch.shard()
  region = ch.pick(encl.regions(()))
  D = ch.choose(5)
  run_compose(ch, (), ke, ka, region, D, None)


def compose_vector(ch):
  x_shape = ch.pick([(2,), (1,), (3,), (1, 2)])
  ke = ch.pick(e_kinds(4))
  ka = ch.pick(encl.kinds(3, c0_interval=False))
  big = x_shape in ((3,), (1, 2))
  if big and (len(ke) > 3 or len(ka) > 2) and not deep():
    raise core.Prune()
  ch.shard()
  region = ch.pick(encl.regions(x_shape)[:2 if big else 3])
  D = ch.choose(4)
  run_compose(ch, x_shape, ke, ka, region, D, 100)


def compose_shapes(ch):
  """Values without a batch dimension, and with two of them."""
  x_shape = ch.pick([(), (2,), (3,)])
  shape = ch.pick([(), (1,), (2, 3), (3, 1)])
  ke = ch.pick(['ppi', 'pi', 'i', 'p', 'ppp', 'pip', 'pppi'])
  ka = ch.pick(['p', 'pp', 'pi', 'ppi', 'pii'])
  ch.shard()
  region = ch.pick(encl.regions(x_shape)[:2])
  D = ch.choose(4)
  n = len(x_shape)
  def make(xs, kinds, seed):
    out = []
    size = int(np.prod(shape)) if shape else 1
    for d, k in enumerate(kinds):
      pats = encl.patterns(xs, d, k)
      vals = [pats[(seed + 3 * d + e * (1 + d)) % len(pats)]
              for e in range(size)]
      full = shape + xs * d
      if k == 'p':
        out.append(np.array(vals, dtype=float).reshape(full))
      else:
        out.append(tuple(np.array([v[j] for v in vals], dtype=float)
                         .reshape(full) for j in (0, 1)))
    return tuple(out)
  for seed in range(3):
    e, a = make((), ke, seed), make(x_shape, ka, seed + 1)
    ar = ea.TaylorEnclosureArithmetic(D, region, np)
    ch.count(1)
    r = ar.compose_enclosures(e, a)
    v = eval_enclosure(r, encl.points_of(region)[0], n)
    ch.check(v[0].shape == shape, 'shape:compose',
             lambda: f'{v[0].shape} instead of {shape}')
    check_composition(ch, 'compose_shapes', r, e, a, region, D, n)


# --- lowering the degree ----------------------------------------------------


def run_reduce(ch, x_shape, ka, region, D, limit):
  n = len(x_shape)
  a, = encl.lanes(x_shape, [ka], limit)
  ch.count(1)
  r = ea.enclose_enclosure(a, region, D, np)
  ch.check(1 <= len(r) <= min(D + 1, len(a)), 'degree:reduce',
           lambda: f'{len(r)} terms from {len(a)} with max degree {D}')
  same = len(r) if len(a) <= D + 1 else D
  for i in range(same):
    ch.check(isinstance(r[i], tuple) == isinstance(a[i], tuple)
             and np.array_equal(ends(r[i]), ends(a[i])), 'kept:reduce',
             lambda: f'coefficient {i} changed from {a[i]} to {r[i]}')
  for z in encl.points_of(region):
    lo, hi = eval_enclosure(a, z, n)
    inside(ch, 'reduce', r, z, n, lo, hi, magnitude(a, z, n), lambda i: (
        f'{lane(a, i)} region {region} max_degree {D} -> {lane(r, i)}'))
  ch.outcome([np.asarray(ends(c)).tobytes() for c in r])


def reduce(ch):
  ka = ch.pick(encl.kinds(5))
  region = ch.pick(encl.regions(()) + [(np.float64(.5), np.float64(1.)),
                                       (np.float64(-2.), np.float64(-.25))])
  ch.shard()
  D = ch.choose(5)
  run_reduce(ch, (), ka, region, D, 2000)


def reduce_vector(ch):
  x_shape = ch.pick([(1,), (2,), (3,), (1, 2), (2, 2)])
  ka = ch.pick(encl.kinds(3 if x_shape in ((3,), (2, 2)) else 4))
  region = ch.pick(encl.regions(x_shape))
  ch.shard()
  D = ch.choose(4)
  run_reduce(ch, x_shape, ka, region, D, 150)


# --- elementwise functions --------------------------------------------------


def primitive_functions():
  def power(p):
    return (lambda x0, tr, d, np_: pe.pow_enclosure(p, x0, tr, d, np_))
  val = lambda p: (lambda u: ref.f_pow(p, u))
  out = []
  for name, top in (('abs', 1), ('exp', 4), ('log', 4), ('sigmoid', 4),
                    ('softplus', 4), ('swish', 4)):
    enc = getattr(pe, f'{name}_enclosure')
    domain = {'log': 'positive', 'abs': 'smooth'}.get(name, 'all')
    out.append((name, enc, ref.VALUES[name], top, domain))
  for p, domain in ((2, 'all'), (3, 'all'), (-1, 'nonzero'), (-2, 'nonzero'),
                    (0.5, 'positive'), (-0.5, 'positive'), (1.5, 'positive')):
    out.append((f'pow{p}', power(p), val(p), 4, domain))
  return out


N_FUNCTIONS = 13


def functions(ch):
  k = ch.choose(N_FUNCTIONS)
  x_shape = ch.pick([(), (2,), (1,)])
  ka = ch.pick(encl.kinds(3, c0_interval=False))
  ch.shard()
  name, enc, value, top, domain = primitive_functions()[k]
  ch.labels[-3] = name
  D = ch.choose(top + 1)
  if x_shape == (2,) and D > 2 and not deep():
    return
  region = ch.pick(encl.regions(x_shape)[:4])
  given = ch.pick(['derived', 'inflated', 'exact'])
  n = len(x_shape)
  a, = encl.lanes(x_shape, [ka], 150)
  if domain == 'positive':
    a = (a[0] + 4.,) + a[1:]
  keep = np.ones(a[0].shape, bool)
  if domain in ('positive', 'nonzero'):
    keep &= np.asarray(encl.away_from_zero(a, region, n, domain == 'positive'))
  if domain == 'smooth' and D > 0:
    keep &= a[0] != 0
  if not keep.any():
    return
  a = tuple(tuple(t[keep] for t in c) if isinstance(c, tuple) else c[keep]
            for c in a)
  lo, hi = (np.asarray(t, float) for t in encl.range_of(a, region, n))
  lo, hi = np.broadcast_to(lo, a[0].shape), np.broadcast_to(hi, a[0].shape)
  ar = ea.TaylorEnclosureArithmetic(D, region, np)
  fun = ar.get_elementwise_fun(enc)
  ch.count(1)
  if given == 'derived':
    r = fun(a)
  elif given == 'exact':
    r = fun(a, (lo, hi))
  else:
    w = np.minimum(0.5, np.abs(np.where(np.sign(lo) == np.sign(hi),
                                        np.minimum(np.abs(lo), np.abs(hi)),
                                        1.)) / 2)
    r = fun(a, (lo - w, hi + w))
  ch.check(1 <= len(r) <= D + 1, f'degree:{name}', lambda: f'{len(r)} {D}')
  for z in encl.points_of(region):
    al, ah = eval_enclosure(a, z, n)
    point = not any(isinstance(c, tuple) for c in a)
    for t in ((0.,) if point else W):
      u = al + (ah - al) * LD(t)
      f = value(u)
      inside(ch, f'{name}:{D}', r, z, n, f, f,
             100 * magnitude(a, z, n) + np.abs(f), lambda i: (
                 f'{name} of {lane(a, i)} region {region} ({given}) '
                 f'max_degree {D} u={u[i]} -> {lane(r, i)}'))
  ch.outcome([np.asarray(ends(c)).tobytes() for c in r])


def recorder(ch):
  """What the enclosure function is called with."""
  x_shape = ch.pick([(), (2,)])
  ka = ch.pick(encl.kinds(3, c0_interval=True))
  region = ch.pick(encl.regions(x_shape))
  ch.shard()
  D = 0 if ka[0] == 'i' else ch.choose(4)
  given = ch.pick(['derived', 'interval', 'array'])
  n = len(x_shape)
  a, = encl.lanes(x_shape, [ka], 200)
  calls = []
  def enclosure(x0, trust_region, degree, np_like):
    calls.append((x0, trust_region, degree, np_like))
    return tuple(np.ones_like(x0) for _ in range(degree)) + (
        (np.zeros_like(x0), np.ones_like(x0)),)
  ar = ea.TaylorEnclosureArithmetic(D, region, np)
  fun = ar.get_elementwise_fun(enclosure)
  l0, h0 = ends(a[0])
  given_region = {'derived': None, 'interval': (l0 - 3., h0 + 5.),
                  'array': l0 + 0.}[given]
  ch.count(1)
  fun(a, given_region) if given_region is not None else fun(a)
  ch.check(len(calls) == 1, 'calls', lambda: f'{len(calls)} calls')
  x0, tr, degree, np_like = calls[0]
  ch.check(degree == D and np_like is np, 'arguments',
           lambda: f'degree {degree} of {D}, back end {np_like}')
  ch.check(isinstance(tr, tuple) and len(tr) == 2, 'region-type',
           lambda: f'{tr}')
  x0 = np.asarray(x0)
  ch.check(bool(np.all((l0 <= x0) & (x0 <= h0))), 'reference',
           lambda: f'reference point {x0} for {a[0]}')
  if given == 'derived':
    for z in encl.points_of(region):
      al, ah = eval_enclosure(a, z, n)
      ok = (tr[0] <= al + 1e-12) & (ah <= tr[1] + 1e-12)
      i = first_bad(ok)
      ch.check(i is None, 'region', lambda: (
          f'trust region {tr[0][i]}, {tr[1][i]} of {lane(a, i)} misses '
          f'({al[i]}, {ah[i]}) at z={z}'))
  else:
    want = given_region if given == 'interval' else (l0, l0)
    ch.check(np.array_equal(tr[0], want[0]) and np.array_equal(tr[1], want[1]),
             'given-region', lambda: f'{tr} instead of {want}')
  ch.outcome((ka, D, given, repr(tr)))


def long(ch):
  """Arguments with up to seven terms, most of which are zero."""
  terms = 4 + ch.choose(4)
  kind = ch.pick(('p', 'i'))
  nonzero = 1 + ch.choose(terms - 1)
  region = ch.pick(encl.regions(()) + [(np.float64(-2.), np.float64(2.)),
                                       (np.float64(-1.), np.float64(0.))])
  ch.shard()
  other = ch.choose(terms)    # a second nonzero term; 0: none
  if other and other <= nonzero:
    return
  c = [np.array([.25, -1.])] + [np.zeros(2)] * (terms - 1)
  for n, i in enumerate((nonzero, other)):
    if i:
      v = np.array([.5, -.375]) / (1 + n)
      c[i] = (v - .25, v + .5) if kind == 'i' else v
  a = tuple(c)
  for D in (terms - 1, max(terms - 3, 1), 1, 0):
    for fname, e in (('recorded', None), ('cubic', 'pppi'), ('linear', 'pi')):
      ar = ea.TaylorEnclosureArithmetic(D, region, np)
      if e is not None:
        e_full, = encl.lanes((), [e], 40)
        for j in range(2, len(ends(e_full[0])[0]), 5 if deep() else 19):
          el = tuple(tuple(t[j] for t in q) if isinstance(q, tuple) else q[j]
                     for q in e_full)
          ch.count(1)
          r = ar.compose_enclosures(
              tuple(tuple(np.full(2, t) for t in q) if isinstance(q, tuple)
                    else np.full(2, q) for q in el), a)
          check_composition(ch, f'long:{fname}', r,
                            tuple(tuple(np.full(2, t) for t in q)
                                  if isinstance(q, tuple) else np.full(2, q)
                                  for q in el), a, region, D, 0)
        continue
      calls = []
      def enclosure(x0, trust_region, degree, np_like):
        calls.append((x0, trust_region))
        return tuple(np.ones_like(x0) for _ in range(degree)) + (
            (np.zeros_like(x0), np.ones_like(x0)),)
      ch.count(1)
      ar.get_elementwise_fun(enclosure)(a)
      (_, tr), = calls
      for z in encl.points_of(region):
        al, ah = eval_enclosure(a, z, 0)
        ok = (tr[0] <= al + 1e-12) & (ah <= tr[1] + 1e-12)
        i = first_bad(ok)
        ch.check(i is None, 'long:region', lambda: (
            f'trust region {tr[0][i]}, {tr[1][i]} of {lane(a, i)} misses '
            f'({al[i]}, {ah[i]}) at z={z}, maximum degree {D}'))
      # natural interval extension over-estimated by at most a factor of two
      lo, hi = encl.range_of(a, region, 0)
      w = hi - lo
      ch.check(bool(np.all((tr[0] >= lo - .5 * w - 1e-9) &
                           (tr[1] <= hi + .5 * w + 1e-9))), 'long:wide',
               lambda: f'trust region {tr} of {a} over {region}, expected '
               f'about ({lo}, {hi})')
      ch.outcome((kind, terms, nonzero, other, D, repr(tr)))


def jax_ops(ch):
  x_shape = ch.pick([(), (2,)])
  ke = ch.pick(['ppi', 'pi', 'pppi'])
  ka = ch.pick(['pp', 'ppi', 'pi'])
  D = ch.choose(3)
  ch.shard()
  np_ = NP['jnp']
  conv = lambda enc: tuple(
      tuple(map(np_.asarray, c)) if isinstance(c, tuple) else np_.asarray(c)
      for c in enc)
  run_compose(ch, x_shape, ke, ka, encl.regions(x_shape)[0], D, 30, conv, np_)


SPACES = {'compose': compose, 'compose_vector': compose_vector,
          'compose_shapes': compose_shapes, 'reduce': reduce,
          'reduce_vector': reduce_vector, 'functions': functions,
          'recorder': recorder, 'long': long, 'jax_ops': jax_ops}
