"""C10: function library - derivatives, ranges and monotonicity."""

import itertools
import math

from mc import core

if core.WORKER:
  import numpy as np
  from mc import ref
  from mc.lib import *  # pylint: disable=wildcard-import
  from autobound import elementwise_functions as ef
  NP = backends()

BOUNDS = {
    'quick': 'all function ids (abs 0-1, exp/log 0-8, sigmoid 0-4, softplus '
             '0-5, swish 0-4, extrema table to order 5); derivatives at ~60 '
             'points; ranges and monotonicity over all intervals of a lattice '
             'with every critical point, its neighbours at 1e-6 and far '
             'points; synthetic FunctionData with up to 4 extrema',
}
ASSUMPTIONS = ['longdouble jets give the true derivatives to 1e-15 relative '
               'to their envelope']

ORDERS = {'abs': 2, 'exp': 9, 'log': 9, 'sigmoid': 5, 'softplus': 6,
          'swish': 5}


def tasks(tier):
  ts = []
  for name, n in (('derivs', 4), ('taylor', 4), ('ranges', 8),
                  ('monotone', 6), ('synthetic', 6), ('ids', 1)):
    ts += core.shards(name, n)
  ts += core.shards('derivs', 2, mode='x32')
  ts += core.shards('ranges', 2, mode='x32')
  return ts


def run_task(task, stats):
  core.simple_run_task(SPACES, task, stats)


def fid(name):
  return getattr(ef, name.upper())


def eps():
  return 2.3e-16 if is_x64() else 1.2e-7


def arr(np_, v):
  return np_.asarray(v) if is_x64() or np_ is np else np_.asarray(
      v, dtype='float32')


def points(name):
  base = [0., 1e-8, 1e-3, 0.25, 0.5, 1., 1.5, 2., 3., 5., 8., 13., 20., 36.,
          50.]
  if name == 'exp':
    return sorted({s * p for p in base for s in (1, -1)} | {-700., 300.})
  if name == 'log':
    return sorted({p for p in base if p > 0} | {1e-30, 1e30})
  crit = set()
  for k in range(ORDERS[name] + 1):
    crit |= {float(x) for x, _ in ref.extrema(name, k)} if (
        name != 'abs') else set()
  return sorted({s * p for p in base for s in (1, -1)} | crit |
                {-300., 300., -800., 800.})


def envelope(name, k, x):
  """Magnitude against which rounding errors of the k-th derivative scale."""
  x = np.asarray(x, dtype=LD)
  if name in ('exp', 'log', 'abs'):
    return np.abs(ref.derivative(name, k, x)) + (
        1 if name == 'log' and k == 0 else 0)
  e = np.exp(-np.abs(x))
  if name == 'sigmoid':
    return ref.f_sigmoid(x) if k == 0 else 40 * e
  if name == 'softplus':
    return (ref.f_softplus(x) + e if k == 0 else
            ref.f_sigmoid(x) if k == 1 else 40 * e)
  return (np.abs(x) * ref.f_sigmoid(x) if k == 0 else
          (1 + np.abs(x)) * ref.f_sigmoid(x) if k == 1 else
          40 * (1 + np.abs(x)) * e)


def pick_function(ch):
  name = ch.pick(['abs', 'exp', 'log', 'sigmoid', 'softplus', 'swish'])
  k = ch.choose(ORDERS[name])
  return name, k


def derivs(ch):
  """get_function is the derivative, at every point; arrays and scalars."""
  backend = ch.pick(['np', 'jnp'] if is_x64() else ['jnp'])
  name, k = pick_function(ch)
  layout = ch.pick(['vector', 'matrix', 'zero_d', 'via_steps'])
  ch.shard()
  np_ = NP[backend]
  xs = points(name)
  if not is_x64():
    xs = [float(np.float32(x)) for x in xs if 60 > abs(x) > 1e-3 or x == 0]
  if layout == 'via_steps':
    f_id = fid(name)
    for _ in range(k):
      f_id = f_id.derivative_id(1)
  else:
    f_id = fid(name).derivative_id(k)
  ch.count(1)
  f = ef.get_function(f_id, np_)
  x = np.array(xs)
  if name == 'abs' and k == 1:
    x = x[x != 0] if layout != 'vector' else x
  with np.errstate(all='ignore'):
    if layout == 'zero_d':
      step = 1 if backend == 'np' else 5
      x = x[::step]
      got = np.array([float(f(arr(np_, t))) for t in x])
    elif layout == 'matrix':
      x = np.stack([x, x[::-1]])
      got = np.asarray(f(arr(np_, x)))
    else:
      got = np.asarray(f(arr(np_, x)))
  if got.shape != x.shape:
    ch.fail(f'shape:{name}{k}', f'{got.shape} for argument {x.shape}')
  want = ref.derivative(name, k, x)
  with np.errstate(all='ignore'):
    tol = 60 * eps() * (envelope(name, k, x) + np.abs(want)) + (
        1e-300 if is_x64() else 1e-35)
    ok = np.abs(got - want) <= tol
  ch.count(evaluations=x.size)
  i = first_bad(ok)
  if i is not None:
    ch.fail(f'value:{name}{k}', f'{name}^({k}) at {x[i]} is {got[i]}, true '
            f'derivative {want[i]} (tolerance {tol[i]})')
  ch.outcome((name, k, got.tolist()))


def taylor(ch):
  backend = ch.pick(['np', 'jnp'])
  name, k = pick_function(ch)
  layout = ch.pick(['vector', 'zero_d'])
  ch.shard()
  np_ = NP[backend]
  x = np.array([t for t in points(name) if abs(t) < 100 and
                (name != 'abs' or t != 0) and
                (name != 'log' or t > 1e-6)])
  def call(v):
    ch.count(1)
    c = ef.get_taylor_polynomial_coefficients(fid(name), k, np_.asarray(v),
                                              np_)
    if len(c) != k + 1:
      ch.fail(f'length:{name}{k}', f'{len(c)} coefficients')
    return [np.asarray(t) for t in c]
  with np.errstate(all='ignore'):
    if layout == 'vector':
      got = call(x)
    else:
      x = x[::4]
      got = [np.array(t) for t in zip(*[call(t) for t in x])]
  for i, g in enumerate(got):
    want = ref.derivative(name, i, x) / LD(math.factorial(i))
    tol = 60 * eps() * (envelope(name, i, x) + np.abs(want))
    ch.count(evaluations=x.size)
    j = first_bad(np.abs(g - want) <= tol)
    if j is not None:
      ch.fail(f'coefficient:{name}{k}:{i}', f'coefficient {i} of {name} at '
              f'{x[j]} is {g[j]}, expected {want[j]}')
    ch.outcome((name, i, g.tolist()))


def lattice(name, k, fine):
  pts = {0., 0.3, 1., 2., 4., 7., 12., 30.}
  if name == 'log':
    pts = {0.01, 0.2, 0.5, 1., 1.5, 2., 4., 9., 50.}
    return sorted(pts)
  pts |= {-p for p in pts}
  for j in (k, k + 1) if fine else (k,):
    for x, _ in ref.extrema(name, j):
      x = float(x)
      pts |= {x, x - 1e-6, x + 1e-6} if j == k else {x}
  if fine:
    # The extrema as tabulated in the library (within rounding of the true
    # ones): intervals may end exactly there.
    try:
      data = ef.get_function_data(fid(name).derivative_id(k))
      for x in tuple(data.local_minima) + tuple(data.local_maxima):
        if any(abs(x - float(e)) < 1e-9 for e, _ in ref.extrema(name, k)):
          pts |= {x}
    except (NotImplementedError, AttributeError):
      pass
  return sorted(pts)


def ranges(ch):
  backend = ch.pick(['np', 'jnp'] if is_x64() else ['jnp'])
  name, k = pick_function(ch)
  layout = ch.pick(['vector', 'matrix', 'zero_d'])
  ch.shard()
  np_ = NP[backend]
  pts = lattice(name, k, True)
  if not is_x64():
    pts = sorted({float(np.float32(p)) for p in pts})
  iv = intervals_of(pts)
  if layout == 'zero_d':
    iv = iv[::(11 if backend == 'np' else 61)]
  a = np.array([p for p, _ in iv])
  b = np.array([q for _, q in iv])
  f_id = fid(name).derivative_id(k)
  with np.errstate(all='ignore'):
    if layout == 'zero_d':
      ch.count(a.size)
      r = [ef.get_range(f_id, (arr(np_, p), arr(np_, q)), np_)
           for p, q in zip(a, b)]
      lo = np.array([float(t[0]) for t in r])
      hi = np.array([float(t[1]) for t in r])
    elif layout == 'matrix':
      ch.count(1)
      a, b = np.stack([a, a[::-1]]), np.stack([b, b[::-1]])
      lo, hi = map(np.asarray,
                   ef.get_range(f_id, (arr(np_, a), arr(np_, b)), np_))
    else:
      ch.count(1)
      lo, hi = map(np.asarray,
                   ef.get_range(f_id, (arr(np_, a), arr(np_, b)), np_))
  if lo.shape != a.shape or hi.shape != a.shape:
    ch.fail(f'shape:{name}{k}', f'{lo.shape} {hi.shape} for {a.shape}')
  d = lambda x: ref.derivative(name, k, x)
  wl, wh = np.minimum(d(a), d(b)), np.maximum(d(a), d(b))
  for x, is_min in ref.extrema(name, k):
    inside = (a <= x) & (x <= b)
    v = d(x)
    if is_min:
      wl = np.where(inside, np.minimum(wl, v), wl)
    else:
      wh = np.where(inside, np.maximum(wh, v), wh)
  env = envelope(name, k, np.where(np.abs(a) < np.abs(b), a, b)) + np.where(
      (a <= 0) & (b >= 0), 2., 0.)
  tol = 100 * eps() * (env + np.abs(wl) + np.abs(wh))
  ch.count(evaluations=a.size)
  for got, want, what in ((lo, wl, 'minimum'), (hi, wh, 'maximum')):
    i = first_bad(np.abs(got - want) <= tol)
    if i is not None:
      ch.fail(f'{what}:{name}{k}', f'{what} of {name}^({k}) over [{a[i]!r}, '
              f'{b[i]!r}] reported as {got[i]!r}, is {want[i]!r}')
  ch.outcome((name, k, lo.tolist(), hi.tolist()))


DATA_ORDERS = {'abs': 2, 'exp': 9, 'log': 9, 'sigmoid': 5, 'softplus': 6,
               'swish': 6}


def monotone(ch):
  backend = ch.pick(['np', 'jnp'])
  name = ch.pick(['abs', 'exp', 'log', 'sigmoid', 'softplus', 'swish'])
  k = ch.choose(DATA_ORDERS[name])
  layout = ch.pick(['vector', 'matrix', 'zero_d'])
  ch.shard()
  np_ = NP[backend]
  iv = [p for p in intervals_of(lattice(name, k, True)) if p[0] < p[1]]
  if layout == 'zero_d':
    iv = iv[::(5 if backend == 'np' else 41)]
  a = np.array([p for p, _ in iv])
  b = np.array([q for _, q in iv])
  data = ef.get_function_data(fid(name).derivative_id(k))
  if layout == 'zero_d':
    ch.count(a.size)
    r = [data.monotone_over((arr(np_, p), arr(np_, q)), np_)
         for p, q in zip(a, b)]
    dec = np.array([bool(t[0]) for t in r])
    inc = np.array([bool(t[1]) for t in r])
  else:
    if layout == 'matrix':
      a, b = a.reshape(1, -1), b.reshape(1, -1)
    ch.count(1)
    dec, inc = map(np.asarray, data.monotone_over((arr(np_, a), arr(np_, b)),
                                                  np_))
  ch.count(evaluations=a.size)
  if dec.shape != a.shape or inc.shape != a.shape:
    ch.fail(f'shape:{name}{k}', f'{dec.shape} {inc.shape} for {a.shape}')
  ext = ref.extrema(name, k)
  slack = LD(1e-9)
  clearly_inside = np.zeros(a.shape, bool)
  maybe_inside = np.zeros(a.shape, bool)
  for x, _ in ext:
    clearly_inside |= (a < x - slack) & (b > x + slack)
    # An interval that ends at the tabulated extremum is monotone as far as
    # the library can tell.
    maybe_inside |= (a < x + slack) & (b > x - slack) & ~(
        (np.abs(a - x) < slack) | (np.abs(b - x) < slack))
  d = lambda x: ref.derivative(name, k, x)
  up = d(b) >= d(a)
  strict = np.abs(d(b) - d(a)) > 0
  i = first_bad(~(clearly_inside & (dec | inc)))
  if i is not None:
    ch.fail(f'false:{name}{k}', f'{name}^({k}) reported monotone over '
            f'[{a[i]!r}, {b[i]!r}] (decreasing={dec[i]}, increasing={inc[i]})')
  wide = (b - a) > 1e-7
  i = first_bad(~(~clearly_inside & strict & wide &
                  ((up & dec & ~inc) | (~up & inc & ~dec))))
  if i is not None:
    ch.fail(f'direction:{name}{k}', f'{name}^({k}) direction wrong over '
            f'[{a[i]!r}, {b[i]!r}]')
  i = first_bad(~(~clearly_inside & strict & wide & dec & inc))
  if i is not None:
    ch.fail(f'direction:{name}{k}', f'{name}^({k}) reported both increasing '
            f'and decreasing over [{a[i]!r}, {b[i]!r}]')
  # Must be reported if no extremum is inside; end points may be the tabulated
  # extremum itself.
  table = [float(x) for x in tuple(data.local_minima) +
           tuple(data.local_maxima)]
  near = lambda e: np.any([np.abs(e - t) < 1e-9 for t in table] +
                          [np.zeros(a.shape, bool)], axis=0)
  on = lambda e: np.any([e == t for t in table] +
                        [np.zeros(a.shape, bool)], axis=0)
  decided = (~near(a) | on(a)) & (~near(b) | on(b))
  i = first_bad(~(~maybe_inside & decided & ~dec & ~inc))
  if i is not None:
    ch.fail(f'missed:{name}{k}', f'{name}^({k}) is monotone over [{a[i]!r}, '
            f'{b[i]!r}] but reported as not monotone')
  if data.monotonically_increasing or data.monotonically_decreasing:
    ch.check(not ext, f'globally:{name}{k}', f'{name}^({k}) is not monotone')
  if data.even_symmetric:
    i = first_bad(np.abs(d(a) - d(-a)) < 1e-15 * (1 + np.abs(d(a))))
    if i is not None:
      ch.fail(f'even:{name}{k}', f'{name}^({k}) is not even')
  ch.outcome((name, k, dec.tolist(), inc.tolist()))


def synthetic(ch):
  """FunctionData with every pattern of up to 4 alternating extrema."""
  n = ch.choose(5)
  first_is_min = ch.flag() if n else False
  monotone_dir = ch.pick([None, 'dec', 'inc']) if n == 0 else None
  backend = ch.pick(['np', 'jnp'])
  layout = ch.pick(['vector', 'matrix', 'zero_d', 'python', 'broadcast'])
  ch.shard()
  np_ = NP[backend]
  pts = [-2., -1., 0., 1.5][:n]
  kinds = [(i % 2 == 0) == first_is_min for i in range(n)]
  data = ef.FunctionData(
      tuple(p for p, m in zip(pts, kinds) if m),
      tuple(p for p, m in zip(pts, kinds) if not m),
      monotonically_decreasing=monotone_dir == 'dec',
      monotonically_increasing=monotone_dir == 'inc')
  lat = sorted(set(pts) | {-3., -2.5, -1.5, -0.5, 0.7, 1., 2., 5.})
  iv = intervals_of(lat)
  a = np.array([p for p, _ in iv])
  b = np.array([q for _, q in iv])
  def pieces():
    """Maximal monotone pieces: (left, right, increasing)."""
    edges = [-np.inf] + pts + [np.inf]
    for i in range(n + 1):
      if n == 0:
        if monotone_dir:
          yield -np.inf, np.inf, monotone_dir == 'inc'
      else:
        yield edges[i], edges[i + 1], kinds[i - 1] if i else not kinds[0]
  want_dec = np.zeros(a.shape, bool)
  want_inc = np.zeros(a.shape, bool)
  for l, r, up in pieces():
    inside = (l <= a) & (b <= r)
    if up:
      want_inc |= inside
    else:
      want_dec |= inside
  if layout in ('zero_d', 'python'):
    conv = np_.asarray if layout == 'zero_d' else float
    if backend == 'jnp':
      a, b, want_dec, want_inc = (v[::7] for v in (a, b, want_dec, want_inc))
    ch.count(a.size)
    r = [data.monotone_over((conv(p), conv(q)), np_) for p, q in zip(a, b)]
    dec = np.array([np.asarray(t[0]) for t in r])
    inc = np.array([np.asarray(t[1]) for t in r])
  elif layout == 'broadcast':
    # elementwise over a matrix of regions
    a2, b2 = np.stack([a, a, a - 1]), np.stack([b, b + 1, b])
    ch.count(1)
    r1 = data.monotone_over((np_.asarray(a2), np_.asarray(b2)), np_)
    r2 = [data.monotone_over((np_.asarray(p), np_.asarray(q)), np_)
          for p, q in zip(a2, b2)]
    for j in (0, 1):
      ch.check(np.array_equal(np.asarray(r1[j]),
                              np.stack([np.asarray(t[j]) for t in r2])),
               'rows', 'matrix of regions differs from its rows')
    return
  else:
    if layout == 'matrix':
      a, b, want_dec, want_inc = (v.reshape(1, -1) for v in
                                  (a, b, want_dec, want_inc))
    ch.count(1)
    dec, inc = map(np.asarray, data.monotone_over(
        (np_.asarray(a), np_.asarray(b)), np_))
  ch.count(evaluations=2 * a.size)
  for got, want, what in ((dec, want_dec, 'decreasing'),
                          (inc, want_inc, 'increasing')):
    if got.shape != want.shape:
      ch.fail('shape', f'{got.shape} for {want.shape}')
    i = first_bad(got == want)
    if i is not None:
      ch.fail(what, f'extrema {list(zip(pts, kinds))}: {what} over '
              f'[{a[i]}, {b[i]}] reported {got[i]}, expected {want[i]}')
  ch.outcome((dec.tolist(), inc.tolist()))


def ids(ch):
  """Identifiers: derivative_id composes, and unsupported orders raise."""
  name = ch.pick(['abs', 'exp', 'log', 'sigmoid', 'softplus', 'swish'])
  i, j = ch.choose(4), ch.choose(4)
  ch.count(3)
  a = fid(name).derivative_id(i).derivative_id(j)
  b = fid(name).derivative_id(i + j)
  ch.check(a == b and hash(a) == hash(b), 'compose', f'{a} != {b}')
  ch.check(a.derivative_order == i + j and a.name == name, 'order', repr(a))
  for x in (0.3, 2.):
    try:
      v = float(ef.get_function(a, np)(np.array(x)))
    except NotImplementedError:
      ch.check(i + j >= ORDERS[name], f'unsupported:{name}', repr(a))
    else:
      w = float(ref.derivative(name, i + j, x))
      ch.check(abs(v - w) <= 1e-12 * (1 + abs(w)), f'value:{name}', repr(a))
      ch.outcome((name, i + j, v))


SPACES = dict(derivs=derivs, taylor=taylor, ranges=ranges, monotone=monotone,
              synthetic=synthetic, ids=ids)
