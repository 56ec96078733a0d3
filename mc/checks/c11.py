"""C11: polynomial algebra is exact over any coefficient algebra."""

import itertools
import math

from mc import core

if core.WORKER:
  import numpy as np
  from mc.lib import *  # pylint: disable=wildcard-import
  from autobound import polynomials
  from autobound.interval_arithmetic import IntervalArithmetic
  NP = backends()

BOUNDS = {
    'quick': 'products of polynomials with up to 6x6 terms and powers with up '
             'to 5 terms and exponent up to 6 (7 and 8 in thorough) in a free '
             'algebra; all integer polynomials over {-1,0,1,2} with up to 4 '
             'terms; all interval polynomials with up to 3 terms over 8 '
             'intervals/points, exponent up to 5; evaluation at points and '
             'intervals with 0 to 3 dimensional x, up to 4 terms',
}
ASSUMPTIONS = [
    'exact arithmetic: integer or dyadic coefficients',
]


def tasks(tier):
  ts = []
  for name, n in (('free_product', 4), ('free_power', 8), ('free_eval', 1),
                  ('integers', 8), ('intervals', 8), ('interval_product', 4),
                  ('taylor_eval', 12), ('elementwise_eval', 6)):
    ts += core.shards(name, n)
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  core.simple_run_task(SPACES, task, stats)


# --- free graded commutative algebra ---------------------------------------


class Free:
  """Element of Z[a0, a1, ...; b0, b1, ...], a_i and b_i having weight i."""

  def __init__(self, terms):
    self.terms = {m: c for m, c in terms.items() if c}

  def __eq__(self, other):
    return isinstance(other, Free) and self.terms == other.terms

  def __repr__(self):
    return ' + '.join(f'{c}*{m}' for m, c in sorted(self.terms.items())) or '0'

  def weights(self):
    return {sum(i for _, i in m) for m in self.terms}


def fadd(x, y):
  t = dict(x.terms)
  for m, c in y.terms.items():
    t[m] = t.get(m, 0) + c
  return Free(t)


def fmul(x, y):
  t = {}
  for m, c in x.terms.items():
    for n, d in y.terms.items():
      k = tuple(sorted(m + n))
      t[k] = t.get(k, 0) + c * d
  return Free(t)


ZERO_TERMS = {}


def symbol(name, i):
  return Free({((name, i),): 1})


def naive_product(a, b, mul, zero):
  out = [zero] * (len(a) + len(b) - 1)
  for i, x in enumerate(a):
    for j, y in enumerate(b):
      out[i + j] = fadd(out[i + j], mul(x, y))
  return out


def free_product(ch):
  """Every pair of lengths; the bilinear map need not be commutative."""
  n, m = ch.choose(6) + 1, ch.choose(6) + 1
  commutative = ch.flag()
  zero_a = ch.choose(n + 1) - 1     # position of a zero coefficient, or none
  ch.shard()
  zero = Free({})
  a = [zero if i == zero_a else symbol('a', i) for i in range(n)]
  b = [symbol('b', j) for j in range(m)]
  calls = []
  def mul(x, y):
    if commutative:
      return fmul(x, y)
    t = {}
    for p, c in x.terms.items():
      for q, d in y.terms.items():
        t[p + q] = t.get(p + q, 0) + c * d
    return Free(t)
  def term(x, y, i, j):
    ch.count(1)
    if x.terms and x.weights() != {i}:
      ch.fail('degree', f'first operand {x} passed with degree {i}')
    if y.terms and y.weights() != {j}:
      ch.fail('degree', f'second operand {y} passed with degree {j}')
    calls.append((i, j))
    return mul(x, y)
  def add(x, y):
    if not (isinstance(x, Free) and isinstance(y, Free)):
      ch.fail('callback', f'add called with {x!r}, {y!r}')
    return fadd(x, y)
  got = polynomials.arbitrary_bilinear(a, b, add, zero, term)
  want = naive_product(a, b, mul, zero)
  ch.check(isinstance(got, tuple), 'type', type(got))
  ch.check(list(got) == want, 'product', lambda: f'{a} * {b} = {got}, '
           f'expected {want}')
  ch.outcome(repr(got))


def free_power(ch):
  deep = TIER == 'thorough'
  n = ch.choose(6 if deep else 5) + 1
  k = ch.choose(9 if deep else 7)
  if math.comb(n + k - 1, k) > (2000 if deep else 500):
    return
  pattern = ch.choose(2**n) if n <= 4 else ch.choose(2)   # zero coefficients
  ch.shard()
  zero, one = Free({}), Free({(): 1})
  a = [zero if pattern >> i & 1 else symbol('a', i) for i in range(n)]
  def term(x, y, i, j):
    ch.count(1)
    if x.terms and x.weights() != {i}:
      ch.fail('degree', f'first operand {x} passed with degree {i}')
    if y.terms and y.weights() != {j}:
      ch.fail('degree', f'second operand {y} passed with degree {j}')
    return fmul(x, y)
  def power(x, i, j):
    if x.terms and x.weights() != {i}:
      ch.fail('degree', f'operand {x} of power passed with degree {i}')
    if not 0 <= j <= k:
      ch.fail('degree', f'exponent {j}')
    r = one
    for _ in range(j):
      r = fmul(r, x)
    return r
  def scalar(c, x):
    if not (isinstance(c, int) and c >= 0 and isinstance(x, Free)):
      ch.fail('callback', f'scalar_product called with {c!r}, {x!r}')
    return Free({m: c * d for m, d in x.terms.items()})
  def add(x, y):
    if not (isinstance(x, Free) and isinstance(y, Free)):
      ch.fail('callback', f'add called with {x!r}, {y!r}')
    return fadd(x, y)
  got = polynomials.integer_power(a, k, add, zero, one, term, power, scalar)
  want = [one]
  for _ in range(k):
    want = naive_product(want, a, fmul, zero)
  ch.check(len(got) == len(want), 'length', f'{len(got)} != {len(want)}')
  for i, (g, w) in enumerate(zip(got, want)):
    ch.check(g == w, 'power', lambda: f'n={n} k={k} coefficient {i}: {g}, '
             f'expected {w}')
  ch.outcome(repr(got))


def free_eval(ch):
  n = ch.choose(6)
  ch.shard()
  zero, one = Free({}), Free({(): 1})
  z = symbol('z', 1)
  a = [symbol('a', i) for i in range(n)]
  def inner(c, p):
    ch.count(1)
    return fmul(c, p)
  def power(x, i):
    ch.check(x == z and i >= 0, 'outer_power', f'{x} {i}')
    r = one
    for _ in range(i):
      r = fmul(r, x)
    return r
  got = polynomials.eval_polynomial(a, z, inner, power, fadd, zero, one)
  want = zero
  for i in range(n):
    want = fadd(want, fmul(a[i], power(z, i)))
  ch.check(got == want, 'eval', f'{got} != {want}')
  ch.outcome(repr(got))


# --- integers, default callbacks -------------------------------------------


def integers(ch):
  menu = [-1, 0, 1, 2]
  n = ch.choose(4) + 1
  a = [ch.pick(menu) for _ in range(n)]
  ch.shard()
  mode = ch.choose(8)
  ch.count(1)
  if mode < 6:
    got = polynomials.integer_power(a, mode)
    want = np.array([1], dtype=object)
    for _ in range(mode):
      want = np.convolve(want, np.array(a, dtype=object))
  elif mode == 6:
    for m in range(1, 4):
      for b in itertools.product(menu, repeat=m):
        ch.count(1, 1)
        got = polynomials.arbitrary_bilinear(a, b)
        want = np.convolve(np.array(a, dtype=object), np.array(b, dtype=object))
        if list(got) != list(want):
          ch.fail('product', f'{a} * {b} = {got}')
    return
  else:
    for z in (-3, -1, 0, 1, 2, 5):
      ch.count(1, 1)
      got = polynomials.eval_polynomial(a, z, lambda c, p: c * p,
                                        lambda x, i: x**i)
      if got != sum(c * z**i for i, c in enumerate(a)):
        ch.fail('eval', f'{a} at {z}: {got}')
    return
  ch.check(list(got) == list(want), 'power', f'{a}**{mode} = {got}, {want}')
  ch.outcome(repr(got))
  # every negative exponent is refused
  try:
    polynomials.integer_power(a, -1)
  except ValueError:
    pass
  else:
    ch.fail('negative', 'negative exponent accepted')


# --- intervals --------------------------------------------------------------


IV = [(1., 1.), (-2., -2.), (0., 1.), (-1., 2.), (-3., -1.), (1., 2.),
      (-1., 0.), (0., 0.)]


def lanes(n, menu):
  combos = list(itertools.product(menu, repeat=n))
  lo = [np.array([c[i][0] for c in combos]) for i in range(n)]
  hi = [np.array([c[i][1] for c in combos]) for i in range(n)]
  return lo, hi


def callbacks(ia):
  return dict(
      add=ia.add, additive_identity=0., multiplicative_identity=1.,
      term_product_coefficient=lambda c0, c1, i, j: ia.multiply(c0, c1),
      term_power_coefficient=lambda c, i, j: ia.power(c, j),
      scalar_product=ia.multiply)


def intervals(ch):
  """Powers of interval polynomials: all coefficient choices, as lanes."""
  backend = ch.pick(['np', 'jnp'])
  n = ch.choose(3) + 1
  k = ch.choose(6 if backend == 'np' and n < 3 else 5 if backend == 'np' else 4)
  points = ch.choose(2**n)         # which coefficients are points
  ch.shard()
  np_ = NP[backend]
  ia = IntervalArithmetic(np_)
  lo, hi = lanes(n, IV)
  a = [np_.asarray(l) if points >> i & 1 else (np_.asarray(l), np_.asarray(h))
       for i, (l, h) in enumerate(zip(lo, hi))]
  kw = callbacks(ia)
  ch.count(1)
  got = polynomials.integer_power(a, k, **kw)
  ch.check(len(got) == (n - 1) * k + 1, 'length', len(got))
  for g in got:
    l, h = ends(g)
    ch.check(bool(np.all(l <= h)), 'empty')
  for t in itertools.product((0., 0.5, 1.), repeat=n):
    m = [l if points >> i & 1 else l + t[i] * (h - l)
         for i, (l, h) in enumerate(zip(lo, hi))]
    want = [np.ones_like(lo[0])]
    for _ in range(k):
      nxt = [np.zeros_like(lo[0])] * (len(want) + n - 1)
      for i, x in enumerate(want):
        for j, y in enumerate(m):
          nxt[i + j] = nxt[i + j] + x * y
      want = nxt
    ch.count(evaluations=len(want) * lo[0].size)
    for i, (g, w) in enumerate(zip(got, want)):
      b = first_bad(np.broadcast_to(contained(w, g, 1e-12 * (1 + np.abs(w))),
                                    w.shape))
      if b is not None:
        ch.fail(f'member:{n}:{k}', f'member {[float(x[b]) for x in m]} power '
                f'{k} coefficient {i} = {w[b]} outside')
  # at least as tight as the fully expanded product
  rep = [None] * ((n - 1) * k + 1)
  for seq in itertools.product(range(n), repeat=k):
    p = (np.ones_like(lo[0]),) * 2
    for i in seq:
      p = imul(p, a[i])
    d = sum(seq)
    rep[d] = p if rep[d] is None else iadd(rep[d], p)
  for i, (g, r) in enumerate(zip(got, rep)):
    b = first_bad(np.broadcast_to(contained(g, r, 1e-9), lo[0].shape))
    if b is not None:
      ch.fail(f'wide:{n}:{k}', f'coefficient {i} wider than expanded product')
  ch.outcome(repr([[np.asarray(e).tolist() for e in ends(g)] for g in got])[
      :2000])


def interval_product(ch):
  backend = ch.pick(['np', 'jnp'])
  n, m = ch.choose(3) + 1, ch.choose(2) + 1
  kinds = ch.choose(2**(n + m))
  ch.shard()
  if backend == 'jnp' and kinds % 5:
    return
  np_ = NP[backend]
  ia = IntervalArithmetic(np_)
  menu = IV if n + m <= 3 else IV[:5]
  lo, hi = lanes(n + m, menu)
  c = [np_.asarray(l) if kinds >> i & 1 else (np_.asarray(l), np_.asarray(h))
       for i, (l, h) in enumerate(zip(lo, hi))]
  a, b = c[:n], c[n:]
  ch.count(1)
  got = polynomials.arbitrary_bilinear(
      a, b, ia.add, 0., lambda c0, c1, i, j: ia.multiply(c0, c1))
  want = [(np.zeros_like(lo[0]),) * 2] * (n + m - 1)
  for i, x in enumerate(a):
    for j, y in enumerate(b):
      want[i + j] = iadd(want[i + j], imul(x, y))
  ch.check(len(got) == len(want), 'length')
  for i, (g, w) in enumerate(zip(got, want)):
    ch.count(evaluations=lo[0].size)
    j = first_bad(np.broadcast_to(same_interval(g, w), lo[0].shape))
    if j is not None:
      ch.fail('product', f'coefficient {i} lane {j}')
  ch.outcome(repr([[np.asarray(e).tolist() for e in ends(g)] for g in got])[
      :2000])


# --- evaluation of enclosures -----------------------------------------------


def taylor_eval(ch):
  backend = ch.pick(['np', 'jnp'])
  xs = ch.pick([(), (1,), (2,), (3,), (2, 2)])
  n = ch.choose(4) + 1
  if xs in ((3,), (2, 2)) and n > 3:
    return
  fshape = ch.pick([(), (2,), (2, 3)])
  kinds = ch.choose(2**n)          # interval pattern
  ch.shard()
  zkind = ch.pick(['point', 'interval'])
  if backend == 'jnp' and kinds not in (0, 2**n - 1, 2**(n - 1)):
    return
  np_ = NP[backend]
  size = int(np.prod(xs)) if xs else 1
  rng = np.arange(1, 10**5)
  def coefficient(i, shift):
    shape = fshape + xs * i
    k = int(np.prod(shape)) if shape else 1
    v = (((rng[:k] * 7 + 3 * i + shift) % 11) - 5) / 2.
    return v.reshape(shape)
  for variant in range(3):
    c = []
    for i in range(n):
      l = coefficient(i, 5 * variant)
      w = np.abs(coefficient(i, variant + 2)) * (variant > 0 or i % 2 == 0)
      c.append((l, l + w) if kinds >> i & 1 else l)
    cc = [tuple(map(np_.asarray, e)) if isinstance(e, tuple)
          else np_.asarray(e) for e in c]
    zmenu = [-1.5, -1., 0., 0.5, 2.]
    if zkind == 'point':
      if size <= 2:
        zs = [np.array(p).reshape(xs) for p in
              itertools.product(zmenu, repeat=size)]
      else:
        zs = [np.array([zmenu[(s * (j + 1) + t) % 5] for j in range(size)]
                       ).reshape(xs) for s in range(1, 4) for t in range(5)]
      if backend == 'jnp':
        zs = zs[::4]
      for z in zs:
        ch.count(1, 1)
        got = polynomials.eval_taylor_enclosure(cc, np_.asarray(z), np_)
        want = eval_nd(c, z, len(xs))
        gl, gh = ends(got)
        if gl.shape != fshape or gh.shape != fshape:
          ch.fail('shape', f'{gl.shape} for values of shape {fshape}')
        if (kinds == 0) and isinstance(got, tuple):
          ch.fail('kind', 'point coefficients, interval value')
        if kinds and not isinstance(got, tuple):
          ch.fail('kind', 'interval coefficients, point value')
        if not same_interval(got, want, 1e-14, 1e-12).all():
          ch.fail(f'point:{len(xs)}', f'x {xs} n {n} z {z.tolist()}: {got}, '
                  f'expected {want}')
    else:
      boxes = [(-1., 0.5), (0., 2.), (-1.5, -1.), (-2., 2.), (0.5, 0.5)]
      for s in range(5):
        zl = np.array([boxes[(s + j) % 5][0] for j in range(size)]).reshape(xs)
        zh = np.array([boxes[(s + j) % 5][1] for j in range(size)]).reshape(xs)
        ch.count(1)
        got = polynomials.eval_taylor_enclosure(
            cc, (np_.asarray(zl), np_.asarray(zh)), np_)
        gl, gh = ends(got)
        if gl.shape != fshape or gh.shape != fshape:
          ch.fail('shape', f'{gl.shape} for values of shape {fshape}')
        for t in (itertools.product((0., 0.3, 0.5, 1.), repeat=size)
                  if size <= 2 else itertools.product((0., 1.), repeat=size)):
          z = zl + np.array(t).reshape(xs) * (zh - zl)
          want = eval_nd(c, z, len(xs))
          ch.count(evaluations=1)
          if not np.all(contained(want, (gl, gh), 1e-9)):
            ch.fail(f'interval:{len(xs)}', f'value {want} at {z.tolist()} not '
                    f'in {got} over {zl.tolist()}..{zh.tolist()}')
        if n == 2 and not xs:
          # one occurrence of z: tightest
          w = iadd(c[0], imul(c[1], (zl, zh)))
          if not same_interval((gl, gh), w, 1e-14, 1e-14).all():
            ch.fail('tight', f'{got} expected {w}')
    ch.outcome(repr([np.asarray(e).tolist() for e in ends(got)]))


def eval_nd(c, z, xd):
  lo = hi = 0.
  for i, e in enumerate(c):
    l, h = ends(e)
    m = outer_pow(z, i)
    p, q = l * m, h * m
    tl, th = np.minimum(p, q), np.maximum(p, q)
    k = i * xd
    if k:
      ax = tuple(range(tl.ndim - k, tl.ndim))
      tl, th = tl.sum(axis=ax), th.sum(axis=ax)
    lo, hi = lo + tl, hi + th
  return lo, hi


def elementwise_eval(ch):
  backend = ch.pick(['np', 'jnp'])
  n = ch.choose(4) + 1
  kinds = ch.choose(2**n)
  layout = ch.pick(['lanes', 'scalars'])
  ch.shard()
  zkind = ch.pick(['point', 'interval'])
  if backend == 'jnp' and kinds not in (0, 2**n - 1, 2**(n - 1)):
    return
  np_ = NP[backend]
  menu = IV if n <= 2 else IV[:5] if n == 3 else IV[2:5]
  lo, hi = lanes(n, menu)
  if layout == 'scalars':
    step = 17 if backend == 'np' else 61
    idx = range(0, lo[0].size, step)
  else:
    idx = [slice(None)]
  zs = ([(-1.5, -1.5), (-1., -1.), (0., 0.), (0.5, 0.5), (2., 2.)]
        if zkind == 'point' else
        [(-1., 0.5), (0., 2.), (-1.5, -1.), (-2., 2.), (0.5, 0.5)])
  for ix in idx:
    c = [l[ix] if not kinds >> i & 1 else (l[ix], h[ix])
         for i, (l, h) in enumerate(zip(lo, hi))]
    cc = [tuple(map(np_.asarray, e)) if isinstance(e, tuple)
          else np_.asarray(e) for e in c]
    for zl, zh in zs:
      ch.count(1)
      z = (np_.asarray(zl) if zkind == 'point' else
           (np_.asarray(zl), np_.asarray(zh)))
      got = polynomials.eval_elementwise_taylor_enclosure(cc, z, np_)
      gl, gh = ends(got)
      shape = np.shape(lo[0][ix])
      if gl.shape != shape or gh.shape != shape:
        ch.fail('shape', f'{gl.shape} for {shape}')
      if zkind == 'point' and isinstance(got, tuple) != bool(kinds):
        ch.fail('kind', 'interval/point structure of the value')
      for t in ((0.,) if zkind == 'point' else (0., 0.25, 0.5, 1.)):
        zz = zl + t * (zh - zl)
        wl = wh = np.zeros(shape)
        for i, e in enumerate(c):
          w = imul(e, np.asarray(zz**i))
          wl, wh = wl + w[0], wh + w[1]
        ch.count(evaluations=int(np.size(wl)))
        if zkind == 'point':
          ok = same_interval(got, (wl, wh), 1e-14, 1e-13)
        else:
          ok = contained((wl, wh), got, 1e-12)
        j = first_bad(ok)
        if j is not None:
          ch.fail(f'{zkind}', f'n={n} kinds={kinds:b} z={zl, zh}')
      # elementwise enclosures use tight powers: equals sum of c_i * [z]^i
      wl = wh = np.zeros(shape)
      for i, e in enumerate(c):
        w = imul(e, ipow((np.asarray(zl), np.asarray(zh)), i))
        wl, wh = wl + w[0], wh + w[1]
      j = first_bad(contained(got, (wl, wh), 1e-12))
      if j is not None:
        ch.fail('wide', f'n={n} kinds={kinds:b} z={zl, zh}: wider than the sum '
                'of tight powers')
    ch.outcome(repr([np.asarray(e).tolist() for e in ends(got)]))


SPACES = dict(free_product=free_product, free_power=free_power,
              free_eval=free_eval, integers=integers, intervals=intervals,
              interval_product=interval_product, taylor_eval=taylor_eval,
              elementwise_eval=elementwise_eval)
