"""C05: interval arithmetic is inclusion-correct, and tightest where claimed."""

import itertools

from mc import core

if core.WORKER:
  import numpy as np
  from mc.lib import *  # pylint: disable=wildcard-import
  from autobound.interval_arithmetic import IntervalArithmetic
  NP = backends()

BOUNDS = {
    'quick': 'end points in {-2,-1,-.5,0,.5,1,3}; every pair of intervals/'
             'points as scalars, vectors and broadcast matrices; vectors of '
             'length <=3 over 10 intervals; exponents 0..6; the same object as '
             'both operands of every binary operation; finite end points up to '
             '1.7e308 (3e38 in float32) and down to 1e-200, whose results '
             'overflow or vanish; numpy and jax',
}
ASSUMPTIONS = [
    'finite dyadic end points, so that the oracle and the code are both exact '
    '(for the huge and tiny ones, the exact result rounded to the type)',
    'sums of several products one of which overflows are left out (they can '
    'be inf - inf)',
    'bilinear maps whose structure constants are non-negative (sums of '
    'products of elements), which are the maps the interval rules are for',
]

E = (-2., -1., -0.5, 0., 0.5, 1., 3.)
SMALL = ((-1., 2.), (-2., -1.), (0., 1.), (1., 3.), (-1., 0.), (2., 2.),
         (0., 0.), (-0.5, 0.5), (-3., 1.), (-2., -2.))


def tasks(tier):
  ts = []
  for name, n in (('elementwise', 8), ('power', 4), ('outer_product', 8),
                  ('outer_power', 12), ('tensordot', 12), ('bilinear', 12),
                  ('aliased', 4), ('chain', 8), ('magnitudes', 2)):
    if tier == 'thorough':
      n *= 2
    ts += core.shards(name, n)
  return ts


def run_task(task, stats):
  core.simple_run_task(SPACES, task, stats)


def both(kind, lo, hi):
  """Lanes for a kind of operand: 'I' interval, 'P' ndarray (lower ends)."""
  return (lo, hi) if kind == 'I' else lo


def expect(ch, got, want, what, exact=True, rtol=0.):
  gl, gh = ends(got)
  wl, wh = ends(want)
  ch.count(evaluations=int(np.size(wl)))
  if gl.shape != wl.shape or gh.shape != wl.shape:
    ch.fail(f'shape:{what}', f'{what}: shape {gl.shape} {gh.shape}, '
            f'expected {wl.shape}')
  i = first_bad(gl <= gh)
  if i is not None:
    ch.fail(f'empty:{what}', f'{what}: lower > upper at {i}: {gl[i]} {gh[i]}')
  ok = (same_interval(got, want, rtol) if exact
        else contained(want, got, rtol * (1 + np.abs(wl) + np.abs(wh))))
  i = first_bad(ok)
  if i is not None:
    ch.fail(f'value:{what}', f'{what}: at {i} got ({gl[i]}, {gh[i]}), '
            f'{"expected" if exact else "must contain"} ({wl[i]}, {wh[i]})')


def lanes(kind):
  if kind == 'I':
    iv = intervals_of(E)
    return np.array([a for a, _ in iv]), np.array([b for _, b in iv])
  return np.array(E), np.array(E)


def elementwise(ch):
  """All pairs of scalar operands; add/subtract/multiply/negative/power."""
  backend = ch.pick(['np', 'jnp'])
  op = ch.pick(['add', 'subtract', 'multiply', 'negative'])
  ka = ch.pick('IP')
  kb = ch.pick('IP') if op != 'negative' else 'P'
  layout = ch.pick(['lanes', 'outer', 'outer_swapped', 'rank3', 'zero_d',
                    'python', 'int'])
  if layout in ('zero_d', 'python', 'int') and backend == 'jnp':
    # scalar-by-scalar calls are slow in eager JAX: a subset of the pairs
    pass
  ch.shard()
  np_ = NP[backend]
  ia = IntervalArithmetic(np_)
  al, ah = lanes(ka)
  bl, bh = lanes(kb)
  oracle = {'add': iadd, 'subtract': isub, 'multiply': imul,
            'negative': lambda a, b: ineg(a)}[op]
  def call(a, b):
    ch.count(1)
    return ia.negative(a) if op == 'negative' else getattr(ia, op)(a, b)
  if layout in ('zero_d', 'python', 'int'):
    step = 3 if backend == 'jnp' else 1
    conv = {'zero_d': np_.asarray, 'python': float,
            'int': lambda v: int(round(v * 2))}[layout]
    for i in range(0, len(al), step):
      for j in range(0, len(bl), step):
        a = both(ka, conv(al[i]), conv(ah[i]))
        b = both(kb, conv(bl[j]), conv(bh[j]))
        r = call(a, b)
        want = oracle(a, b)
        want = tuple(np.asarray(w) for w in want)
        expect(ch, r, want, f'{op}:{layout}')
    return
  if layout == 'lanes':
    i, j = np.meshgrid(np.arange(len(al)), np.arange(len(bl)), indexing='ij')
    i, j = i.ravel(), j.ravel()
    sa, sb = (lambda v: v[i]), (lambda v: v[j])
  elif layout == 'outer':
    sa, sb = (lambda v: v[:, None]), (lambda v: v[None, :])
  elif layout == 'outer_swapped':
    sa, sb = (lambda v: v[None, :]), (lambda v: v[:, None])
  else:
    sa, sb = (lambda v: v[:, None, None]), (lambda v: v[None, :])
  a = both(ka, np_.asarray(sa(al)), np_.asarray(sa(ah)))
  b = both(kb, np_.asarray(sb(bl)), np_.asarray(sb(bh)))
  a0 = [np.array(x) for x in ends(a)]
  b0 = [np.array(x) for x in ends(b)]
  r = call(a, b)
  if not isinstance(r, tuple) and (isinstance(a, tuple) or
                                   isinstance(b, tuple)):
    if op != 'negative' or ka == 'I':
      ch.fail(f'kind:{op}', 'interval operand but point result')
  if isinstance(r, tuple) and ka == 'P' and (op == 'negative' or kb == 'P'):
    ch.fail(f'kind:{op}', 'point operands but interval result')
  expect(ch, r, oracle(a, b), f'{op}:{layout}')
  for x, y in zip(ends(a) + ends(b), a0 + b0):
    ch.check(np.array_equal(x, y), f'mutated:{op}')
  ch.outcome(repr([np.asarray(x).tolist() for x in ends(r)]))


def power(ch):
  backend = ch.pick(['np', 'jnp'])
  k = ch.pick([0, 1, 2, 3, 4, 5, 6, 7, 0.5, 1.5, 2., 3., -1, -2])
  kind = ch.pick('IP')
  layout = ch.pick(['lanes', 'zero_d', 'matrix', 'float'])
  ch.shard()
  np_ = NP[backend]
  ia = IntervalArithmetic(np_)
  lo, hi = lanes(kind)
  if k in (0.5, 1.5):
    keep = lo >= 0
    lo, hi = lo[keep], hi[keep]
    want = lambda l, h: (np.asarray(l)**k, np.asarray(h)**k)
  elif k < 0:
    if kind == 'I':
      return
    keep = lo != 0
    lo, hi = lo[keep], hi[keep]
    want = lambda l, h: (np.asarray(l)**float(k), np.asarray(h)**float(k))
  else:
    want = lambda l, h: ipow((np.asarray(l), np.asarray(h)), int(k))
  rtol = 1e-15 if k != int(k) or k < 0 else 0.
  if backend == 'jnp':
    rtol = 1e-14
  if layout == 'lanes':
    items = [(np_.asarray(lo), np_.asarray(hi))]
  elif layout == 'matrix':
    items = [(np_.asarray(np.stack([lo, lo])), np_.asarray(np.stack([hi, hi])))]
  elif layout == 'zero_d':
    items = [(np_.asarray(l), np_.asarray(h)) for l, h in zip(lo, hi)]
  else:
    items = [(float(l), float(h)) for l, h in zip(lo, hi)]
  for l, h in items:
    ch.count(1)
    r = ia.power(both(kind, l, h), k)
    expect(ch, r, want(np.asarray(l), np.asarray(h)), f'power:{kind}:{k}',
           rtol=rtol)
    ch.outcome(repr([np.asarray(x).tolist() for x in ends(r)]))


def vec(ch, n, menu):
  """An interval or point vector with every element from menu."""
  kind = ch.pick('IP')
  items = [ch.pick(menu) for _ in range(n)]
  lo = np.array([a for a, _ in items])
  hi = np.array([b for _, b in items])
  return both(kind, lo, hi) if kind == 'I' else lo


def enumerate_vecs(kind, n, menu):
  """Every length-n vector over the menu, stacked on axis 0."""
  combos = list(itertools.product(menu, repeat=n))
  lo = np.array([[a for a, _ in c] for c in combos])
  hi = np.array([[b for _, b in c] for c in combos])
  return (lo, hi) if kind == 'I' else (lo, lo)


def outer_product(ch):
  backend = ch.pick(['np', 'jnp'])
  ka, kb = ch.pick('IP'), ch.pick('IP')
  case = ch.pick(['v-v', 's-v', 'v-s', 's-s', 'm-v', 'v-m', 'b1', 'b1r',
                  'b2', 'b1v'])
  ch.shard()
  np_ = NP[backend]
  ia = IntervalArithmetic(np_)
  menu = SMALL[:6] if backend == 'np' else SMALL[1:4]
  def arr(kind, shape):
    n = int(np.prod(shape)) if shape else 1
    combos = (itertools.product(menu, repeat=n) if n <= 2 else
              (tuple(menu[(i * (s + 1) + t) % len(menu)] for i in range(n))
               for s in range(len(menu)) for t in range(len(menu))))
    for c in combos:
      lo = np.array([a for a, _ in c]).reshape(shape)
      hi = np.array([b for _, b in c]).reshape(shape)
      yield both(kind, np_.asarray(lo), np_.asarray(hi))
  shapes, batch, eq = {
      'v-v': (((2,), (2,)), 0, 'i,j->ij'),
      's-v': (((), (2,)), 0, ',j->j'),
      'v-s': (((2,), ()), 0, 'i,->i'),
      's-s': (((), ()), 0, ',->'),
      'm-v': (((2, 3), (2,)), 0, 'ij,k->ijk'),
      'v-m': (((2,), (3, 2)), 0, 'k,ij->kij'),
      'b1': (((2, 3), (2, 2)), 1, 'ai,aj->aij'),
      'b1r': (((2,), (2, 3)), 1, 'a,aj->aj'),
      'b2': (((2, 3, 2), (2, 3, 2)), 2, 'abi,abj->abij'),
      'b1v': (((2,), (2,)), 1, 'a,a->a'),
  }[case]
  for a in arr(ka, shapes[0]):
    for b in arr(kb, shapes[1]):
      ch.count(1)
      r = ia.outer_product(a, b, batch)
      want = prod_hull(a, b, lambda x, y: np.einsum(eq, x, y))
      expect(ch, r, want, f'outer_product:{case}')
      ch.outcome(repr([np.asarray(x).tolist() for x in ends(r)]))


def outer_power(ch):
  backend = ch.pick(['np', 'jnp'])
  n = ch.pick([0, 1, 2, 3])
  k = ch.pick([0, 1, 2, 3, 4])
  kind = ch.pick('IP')
  batch = ch.pick([0, 1]) if n else 0
  ch.shard()
  np_ = NP[backend]
  ia = IntervalArithmetic(np_)
  menu = SMALL if n <= 2 else SMALL[:5]
  if backend == 'jnp':
    menu = SMALL[:4] if n <= 1 else SMALL[:2]
  combos = itertools.product(menu, repeat=max(n, 1))
  for c in combos:
    lo = np.array([a for a, _ in c])
    hi = np.array([b for _, b in c])
    if n == 0:
      lo, hi = lo[0], hi[0]
    if batch:
      # batch of n scalars, each with one trailing dim of size 1 or 2
      lo2 = np.stack([lo, lo[::-1]], axis=-1)
      hi2 = np.stack([hi, hi[::-1]], axis=-1)
      a = both(kind, np_.asarray(lo2), np_.asarray(hi2))
    else:
      a = both(kind, np_.asarray(lo), np_.asarray(hi))
    ch.count(1)
    r = ia.outer_power(a, k, batch)
    al, ah = ends(a)
    if k == 0:
      expect(ch, r, (np.asarray(1.), np.asarray(1.)), 'outer_power:0')
      continue
    # members: every choice of end points / 0 / mid point for each element
    def members(l, h):
      return sorted({float(l), float(h), float((l + h) / 2)} |
                    ({0.} if l <= 0 <= h else set()))
    if batch:
      # element [a, i1..ik] = prod_j m[a, i_j], with m[a] a vector
      rl, rh = ends(r)
      for b in range(al.shape[0]):
        for m in itertools.product(*[members(al[b, i], ah[b, i])
                                     for i in range(al.shape[1])]):
          p = outer_pow(np.array(m), k)
          expect(ch, (rl[b], rh[b]), (p, p), f'outer_power:{k}:batch',
                 exact=False)
      continue
    grids = itertools.product(*[members(l, h) for l, h in
                                zip(np.atleast_1d(al), np.atleast_1d(ah))])
    hull = None
    for m in grids:
      z = np.array(m) if n else np.asarray(m[0])
      p = outer_pow(z, k)
      hull = (p, p) if hull is None else (np.minimum(hull[0], p),
                                          np.maximum(hull[1], p))
    expect(ch, r, hull, f'outer_power:{k}', exact=False)
    if k <= 2 or n == 0:
      # tightest: diagonal by the exact power, off-diagonal by the product
      expect(ch, r, hull, f'outer_power_tight:{k}')
    else:
      # at least as tight as the product of intervals
      prod = tuple(ends(a))
      for _ in range(k - 1):
        prod = prod_hull(prod, a, np.multiply.outer)
      i = first_bad(contained(r, prod))
      if i is not None:
        ch.fail(f'wide:outer_power:{k}', f'{c}: wider than repeated product')
    ch.outcome(repr([np.asarray(x).tolist() for x in ends(r)]))


def hull_vertices(a, b, f):
  """Exact hull of a bilinear map: all vertices of the two boxes."""
  def vertices(c):
    l, h = ends(c)
    l, h = np.asarray(l), np.asarray(h)
    fl, fh = l.ravel(), h.ravel()
    free = [i for i in range(l.size) if fl[i] != fh[i]]
    for bits in itertools.product((0, 1), repeat=len(free)):
      v = fl.copy()
      for i, t in zip(free, bits):
        if t:
          v[i] = fh[i]
      yield v.reshape(l.shape)
  lo = hi = None
  va, vb = list(vertices(a)), list(vertices(b))
  for x in va:
    for y in vb:
      p = np.asarray(f(x, y))
      lo = p if lo is None else np.minimum(lo, p)
      hi = p if hi is None else np.maximum(hi, p)
  return lo, hi


def _bilinear_check(ch, ia, name, ka, kb, sa, sb, call, f, menu, tight, once=True):
  def arr(kind, shape):
    n = int(np.prod(shape)) if shape else 1
    if n <= 2:
      combos = itertools.product(menu, repeat=n)
    else:
      # every pair of menu entries meets in every pair of adjacent positions
      combos = (tuple(menu[(t + i * s) % len(menu)] for i in range(n))
                for s in range(len(menu)) for t in range(len(menu)))
    for c in combos:
      lo = np.array([a for a, _ in c]).reshape(shape)
      hi = np.array([b for _, b in c]).reshape(shape)
      yield both(kind, ia.np_like.asarray(lo), ia.np_like.asarray(hi))
  bs = list(arr(kb, sb))
  for a in arr(ka, sa):
    for b in bs:
      ch.count(1)
      r = call(a, b)
      want = hull_vertices(a, b, f)
      degenerate = (np.array_equal(*ends(a)) or np.array_equal(*ends(b)))
      expect(ch, r, want, name, exact=tight or (degenerate and once))
  ch.outcome((name, ka, kb, repr([np.asarray(x).tolist() for x in ends(r)])))


def tensordot(ch):
  backend = ch.pick(['np', 'jnp'])
  ka, kb = ch.pick('IP'), ch.pick('IP')
  case = ch.pick([
      ((), (), 0), ((2,), (2,), 1), ((2,), (2,), 0), ((2, 2), (2,), 1),
      ((2,), (2, 2), 1), ((2, 2), (2, 2), 2), ((2, 2), (2, 2), 1),
      ((2, 2), (2,), ((0,), (0,))), ((2, 2), (2, 2), ((1, 0), (0, 1))),
      ((1,), (1,), 1)])
  ch.shard()
  sa, sb, axes = case
  ia = IntervalArithmetic(NP[backend])
  menu = SMALL[:6] if backend == 'np' else (SMALL[0], SMALL[2])
  if len(sa) + len(sb) >= 3:
    menu = menu[:4]
  if len(sa) + len(sb) == 4:
    menu = menu[:3]
  tight = (axes == 0) or ka == 'P' or kb == 'P'
  _bilinear_check(
      ch, ia, f'tensordot:{case}', ka, kb, sa, sb,
      lambda a, b: ia.tensordot(a, b, axes),
      lambda x, y: np.tensordot(x, y, axes), menu, tight)


def bilinear(ch):
  backend = ch.pick(['np', 'jnp'])
  ka, kb = ch.pick('IP'), ch.pick('IP')
  name = ch.pick(['multiply', 'multiply_product', 'dot', 'matmul', 'outer',
                  'conv', 'weighted', 'batched', 'sum_product', 'ignore_b'])
  ch.shard()
  np_ = NP[backend]
  ia = IntervalArithmetic(np_)
  wt = np.array([[1., 2.], [0., 3.]])
  f, sa, sb, assume = {
      'multiply': (lambda m: m.multiply, (2,), (2,), False),
      'multiply_product': (lambda m: m.multiply, (2,), (2,), True),
      'dot': (lambda m: m.dot, (2,), (2,), False),
      'matmul': (lambda m: m.matmul, (2, 2), (2, 1), False),
      'outer': (lambda m: (lambda a, b: m.tensordot(a, b, 0)), (2,), (2,),
                True),
      'conv': (lambda m: (lambda a, b: m.convolve(a, b)), (2,), (2,), False),
      'weighted': (lambda m: (lambda a, b: m.einsum(
          'ij,i,j->', wt, a, b)), (2,), (2,), False),
      'batched': (lambda m: (lambda a, b: m.einsum('ai,ai->a', a, b)),
                  (2, 1), (2, 1), False),
      'sum_product': (lambda m: (lambda a, b: m.sum(a) * m.sum(b)), (2,),
                      (2,), False),
      'ignore_b': (lambda m: (lambda a, b: a * b[0]), (2,), (2,), True),
  }[name]
  menu = SMALL[:5] if backend == 'np' else (SMALL[0], SMALL[3])
  if len(sa) + len(sb) >= 3:
    menu = menu[:3]
  g = f(np_)
  # In these two, one interval element meets several point elements.
  once = name not in ('weighted', 'sum_product')
  tight = assume or (once and (ka == 'P' or kb == 'P'))
  _bilinear_check(
      ch, ia, f'bilinear:{name}', ka, kb, sa, sb,
      lambda a, b: ia.arbitrary_bilinear(a, b, g, assume),
      lambda x, y: np.asarray(f(np)(x, y)), menu, tight, once)


def aliased(ch):
  """The same object as both operands: still two independent members."""
  backend = ch.pick(['np', 'jnp'])
  kind = ch.pick('IP')
  shape = ch.pick(['lanes', 'zero_d', 'float', 'vector', 'matrix'])
  op = ch.pick(['add', 'subtract', 'multiply', 'product', 'bilinear',
                'outer_product', 'tensordot0', 'tensordot1', 'tensordot2',
                'outer_batch'])
  ch.shard()
  np_ = NP[backend]
  ia = IntervalArithmetic(np_)
  lo, hi = lanes(kind)
  square = lambda t: t[:len(t) // 4 * 4].reshape(-1, 2, 2)
  pairs = lambda t: t[:len(t) // 2 * 2].reshape(-1, 2)
  if shape == 'lanes':
    items = [(np_.asarray(lo), np_.asarray(hi))]
  elif shape == 'zero_d':
    items = [(np_.asarray(l), np_.asarray(h)) for l, h in zip(lo, hi)]
  elif shape == 'float':
    items = [(float(l), float(h)) for l, h in zip(lo, hi)]
  else:
    f = pairs if shape == 'vector' else square
    items = [(np_.asarray(l), np_.asarray(h)) for l, h in zip(f(lo), f(hi))]
  rank = {'lanes': 1, 'vector': 1, 'matrix': 2}.get(shape, 0)
  exact = True
  if op in ('add', 'subtract', 'multiply'):
    call, point = getattr(ia, op), getattr(np, op)
  elif op in ('product', 'bilinear'):
    call = lambda a, b: ia.arbitrary_bilinear(a, b, np_.multiply,
                                              op == 'product')
    point = np.multiply
    exact = op == 'product'
  elif op == 'outer_product':
    call = lambda a, b: ia.outer_product(a, b, 0)
    point = np.multiply.outer
  elif op == 'outer_batch':
    call = lambda a, b: ia.outer_product(a, b, rank)
    point = np.multiply
  else:
    axes = int(op[-1])
    if axes > rank or (shape == 'lanes' and axes):
      return
    call = lambda a, b: ia.tensordot(a, b, axes)
    point = lambda x, y: np.tensordot(x, y, axes)
    exact = axes == 0
  corner = {'add': iadd, 'subtract': isub}.get(
      op, lambda a, b: prod_hull(a, b, point))
  for l, h in items:
    a = (l, h) if kind == 'I' else l
    if kind == 'P' and shape in ('vector', 'matrix', 'lanes'):
      a = np_.asarray(l)
    ch.count(1)
    got = call(a, a)
    al, ah = (np.asarray(t) for t in ends(a))
    if op.startswith('tensordot') and op != 'tensordot0':
      want = hull_vertices((al, ah), (al, ah), point)
    else:
      want = corner((al, ah), (al, ah))
    expect(ch, got, want, f'aliased:{op}:{shape}', exact=exact)
    # ... and the same as for an equal copy
    b = (l + 0., h + 0.) if kind == 'I' else l + 0.
    again = call(a, b)
    ch.check(all(np.array_equal(p, q) for p, q in zip(ends(got), ends(again))),
             f'aliased-differs:{op}:{shape}',
             lambda: f'{op}(a, a) = {got}, {op}(a, copy of a) = {again}')
  ch.outcome((op, shape, kind, repr([np.asarray(t).tolist()
                                     for t in ends(got)])))


CHAIN_OPS = ['add', 'subtract', 'multiply', 'negative', 'square', 'cube',
             'self_mul', 'self_sub', 'tensordot', 'outer']


def chain(ch):
  """Sequences of operations on a register pair; aliased operands included.

  State: an interval register and the set of member functions it must contain.
  Every intermediate interval must contain the value of the sequence applied to
  members, shrink when the inputs shrink, and leave its operands unchanged.
  """
  first = ch.choose(len(CHAIN_OPS))
  second = ch.choose(len(CHAIN_OPS))
  ka, kb = ch.pick('IP'), ch.pick('IP')
  ch.shard()
  third = ch.choose(len(CHAIN_OPS))
  ops = [CHAIN_OPS[i] for i in (first, second, third)]
  ia = IntervalArithmetic(np)
  iv = ((-1., 2.), (-2., -0.5), (0., 1.), (1., 1.), (-3., 0.))
  ii = list(itertools.product(iv, iv))
  al = np.array([a[0] for a, _ in ii])
  ah = np.array([a[1] for a, _ in ii])
  bl = np.array([b[0] for _, b in ii])
  bh = np.array([b[1] for _, b in ii])
  def run(a, b, pt=False):
    r = a
    for op in ops:
      if op in ('add', 'subtract', 'multiply'):
        r2 = getattr(ia, op)(r, b)
      elif op == 'negative':
        r2 = ia.negative(r)
      elif op == 'square':
        r2 = ia.power(r, 2)
      elif op == 'cube':
        r2 = ia.power(r, 3)
      elif op == 'self_mul':
        r2 = ia.multiply(r, r)
      elif op == 'self_sub':
        r2 = ia.subtract(r, r)
      elif op == 'tensordot':
        r2 = ia.arbitrary_bilinear(r, b, np.multiply)
      else:
        r2 = ia.outer_product(r, b, np.ndim(ends(b)[0]))
      if not pt:
        ch.count(1)
      r = r2
    return r
  wide = run(both(ka, al, ah), both(kb, bl, bh))
  wl, wh = ends(wide)
  i = first_bad(wl <= wh)
  if i is not None:
    ch.fail('chain:empty', f'{ops} {ka}{kb} lane {ii[i[0]]}')
  for ta in (0., 0.25, 0.5, 1.):
    for tb in (0., 0.75, 1.):
      a = al + ta * (ah - al) if ka == 'I' else al
      b = bl + tb * (bh - bl) if kb == 'I' else bl
      p = run(a, b, True)
      ch.check(not isinstance(p, tuple), 'chain:kind')
      i = first_bad(contained(p, wide, 1e-12 * (1 + np.abs(p))))
      ch.stats['evaluations'] += al.size
      if i is not None:
        ch.fail('chain:member', f'{ops} {ka}{kb} lane {ii[i[0]]}: member '
                f'({a[i]}, {b[i]}) -> {p[i]} not in ({wl[i]}, {wh[i]})')
      # inclusion monotone: shrink both operands around this member
      a2 = both(ka, (a + al) / 2, (a + ah) / 2)
      b2 = both(kb, (b + bl) / 2, (b + bh) / 2)
      if ka == 'I' or kb == 'I':
        n = run(a2, b2, True)
        i = first_bad(contained(n, wide, 1e-12 * (1 + np.abs(p))))
        if i is not None:
          ch.fail('chain:monotone', f'{ops} {ka}{kb} lane {ii[i[0]]}')
  ch.outcome(repr((wl.tolist(), wh.tolist())))


HUGE = {'float64': (-1.7e308, -1e160, -1., -1e-200, 0., 1e-200, 1., 1e160,
                    1.7e308),
        'float32': (-3e38, -1e25, -1., -1e-30, 0., 1e-30, 1., 1e25, 3e38)}


def magnitudes(ch):
  """Finite end points so large or small that the result over- or underflows."""
  backend = ch.pick(['np', 'jnp'])
  dtype = ch.pick(['float64', 'float32'])
  op = ch.pick(['add', 'subtract', 'multiply', 'negative', 'outer_product',
                'power', 'outer_power', 'contract'])
  ka = ch.pick('IP')
  kb = ch.pick('IP') if op in ('add', 'subtract', 'multiply',
                               'outer_product', 'contract') else 'P'
  ch.shard()
  np_ = NP[backend]
  ia = IntervalArithmetic(np_)
  def operands(kind):
    iv = intervals_of(HUGE[dtype]) if kind == 'I' else [
        (v, v) for v in HUGE[dtype]]
    return tuple(np.array(t, dtype) for t in zip(*iv))
  def ends_of(l, h):
    with np.errstate(all='ignore'):
      return (np.asarray(l).astype(dtype), np.asarray(h).astype(dtype))
  al, ah = operands(ka)
  bl, bh = operands(kb)
  wide = lambda l, h: (l.astype(np.longdouble), h.astype(np.longdouble))
  rtol = 1e-14 if dtype == 'float64' else 1e-5
  with np.errstate(all='ignore'):
    if op in ('negative', 'power', 'outer_power'):
      a = both(ka, np_.asarray(al), np_.asarray(ah))
      for k in (range(1, 7) if op != 'negative' else [1]):
        if op == 'outer_power':
          # one element at a time: the power of a scalar
          for i in range(len(al)):
            ch.count(1)
            r = ia.outer_power(both(ka, np_.asarray(al[i]), np_.asarray(ah[i])),
                               k)
            expect(ch, r, ends_of(*ipow(wide(al[i], ah[i]), k)),
                   f'magnitudes:{op}:{k}', rtol=rtol)
          continue
        ch.count(1)
        r = ia.negative(a) if op == 'negative' else ia.power(a, k)
        want = (ineg(wide(al, ah)) if op == 'negative'
                else ipow(wide(al, ah), k))
        expect(ch, r, ends_of(*want), f'magnitudes:{op}:{k}', rtol=rtol)
    else:
      i, j = [t.ravel() for t in np.meshgrid(
          np.arange(len(al)), np.arange(len(bl)), indexing='ij')]
      oracle = {'add': iadd, 'subtract': isub}.get(op, imul)
      want = oracle(wide(al[i], ah[i]), wide(bl[j], bh[j]))
      a = both(ka, np_.asarray(al), np_.asarray(ah))
      b = both(kb, np_.asarray(bl), np_.asarray(bh))
      ch.count(1)
      if op == 'outer_product':
        r = ia.outer_product(a, b)
      elif op == 'contract':
        # sums of one product each
        col = lambda c: c[:, None]
        row = lambda c: c[None, :]
        fa = tuple(map(col, a)) if isinstance(a, tuple) else col(a)
        fb = tuple(map(row, b)) if isinstance(b, tuple) else row(b)
        r = ia.tensordot(fa, fb, 1)
      else:
        pick = lambda c, t: (tuple(x[t] for x in c) if isinstance(c, tuple)
                             else c[t])
        r = getattr(ia, op)(pick(a, i), pick(b, j))
      r = tuple(np.asarray(x).ravel() for x in ends(r))
      want = ends_of(*want)
      if op == 'contract':
        # not claimed to be tightest, but contains the exact result
        i = first_bad((r[0] <= want[0]) & (want[1] <= r[1]))
        if i is not None:
          ch.fail('value:magnitudes:contract', f'tensordot at {i}: got '
                  f'({r[0][i]}, {r[1][i]}), must contain '
                  f'({want[0][i]}, {want[1][i]})')
      else:
        expect(ch, r, want, f'magnitudes:{op}', rtol=rtol)
  ch.outcome(repr([np.asarray(x).tolist() for x in ends(r)]))


SPACES = dict(magnitudes=magnitudes, elementwise=elementwise, power=power, outer_product=outer_product,
              outer_power=outer_power, tensordot=tensordot, bilinear=bilinear,
              aliased=aliased, chain=chain)
