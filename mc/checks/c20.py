"""C20: bound objects evaluate consistently, and safe steps are safe."""

import itertools

from mc import core

if core.WORKER:
  import numpy as np
  import jax
  import jax.numpy as jnp
  import autobound.jax as ab
  from autobound.jax import jax_bound
  from mc.lib import *  # pylint: disable=wildcard-import
from mc import programs as P

BOUNDS = {
    'quick': 'objects: all coefficient structures with 1..4 terms, each point '
             'or interval with 7 sign patterns, scalar / vector / matrix '
             'values of scalar / vector x, 9 evaluation points of 3 types, inside and outside the trust region; '
             'sequences: all runs of 3 of 9 kinds of evaluation of two bound '
             'objects at arrays that are changed in place, and temporaries; '
             'computed: all 29 unary operations and 196 sums and products, '
             'degree 0..4, both modes; 6 functions with x0, region and x of '
             '8 number types each; steps: all runs of 3 steps of the '
             'step-size loop on 12 losses from a lattice of starting points '
             'and step ranges, 3 directions and 3 range updates per step; '
             'integrals: 30 functions, degree 0..6, 5 ranges, 1..4 cells',
    'thorough': 'as quick with runs of 4 evaluations, of 5 steps and degree 0..8 integrals',
}
ASSUMPTIONS = [
    'JAX evaluates losses and gradients correctly; tolerance 1e-9 relative',
    'steps whose bounds overflow to infinities are left out',
]


def tasks(tier):
  ts = core.shards('objects', 16, tier=tier)
  ts += core.shards('objects', 4, mode='x32', tier=tier)
  ts += core.shards('computed', 24, tier=tier)
  ts += core.shards('sequences', 16 if tier == 'thorough' else 8, tier=tier)
  ts += core.shards('infinite', 1, tier=tier)
  ts += core.shards('types', 16, tier=tier)
  ts += core.shards('steps', 24, tier=tier, cost=2)
  ts += core.shards('steps', 4, mode='x32', tier=tier)
  ts += core.shards('integrals', 16, tier=tier)
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  core.simple_run_task(SPACES, task, stats)


def deep():
  return TIER == 'thorough'


# --- the accessors ----------------------------------------------------------

PATTERNS = ((1., 1.), (-2., -2.), (.5, 2.), (-1.5, -.25), (-1., 3.),
            (0., 1.), (-.5, 0.))
POINTS = (-2., -1., -.375, 0., .25, 1., 1.75)


def coefficient(pattern, shape, seed):
  """A coefficient whose entries vary around the pattern."""
  n = int(np.prod(shape, dtype=int))
  scale = 1. + .25 * ((np.arange(n) * 3 + seed) % 5)
  sign = np.where((np.arange(n) + seed) % 3 == 2, -1., 1.) if n > 1 else 1.
  lo, hi = pattern[0] * scale * sign, pattern[1] * scale * sign
  lo, hi = (np.minimum(lo, hi).reshape(shape), np.maximum(lo, hi).reshape(shape))
  if pattern[0] == pattern[1]:
    return jnp.asarray(lo)
  return (jnp.asarray(lo), jnp.asarray(hi))


def accessors(ch, name, bound, coeffs, x0, xs):
  nd = np.ndim(x0)
  rtol = 1e-12 if is_x64() else 2e-5
  last = bound.final_interval()
  ch.check(isinstance(last, tuple) and len(last) == 2, f'final:{name}',
           lambda: f'{last}')
  l, h = ends(coeffs[-1])
  ch.check(np.array_equal(np.asarray(last[0]), l, equal_nan=True)
           and np.array_equal(np.asarray(last[1]), h, equal_nan=True),
           f'final:{name}', lambda: f'{last} is not {coeffs[-1]}')
  for i, x in enumerate(xs):
    if nd == 0:
      forms = (float(x), np.asarray(x), jnp.asarray(x))
    else:
      forms = (np.asarray(x), jnp.asarray(x))
    if not deep():
      forms = forms[i % len(forms):][:1]
    for form in forms:
      value, lower, upper = bound(form), bound.lower(form), bound.upper(form)
      ch.count(3)
      vl, vh = ends(value)
      z = np.asarray(x, LD) - np.asarray(x0, LD)
      l, h = eval_enclosure(coeffs, z, nd)
      tol = rtol * (1 + magnitude(coeffs, z, nd))
      for got, want, what in ((vl, l, 'value'), (vh, h, 'value'),
                              (np.asarray(lower), l, 'lower'),
                              (np.asarray(upper), h, 'upper')):
        ch.check(got.shape == np.shape(want), f'shape-{what}:{name}',
                 lambda: f'{name} at {x}: {got.shape}, expected '
                 f'{np.shape(want)}')
        with np.errstate(invalid='ignore'):
          ok = (np.abs(got - want) <= tol) | (got == want)
        ch.check(np.all(ok), f'{what}:{name}',
                 lambda: f'{name}, coefficients {coeffs}, x0={x0}: {what} at '
                 f'{x} is {got}, expected {want}')
      ch.check(np.all(np.asarray(lower) <= np.asarray(upper)), f'order:{name}',
               lambda: f'{name} at {x}: {lower} > {upper}')
      if not any(is_interval(c) for c in coeffs):
        ch.check(not is_interval(value)
                 and np.array_equal(np.asarray(lower), np.asarray(upper)),
                 f'coincide:{name}', lambda: f'{value} {lower} {upper}')
      else:
        ch.check(is_interval(value), f'interval:{name}', lambda: f'{value}')


def objects(ch):
  nd = ch.choose(2)
  shape = ch.pick([(), (2,)] if nd else [(), (3,), (2, 2)])
  terms = 1 + ch.choose(4 if not nd else 3)
  patterns = [ch.pick(PATTERNS) for _ in range(min(terms, 2))]
  ch.shard()
  patterns += [ch.pick(PATTERNS[::2] if terms > 3 else PATTERNS)
               for _ in range(terms - len(patterns))]
  n = sum(PATTERNS.index(p) * (k + 1) for k, p in enumerate(patterns))
  if not nd:
    x0 = (0., 1., -.75)[n % 3]
    xs = [x0 + z for z in POINTS[n % 2::2]] + [x0]
    xsh = ()
  else:
    x0 = np.array([(0., .5), (-1., 1.)][n % 2])
    xs = [x0 + np.array(z) for z in itertools.product((-1., 0., .5), repeat=2)]
    xs = xs[n % 2::2]
    xsh = (2,)
  jc = tuple(coefficient(p, shape + xsh * k, n + k)
             for k, p in enumerate(patterns))
  bound = jax_bound.TaylorBounds(
      f=lambda x: x, x0=jnp.asarray(x0),
      x_trust_region=(jnp.asarray(x0) - .75, jnp.asarray(x0) + .75),
      coefficients=jc)
  coeffs = tuple(tuple(np.asarray(e) for e in c) if isinstance(c, tuple)
                 else np.asarray(c) for c in jc)
  name = f'{nd}:{shape}:{patterns}'
  accessors(ch, name, bound, coeffs, np.asarray(x0), xs)
  ch.outcome((name, np.asarray(bound.lower(jnp.asarray(xs[0]))).tobytes()))


def sequences(ch):
  """Sequences of evaluations of two bound objects at arrays that change."""
  nd = ch.choose(2)
  backend = ch.pick([np, jnp])
  ops = ('lower', 'upper', '__call__', 'change', 'temporary lower',
         'temporary upper', 'other lower', 'other upper', 'final_interval')
  length = 4 if deep() else 3
  seq = [ch.pick(ops), ch.pick(ops)]
  ch.shard()
  seq += [ch.pick(ops) for _ in range(length - 2)]
  xsh = (2,) if nd else ()
  x0 = np.array([.5, -1.]) if nd else np.array(.5)
  def make(patterns):
    jc = tuple(coefficient(p, xsh * k, k) for k, p in enumerate(patterns))
    return jax_bound.TaylorBounds(
        f=lambda x: x, x0=jnp.asarray(x0),
        x_trust_region=(jnp.asarray(x0) - 4., jnp.asarray(x0) + 4.),
        coefficients=jc)
  bound = make([(1., 1.), (-2., -2.), (.5, 2.)])
  other = make([(-2., -2.), (-1.5, -.25), (0., 1.)])
  values = itertools.cycle([x0 + .25, x0 - 1., x0 + 2.])
  a = backend.array(next(values))
  for i, op in enumerate(seq):
    if op == 'change':
      if backend is np:
        a[...] = next(values)
      else:
        a = backend.array(next(values))
      continue
    if op == 'final_interval':
      got = bound.final_interval()
      ok = all(np.array_equal(g, c)
               for g, c in zip(got, bound.coefficients[-1]))
      ch.check(ok, f'sequence-final:{nd}', lambda: f'{seq[:i + 1]}: {got}')
      continue
    b = other if op.startswith('other') else bound
    x = backend.array(next(values)) if op.startswith('temp') else a
    value = getattr(b, op.split()[-1])(x)
    ch.count(1)
    l, h = eval_enclosure(
        tuple(tuple(np.asarray(e) for e in c) if isinstance(c, tuple)
              else np.asarray(c) for c in b.coefficients),
        np.asarray(x, LD) - np.asarray(x0, LD), nd)
    want = {'lower': l, 'upper': h}.get(op.split()[-1], (l, h))
    ok = all(np.allclose(np.asarray(g, LD), np.asarray(w, LD), 1e-9, 1e-9)
             for g, w in zip(ends(value), ends(want)))
    ch.check(ok, f'sequence:{nd}:{op}', lambda: f'{seq[:i + 1]}: evaluation at '
             f'{x} is {value}, expected {want}')
    if backend is jnp and op.startswith('temp'):
      del x
  ch.outcome((nd, backend.__name__, seq))


def computed(ch):
  """Bound objects as returned."""
  kind = ch.choose(2)
  if kind == 0:
    prog = (ch.pick(list(P.UNARY)), 'u')
  else:
    prog = (ch.pick(('add', 'mul')), ch.pick(P.PAIR_ARGS), ch.pick(P.PAIR_ARGS))
    if isinstance(prog[1], float) and isinstance(prog[2], float):
      return
  ch.shard()
  degrees = [d for d in range(5) if d <= P.top_degree(prog)]
  n = P.hash_of(prog)
  degree = ch.pick(degrees if kind == 0 else degrees[n % 2::2])
  prop = ch.flag() if degree and kind == 0 else False
  region = ((1., .5, 2.), (1.5, 1.5, 3.), (2., .75, 2.))[(n + degree) % 3]
  x0, lo, hi = region
  f = lambda x: P.to_jax(prog)(x)
  form = n % 3  # Python floats, 0-d arrays, numpy
  conv = (float, jnp.asarray, np.float64)[form]
  region_in = (conv(lo), conv(hi))
  bound = jax_bound.taylor_bounds(f, degree, prop)(conv(x0), region_in)
  name = f'{prog}:{degree}:{int(prop)}'
  ch.check(bound.f is f, f'f:{name}', 'f is not the function given')
  ch.check(float(bound.x0) == x0, f'x0:{name}', lambda: f'{bound.x0}')
  ch.check(tuple(map(float, bound.x_trust_region)) == (lo, hi),
           f'region:{name}', lambda: f'{bound.x_trust_region}')
  coeffs = tuple(tuple(np.asarray(e) for e in c) if isinstance(c, tuple)
                 else np.asarray(c) for c in bound.coefficients)
  xs = [lo + (hi - lo) * t for t in (0., .125, .5, 1.)] + [x0]
  # the polynomials are also defined outside the trust region
  accessors(ch, name, bound, coeffs, np.float64(x0), xs + [lo - 1., hi + .5])
  for x in xs:
    fx = float(f(jnp.asarray(x)))
    tol = 1e-9 * (1 + abs(fx))
    ch.check(float(bound.lower(x)) <= fx + tol
             and fx <= float(bound.upper(x)) + tol, f'contains:{name}',
             lambda: f'{name}: f({x}) = {fx} not in [{bound.lower(x)}, '
             f'{bound.upper(x)}]')
  ch.outcome((name, [np.asarray(c).tobytes() for c in coeffs]))


KINDS = ('int', 'float', 'np.int64', 'np.float32', 'np.float64', 'jnp.int64',
         'jnp.float32', 'jnp.float64')


def as_kind(kind, v):
  """v as a number of some type; None if the type has no such number."""
  if kind == 'float':
    return float(v)
  if 'int' in kind and v != int(v):
    return None
  if kind == 'int':
    return int(v)
  module, name = kind.split('.')
  if module == 'np':
    return getattr(np, name)(v)
  return jnp.asarray(v, getattr(jnp, name))


def types(ch):
  """Numbers of different types for x0, the trust region and x."""
  progs = (('mul', 'u', 'u'), ('sigmoid', 'u'), ('cube', 'u'), 'u',
           ('mul', ('exp', 'u'), 'u'), ('2u+1', 'u'))
  prog = ch.pick(progs)
  k0, kr = ch.pick(KINDS), ch.pick(KINDS)
  ch.shard()
  n = KINDS.index(k0) + KINDS.index(kr) + len(prog)
  degree = ch.choose(4) if deep() else ch.pick((0, 2) if n % 2 else (1, 3))
  prop = bool((degree + KINDS.index(k0) + KINDS.index(kr)) % 2)
  f = lambda x: P.to_jax(prog)(x)
  if prog == ('mul', 'u', 'u') or prog == 'u':
    f = (lambda x: x * x) if prog != 'u' else (lambda x: x)
  x0, lo, hi = ((1, -1, 2), (0, 0, 2), (2, 1, 3))[(degree + len(k0)) % 3]
  try:
    bound = jax_bound.taylor_bounds(f, degree, prop)(
        as_kind(k0, x0), (as_kind(kr, lo), as_kind(kr, hi)))
  except (NotImplementedError, TypeError):
    # Functions of integers are other functions; some are not supported.
    if 'int' in k0:
      return
    raise
  coeffs = tuple(tuple(np.asarray(e) for e in c) if isinstance(c, tuple)
                 else np.asarray(c) for c in bound.coefficients)
  name = f'{prog}:{k0}:{kr}:{degree}'
  single = not is_x64() or '32' in k0 + kr
  for t in (0., .25, .5, .75, 1.):
    v = lo + (hi - lo) * t
    want_l, want_h = eval_enclosure(coeffs, LD(v) - LD(x0), 0)
    fv = float(np.asarray(P.value(prog, np.asarray(v, LD))))
    for kx in KINDS:
      x = as_kind(kx, v)
      if x is None:
        continue
      tol = (1e-5 if single or '32' in kx else 1e-12) * (
          1 + float(magnitude(coeffs, v - x0, 0)))
      ch.count(3)
      try:
        l, h = float(bound.lower(x)), float(bound.upper(x))
        vl, vh = ends(bound(x))
      except TypeError:
        # JAX does not mix integers of different sizes in dot products.
        if 'int' in k0:
          continue
        raise
      for got, want in ((l, want_l), (h, want_h), (vl, want_l), (vh, want_h)):
        ch.check(abs(float(got) - float(want)) <= tol, f'value:{name}:{kx}',
                 lambda: f'{name} x0={x0} region [{lo}, {hi}] at {x!r}: '
                 f'({l}, {h}), expected ({want_l}, {want_h})')
      ch.check(l <= fv + tol and fv <= h + tol, f'contains:{name}:{kx}',
               lambda: f'{name} x0={x0} region [{lo}, {hi}]: f({x!r}) = {fv} '
               f'not in ({l}, {h}); coefficients {coeffs}')
  ch.outcome((name, [np.asarray(c).tobytes() for c in coeffs]))


INFINITE = (('cbrt', .5, -1., 1., 1), ('log', .5, 0., 1., 1),
            ('reciprocal', .5, 0., 1., 2))


def infinite(ch):
  """Bounds with an infinite coefficient still contain f everywhere."""
  op, x0, lo, hi, degree = ch.pick(INFINITE)
  x = ch.pick((x0, lo, hi, (lo + x0) / 2, (hi + x0) / 2))
  f = P.to_jax((op, 'u'))
  bound = jax_bound.taylor_bounds(f, degree)(x0, (lo, hi))
  ch.count(1)
  l, h, fx = float(bound.lower(x)), float(bound.upper(x)), float(f(jnp.asarray(x)))
  ch.check(l <= fx + 1e-9 and fx - 1e-9 <= h,
           f'{op}:{x0}:{lo}:{hi}:{degree}:{x}',
           f'{op} at {x}: [{l}, {h}] does not contain {fx}')


# --- choosing safe step sizes -----------------------------------------------


def minimize_quadratic(c1, c2, b):
  """Minimiser of c1*t + c2*t**2 over [0, b] (independent of JAX)."""
  c1, c2 = float(c1), float(c2)
  candidates = [0., b]
  if c2 > 0:
    candidates.append(min(b, max(0., -c1 / (2 * c2))))
  return min(candidates, key=lambda t: c1 * t + c2 * t * t)


DATA_X = ((.5, 1.), (-1., .25), (1.5, -.5), (.25, -1.))
DATA_Y = (1., -1., 1., -1.)


def losses():
  X, Y = jnp.array(DATA_X), jnp.array(DATA_Y)
  def net(w):
    w0, w1, w2 = (jnp.eye(3)[k] @ w for k in range(3))
    h = jax.nn.swish(X * w0 + w1)
    return jnp.mean((h @ jnp.array([1., -.5]) * w2 - Y)**2)
  def rosenbrock(w):
    a, b = (jnp.eye(2)[k] @ w for k in range(2))
    return (1 - a)**2 + 2 * (b - a**2)**2
  return {
      # name: (dimension of the parameters, loss)
      '(x-3)**4': (0, lambda x: (x - 3)**4),
      '(x-1)**2': (0, lambda x: (x - 1)**2),
      'softplus': (0, lambda x: jax.nn.softplus(-2 * x) + .1 * x**2),
      'cosh': (0, lambda x: jnp.exp(x) + jnp.exp(-x)),
      'double well': (0, lambda x: (x**2 - 1)**2 + .25 * x),
      'log': (0, lambda x: jnp.log(1 + x**2)),
      'sigmoid': (0, lambda x: jax.nn.sigmoid(3 * x) - .2 * x + .1 * x**2),
      'exp-quad': (0, lambda x: 1.5 * jnp.exp(x) - 2 * x),
      'rational': (0, lambda x: x**2 / (1 + x**2)),
      'rosenbrock': (2, rosenbrock),
      'logistic': (2, lambda w: jnp.mean(jax.nn.softplus(-Y * (X @ w)))
                   + .01 * jnp.sum(w**2)),
      'least squares': (2, lambda w: jnp.sum((X @ w - Y)**2)),
      'net': (3, net),
  }


LOSSES = ('(x-3)**4', '(x-1)**2', 'softplus', 'cosh', 'double well', 'log',
          'sigmoid', 'exp-quad', 'rational', 'rosenbrock', 'logistic',
          'least squares', 'net')
STARTS = {0: (-1.5, 0., .5, 4.), 2: ((0., 0.), (1.5, -.5)),
          3: ((.5, .25, 1.), (-1., .5, -.5))}
RATES = (.01, .5, 8.)


def steps(ch):
  """All runs of the step-size loop up to a depth."""
  name = ch.pick(LOSSES)
  if name not in ch.cache:
    dim, loss = losses()[name]
    ch.cache[name] = (dim, loss, jax.jit(loss), jax.jit(jax.grad(loss)), {})
  dim, loss, loss_jit, grad, memo = ch.cache[name]
  start = ch.pick(STARTS[dim])
  rate = ch.pick(RATES)
  ch.shard()
  degree = 2
  x = np.asarray(start, float)
  rtol = 1e-9 if is_x64() else 2e-4
  depth = 5 if deep() else (3 if dim == 0 else 2)
  if not is_x64():
    depth = 2
  for step in range(depth):
    kind = ch.choose(3)
    propagate = kind == 1
    g = np.asarray(grad(jnp.asarray(x)), float)
    if kind == 0:
      d = -g
    elif kind == 1:
      d = -np.sign(g)
    else:
      # not a descent direction: the safe step may be 0, never harmful
      d = .5 * g if dim == 0 else np.roll(g, 1)
    key = (x.tobytes(), d.tobytes(), rate, propagate)
    if key not in memo:
      def next_loss(t, x=jnp.asarray(x), d=jnp.asarray(d)):
        return loss(x + t * d)
      b = ab.taylor_bounds(next_loss, degree, propagate)(0., (0., rate))
      ch.count(1)
      memo[key] = (b, [np.asarray(c[1] if isinstance(c, tuple) else c)
                       for c in b.coefficients], float(loss_jit(jnp.asarray(x))))
    b, upper, current = memo[key]
    label = f'{name}:{kind}'
    if not all(np.isfinite(c) for c in upper):
      return
    ch.check(abs(upper[0] - current) <= rtol * (1 + abs(current)),
             f'current:{label}', lambda: f'{upper[0]} != {current}')
    c1 = upper[1] if len(upper) > 1 else 0.
    c2 = b.final_interval()[1] if len(upper) > 2 else 0.
    ch.check(len(upper) < 3 or float(c2) == float(upper[2]), f'final:{label}',
             'final_interval')
    t = minimize_quadratic(c1, c2, rate)
    x_next = x + t * d
    after = float(loss_jit(jnp.asarray(x_next)))
    promised = float(b.upper(t))
    scale = 1 + abs(current) + sum(abs(float(c)) * t**k
                                   for k, c in enumerate(upper))
    ch.check(after <= promised + rtol * scale, f'promise:{label}',
             lambda: f'{name} at x={x}, direction {d}, step {t} of at most '
             f'{rate}: loss {after} exceeds the bound {promised}')
    ch.check(after <= current + rtol * scale, f'increase:{label}',
             lambda: f'{name} at x={x}, direction {d}, step {t} of at most '
             f'{rate}: loss rises from {current} to {after}')
    if name == '(x-1)**2' and kind == 0 and is_x64():
      # The bound of a quadratic is exact: one step reaches the minimum.
      best = min(rate, .5)
      ch.check(abs(t - best) < 1e-6 or abs(x - 1) < 1e-6, f'quadratic:{label}',
               lambda: f'step {t} from x={x}, expected {best}')
    ch.state((name, x_next.tobytes(), rate))
    ch.outcome((name, kind, step, round(after, 9)))
    if np.abs(x_next).max() > 1e3:
      return
    if step == depth - 1:
      return
    x = x_next
    change = ch.choose(3 if deep() else 2) if deep() or dim == 0 else 2
    rate = rate * (.5, 2., 1.)[change]
    if rate > 64 or rate < 1e-3:
      return


# --- bounding integrals ------------------------------------------------------


def integrate(coefficients, a, b):
  return sum(LD(c) * (LD(b)**(i + 1) - LD(a)**(i + 1)) / (i + 1)
             for i, c in enumerate(coefficients))


def exact_integral(prog, a, b, memo={}):
  """Gauss-Legendre quadrature in extended precision, many panels."""
  key = (prog, a, b)
  if key not in memo:
    nodes, weights = np.polynomial.legendre.leggauss(20)
    total = LD(0)
    n = 16
    for k in range(n):
      l = LD(a) + (LD(b) - LD(a)) * k / n
      w = (LD(b) - LD(a)) / n
      xs = l + w * (nodes.astype(LD) + 1) / 2
      total += np.sum(P.value(prog, xs) * weights.astype(LD)) * w / 2
    memo[key] = total
  return memo[key]


INTEGRANDS = [(op, 'u') for op in (
    'exp', 'log', 'sqrt', 'cbrt', 'rsqrt', 'sigmoid', 'softplus', 'swish',
    'square', 'cube', 'pow4', 'reciprocal', 'pow-2', 'pow1.5', '1-u')] + [
        ('add', ('exp', 'u'), ('square', 'u')),
        ('mul', ('exp', 'u'), 'u'), ('mul', ('sigmoid', 'u'), ('cube', 'u')),
        ('div', ('exp', 'u'), ('2u+1', 'u')), ('exp', ('neg', ('square', 'u'))),
        ('sub', ('mul', 1.5, ('exp', 'u')), ('mul', 25., ('square', 'u'))),
        ('softplus', ('1-u', 'u')), ('sqrt', ('2u+1', 'u')),
        ('log', ('exp', 'u')), ('sigmoid', ('neg', ('cube', 'u'))),
        ('square', ('log', 'u')), ('cube', ('1-u', 'u')),
        ('reciprocal', ('exp', 'u')), ('swish', ('u-3', 'u')),
        ('mul', ('square', 'u'), ('square', 'u'))]
RANGES = ((.25, 1.25), (.5, 4.5), (1., 1.5), (2., 3.), (.75, 2.25))


def integrals(ch):
  prog = ch.pick(INTEGRANDS)
  ch.shard()
  a, b = ch.pick(RANGES)
  top = min(P.top_degree(prog), 8 if deep() else 6)
  degree = ch.pick(range(0, top + 1))
  cells = ch.pick((1, 2, 4))
  if not deep() and cells == 4 and degree not in (1, 2):
    return
  lower = upper = LD(0)
  size = LD(0)
  f = P.to_jax(prog)
  make = ab.taylor_bounds(f, degree)
  for k in range(cells):
    l, h = a + (b - a) * k / cells, a + (b - a) * (k + 1) / cells
    # odd powers change sign at x0, so start at the end of the range
    x0 = (l + h) / 2 if degree % 2 == 0 else l
    bound = make(x0, (l, h))
    ch.count(1)
    low = [float(c[0] if isinstance(c, tuple) else c)
           for c in bound.coefficients]
    high = [float(c[1] if isinstance(c, tuple) else c)
            for c in bound.coefficients]
    lower += integrate(low, l - x0, h - x0)
    upper += integrate(high, l - x0, h - x0)
    size += sum(abs(LD(c)) * (h - l)**(i + 1) for i, c in enumerate(high))
  exact = exact_integral(prog, a, b)
  tol = 1e-9 * (1 + abs(exact) + size)
  label = f'{prog}:{degree}:{cells}:{a}'
  ch.check(lower <= exact + tol and exact <= upper + tol, f'integral:{label}',
           lambda: f'{prog} over [{a}, {b}], degree {degree}, {cells} cells: '
           f'{exact} not in [{lower}, {upper}]')
  p = P.polynomial_degree(prog)
  if p is not None and p <= degree:
    ch.check(upper - lower <= 4 * tol, f'exact:{label}',
             lambda: f'{prog}: [{lower}, {upper}] is not exact')
  ch.outcome((label, float(lower), float(upper)))


SPACES = {'types': types, 'sequences': sequences, 'objects': objects, 'infinite': infinite, 'computed': computed, 'steps': steps,
          'integrals': integrals}
