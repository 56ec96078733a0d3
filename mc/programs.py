"""Scalar programs: syntax trees over lanes u = S*x + C of a scalar input x.

A program is a nested tuple: 'u' (the lane argument), or (op, arg, ...).  Each
program has a jax implementation, an extended-precision value and an
extended-precision Taylor expansion, none of which uses the code under test.
One bound computation covers every lane (reference value and region of u).
"""

import math

import numpy as np

from mc import encl, ref
from mc.lib import LD, ends

# name: (value, jet, domain, max_degree)
# domain: 'all', 'positive', 'nonzero' (smooth away from 0), 'abs'
_POLY = lambda k: (lambda v: v**k, lambda j: ref.jet_int_pow(j, k), 'all', 99)
_RECIP = lambda k: (lambda v: ref.f_pow(-k, v),
                    lambda j: ref.jet_int_pow(j, -k), 'nonzero', 99)
_FRAC = lambda p: (lambda v: ref.f_pow(p, v), lambda j: ref.jet_pow(p, j),
                   'positive', 99)


def _affine(a, b):
  return (lambda v: LD(a) * v + LD(b),
          lambda j: [LD(a) * j[0] + LD(b)] + [LD(a) * c for c in j[1:]],
          'all', 99)


def _named(name, domain='all', top=99):
  return (ref.VALUES[name], ref.JETS[name], domain, top)


class _Table(dict):
  """Operations with a number in their name are made on demand."""

  def __init__(self, make, **entries):
    super().__init__()
    self.make = make

  def __missing__(self, name):
    return self.make(name)


def exponent_of(name):
  return float(name.split(':')[2])


# How a constant is written in the program.
CONSTANTS = {
    'float': float, 'int': lambda c: int(c), 'float64': np.float64,
    'float32': np.float32, 'int32': lambda c: np.int32(c),
    'array': lambda c: np.array(c), 'array1': lambda c: np.array([c]),
    'jax': lambda c: __import__('jax').numpy.asarray(c),
    'jaxint': lambda c: __import__('jax').numpy.asarray(int(c)),
}
CONSTANT_OPS = ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'div', 'rdiv')


def constant_of(name):
  _, op, kind, c = name.split(':')
  value = float(c)
  return op, CONSTANTS[kind](value), float(
      np.float32(value) if kind == 'float32' else value)


def _make(name):
  """'pow:style:exponent' or 'const:op:kind:value'."""
  if name.startswith('pow:'):
    p = exponent_of(name)
    if p != int(p):
      return _FRAC(p)
    return _POLY(int(p)) if p >= 0 else _RECIP(-int(p))
  if not name.startswith('const:'):
    raise KeyError(name)
  op, _, c = constant_of(name)
  if op in ('add', 'radd'):
    return _affine(1, c)
  if op in ('sub', 'rsub'):
    return _affine(1, -c) if op == 'sub' else _affine(-1, c)
  if op in ('mul', 'rmul'):
    return _affine(c, 0)
  if op == 'div':
    return (lambda v: v / LD(c), lambda j: [x / LD(c) for x in j], 'all', 99)
  return (lambda v: LD(c) / v, lambda j: ref.jet_scale(c, ref.jet_recip(j)),
          'nonzero', 99)


UNARY = _Table(_make)
UNARY.update({
    'neg': _named('neg'), 'exp': _named('exp'),
    'log': _named('log', 'positive'), 'abs': _named('abs', 'abs', 1),
    'sqrt': _named('sqrt', 'positive'), 'cbrt': _named('cbrt', 'nonzero'),
    'rsqrt': _named('rsqrt', 'positive'),
    'sigmoid': _named('sigmoid', 'all', 4),
    'logistic': _named('sigmoid', 'all', 4),
    'softplus': _named('softplus', 'all', 5),
    'swish': _named('swish', 'all', 4),
    'square': _POLY(2), 'cube': _POLY(3), 'pow4': _POLY(4), 'pow1': _POLY(1),
    'pow0': _POLY(0), 'reciprocal': _RECIP(1), 'pow-2': _RECIP(2),
    'pow-3': _RECIP(3),
    'pow.5': _FRAC(.5), 'pow1.5': _FRAC(1.5), 'pow-.5': _FRAC(-.5),
    'pow2.': (lambda v: v**2, lambda j: ref.jet_int_pow(j, 2), 'all', 99),
    '2u+1': _affine(2, 1), '1-u': _affine(-1, 1), 'u/4': _affine(.25, 0),
    'u-3': _affine(1, -3),
    '2/u': (lambda v: 2 / v, lambda j: ref.jet_scale(2, ref.jet_recip(j)),
            'nonzero', 99),
})


def _jnp_make(name):
  import jax
  import jax.numpy as jnp
  import operator
  if name.startswith('pow:'):
    p = exponent_of(name)
    return {'python': lambda u: u**(int(p) if p == int(p) else p),
            'lax': lambda u: jax.lax.pow(u, jnp.asarray(p, u.dtype)),
            'literal': lambda u: jax.lax.pow(u, p),
            'jnp': lambda u: jnp.power(u, p),
            'float_power': lambda u: jnp.float_power(u, p),
            'array': lambda u: u**np.asarray(p),
            'computed': lambda u: jax.lax.pow(u, jnp.asarray(p / 2) * 2.),
            'integer': lambda u: jax.lax.integer_pow(u, int(p))
            }[name.split(':')[1]]
  op, c, _ = constant_of(name)
  f = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
       'div': operator.truediv}[op.removeprefix('r')]
  return (lambda u: f(c, u)) if op[0] == 'r' else (lambda u: f(u, c))


def _jnp_unary():
  import jax
  import jax.numpy as jnp
  table = _Table(_jnp_make)
  table.update({
      'neg': lambda u: -u, 'exp': jnp.exp, 'log': jnp.log, 'abs': jnp.abs,
      'sqrt': jnp.sqrt, 'cbrt': jnp.cbrt, 'rsqrt': jax.lax.rsqrt,
      'sigmoid': jax.nn.sigmoid, 'logistic': jax.lax.logistic,
      'softplus': jax.nn.softplus, 'swish': jax.nn.swish,
      'square': lambda u: u**2, 'cube': lambda u: u**3,
      'pow4': lambda u: u**4, 'pow1': lambda u: u**1,
      'pow0': lambda u: jax.lax.integer_pow(u, 0),
      'reciprocal': lambda u: 1 / u, 'pow-2': lambda u: u**-2,
      'pow-3': lambda u: u**-3, 'pow.5': lambda u: u**.5,
      'pow1.5': lambda u: u**1.5, 'pow-.5': lambda u: u**-.5,
      'pow2.': lambda u: jax.lax.pow(u, 2.), '2u+1': lambda u: 2 * u + 1,
      '1-u': lambda u: 1 - u, 'u/4': lambda u: u / 4, 'u-3': lambda u: u - 3,
      '2/u': lambda u: 2 / u,
  })
  return table


BINARY = ('add', 'sub', 'mul', 'div')
_CACHE = {}


def to_jax(prog):
  """A jax function of the lane argument u."""
  if 'unary' not in _CACHE:
    _CACHE['unary'] = _jnp_unary()
  unary = _CACHE['unary']
  import operator
  binary = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
            'div': operator.truediv}
  def fun(u):
    memo = {}
    def ev(p):
      if p == 'u':
        return u
      if isinstance(p, float):
        return p
      if p not in memo:
        args = [ev(a) for a in p[1:]]
        memo[p] = (binary[p[0]] if p[0] in binary else unary[p[0]])(*args)
      return memo[p]
    return ev(prog)
  return fun


def value(prog, u):
  if prog == 'u':
    return u
  if isinstance(prog, float):
    return LD(prog)
  args = [value(a, u) for a in prog[1:]]
  with np.errstate(all='ignore'):
    op = prog[0]
    if op == 'add':
      return args[0] + args[1]
    if op == 'sub':
      return args[0] - args[1]
    if op == 'mul':
      return args[0] * args[1]
    if op == 'div':
      return args[0] / args[1]
    return UNARY[op][0](args[0])


def all_finite(prog, u):
  """Where every intermediate value is finite."""
  if prog == 'u' or isinstance(prog, float):
    return np.ones(np.shape(u), bool)
  ok = np.isfinite(value(prog, u))
  for a in prog[1:]:
    ok = ok & all_finite(a, u)
  return ok


def jet(prog, u):
  if prog == 'u':
    return u
  if isinstance(prog, float):
    return ref.jet_const(np.full_like(u[0], prog), len(u) - 1)
  args = [jet(a, u) for a in prog[1:]]
  with np.errstate(all='ignore'):
    op = prog[0]
    if op == 'add':
      return ref.jet_add(*args)
    if op == 'sub':
      return ref.jet_sub(*args)
    if op == 'mul':
      return ref.jet_mul(*args)
    if op == 'div':
      return ref.jet_mul(args[0], ref.jet_recip(args[1]))
    return UNARY[op][1](args[0])


def scale(prog, u):
  """(value, s): a relative error e of every operation changes it by <= e*s."""
  if prog == 'u':
    return u, np.abs(u)
  if isinstance(prog, float):
    return LD(prog), abs(LD(prog))
  args = [scale(a, u) for a in prog[1:]]
  op = prog[0]
  with np.errstate(all='ignore'):
    if op in BINARY:
      (a, sa), (b, sb) = args
      if op in ('add', 'sub'):
        return (a + b if op == 'add' else a - b), sa + sb
      if op == 'mul':
        return a * b, np.abs(a) * sb + np.abs(b) * sa + np.abs(a * b)
      return a / b, (sa + np.abs(a / b) * sb) / np.abs(b) + np.abs(a / b)
    a, sa = args[0]
    v, d = UNARY[op][1]([a, np.ones_like(a)])
    # Affine operations round their constants' contributions, too.
    extra = 4. if op in ('2u+1', '1-u', 'u-3') else 0.
    if op.startswith('const:'):
      extra = abs(float(op.split(':')[3]))
    change = np.abs(np.where(np.isnan(d), np.inf, d)) * sa
    return v, np.abs(v) + np.where(sa == 0, 0, change) + extra


def top_degree(prog):
  if prog == 'u' or isinstance(prog, float):
    return 99
  t = min(top_degree(a) for a in prog[1:])
  return t if prog[0] in BINARY else min(t, UNARY[prog[0]][3])


def nodes(prog):
  """(op, domain, argument) of every node with a restricted domain or a region."""
  if prog == 'u' or isinstance(prog, float):
    return []
  out = [n for a in prog[1:] for n in nodes(a)]
  op = prog[0]
  if op == 'div':
    out.append((op, 'nonzero', prog[2]))
  elif op not in BINARY:
    out.append((op, UNARY[op][2], prog[1]))
  return out


def linear_constant(op):
  return op.startswith('const:') and ':rdiv:' not in op


def polynomial_degree(prog):
  """Degree if prog is a polynomial built from sums, products and powers."""
  if prog == 'u':
    return 1
  if isinstance(prog, float):
    return 0
  d = [polynomial_degree(a) for a in prog[1:]]
  if None in d:
    return None
  op = prog[0]
  if op in ('add', 'sub'):
    return max(d)
  if op == 'mul':
    return sum(d)
  if op in ('neg', '2u+1', '1-u', 'u-3', 'pow1') or linear_constant(op):
    return d[0]
  if op.startswith('pow:'):
    p = exponent_of(op)
    return int(p) * d[0] if p == int(p) and p >= 0 else None
  k = {'square': 2, 'cube': 3, 'pow4': 4, 'pow0': 0, 'pow2.': 2}.get(op)
  return None if k is None else k * d[0]


# --- lanes ------------------------------------------------------------------

C_POINTS = (-6., -2.5, -1., -.5, -.25, 0., .25, .5, 1., 2.5, 6.)
S_POINTS = (.25, 1., -.5, 2.)
# (x0, lower, upper)
REGIONS = [(.5, -.5, 1.5), (.5, .5, 1.5), (-1., -2., -.75), (2., 2., 2.)]
Z_FRACTIONS = (0., .125, .3, .5, .625, .8, 1.)


def lane_constants(x0, c_points=C_POINTS, s_points=S_POINTS):
  """S and C such that u = S*x + C has u(x0) = c for every pair (c, s)."""
  c = np.repeat(np.array(c_points), len(s_points))
  s = np.tile(np.array(s_points), len(c_points))
  return s, c - s * x0


def lane_function(prog, S, C):
  g = to_jax(prog)
  return lambda x: g(S * x + C)


def sample_x(x0, lo, hi):
  xs = {lo + (hi - lo) * t for t in Z_FRACTIONS}
  xs |= {x0, (x0 + lo) / 2, (x0 + hi) / 2, x0 + (hi - x0) / 16,
         x0 + (lo - x0) / 16}
  return sorted(xs)


class Oracle:
  """Reference values of one program on lanes over one trust region."""

  def __init__(self, prog, x0, lo, hi, S, C):
    self.prog, self.x0, self.lo, self.hi = prog, x0, lo, hi
    self.S, self.C = S, C
    self.xs = sample_x(x0, lo, hi)
    self.u = [S.astype(LD) * LD(x) + C.astype(LD) for x in self.xs]
    self.values = [np.broadcast_to(value(prog, u), S.shape) for u in self.u]
    self.defined = [np.broadcast_to(all_finite(prog, u), S.shape)
                    for u in self.u]
    scales = [scale(prog, u)[1] for u in self.u]
    self.scales = [np.broadcast_to(np.where(np.isnan(s), 0, s), S.shape)
                   for s in scales]

  def jets(self, degree):
    u0 = self.S.astype(LD) * LD(self.x0) + self.C.astype(LD)
    j = [u0] + [np.zeros_like(u0) for _ in range(degree)]
    if degree:
      j[1] = self.S.astype(LD)
    return jet(self.prog, j)

  def regular(self, degree, bounds_of=None, smallest=1e-10):
    """Lanes where rounding noise of the remainder ratios stays small.

    For every elementwise operation: the distances from the reference value
    to both end points of the argument's range are zero, or comparable and
    such that their degree-th power is not tiny.  The same is required of the
    range derived from the bounds of the argument, given by bounds_of().
    """
    tr = (np.float64(self.lo - self.x0), np.float64(self.hi - self.x0))
    ok = np.ones(self.S.shape, bool)
    for v in self.values:
      ok &= ~np.isfinite(v) | (np.abs(v) < 1e12)
    for op, _, arg in nodes(self.prog):
      for u in self.u:
        v = np.abs(value(arg, u))
        ok &= ~((v > 25) if op == 'exp' else np.isfinite(v) & (v > 1e12))
      if op in ('square', 'cube', 'pow4', 'pow1', 'pow0', 'pow2.', '2u+1',
                '1-u', 'u/4', 'u-3', 'neg') or linear_constant(op) or (
                    polynomial_degree((op, 'u')) is not None):
        continue
      vals = np.array([value(arg, u) for u in self.u])
      u0 = value(arg, self.S.astype(LD) * LD(self.x0) + self.C.astype(LD))
      with np.errstate(all='ignore'):
        d1, d2 = u0 - np.min(vals, 0), np.max(vals, 0) - u0
        big = np.maximum(d1, d2)
        distances = [d1, d2]
        if bounds_of is not None and arg != 'u' and degree > 0:
          coeffs = [ends(c) for c in bounds_of(arg)]
          if len(coeffs) > 1:
            rl, rh = encl.range_of(coeffs, tr, 0)
            c_l, c_h = coeffs[0]
            for d in (c_l - rl, rh - c_h):
              d = np.where(np.abs(d) < 1e-14 * (1 + np.abs(c_l)), 0, d)
              distances.append(d.astype(LD))
        for d in distances:
          fine = (d == 0) | (((big / d)**degree < 1e5)
                             & (d**degree > smallest))
          ok &= fine | ~np.isfinite(d)
    return ok


def comfortable(prog, bounds_of, degree, lo, hi, x0):
  """Lanes where bounds of every intermediate stay inside the domains.

  bounds_of(sub) -> coefficients of the bounds of a sub-program.
  """
  ok = True
  tr = (np.float64(lo - x0), np.float64(hi - x0))
  for _, domain, arg in nodes(prog):
    if domain == 'all' or isinstance(arg, float):
      continue
    if domain == 'abs' and degree == 0:
      continue
    coeffs = [ends(c) for c in bounds_of(arg)]
    if domain == 'abs':
      ok = ok & ((coeffs[0][0] > 0) | (coeffs[0][1] < 0))
      continue
    if len(coeffs) == 1:
      # the bound itself: the range must stay away from 0
      l, h = coeffs[0]
      w = 1.2 * (h - l)
      inside = l - w > 0.01
      if domain == 'nonzero':
        inside = inside | (h + w < -0.01)
    else:
      with np.errstate(invalid='ignore'):
        inside = np.asarray(encl.away_from_zero(coeffs, tr, 0,
                                                domain == 'positive'))
    ok = ok & inside
  # All coefficients of the arguments must be finite.
  for _, _, arg in nodes(prog):
    if not isinstance(arg, float):
      for c in bounds_of(arg):
        for e in ends(c):
          ok = ok & np.isfinite(e)
  return ok


# --- the code under test ----------------------------------------------------


def compute(prog, S, C, degree, prop, x0, lo, hi):
  """taylor_bounds of prog(S*x + C)."""
  import jax.numpy as jnp
  from autobound.jax import jax_bound
  f = lane_function(prog, S, C)
  return jax_bound.taylor_bounds(f, degree, prop)(
      jnp.asarray(x0), (jnp.asarray(lo), jnp.asarray(hi)))


def coefficients(ch, prog, S, C, degree, prop, region):
  """Coefficients, memoised per shard (sub-programs are shared)."""
  key = (prog, degree, prop, region, S.size)
  memo = ch.cache
  if key not in memo:
    if len(memo) > 4000:
      memo.clear()
    ch.count(1)
    b = compute(prog, S, C, degree, prop, *region)
    memo[key] = tuple(
        tuple(np.asarray(e) for e in c) if isinstance(c, tuple)
        else np.asarray(c) for c in b.coefficients)
  return memo[key]


def hash_of(*names):
  return sum(sum(map(ord, str(n))) * (k + 1) for k, n in enumerate(names))


# Exponents near and far from integers.
EXPONENTS = tuple(float(k) for k in range(-4, 7)) + tuple(
    k + s * 2.**-j for k in range(-3, 5) for j in (1, 3, 6, 8, 10, 14, 20, 30)
    for s in (-1, 1) if not (j == 1 and s < 0)) + (
        1 / 3, 2 / 3, -1 / 3, 4 / 3, 2.7182818, 7.25, -5.5)
POWER_STYLES = ('python', 'lax', 'literal', 'jnp', 'float_power', 'array',
                'computed', 'integer')


def choose_power(ch, every=False):
  p = ch.pick(EXPONENTS)
  if p == int(p) or p in (.5, 1.5, -.5, 1.25) or every:
    style = ch.pick(POWER_STYLES)
  else:
    k = round(p * 2.**30)
    style = POWER_STYLES[:-1][k % 7]
  ch.shard()
  if style == 'integer' and p != int(p):
    return None
  if p == 0 and style != 'integer':
    return None
  return (f'pow:{style}:{p!r}', 'u')


CONSTANT_VALUES = (2., -3., 1., 0., -1., 5., .5, -.1, 1e-4, 1e4)


def choose_constant(ch):
  op = ch.pick(CONSTANT_OPS)
  c = ch.pick(CONSTANT_VALUES)
  kind = ch.pick(list(CONSTANTS))
  ch.shard()
  if 'int' in kind and c != int(c) or c == 0 and op in ('div', 'rdiv'):
    return None
  return (f'const:{op}:{kind}:{c!r}', 'u')


TRIPLE_OPS = ('exp', 'log', 'sqrt', 'sigmoid', 'softplus', 'square',
              'reciprocal', '1-u', 'pow1.5', 'swish', 'cube', 'abs', 'neg',
              'logistic')
PAIR_ARGS = ('u', ('exp', 'u'), ('log', 'u'), ('square', 'u'), ('cube', 'u'),
             ('sigmoid', 'u'), ('softplus', 'u'), ('swish', 'u'),
             ('sqrt', 'u'), ('reciprocal', 'u'), ('2u+1', 'u'), ('abs', 'u'),
             2., ('exp', ('neg', 'u')))


def choose_nested(ch):
  """Binary operations of binary operations, and functions of them."""
  small = PAIR_ARGS[:3] + PAIR_ARGS[5:6]
  op1, op2 = ch.pick(BINARY), ch.pick(BINARY)
  shape = ch.choose(4)
  a, b = ch.pick(small), ch.pick(small)
  if shape == 0:
    return (op1, (op2, a, b), b)
  if shape == 1:
    return (op1, a, (op2, b, a))
  if shape == 2:
    return ('square', (op1, (op2, a, b), 'u'))
  return ('sigmoid', (op1, a, (op2, 'u', b)))
