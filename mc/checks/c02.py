"""C02: bounds of array functions have the right shape and elements."""

import itertools

from mc import core

if core.WORKER:
  import numpy as np
  import jax
  import jax.numpy as jnp
  from jax import lax
  from autobound.jax import jax_bound
  from mc.lib import *  # pylint: disable=wildcard-import
from mc.programs import hash_of

BOUNDS = {
    'quick': 'every reshape, transpose, squeeze, reduction, broadcast of 4 '
             'array shapes and all sequences of two; dot_general for every '
             'batch/contracting/free structure of operands of rank <= 3 and '
             'every placement of the dimensions; 1-d and 2-d convolutions '
             'over strides, paddings, dilations, groups and layouts; window '
             'sums; all binary operations over 7x7 operand shapes; scalar '
             'and vector x; left, right or both operands depending on x; '
             'degree 0..3; corners and interior points of 3 boxes; '
             'Jacobian and Hessian compared with automatic differentiation',
    'thorough': 'as quick with all degrees and both propagation modes for '
                'every program, and sequences of three structural operations',
}
ASSUMPTIONS = [
    'JAX evaluates and differentiates the function correctly',
    'tolerance 1e-9 of the largest term',
    'operations that autobound does not list as supported (slices, sorting, '
    'maxima, ...), array exponents, and convolutions of functions of a vector '
    'may be refused',
]


def tasks(tier):
  ts = []
  for name, n in (('single', 12), ('double', 24), ('dots', 32), ('convs', 12),
                  ('binary', 16)):
    ts += core.shards(name, n, tier=tier)
  if tier == 'thorough':
    ts += core.shards('triple', 64, tier=tier)
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  core.simple_run_task(SPACES, task, stats)


def deep():
  return TIER == 'thorough'


def constants(shape, seed):
  """A deterministic array without repeated elements or symmetry."""
  n = int(np.prod(shape, dtype=int))
  k = np.arange(n)
  v = (((k * 7 + seed * 5 + 3) % 17) - 8.) / 8 + (k % 3) / 16 + seed / 64
  return v.reshape(shape)


# regions: (x0, lower, upper)
def regions(nx):
  if nx == 0:
    return [tuple(np.array(v) for v in t) for t in
            ((.5, -.25, 1.25), (.5, .5, 1.25), (-.75, -1., -.75))]
  base = [([.5, -.25, 1.], [-.25, -.75, .5], [1., .25, 1.75]),
          ([.5, -.25, 1.], [.5, -.25, .25], [1.25, .75, 1.]),
          ([-.5, 1., 0.], [-1., 1., 0.], [-.5, 1., .25])]
  return [tuple(np.array(v)[:nx] for v in t) for t in base]


NAN_OK = ('softmax', 'norm2', 'div ', 'pow ')
# Operations that are not supported; powers with an array as the exponent and
# convolutions of functions of a vector are not either.
UNSUPPORTED = ('flip', 'slice', 'concat', 'stack', 'max', 'cumsum', 'prod',
               'index', 'roll', 'pad', 'sort', 'var', 'where-free', 'pow')


def may_refuse(name, nx):
  return (name.split(' ')[0] in UNSUPPORTED
          or (name.startswith('conv') and nx > 0))


PRES = ('affine', 'exp', 'square', 'x*affine')


def source(nx, shape, pre, seed):
  """An array of the given shape depending on x."""
  w = constants(tuple(shape) + ((nx,) if nx else ()), seed)
  b = constants(shape, seed + 3)
  def fun(x):
    if nx:
      a = jnp.dot(w, x) + b
      s = jnp.sum(x)
    else:
      a = w * x + b
      s = x
    if pre == 'exp':
      return jnp.exp(.5 * a)
    if pre == 'square':
      return a**2
    if pre == 'x*affine':
      return a * s
    return a
  return fun


def examine(ch, name, f, nx, degree, prop, region):
  x0, lo, hi = region
  fx0 = jnp.asarray(x0)
  shape = jax.eval_shape(f, fx0).shape
  if int(np.prod(shape, dtype=int)) == 0:
    return
  ch.count(1)
  try:
    coeffs = jax_bound.taylor_bounds(f, degree, prop)(
        fx0, (jnp.asarray(lo), jnp.asarray(hi))).coefficients
  except Exception as e:  # pylint: disable=broad-except
    if not may_refuse(name, nx):
      ch.fail(f'refused:{name}:{nx}:{degree}:{int(prop)}', f'{name} (x of '
              f'{nx or "no"} elements), degree {degree}, propagate={prop}: '
              f'{type(e).__name__}: {str(e)[:300]}')
    ch.outcome((name, nx, degree, 'refused', type(e).__name__))
    return
  key = f'{name}:{nx}:{degree}:{int(prop)}'
  ndim = 1 if nx else 0
  xs = [lo, hi, x0, (lo + hi) / 2, (3 * lo + x0) / 4]
  if nx:
    xs += [np.where(np.array(m), lo, hi) for m in np.ndindex(*(2,) * nx)]
    xs += [(np.where(np.array(m), lo, hi) + x0) / 2
           for m in np.ndindex(*(2,) * nx)]
  else:
    xs += [(lo + x0) / 2, (hi + 3 * x0) / 4]
  ev = evaluator(ch, name, f, nx)
  for i, c in enumerate(coeffs):
    want = shape + ((nx,) if nx else ()) * i
    for e in ends(c):
      ch.check(e.shape == want, f'coefficient-shape:{key}:{i}',
               lambda: f'{name}: coefficient {i} of shape {e.shape}, '
               f'expected {want}')
  for x in xs:
    fx = ev(x)
    l, h = eval_enclosure(coeffs, x - x0, ndim)
    tol = 1e-9 * (1 + magnitude(coeffs, x - x0, ndim))
    ch.check(np.shape(l) == shape == np.shape(h), f'shape:{key}',
             lambda: f'{name}: bounds of shape {np.shape(l)} {np.shape(h)}, '
             f'f has shape {shape}')
    with np.errstate(invalid='ignore'):
      ok = (l <= fx + tol) & (fx <= h + tol)
      ok |= ~np.isfinite(fx)
      if any(t in name for t in NAN_OK):
        # the bounds of a denominator may include 0 (see C01)
        ok |= np.isnan(l) | np.isnan(h)
    ch.count(evaluations=int(np.size(ok)))
    if not np.all(ok):
      ch.fail(f'contains:{key}', f'{name} (x of {nx or "no"} elements), degree '
              f'{degree}, propagate={prop}, x0={x0}, region [{lo}, {hi}]: '
              f'f({x}) = {fx.tolist()} not in [{l.tolist()}, {h.tolist()}]')
  fx = ev(x0)
  if len(coeffs) > 1:
    ch.check(not is_interval(coeffs[0]) and bool(
        np.all(close(coeffs[0], fx, 1e-9, 1e-12))), f'value:{key}',
             lambda: f'{name}: coefficient 0 {coeffs[0]} is not f(x0) {fx}')
  if len(coeffs) > 1 and not is_interval(coeffs[1]):
    jac = evaluator(ch, name, f, nx, 'jac')(x0)
    ch.check(bool(np.all(close(coeffs[1], jac, 1e-9, 1e-10))),
             f'jacobian:{key}', lambda: f'{name} x0={x0}: coefficient 1 '
             f'{np.asarray(coeffs[1]).tolist()} is not the Jacobian '
             f'{jac.tolist()}')
  if len(coeffs) > 2 and not is_interval(coeffs[2]):
    hess = evaluator(ch, name, f, nx, 'hess')(x0) / 2
    c2 = np.asarray(coeffs[2])
    if nx:
      c2 = (c2 + np.swapaxes(c2, -1, -2)) / 2
    ch.check(bool(np.all(close(c2, hess, 1e-8, 1e-9))), f'hessian:{key}',
             lambda: f'{name} x0={x0}: coefficient 2 {c2.tolist()} is not '
             f'half of the Hessian {hess.tolist()}')
  ch.outcome((key, [np.asarray(c).tobytes() for c in coeffs]))


def evaluator(ch, name, f, nx, what='value'):
  """jit-compiled f (or derivative) memoised per program."""
  memo = ch.cache
  key = (name, nx, what)
  if key not in memo:
    if len(memo) > 60:
      memo.clear()
    g = {'value': f, 'jac': jax.jacfwd(f), 'hess': jax.jacfwd(jax.jacfwd(f))}
    memo[key] = jax.jit(g[what])
  compiled = memo[key]
  return lambda x: np.asarray(compiled(jnp.asarray(x)))


def settings(ch, name, degrees=None):
  """Chooses x's size, degree, propagation mode and region."""
  k = hash_of(name)
  if deep():
    return (ch.pick([0, 3, 2]), ch.choose(4), ch.flag())
  n = ch.choose(2)
  nx = ((0, 3), (2, 0), (3, 2))[(k // 8) % 3][n]
  degree = (degrees or (1, 2, 3, 0))[(k + n) % 4]
  return nx, degree, bool((k // 4 + n) % 2)


# --- structural operations --------------------------------------------------


def structural(shape):
  """Every single structural operation on arrays of the given shape."""
  n = int(np.prod(shape, dtype=int))
  rank = len(shape)
  ops = []
  shapes = {(n,), (1, n), (n, 1)}
  for d in range(2, n):
    if n % d == 0:
      shapes.add((d, n // d))
      shapes.add((d, 1, n // d))
  if n == 1:
    shapes.add(())
  for s in sorted(shapes - {tuple(shape)}):
    ops.append((f'reshape{s}', lambda a, s=s: jnp.reshape(a, s)))
  for p in itertools.permutations(range(rank)):
    if p != tuple(range(rank)):
      ops.append((f'transpose{p}', lambda a, p=p: jnp.transpose(a, p)))
  for r in range(1, rank + 1):
    for axes in itertools.combinations(range(rank), r):
      ops.append((f'sum{axes}', lambda a, x=axes: jnp.sum(a, axis=x)))
      if r == 1:
        ops.append((f'sumkeep{axes}',
                    lambda a, x=axes: jnp.sum(a, axis=x, keepdims=True)))
        ops.append((f'mean{axes}', lambda a, x=axes: jnp.mean(a, axis=x)))
      if all(shape[i] == 1 for i in axes):
        ops.append((f'squeeze{axes}', lambda a, x=axes: jnp.squeeze(a, x)))
  for axis in range(rank + 1):
    ops.append((f'expand{axis}',
                lambda a, x=axis: jnp.expand_dims(a, x)))
    ops.append((f'repeat-new{axis}', lambda a, x=axis: lax.broadcast_in_dim(
        a, a.shape[:x] + (2,) + a.shape[x:],
        [i for i in range(a.ndim + 1) if i != x])))
  if 1 in shape:
    axis = shape.index(1)
    ops.append((f'widen{axis}', lambda a, x=axis: jnp.broadcast_to(
        a, a.shape[:x] + (3,) + a.shape[x + 1:])))
  if rank >= 1:
    for window, strides in (((2,), (1,)), ((2,), (2,)), ((3,), (1,))):
      w = (1,) * (rank - 1) + window
      s = (1,) * (rank - 1) + strides
      for padding in ('VALID', 'SAME'):
        ops.append((f'window{w}{s}{padding}',
                    lambda a, w=w, s=s, p=padding: lax.reduce_window(
                        a, 0., lax.add, w, s, p)))
  return ops


# Rearrangements that are not (all) supported: bounds must be right if given.
OTHER = (
    ('flip', lambda a: a[::-1]), ('slice', lambda a: a[1:]),
    ('concat', lambda a: jnp.concatenate([a, a])),
    ('stack', lambda a: jnp.stack([a, 2 * a])),
    ('max', lambda a: jnp.max(a, axis=0)), ('cumsum', lambda a: jnp.cumsum(a)),
    ('prod', lambda a: jnp.prod(a)), ('index', lambda a: a[0]),
    ('roll', lambda a: jnp.roll(a, 1)), ('tile', lambda a: jnp.tile(a, 2)),
    ('pad', lambda a: jnp.pad(a, 1)), ('var', lambda a: jnp.var(a)),
    ('sort', lambda a: jnp.sort(a.ravel())), ('trace', lambda a: jnp.sum(a)),
    ('swapaxes', lambda a: jnp.swapaxes(a, 0, -1)),
    ('ravel', lambda a: jnp.ravel(a)),
    ('norm2', lambda a: jnp.sqrt(jnp.sum(a * a) + 1.)),
    ('outer', lambda a: jnp.outer(a, a)),
    ('einsum', lambda a: jnp.einsum('...i,...i->...', a, a)),
    ('softmax-free', lambda a: jnp.exp(a) / jnp.sum(jnp.exp(a))),
)

SHAPES = ((2, 3), (3,), (1, 2), (2, 1, 3))


def single(ch):
  shape = ch.pick(SHAPES)
  name, op = ch.pick(structural(shape) + list(OTHER), 'operation')
  k = hash_of(name, str(shape))
  pre = ch.pick(PRES if deep() else [PRES[k % 4], PRES[(k // 4) % 3 - 3]])
  ch.shard()
  label = f'{name} of {pre}{shape}'
  nx, degree, prop = settings(ch, label)
  g = source(nx, shape, pre, 1)
  region = regions(nx)[hash_of(label, str(nx)) % 3]
  examine(ch, label, lambda x: op(g(x)), nx, degree, prop, region)


POSTS = {
    'exp': lambda a: jnp.exp(a / 8),
    'times': lambda a: a * constants(a.shape, 4),
    'sum all': lambda a: jnp.sum(a),
    'plus last': lambda a: a + constants(a.shape[-1:], 5),
    'square': lambda a: a**2,
}


def pick_structural(ch, shape, label):
  ops = structural(shape)
  if not deep():
    # leave out near-duplicates
    ops = [o for o in ops if not o[0].startswith(('mean', 'window(1, 1'))]
    keep = 8
    k = hash_of(str(shape), label)
    if len(ops) > keep:
      ops = [ops[(k + i * len(ops) // keep) % len(ops)] for i in range(keep)]
  return ch.pick(ops, 'operation')


def sequence(ch, length):
  shape = ch.pick(((2, 3), (2, 1, 3)))
  g0 = jnp.zeros(shape)
  names, ops = [], []
  for n in range(length):
    name, op = pick_structural(ch, g0.shape, str(n))
    names.append(name)
    ops.append(op)
    g0 = op(g0)
    if g0.size == 0 or g0.ndim == 0 or g0.ndim > 4:
      break
  ch.shard()
  label = f'{"; ".join(names)} of {shape}'
  k = hash_of(label)
  nx, degree, prop = settings(ch, label, (2, 1, 3, 2))
  post = ch.pick(list(POSTS)) if deep() else list(POSTS)[k % len(POSTS)]
  pre = PRES[k % 4]
  if post == 'plus last' and g0.ndim == 0:
    post = 'times'
  g = source(nx, shape, pre, 2)
  def f(x):
    a = g(x)
    for op in ops:
      a = op(a)
    return POSTS[post](a)
  region = regions(nx)[(k // 3) % 3]
  examine(ch, f'{label}; {pre}; {post}', f, nx, degree, prop, region)


def double(ch):
  sequence(ch, 2)


def triple(ch):
  sequence(ch, 3)


# --- dot_general ------------------------------------------------------------


def layouts(kinds):
  """All distinct orders of the dimensions."""
  return sorted(set(itertools.permutations(kinds)))


def dots(ch):
  nb = ch.choose(3)
  nc = ch.choose(3)
  lf, rf = ch.choose(3), ch.choose(3)
  if nb + nc + lf > 3 or nb + nc + rf > 3 or nb + nc + lf == 0:
    return
  if nb + nc + rf == 0:
    return
  lk = ['b0', 'b1'][:nb] + ['c0', 'c1'][:nc] + ['l0', 'l1'][:lf]
  rk = ['b0', 'b1'][:nb] + ['c0', 'c1'][:nc] + ['r0', 'r1'][:rf]
  # every placement on one side with the canonical one on the other
  side = ch.choose(2)
  if side == 0:
    lhs, rhs = ch.pick(layouts(lk)), tuple(rk)
  else:
    lhs, rhs = tuple(lk), ch.pick(layouts(rk))
    if rhs == tuple(rk):
      return
  ch.shard()
  size = {'b0': 2, 'b1': 3, 'c0': 3, 'c1': 2, 'l0': 2, 'l1': 3, 'r0': 4,
          'r1': 2}
  dims = lambda o, ks: tuple(o.index(k) for k in ks)
  cs, bs = ['c0', 'c1'][:nc], ['b0', 'b1'][:nb]
  dn = ((dims(lhs, cs), dims(rhs, cs)), (dims(lhs, bs), dims(rhs, bs)))
  ls, rs = [size[k] for k in lhs], [size[k] for k in rhs]
  label = f'dot_general {lhs} {rhs}'
  k = hash_of(label)
  modes = ('left', 'right', 'both')
  for nx in (0, 3) if deep() else ((0, 2) if k % 3 == 0 else
                                   [(0, 3, 2)[k % 3]]):
    for m, mode in enumerate(modes):
      if m == (k // 7) % 5 and not deep():
        continue
      degree = (1, 2, 3, 0)[(k + m + nx) % 4] if not deep() else ch.choose(4)
      pre = PRES[(k // 2 + m) % 4]
      prop = bool((k // 3 + m) % 2)
      a = source(nx, ls, pre, 1)
      b = source(nx, rs, PRES[(k // 5 + m) % 4], 2)
      ca, cb = constants(ls, 3), constants(rs, 4)
      def f(x, mode=mode, a=a, b=b, ca=ca, cb=cb):
        return lax.dot_general(a(x) if mode != 'right' else ca,
                               b(x) if mode != 'left' else cb, dn)
      region = regions(nx)[(k + m) % 3]
      examine(ch, f'{label} {mode} {pre}', f, nx, degree, prop, region)


# --- convolutions -----------------------------------------------------------


def convs(ch):
  nd = 1 + ch.choose(2)
  mode = ch.pick(('left', 'right', 'both'))
  stride = ch.pick((1, 2))
  padding = ch.pick(('VALID', 'SAME', 'explicit'))
  config = ch.pick(('plain', 'rhs_dilation', 'lhs_dilation', 'groups',
                    'layout', 'batch_groups'))
  ch.shard()
  label = f'conv{nd}d {mode} stride {stride} {padding} {config}'
  k = hash_of(label)
  if not deep() and nd == 2 and k % 2:
    return
  cin = 2
  batch = 2 if config == 'batch_groups' else 1
  ls = (batch, cin) + (5, 4)[:nd]
  rs = (2 if config != 'batch_groups' else 4,
        cin if config != 'groups' else 1) + (3, 2)[:nd]
  kw = dict(window_strides=(stride,) * nd,
            padding=[(1, 0), (0, 2)][:nd] if padding == 'explicit' else padding)
  if config == 'rhs_dilation':
    kw['rhs_dilation'] = (2,) * nd
  if config == 'lhs_dilation':
    kw['lhs_dilation'] = (2,) * nd
    if padding != 'explicit':
      kw['padding'] = [(int(padding == 'SAME'),) * 2] * nd
  if config == 'groups':
    kw['feature_group_count'] = 2
  if config == 'batch_groups':
    kw['batch_group_count'] = 2
  perm_l = perm_r = None
  if config == 'layout':
    kw['dimension_numbers'] = (('NWC', 'WIO', 'NWC') if nd == 1 else
                               ('NHWC', 'HWIO', 'NHWC'))
    ls = (1,) + ls[2:] + (cin,)
    rs = rs[2:] + (cin, 2)
  for nx in (0, 2):
    if nx and k % 4 and not deep():
      continue  # refused
    degree = (1, 2, 3, 0)[(k + nx // 2) % 4]
    if deep():
      degree = ch.choose(4)
    a, b = source(nx, ls, PRES[k % 4], 1), source(nx, rs, PRES[(k // 4) % 4], 2)
    ca, cb = constants(ls, 3), constants(rs, 4)
    f = lambda x: lax.conv_general_dilated(
        a(x) if mode != 'right' else jnp.asarray(ca),
        b(x) if mode != 'left' else jnp.asarray(cb), **kw)
    for prop in (False, True):
      examine(ch, label, f, nx, degree, prop, regions(nx)[k % 3])


# --- binary operations ------------------------------------------------------

OPERAND_SHAPES = ((), (1,), (3,), (2, 3), (2, 1), (1, 3), (2, 2, 3))


def binary(ch):
  op = ch.pick(('add', 'sub', 'mul', 'div', 'matmul', 'pow', 'where-free'))
  sa, sb = ch.pick(OPERAND_SHAPES), ch.pick(OPERAND_SHAPES)
  mode = ch.pick(('left', 'right', 'both', 'literal'))
  ch.shard()
  label = f'{op} {sa} {sb} {mode}'
  try:
    np.broadcast_shapes(sa, sb)
  except ValueError:
    return
  k = hash_of(label)
  if op == 'where-free' and k % 4 and not deep():
    return
  if not deep() and len(sa) + len(sb) > 2 and k % 3 == 0:
    return
  fun = {
      'add': lambda a, b: a + b, 'sub': lambda a, b: a - b,
      'mul': lambda a, b: a * b, 'div': lambda a, b: a / (b * b + 1.),
      'matmul': lambda a, b: jnp.dot(a, jnp.swapaxes(jnp.atleast_2d(b), -1, -2))
      if a.ndim else a * b,
      'pow': lambda a, b: (a * a + 1.)**(b if mode == 'left' else 2.) * b,
      'where-free': lambda a, b: jnp.maximum(a, b),
  }[op]
  for nx in ((0, 3) if deep() else ((0,) if k % 3 else (0, 2))):
    a = source(nx, sa, PRES[k % 4], 1)
    b = source(nx, sb, PRES[(k // 4) % 4], 2)
    ca, cb = constants(sa, 3), constants(sb, 4)
    if mode == 'literal':
      f = lambda x: fun(a(x), 1.5 if sb == () else jnp.asarray(cb)) - 2.
      if sb != ():
        continue
    else:
      f = lambda x: fun(a(x) if mode != 'right' else jnp.asarray(ca),
                        b(x) if mode != 'left' else jnp.asarray(cb))
    try:
      jax.eval_shape(f, jnp.asarray(regions(nx)[0][0]))
    except Exception:  # pylint: disable=broad-except
      continue
    degree = (1, 2, 3, 0)[(k // 2) % 4] if not deep() else ch.choose(4)
    prop = bool(k % 2) if not deep() else ch.flag()
    examine(ch, label, f, nx, degree, prop, regions(nx)[k % 3])


SPACES = {'single': single, 'double': double, 'triple': triple, 'dots': dots,
          'convs': convs, 'binary': binary}
