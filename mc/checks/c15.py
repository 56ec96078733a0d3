"""C15: back ends, batched and scalar operands all agree."""

import itertools

from mc import core

if core.WORKER:
  import numpy as np
  from mc import encl, prim
  from mc.lib import *  # pylint: disable=wildcard-import
  from autobound import elementwise_functions as ef
  from autobound import polynomials
  from autobound import primitive_enclosures as pe
  from autobound.enclosure_arithmetic import (
      TaylorEnclosureArithmetic, enclose_enclosure)
  from autobound.interval_arithmetic import IntervalArithmetic
  NP = backends()

BOUNDS = {
    'quick': 'every operation is run on numpy arrays, jax arrays, matrices, '
             'scalars one by one, Python floats and integers; intervals: all '
             'pairs of 28 intervals or 7 points; enclosures: all pairs of 6 '
             'point/interval structures of degree <= 1 over about 60 lanes, 3 '
             'maximum degrees, 3 regions, scalar and 2-vector x; primitives: '
             '30 functions, degrees <= 4, all triples of 7 points; function '
             'library: 6 functions, derivatives 0..5; float64 and float32',
    'thorough': 'as quick with structures of degree <= 2, 5 regions, degrees '
                'up to the maximum and 18 points',
}
ASSUMPTIONS = [
    'end points are not (roundings of) critical points of derivatives, where '
    'the rule that applies depends on the last bit',
    'results are compared up to roundoff (and its amplification by remainders '
    'that are divided by powers of the distance to the reference point)',
    'with vector x, elementwise integer powers of interval coefficients of '
    'positive degree may be wider for arrays than for single elements '
    '(the exact diagonal is not used for arrays)',
]


def tasks(tier):
  t = 4 if tier == 'thorough' else 1
  ts = []
  for mode in ('x64', 'x32'):
    ts += core.shards('interval', 3, mode=mode, tier=tier)
    ts += core.shards('bilinear', 3, mode=mode, tier=tier)
    ts += core.shards('enclosure', 8 * t, mode=mode, tier=tier, cost=3)
    ts += core.shards('vector', 4 * t, mode=mode, tier=tier, cost=2)
    ts += core.shards('polynomial', 3, mode=mode, tier=tier)
    ts += core.shards('primitive', 6 * t, mode=mode, tier=tier, cost=2)
    ts += core.shards('library', 3, mode=mode, tier=tier)
  return ts


def run_task(task, stats):
  global TIER
  TIER = task['tier']
  core.simple_run_task(SPACES, task, stats)


def deep():
  return TIER == 'thorough'


# --- variants of an operation ---------------------------------------------------


def dtype():
  return np.float64 if is_x64() else np.float32


def eps():
  return 2.3e-16 if is_x64() else 1.2e-7


def to(tree, conv):
  if isinstance(tree, (tuple, list)):
    return type(tree)(to(t, conv) for t in tree)
  return conv(tree)


def leaves(tree):
  if isinstance(tree, (tuple, list)):
    for t in tree:
      yield from leaves(t)
  else:
    yield tree


def flatten(result, many):
  """[(is an interval, lower, upper)] of a result."""
  out = []
  for c in (result if many else [result]):
    lo, hi = ends(c)
    out.append((isinstance(c, tuple), lo, hi))
  return out


def stack(results):
  """Stacks the flattened results of single lanes."""
  first = results[0]
  out = []
  for i in range(len(first)):
    out.append((first[i][0],
                np.stack([r[i][1] for r in results]),
                np.stack([r[i][2] for r in results])))
  return out


def compare(ch, what, got, want, atol, shapes=True, wider=False):
  """Compares flattened results; atol: array over lanes (first axis)."""
  ch.check(len(got) == len(want), f'structure:{what}',
           lambda: f'{what}: {len(got)} coefficients, expected {len(want)}')
  for i, ((gi, gl, gh), (wi, wl, wh)) in enumerate(zip(got, want)):
    ch.check(gi == wi, f'kind:{what}',
             lambda: f'{what}: coefficient {i} is '
             f'{"an interval" if gi else "a point"}, expected '
             f'{"an interval" if wi else "a point"}')
    if shapes:
      ch.check(gl.shape == wl.shape and gh.shape == wh.shape, f'shape:{what}',
               lambda: f'{what}: coefficient {i} has shape {gl.shape} '
               f'{gh.shape}, expected {wl.shape} {wh.shape}')
    else:
      try:
        wl, wh = (np.broadcast_to(w, gl.shape) for w in (wl, wh))
      except ValueError:
        ch.fail(f'shape:{what}', f'{what}: coefficient {i} has shape '
                f'{wl.shape} but {gl.shape} when computed one by one')
    tol = np.asarray(atol)
    if tol.ndim and gl.ndim:
      tol = tol.reshape(tol.shape + (1,) * (gl.ndim - tol.ndim))
    elif tol.ndim:
      tol = tol.max()
    if wider:
      # `want` was computed for the array, `got` one by one.
      with np.errstate(invalid='ignore'):
        ok = (((wl <= gl + tol) | close(wl, gl, 100 * eps())) &
              ((gh <= wh + tol) | close(wh, gh, 100 * eps())))
    else:
      with np.errstate(invalid='ignore'):
        ok = (close(gl, wl, 100 * eps(), tol) & close(gh, wh, 100 * eps(), tol))
    ch.count(evaluations=int(ok.size))
    at = first_bad(ok)
    if at is not None:
      ch.fail(f'value:{what}', f'{what}: coefficient {i} at {at}: '
              f'({gl[at]!r}, {gh[at]!r}), expected ({wl[at]!r}, {wh[at]!r})')


def variants(ch, what, f, operands, lanes, atol=0., many=False, scalar=True,
             ints=True, wider=False, step=1):
  """Runs f(np_like, *operands) in all the ways, and compares the results.

  The leaves of the operands are arrays whose first axis is the lane, or
  numbers, which are shared by all the lanes.
  """
  is_lane = lambda v: isinstance(v, np.ndarray) and v.ndim > 0
  operands = to(tuple(operands), lambda v: np.asarray(v, dtype()))
  copies = [np.array(v) for v in leaves(operands)]
  with np.errstate(all='ignore'):
    want = flatten(f(np, *operands), many)
    ch.count(1)
    jnp = NP['jnp']
    got = flatten(f(jnp, *to(operands, jnp.asarray)), many)
    ch.count(1)
    compare(ch, f'{what}:jax', got, want, atol)
    # lanes as a matrix
    n = lanes - lanes % 4
    if n:
      matrix = to(operands, lambda v: v[:n].reshape((n // 4, 4) + v.shape[1:])
                  if is_lane(v) else v)
      got = flatten(f(np, *matrix), many)
      ch.count(1)
      flat = []
      for kind, lo, hi in got:
        if lo.ndim < 2:
          flat.append((kind, lo, hi))
        else:
          flat.append((kind, lo.reshape((n,) + lo.shape[2:]),
                       hi.reshape((n,) + hi.shape[2:])))
      some = [(k, lo[:n] if lo.ndim else lo, hi[:n] if hi.ndim else hi)
              for k, lo, hi in want]
      compare(ch, f'{what}:matrix', flat, some,
              np.asarray(atol)[:n] if np.ndim(atol) else atol)
    # one by one
    single = lambda i: to(operands, lambda v: v[i] if is_lane(v) else v)
    cut = lambda s: [(k, lo[s] if lo.ndim else lo, hi[s] if hi.ndim else hi)
                     for k, lo, hi in want]
    def loop(name, np_like, conv, indices, wider=wider):
      rs = []
      for i in indices:
        rs.append(flatten(f(np_like, *to(single(i), conv)), many))
        ch.count(1)
      for r in rs:
        ch.check([k for k, _, _ in r] == [k for k, _, _ in want],
                 f'kind:{what}:{name}', lambda: f'{what}:{name}: structure '
                 f'{[k for k, _, _ in r]}, {[k for k, _, _ in want]} for '
                 'arrays')
      compare(ch, f'{what}:{name}', stack(rs), cut(indices),
              np.asarray(atol)[indices] if np.ndim(atol) else atol,
              shapes=False, wider=wider)
    everything = list(range(0, lanes, step))
    loop('single', np, np.asarray, everything)
    few = sorted({(k * lanes) // 3 + k for k in range(3)} & set(range(lanes)))
    loop('jax single', jnp, jnp.asarray, few)
    if scalar:
      loop('float', np, float, everything)
      loop('jax float', jnp, float, few[:2])
    if scalar and ints:
      whole = [i for i in everything
               if all(float(v) == int(v) for v in leaves(single(i)))]
      if whole:
        loop('int', np, int, whole)
        loop('int array', np, lambda v: np.asarray(int(v)), whole)
        loop('jax int', jnp, int, whole[:2])
  for old, v in zip(copies, leaves(operands)):
    ch.check(np.array_equal(old, v, equal_nan=True), f'mutated:{what}',
             lambda: f'{what}: operand {old} became {v}')
  ch.outcome((what, [(k, lo.tolist(), hi.tolist()) for k, lo, hi in want]))


# --- interval arithmetic ------------------------------------------------------

E = (-2., -1., -0.5, 0., 0.5, 1., 3.)


def interval_lanes(kinds):
  """All combinations of operands of the given kinds, as lanes."""
  options = [intervals_of(E) if k == 'I' else E for k in kinds]
  combos = list(itertools.product(*options))
  out = []
  for j, k in enumerate(kinds):
    if k == 'I':
      out.append((np.array([c[j][0] for c in combos]),
                  np.array([c[j][1] for c in combos])))
    else:
      out.append(np.array([c[j] for c in combos]))
  return out, len(combos)


def interval(ch):
  op = ch.pick(['add', 'subtract', 'multiply', 'negative', 'power',
                'as_interval', 'as_interval_or_ndarray'])
  ch.shard()
  unary = op not in ('add', 'subtract', 'multiply')
  kinds = ch.pick(['I', 'P'] if unary else ['II', 'IP', 'PI', 'PP'])
  if op == 'as_interval' and kinds == 'P':
    return
  operands, lanes = interval_lanes(kinds)
  extra = ()
  if op == 'power':
    extra = (ch.pick([0, 1, 2, 3, 4, 5, 2., 3.]),)
  def f(np_like, *operands):
    return getattr(IntervalArithmetic(np_like), op)(*operands, *extra)
  variants(ch, f'{op}{extra}:{kinds}', f, operands, lanes)


def bilinear(ch):
  """Operations that are not elementwise, on both back ends."""
  op = ch.pick(['outer_product', 'outer_power', 'tensordot', 'ndim', 'shape'])
  ch.shard()
  kinds = ch.pick(['II', 'IP', 'PI', 'PP'])
  sa, sb = ch.pick([((2,), (2,)), ((3,), (2,)), ((2, 2), (2, 2)), ((), (2,)),
                    ((2,), ()), ((2, 3), (3,)), ((1,), (2, 1)), ((), ())])
  k = ch.pick([0, 1, 2, 3]) if op != 'shape' and op != 'ndim' else 0
  if op == 'outer_power' and (kinds[1] == 'P' or len(sa) * k > 4):
    return
  if op == 'tensordot' and (k > min(len(sa), len(sb)) or
                            sa[len(sa) - k:] != sb[:k]):
    return
  seed = ch.choose(4)
  def operand(kind, shape, seed):
    if kind == 'P':
      return encl._fill(shape, seed)
    mid, wid = encl._fill(shape, seed), np.abs(encl._fill(shape, seed + 1))
    return (mid - wid, mid + wid)
  a, b = operand(kinds[0], sa, seed), operand(kinds[1], sb, seed + 2)
  results = []
  for name in ('np', 'jnp'):
    np_like = NP[name]
    ia = IntervalArithmetic(np_like)
    x, y = (to(v, lambda v: np_like.asarray(np.asarray(v, dtype())))
            for v in (a, b))
    ch.count(1)
    if op == 'outer_power':
      rs = [ia.outer_power(x, k, d) for d in range(len(sa) + 1)]
    elif op == 'outer_product':
      rs = [ia.outer_product(x, y, d) for d in range(min(len(sa), len(sb)) + 1)
            if sa[:d] == sb[:d]]
    elif op == 'tensordot':
      rs = [ia.tensordot(x, y, k)]
    else:
      rs = [np.asarray(getattr(ia, op)(x)), np.asarray(getattr(ia, op)(y))]
    results.append(flatten(rs, True))
  compare(ch, f'{op}:{kinds}:{sa}:{sb}:{k}', results[1], results[0], 0.)
  ch.outcome((op, kinds, sa, sb, k, seed,
              [(i, l.tolist(), h.tolist()) for i, l, h in results[0]]))


# --- enclosures -----------------------------------------------------------------


def small(kinds_list, x_shape, limit):
  enclosures = encl.lanes(x_shape, kinds_list, limit=limit)
  n = len(ends(enclosures[0][0])[0])
  return enclosures, n


def amplification(degree):
  """Growth of roundoff in a remainder divided by (>= 1/16)**degree."""
  return 100. * eps() * 16.**degree


def enclosure(ch):
  structures = encl.kinds(3 if deep() else 2)
  op = ch.pick(['add', 'subtract', 'multiply', 'divide', 'negative', 'power',
                'elementwise', 'enclose', 'evaluate'])
  ka = ch.pick(structures)
  ch.shard()
  binary = op in ('add', 'subtract', 'multiply', 'divide')
  kb = ch.pick(structures) if binary else None
  degree = ch.pick([0, 1, 2, 3] if deep() else [0, 1, 2])
  regions = encl.regions(())
  region = ch.pick(regions if deep() else regions[:3])
  kinds = [ka] + ([kb] if binary else [])
  ops, n = small(kinds, (), 200 if deep() else 60)
  extra = None
  atol = 0.
  if op == 'power':
    extra = ch.pick([0, 1, 2, 3, 4, -1, .5, 1.5, 2.])
  elif op == 'elementwise':
    extra = ch.pick(['exp', 'sigmoid', 'softplus', 'swish', 'log', 'abs'])
    if extra == 'abs' and degree > 1:
      return
  analytic = op in ('divide', 'elementwise') or (
      op == 'power' and extra in (-1, .5, 1.5))
  ints = True
  if analytic:
    arg = ops[1] if op == 'divide' else ops[0]
    if 'i' in (kb if op == 'divide' else ka)[:1] and degree > 0:
      return    # needs a point at degree 0
    # The reference point and region must be in the domain.
    x0 = ends(arg[0])[0]
    rl, rh = encl.range_of(arg, region, 0)
    if (op in ('divide', 'power') and extra != 1.5) or extra == 'log':
      keep = encl.away_from_zero(arg, region, 0, op != 'divide')
    elif extra == 1.5:
      keep = encl.away_from_zero(arg, region, 0, True)
    else:
      keep = np.ones(n, bool)
    if not keep.any():
      return
    ops = to(ops, lambda v: v[keep])
    n = int(keep.sum())
    x0, rl, rh = x0[keep], rl[keep], rh[keep]
    size = 1. + np.maximum(np.abs(rl), np.abs(rh)).astype(float)
    if extra in ('exp',):
      size = np.exp(np.minimum(size, 60.))
    if op == 'divide' or extra in (-1, .5, 'log'):
      size = size + 1. / np.minimum(1., np.minimum(np.abs(rl), np.abs(rh)))**(
          degree + 1)
    if op == 'divide':
      al, ah = encl.range_of(ops[0], region, 0)
      size = size * (1. + np.maximum(np.abs(al), np.abs(ah)))
    atol = (amplification(degree) * 30. * size).astype(float)
    ints = False      # integers have no negative powers
  def f(np_like, region, *enclosures):
    a = TaylorEnclosureArithmetic(degree, region, np_like)
    if op == 'power':
      return a.power(enclosures[0], extra)
    if op == 'elementwise':
      return a.get_elementwise_fun(getattr(pe, f'{extra}_enclosure'))(
          enclosures[0])
    if op == 'enclose':
      return enclose_enclosure(enclosures[0], region, degree, np_like)
    if op == 'evaluate':
      return (polynomials.eval_taylor_enclosure(enclosures[0], region, np_like),
              polynomials.eval_elementwise_taylor_enclosure(
                  enclosures[0], region, np_like))
    return getattr(a, op)(*enclosures)
  if op == 'evaluate' and degree:
    return
  what = f'{op}{"" if extra is None else extra}:{ka}:{kb}:{degree}:{region}'
  if not is_x64() and analytic and degree > 2:
    return
  region = tuple(float(r) for r in region)
  variants(ch, what, lambda np_like, *e: f(np_like, to(
      region, float if isinstance(next(leaves(e)), float) else
      lambda r: np_like.asarray(np.asarray(r, dtype()))), *e),
           ops, n, atol=atol, many=True, ints=ints, step=1 if n < 100 else 2)


def vector(ch):
  """Enclosures in terms of a vector."""
  structures = encl.kinds(3 if deep() else 2)
  op = ch.pick(['add', 'subtract', 'multiply', 'negative', 'power', 'divide',
                'elementwise', 'enclose'])
  ka = ch.pick(structures)
  ch.shard()
  binary = op in ('add', 'subtract', 'multiply', 'divide')
  kb = ch.pick(structures) if binary else None
  degree = ch.pick([0, 1, 2])
  regions = encl.regions((2,))
  region = ch.pick(regions if deep() else regions[:2])
  ops, n = small([ka] + ([kb] if binary else []), (2,), 40)
  extra, atol, wider = None, 0., False
  if op == 'power':
    extra = ch.pick([2, 3, 4, -1])
    wider = 'i' in ka[1:]
  elif op == 'elementwise':
    extra = ch.pick(['exp', 'swish'])
    wider = degree > 1
  if op == 'divide':
    wider = degree > 1
  if op == 'divide' or extra == -1:
    arg = ops[1] if binary else ops[0]
    wider = wider or degree > 1
    if 'i' in (kb if binary else ka)[:1] and degree:
      return
    keep = encl.away_from_zero(arg, region, 1, op != 'divide')
    if not keep.any():
      return
    ops = to(ops, lambda v: v[keep])
    n = int(keep.sum())
    rl, rh = encl.range_of(to(arg, lambda v: v[keep]), region, 1)
    small_ = np.minimum(1., np.minimum(np.abs(rl), np.abs(rh)))
    size = (1. + np.maximum(np.abs(rl), np.abs(rh))) * 8. / small_**(degree + 1)
    atol = (amplification(degree) * 100. * size).astype(float)
  elif op == 'elementwise':
    if 'i' in ka[:1] and degree:
      return
    rl, rh = encl.range_of(ops[0], region, 1)
    size = np.exp(np.minimum(1. + np.maximum(np.abs(rl), np.abs(rh)), 60.))
    atol = (amplification(degree) * 30. * size).astype(float)
  def f(np_like, *enclosures):
    r = to(region, lambda r: np_like.asarray(np.asarray(r, dtype())))
    a = TaylorEnclosureArithmetic(degree, r, np_like)
    if op == 'power':
      return a.power(enclosures[0], extra)
    if op == 'elementwise':
      return a.get_elementwise_fun(getattr(pe, f'{extra}_enclosure'))(
          enclosures[0])
    if op == 'enclose':
      return enclose_enclosure(enclosures[0], r, degree, np_like)
    return getattr(a, op)(*enclosures)
  what = f'vector {op}{"" if extra is None else extra}:{ka}:{kb}:{degree}'
  variants(ch, what, f, ops, n, atol=atol, many=True, scalar=False, wider=wider,
           step=1 if n <= 20 else 2)


def polynomial(ch):
  op = ch.pick(['integer_power', 'arbitrary_bilinear', 'eval', 'eval interval'])
  ch.shard()
  structure = ch.pick(encl.kinds(3))
  if op in ('integer_power', 'arbitrary_bilinear') and 'i' in structure:
    return    # operator.add and operator.mul are for numbers
  ops, n = small([structure], (), 120)
  if op == 'integer_power':
    k = ch.pick([0, 1, 2, 3, 5])
    f = lambda np_like, a: polynomials.integer_power(a, k)
    extra, many = (k,), True
    if k == 0:
      return    # the identity is a number
  elif op == 'arbitrary_bilinear':
    f = lambda np_like, a: polynomials.arbitrary_bilinear(a, a[:2])
    extra, many = (), True
  else:
    z = ch.pick([0., -1., .5, 2.])
    w = ch.pick([0., 1., 3.]) if op == 'eval interval' else None
    at = z if w is None else (z, z + w)
    def f(np_like, a):
      return (polynomials.eval_taylor_enclosure(a, at, np_like),
              polynomials.eval_elementwise_taylor_enclosure(a, at, np_like))
    extra, many = (at,), True
  variants(ch, f'{op}{extra}:{structure}', f, ops, n, many=many)


# --- functions --------------------------------------------------------------------


def primitive(ch):
  fn, top = ch.pick(prim.FUNCTIONS)
  ch.shard()
  degree = ch.pick(list(range(min(top, 8 if deep() else 4) + 1)))
  if fn == 'abs' and degree > 1:
    return
  pts = prim.lattice(fn, 'fine' if deep() else 'coarse')
  # Whether a region that ends at a critical point is on one side of it
  # depends on the rounding.
  pts = [p for p in pts if p * 4 == int(p * 4) or p < 0.25]
  if fn not in ('log', 'exp', 'cbrt') and not isinstance(fn, tuple):
    pts = [p for p in pts if p * 4 == int(p * 4)]
  a, x0, b = prim.triples(fn, degree, pts)
  if not is_x64() and degree > 2:
    return
  with np.errstate(all='ignore'):
    vals = [np.abs(prim.value(fn, t.astype(LD))) for t in (a, x0, b)]
  size = 1. + np.maximum.reduce([np.where(np.isfinite(v), v, 0) for v in vals])
  gap = np.minimum(np.where(x0 > a, x0 - a, 1.), np.where(b > x0, b - x0, 1.))
  near = np.minimum(1., np.where(x0 == 0, 1., np.abs(x0)))
  # Taylor coefficients grow like |x0|**-degree near a singularity.
  power = isinstance(fn, tuple) or fn in ('log', 'cbrt')
  p = abs(fn[1]) if isinstance(fn, tuple) else 0
  grow = near**-(degree + p) * 200. if power else 1.
  reach = np.maximum(1., np.maximum(x0 - a, b - x0)) if power else 1.
  atol = (1e3 * eps() * size * grow * reach**degree /
          np.minimum(gap, 1.)**degree).astype(float)
  def f(np_like, x0, region):
    return prim.enclosure_fun(fn)(x0, region, degree, np_like)
  numbers = not isinstance(fn, tuple)
  variants(ch, f'primitive:{fn}:{degree}', f, (x0, (a, b)), len(a), atol=atol,
           many=True, ints=fn in ('exp', 'sigmoid', 'softplus', 'swish', 'abs'),
           scalar=numbers, step=1 if len(a) < 100 else 3)
  if not numbers:
    # Powers of Python numbers raise exceptions (or are complex) where those
    # of arrays are infinite (or nan).
    keep = a > 0
    variants(ch, f'primitive:{fn}:{degree}', f, to((x0, (a, b)),
                                                   lambda v: v[keep]),
             int(keep.sum()), atol=atol[keep], many=True, ints=False)


LIBRARY = ('ABS', 'EXP', 'LOG', 'SIGMOID', 'SOFTPLUS', 'SWISH')


def library(ch):
  name = ch.pick(LIBRARY)
  op = ch.pick(['function', 'range', 'coefficients', 'monotone'])
  ch.shard()
  fid = getattr(ef, name)
  top = {'ABS': 1, 'SIGMOID': 4, 'SWISH': 4}.get(name, 5)
  if op != 'coefficients':
    k = ch.pick(list(range(top + 1)))
    fid = fid.derivative_id(k)
    if name == 'ABS' and op in ('range', 'monotone') and k:
      return
  else:
    k = ch.pick(list(range(top + 1)))
  pts = np.array([-30., -8., -5.5, -3., -2., -1.5, -1., -.5, -.25, 0., .25, .5,
                  1., 1.5, 2., 3., 5.5, 8., 30.])
  if name == 'LOG':
    pts = pts[pts > 0]
  scale = 1000. if name == 'LOG' else 1.
  atol = 200. * eps() * scale * (1e13 * 10 if name == 'EXP' else 40.)
  i, j = np.triu_indices(len(pts))
  if op == 'function':
    if name == 'EXP':
      atol = 0.
    variants(ch, f'{name}{k}', lambda np_like, x: ef.get_function(fid, np_like)(
        x), (pts,), len(pts), atol=atol, ints=name != 'LOG')
  elif op == 'coefficients':
    variants(ch, f'coefficients:{name}:{k}',
             lambda np_like, x: ef.get_taylor_polynomial_coefficients(
                 fid, k, x, np_like), (pts,), len(pts), atol=atol, many=True,
             ints=name != 'LOG')
  elif op == 'range':
    variants(ch, f'range:{name}:{k}', lambda np_like, r: ef.get_range(
        fid, r, np_like), ((pts[i], pts[j]),), len(i), atol=atol,
             ints=name != 'LOG')
  else:
    try:
      data = ef.get_function_data(fid)
    except NotImplementedError:
      return
    def f(np_like, r):
      return tuple(np.asarray(t) * 1. for t in data.monotone_over(r, np_like))
    variants(ch, f'monotone:{name}:{k}', f, ((pts[i], pts[j]),), len(i),
             many=True)


SPACES = {'interval': interval, 'bilinear': bilinear, 'enclosure': enclosure,
          'vector': vector, 'polynomial': polynomial, 'primitive': primitive,
          'library': library}
