"""C18: bound computations can be traced: jit and vmap agree with eager."""

from mc import core

if core.WORKER:
  import numpy as np
  import jax
  import jax.numpy as jnp
  from autobound import primitive_enclosures
  from autobound.jax import jax_bound
  from mc.lib import *  # pylint: disable=wildcard-import
  from mc.checks import c20
from mc import programs as P

BOUNDS = {
    'quick': 'all 29 unary operations x degree 0..4 x both modes, 60 '
             'compositions, 21 array programs, 15 programs with traced '
             'parameters: jit, vmap and jit(vmap) over 5 reference points and '
             'regions compared with eager; primitive enclosures of 10 '
             'functions; step-size loop on 13 losses, 4 steps, compiled, '
             'uncompiled and scanned',
    'thorough': 'as quick with all 841 compositions of two operations and '
                'all degrees and modes for array programs',
}
ASSUMPTIONS = [
    'tolerance 1e-7 relative to the size of the coefficients (compiled code '
    'rounds differently)',
]


def tasks(tier):
  ts = core.shards('unary', 32, tier=tier)
  ts += core.shards('unary', 8, mode='x32', tier=tier)
  ts += core.shards('pairs', 24 if tier == 'quick' else 128, tier=tier)
  ts += core.shards('array', 21, tier=tier)
  ts += core.shards('parameters', 15, tier=tier)
  ts += core.shards('enclosures', 10, tier=tier)
  ts += core.shards('loop', 13, tier=tier)
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  core.simple_run_task(SPACES, task, stats)


def deep():
  return TIER == 'thorough'


def structure(coeffs):
  return [isinstance(c, tuple) for c in coeffs]


def to_numpy(coeffs):
  return tuple(tuple(np.asarray(e) for e in c) if isinstance(c, tuple)
               else np.asarray(c) for c in coeffs)


def agree(ch, key, what, got, want, index=None):
  """Same structure, shapes and values as the eager result."""
  ch.check(len(got) == len(want), f'{what}-degree:{key}',
           lambda: f'{key}: {len(got)} coefficients {what}, {len(want)} eager')
  ch.check(structure(got) == structure(want), f'{what}-structure:{key}',
           lambda: f'{key}: {structure(got)} {what}, {structure(want)} eager')
  rtol = 1e-7 if is_x64() else 2e-3
  for k, (c, d) in enumerate(zip(got, want)):
    size = max([1.] + [np.max(np.abs(e), where=np.isfinite(e), initial=0.)
                       for e in ends(d)])
    for e, g in zip(ends(c), ends(d)):
      e = e if index is None else e[index]
      ch.check(e.shape == g.shape, f'{what}-shape:{key}:{k}',
               lambda: f'{key}: coefficient {k} has shape {e.shape} {what}, '
               f'{g.shape} eager')
      ch.check(e.dtype == g.dtype, f'{what}-dtype:{key}:{k}',
               lambda: f'{key}: coefficient {k} has type {e.dtype} {what}, '
               f'{g.dtype} eager')
      with np.errstate(invalid='ignore'):
        ok = (np.abs(e - g) <= rtol * size) | (e == g) | (np.isnan(e)
                                                         & np.isnan(g))
      ch.check(np.all(ok), f'{what}:{key}:{k}',
               lambda: f'{key}: coefficient {k} is {e} {what}, {g} eager')


def compare(ch, key, fun, batch, want_vmap=True):
  """fun(x0, lo, hi) -> coefficients; traced in all ways, against eager."""
  eager = []
  for args in batch:
    ch.count(1)
    try:
      eager.append(to_numpy(fun(*(jnp.asarray(a) for a in args))))
    except NotImplementedError:
      eager.append(None)
  if any(e is None for e in eager):
    # refused eagerly: must be refused when traced
    ch.check(all(e is None for e in eager), f'refused:{key}', f'{eager}')
    for make in (jax.jit, jax.vmap):
      try:
        make(fun)(*(jnp.asarray(a) for a in zip(*batch)) if make is jax.vmap
                  else (jnp.asarray(a) for a in batch[0]))
      except NotImplementedError:
        continue
      ch.fail(f'refused:{key}', 'refused eagerly, but not when traced')
    return
  jitted = jax.jit(fun)
  for args, want in zip(batch, eager):
    ch.count(1)
    agree(ch, key, 'jit', to_numpy(jitted(*(jnp.asarray(a) for a in args))),
          want)
  stacked = [jnp.asarray(np.stack([np.asarray(a, float) for a in arg]))
             for arg in zip(*batch)]
  ways = [('jit(vmap)', jax.jit(jax.vmap(fun)))]
  if want_vmap:
    ways.append(('vmap', jax.vmap(fun)))
  for what, g in ways:
    ch.count(1)
    got = to_numpy(g(*stacked))
    for i, want in enumerate(eager):
      agree(ch, key, what, got, want, i)
  ch.outcome((key, [np.asarray(e).tobytes() for c in eager for e in c]))


# (x0, lower, upper): inside the domain of every operation
BATCH = ((1., .5, 2.), (2., 2., 3.5), (.75, .25, .75), (3., 1., 6.),
         (1.5, .875, 1.75))
# crossing zero, for operations defined everywhere
WIDE = ((.5, -.5, 1.5), (0., -1., 2.), (-1., -2.5, -.25), (2., -7., 6.),
        (-.75, -.75, 3.))


def scalar(ch, prog, degree, prop):
  f = P.to_jax(prog)
  everywhere = all(d == 'all' for _, d, _ in P.nodes(prog))
  batch = WIDE if everywhere else BATCH
  def fun(x0, lo, hi):
    return jax_bound.taylor_bounds(f, degree, prop)(x0, (lo, hi)).coefficients
  compare(ch, f'{prog}:{degree}:{int(prop)}', fun, batch,
          deep() or degree == 2)


def unary(ch):
  prog = (ch.pick(list(P.UNARY)), 'u')
  degree = ch.choose(5)
  ch.shard()
  prop = ch.flag() if degree else False
  if not is_x64() and degree > 2:
    return
  scalar(ch, prog, degree, prop)


def pairs(ch):
  ops = list(P.UNARY)
  f, g = ch.pick(ops), ch.pick(ops)
  n = P.hash_of(f, g)
  if not deep() and n % 14:
    raise core.Prune()
  prog = (f, (g, 'u'))
  if n % 3 == 0:
    prog = (P.BINARY[n % 4], prog, 'u')
  ch.shard()
  top = min(P.top_degree(prog), 4)
  degree = (ch.choose(top + 1) if deep() else min(2 + n % 2, top))
  prop = ch.flag() if deep() else bool(n % 4 < 2)
  scalar(ch, prog, degree, prop and degree > 0)


# --- arrays ------------------------------------------------------------------

A = ((.5, -1., .25), (1.5, .25, -.5))
B3 = ((1., .5, -.25), (0., 2., .5), (-1., .25, .75))


def conv(x, k):
  y = jnp.reshape(x, (1, 1, -1))
  return jax.lax.conv_general_dilated(y, k, (1,), 'VALID')


ARRAYS = {
    'sum(exp)': lambda x: jnp.sum(jnp.exp(x)),
    'A@x': lambda x: jnp.array(A) @ x,
    'exp(A@x)': lambda x: jnp.exp(jnp.array(A) @ x),
    'x@B@x': lambda x: x @ jnp.array(B3) @ x,
    'x*x+1': lambda x: x * x + 1.,
    'x*sum(x)': lambda x: x * jnp.sum(x),
    'softplus(B@x)': lambda x: jax.nn.softplus(jnp.array(B3) @ x),
    'swish(x)@x': lambda x: jax.nn.swish(x) @ x,
    'outer': lambda x: jnp.reshape(x, (3, 1)) * jnp.reshape(x, (1, 3)),
    'transpose': lambda x: jnp.transpose(jnp.reshape(x, (3, 1)) * jnp.ones(
        (3, 2))),
    'mean': lambda x: jnp.mean(jax.nn.sigmoid(x) / (1. + x**2)),
    'x**3': lambda x: x**3,
    'jit': lambda x: jax.jit(lambda y: jnp.log(1. + y * y))(x - 1.),
    'broadcast': lambda x: jnp.broadcast_to(x, (2, 3)) * jnp.array(A),
    'batched dot': lambda x: jnp.einsum(
        'bi,bi->b', jnp.reshape(x, (3, 1)), jnp.ones((3, 1))),
    'net': lambda x: jnp.array([1., -2.]) @ jax.nn.swish(
        jnp.array(A) @ jnp.exp(x)),
    '1/(1+x^2)': lambda x: 1. / (1. + x * x),
    'squeeze': lambda x: jnp.squeeze(jnp.reshape(x, (1, 3)) * 2.) * x,
    'sqrt': lambda x: jnp.sqrt(1. + jnp.sum(x * x)),
    'window': lambda x: jax.lax.reduce_window(
        x * x, 0., jax.lax.add, (2,), (1,), 'VALID'),
    'neg': lambda x: -x - 1.,
}
ARRAY_BATCH = (
    ([.5, -.25, 1.], [-.5, -1., .25], [1.25, .75, 2.]),
    ([1.5, 2., 3.], [1., 1.5, 2.5], [2., 2.75, 3.5]),
    ([0., -1., .5], [-.5, -1.5, -.5], [.5, .25, 1.]),
    ([.25, .25, .25], [.25, 0., -1.], [2., .25, .25]),
)


def array(ch):
  name = ch.pick(list(ARRAYS))
  ch.shard()
  f = ARRAYS[name]
  settings = [(0, False), (1, True), (2, False), (2, True), (3, False)]
  if deep():
    settings = [(d, p) for d in range(4) for p in (False, True) if d or not p]
  degree, prop = ch.pick(settings)
  def fun(x0, lo, hi):
    return jax_bound.taylor_bounds(f, degree, prop)(x0, (lo, hi)).coefficients
  compare(ch, f'{name}:{degree}:{int(prop)}', fun, ARRAY_BATCH,
          deep() or degree == 2)


# --- traced parameters --------------------------------------------------------

PARAMETERS = {
    'p*x': lambda p, x: p * x,
    'exp(p*x)': lambda p, x: jnp.exp(p * x),
    'p*x**2+x': lambda p, x: p * x**2 + x,
    'sigmoid(p*x+1)': lambda p, x: jax.nn.sigmoid(p * x + 1.),
    'softplus(p)*x': lambda p, x: jax.nn.softplus(p) * x,
    'swish(p*x)*exp(p)': lambda p, x: jax.nn.swish(p * x) * jnp.exp(p),
    'log(1+(p*x)**2)': lambda p, x: jnp.log(1. + (p * x)**2),
    'x/(2+p*p)': lambda p, x: x / (2. + p * p),
    '(p+x)**4': lambda p, x: (p + x)**4,
    'sum(v*p+x*w)': lambda p, x: jnp.sum(
        (jnp.array([1., -2., .5]) * p + x * jnp.array([.5, .25, -1.]))**2),
    'dot': lambda p, x: jnp.dot(jnp.array([1., 2.]) * p,
                                jnp.exp(jnp.array([.5, -1.]) * x)),
    'jit': lambda p, x: jax.jit(lambda q, y: jnp.sqrt(4. + q * y))(p, x),
    'abs(p)*x': lambda p, x: jnp.abs(p) * jnp.sin(p) * x + jnp.maximum(p, 0.),
    'conv': lambda p, x: conv(jnp.array([.5, -1., 2., 0.]) * x,
                              jnp.array([[[1., -2.]]]) * p + x),
    'constant': lambda p, x: p * 2. + 0. * x,
}
PARAMETER_BATCH = ((.5, 1., .5, 2.), (-1., 0., -1., 1.), (2., -.5, -.5, .5),
                   (0., .25, 0., 1.), (.75, .5, .5, .5))


def parameters(ch):
  """The function being bounded depends on traced values."""
  name = ch.pick(list(PARAMETERS))
  ch.shard()
  g = PARAMETERS[name]
  degree = ch.choose(4)
  prop = ch.flag() if degree else False
  def fun(p, x0, lo, hi):
    return jax_bound.taylor_bounds(lambda x: g(p, x), degree, prop)(
        x0, (lo, hi)).coefficients
  compare(ch, f'{name}:{degree}:{int(prop)}', fun, PARAMETER_BATCH,
          deep() or degree == 2)


# --- primitive enclosures -----------------------------------------------------


def enclosures(ch):
  funs = {
      'exp': primitive_enclosures.exp_enclosure,
      'log': primitive_enclosures.log_enclosure,
      'cbrt': primitive_enclosures.cbrt_enclosure,
      'sigmoid': primitive_enclosures.sigmoid_enclosure,
      'softplus': primitive_enclosures.softplus_enclosure,
      'swish': primitive_enclosures.swish_enclosure,
      'abs': primitive_enclosures.abs_enclosure,
  }
  for p in (-1, .5, 2, 3, 1.5):
    funs[f'pow{p}'] = (
        lambda x0, tr, d, np_like, p=p: primitive_enclosures.pow_enclosure(
            p, x0, tr, d, np_like))
  name = ch.pick(list(funs))
  ch.shard()
  top = 1 if name == 'abs' else 3 if name in ('sigmoid', 'swish') else 4
  degree = ch.choose(top + 1)
  def fun(x0, lo, hi):
    return funs[name](x0, (lo, hi), degree, jnp)
  everywhere = name in ('exp', 'sigmoid', 'softplus', 'swish', 'abs', 'pow2',
                        'pow3')
  compare(ch, f'{name}:{degree}', fun, WIDE if everywhere else BATCH)


# --- the step-size loop --------------------------------------------------------


def minimize_quadratic(c1, c2, b):
  project = lambda t: jnp.clip(t, 0., b)
  safe = jnp.where(c2 > 0, c2, 1.)
  inner = project(-c1 / (2 * safe))
  q = lambda t: c1 * t + c2 * t**2
  return jnp.where(c2 > 0, inner, jnp.where(q(b) < 0, b, 0.))


def loop(ch):
  """An optimiser whose step size comes from bounds, compiled or not."""
  name = ch.pick(c20.LOSSES)
  ch.shard()
  dim, loss = c20.losses()[name]
  start = ch.pick(c20.STARTS[dim][:2 if not deep() else 4])
  rate = ch.pick((.01, .5, 8.) if deep() else (.25,))
  propagate = ch.flag()
  def update(state):
    x, _, rate = state
    d = -jax.grad(loss)(x)
    b = jax_bound.taylor_bounds(lambda t: loss(x + t * d), 2, propagate)(
        0., (0., rate))
    c = b.coefficients
    if len(c) < 3:
      raise NotImplementedError()
    step = minimize_quadratic(c[1], b.final_interval()[1], rate)
    new_rate = jnp.where(step < rate / 2, rate / 2, rate * 2)
    return (x + step * d, step, new_rate)
  compiled = jax.jit(update)
  s0 = (jnp.asarray(start), jnp.asarray(0.), jnp.asarray(rate))
  n = 4 if not deep() else 8
  eager, jitted = [s0], [s0]
  for _ in range(n):
    ch.count(2)
    eager.append(update(eager[-1]))
    jitted.append(compiled(jitted[-1]))
  scanned = jax.jit(lambda s: jax.lax.scan(
      lambda s, _: (update(s), s), s, None, length=n)[0])(s0)
  ch.count(1)
  for what, states in (('jit', jitted), ('scan', [None] * n + [scanned])):
    for k, (a, b) in enumerate(zip(states, eager)):
      if a is None:
        continue
      for e, g in zip(a, b):
        e, g = np.asarray(e), np.asarray(g)
        ch.check(np.all(close(e, g, 1e-5, 1e-7)), f'{what}:{name}:{k}',
                 lambda: f'{name} from {start}, step {k}: {e} {what}, {g} '
                 'eager')
  # and over a batch of starting points
  batched = jax.vmap(update)(tuple(jnp.stack([a, b]) for a, b in
                                   zip(eager[0], eager[1])))
  for i in (0, 1):
    for e, g in zip(batched, eager[i + 1]):
      e, g = np.asarray(e)[i], np.asarray(g)
      ch.check(np.all(close(e, g, 1e-5, 1e-7)), f'vmap:{name}',
               lambda: f'{name} from {eager[i]}: {e} mapped, {g} eager')
  ch.outcome((name, start, rate, propagate,
              [np.asarray(e).tobytes() for e in eager[-1]]))


SPACES = {'unary': unary, 'pairs': pairs, 'array': array,
          'parameters': parameters, 'enclosures': enclosures, 'loop': loop}
