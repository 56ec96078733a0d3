"""C04: functions are refused or bounded correctly, never mis-bounded."""

from mc import core

if core.WORKER:
  import inspect
  import os
  import tempfile
  import numpy as np
  import jax
  import jax.numpy as jnp
  import jax.scipy.special
  from jax import lax
  from autobound.jax import jax_bound
  from mc.lib import *  # pylint: disable=wildcard-import

BOUNDS = {
    'quick': 'every public callable of jax.numpy, jax.lax, jax.nn and '
             'jax.scipy.special (about 700) called with x alone, x and a '
             'constant, a constant and x, and x twice; scalar, vector and '
             'matrix-valued arguments; 3 inner and 3 outer functions; 100 '
             'hand-written programs with casts, control flow, nested jit, '
             'custom derivatives, unusual dtypes and parameters; degree '
             '0..3, both propagation modes; points of 3 trust regions',
    'thorough': 'as quick with all combinations of inner and outer functions',
}
ASSUMPTIONS = [
    'JAX evaluates the function correctly',
    'tolerance 1e-8 of the largest term (float64), larger for low precision',
    'NaN bounds exclude no value and are not violations of this property',
]

SKIP = {'save', 'savez', 'load', 'fromfile', 'frombuffer', 'fromstring',
        'from_dlpack', 'set_printoptions', 'printoptions', 'get_printoptions',
        'fromfunction', 'array_str', 'array_repr', 'array_equiv', 'tune_mode',
        'composite', 'fori_loop', 'while_loop'}


def tasks(tier):
  ts = core.shards('library', 40, tier=tier)
  ts += core.shards('programs', 16, tier=tier)
  ts += core.shards('programs', 8, mode='x32', tier=tier)
  ts += core.shards('parameters', 12, tier=tier)
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  os.chdir(tempfile.gettempdir())
  core.simple_run_task(SPACES, task, stats)


def deep():
  return TIER == 'thorough'


REGIONS = {
    0: [(.625, -.4, 1.75), (0., -1., 1.), (2.25, 2., 3.), (-1.5, -2.5, -.5)],
    1: [([.5, -.25, 1.], [-.5, -1., .25], [1.25, .75, 2.]),
        ([1.5, 2., 3.], [1., 1.5, 2.5], [2., 2.75, 3.5]),
        ([0., -1., .5], [-.5, -1.5, -.5], [.5, .25, 1.])],
}


def points(x0, lo, hi):
  x0, lo, hi = (np.asarray(t, float) for t in (x0, lo, hi))
  xs = [lo, hi, x0, (lo + hi) / 2, (3 * lo + hi) / 4, (lo + 7 * hi) / 8,
        (lo + x0) / 2, (hi + x0) / 2]
  if x0.ndim:
    xs += [np.where(np.array(m), lo, hi) for m in np.ndindex(*(2,) * x0.size)]
  return xs


def examine(ch, name, f, region, degree, prop, conv=None, convp=None,
            rtol=None, eager=False):
  """Returns whether bounds were produced."""
  x0, lo, hi = region
  nd = np.ndim(x0)
  conv = conv or jnp.asarray
  ch.count(1)
  try:
    bound = jax_bound.taylor_bounds(f, degree, prop)(
        conv(x0), (conv(lo), conv(hi)))
    coeffs = tuple(
        tuple(np.asarray(e) for e in c) if isinstance(c, tuple)
        else np.asarray(c) for c in bound.coefficients)
  except Exception as e:  # pylint: disable=broad-except
    ch.outcome((name, degree, type(e).__name__))
    return False
  key = f'{name}:{degree}:{int(prop)}'
  rtol = rtol or (.02 if 'f16' in name else 1e-8 if is_x64() else 5e-3)
  convp = convp or jnp.asarray
  # Points as the function sees them.
  ok_dtypes = all(np.issubdtype(e.dtype, np.number) or e.dtype == bool
                  or jnp.issubdtype(e.dtype, jnp.floating)
                  for c in coeffs for e in ends(c))
  ch.check(ok_dtypes, f'dtype:{key}', lambda: f'{name}: {coeffs}')
  fun = f if eager else jax.jit(f)
  for x in points(x0, lo, hi):
    xj = convp(x)
    x = np.asarray(xj, float)
    try:
      fx = np.asarray(fun(xj))
    except Exception:  # pylint: disable=broad-except
      return True  # f itself cannot be evaluated
    if np.iscomplexobj(fx):
      continue
    fx = fx.astype(float)
    try:
      l, h = eval_enclosure(coeffs, x - np.asarray(x0, float), nd)
      tol = rtol * (1 + magnitude(coeffs, x - np.asarray(x0, float), nd))
      l, h, tol = (np.asarray(t, float) for t in (l, h, tol))
      with np.errstate(invalid='ignore'):
        tol = tol + rtol * np.abs(np.where(np.isfinite(fx), fx, 0))
        good = (l <= fx + tol) & (fx <= h + tol) | np.isnan(l) | np.isnan(h)
        good |= ~np.isfinite(fx)
        if len(coeffs) > 1:
          # f has a pole at the reference point
          good |= np.isinf(ends(coeffs[0])[0].astype(float))
    except ValueError as e:
      ch.fail(f'shape:{key}', f'{name}: {e}')
    ch.check(np.broadcast_shapes(np.shape(l), fx.shape) == fx.shape,
             f'shape:{key}', lambda: f'{name}: bounds {np.shape(l)}, f '
             f'{fx.shape}')
    ch.count(evaluations=int(np.size(good)))
    if not np.all(good):
      ch.fail(f'contains:{key}', f'{name}, degree {degree}, propagate={prop}, '
              f'x0={x0}, region [{lo}, {hi}]: f({x.tolist()}) = {fx.tolist()} '
              f'not in [{l.tolist()}, {h.tolist()}]')
  ch.outcome((key, [np.asarray(c, float).tobytes() for c in coeffs]))
  return True


# --- the libraries ----------------------------------------------------------


def library_functions():
  out = []
  seen = set()
  for mod, prefix in ((jnp, 'jnp'), (lax, 'lax'), (jax.nn, 'nn'),
                      (jax.scipy.special, 'special'), (jnp.linalg, 'linalg'),
                      (jnp.fft, 'fft')):
    for n in sorted(dir(mod)):
      if n.startswith('_') or n in SKIP:
        continue
      g = getattr(mod, n)
      if not callable(g) or inspect.isclass(g) or inspect.ismodule(g):
        continue
      if id(g) in seen:
        continue
      seen.add(id(g))
      out.append((f'{prefix}.{n}', g))
  return out


INNER = {
    'x': lambda x: x,
    '2x+.1': lambda x: 2. * x + .1,
    'sigmoid': lambda x: jax.nn.sigmoid(x) + .25,
}
OUTER = {
    'id': lambda y: y,
    'exp(.3y)': lambda y: jnp.exp(.3 * y),
    '3-y': lambda y: 3. - y,
}
V = (.75, -.5, 1.25)
M = ((.5, 1., -.25), (2., -1., .75), (.25, .5, 1.5))
# how the function is called: (name, number of dimensions of x, call)
CALLS = {
    'g(x)': lambda g, x: g(x),
    'g(x,1.5)': lambda g, x: g(x, 1.5),
    'g(1.5,x)': lambda g, x: g(1.5, x),
    'g(x,x)': lambda g, x: g(x, x),
    'g(x,2)': lambda g, x: g(x, 2),
    'g(x,0)': lambda g, x: g(x, 0),
    'g(v*x)': lambda g, x: g(jnp.array(V) * x),
    'g(v*x,v)': lambda g, x: g(jnp.array(V) * x, jnp.array(V)),
    'g(v,v*x)': lambda g, x: g(jnp.array(V), jnp.array(V) * x),
    'g(m*x)': lambda g, x: g(jnp.array(M) * x),
    'g(m*x,m)': lambda g, x: g(jnp.array(M) * x, jnp.array(M)),
    'g(m*x,v)': lambda g, x: g(jnp.array(M) * x, jnp.array(V)),
    'g(m*x,1)': lambda g, x: g(jnp.array(M) * x, 1),
    'g([x,v])': lambda g, x: g([jnp.array(V) * x, jnp.array(V)]),
    'g(x,-1,1)': lambda g, x: g(x, -1., 1.),
    'g(-1,x,1)': lambda g, x: g(-1., x, 1.),
    'g(x>0,x,1)': lambda g, x: g(x > .1, x, 1.),
    'g(v*x,axis=0)': lambda g, x: g(jnp.array(V) * x, axis=0),
    'g(m*x,axis=1)': lambda g, x: g(jnp.array(M) * x, axis=1),
    'g(x,(3,))': lambda g, x: g(x, (3,)),
    'g(v*x,(3,1))': lambda g, x: g(jnp.array(V) * x, (3, 1)),
    'g(m*x,(1,0))': lambda g, x: g(jnp.array(M) * x, (1, 0)),
    'g(x,int32)': lambda g, x: g(x, jnp.int32),
    'g(x,f16)': lambda g, x: g(x, jnp.float16),
    'g(v*x,int)': lambda g, x: g(jnp.array(V) * x, jnp.array([2, 0, 1])),
}


def library(ch):
  name, g = ch.pick(library_functions(), 'function')
  ch.shard()
  for call, c in CALLS.items():
    base = lambda x, c=c: c(g, x)
    for nd in (0, 1):
      if nd and 'x,(3' in call:
        continue
      x = jnp.asarray(REGIONS[nd][0][0])
      try:
        out = jax.eval_shape(base, x)
        if not hasattr(out, 'dtype') or not hasattr(out, 'shape'):
          continue
        if int(np.prod(out.shape, dtype=int)) > 64 or not out.shape and False:
          continue
        if not (jnp.issubdtype(out.dtype, jnp.floating)
                or jnp.issubdtype(out.dtype, jnp.integer)
                or out.dtype == bool):
          continue
      except Exception:  # pylint: disable=broad-except
        continue
      label = f'{name}:{call}:{nd}'
      run(ch, label, base, nd)


def run(ch, label, base, nd):
  """All settings of one call; stops early if everything is refused."""
  supported = False
  settings = [(d, p) for d in range(4) for p in (False, True) if d or not p]
  if not deep():
    settings = [(1, False), (0, False), (2, True), (3, False)]
  for k, (degree, prop) in enumerate(settings):
    if k >= 2 and not supported:
      return
    region = REGIONS[nd][k % len(REGIONS[nd])]
    supported |= examine(ch, f'{label}:x', base, region, degree, prop)
  for i, inner in INNER.items():
    for o, outer in OUTER.items():
      if (i == 'x' and o == 'id') or (not deep() and (i == 'x') == (o == 'id')):
        continue
      f = lambda x: outer(base(inner(x)))
      try:
        jax.eval_shape(f, jnp.asarray(REGIONS[nd][0][0]))
      except Exception:  # pylint: disable=broad-except
        continue
      for degree, prop in (((1, False), (2, True), (3, False)) if deep() else
                           [(2, False) if i == 'x' else (1, True)]):
        examine(ch, f'{label}:{i}:{o}', f, REGIONS[nd][degree % 3], degree,
                prop)


# --- hand-written programs --------------------------------------------------


def hand_written():
  f32, f16, bf16 = jnp.float32, jnp.float16, jnp.bfloat16
  jit = jax.jit

  @jax.custom_jvp
  def custom(x):
    return jnp.exp(x)
  custom.defjvps(lambda t, y, x: t * y)

  @jax.custom_vjp
  def customv(x):
    return x * jnp.exp(x)
  customv.defvjp(lambda x: (x * jnp.exp(x), x), lambda r, g: (g * r,))

  @jit
  def two(x, y):
    return x * y, x + y

  @jit
  def inner(x):
    return jnp.exp(x) - x

  @jit
  def const(y):
    return jnp.sin(y)

  def loop(x):
    return lax.fori_loop(0, 3, lambda i, v: v * x + i, x)

  def unrolled(x):
    y = x
    for i in range(4):
      y = y * x + i
    return y

  def scan(x):
    return lax.scan(lambda c, a: (c * x + a, c), x, jnp.arange(3.))[0]

  def wh(x):
    return lax.while_loop(lambda v: v < 10., lambda v: v * 2 + .1, x + 3.)

  programs = {
      # casts
      'cast f32': lambda x: x.astype(f32) * 2,
      'cast f16': lambda x: x.astype(f16) * 2,
      'cast bf16': lambda x: jnp.exp(x.astype(bf16)),
      'cast int': lambda x: x.astype(jnp.int32) * 2.,
      'cast int then float': lambda x: x.astype(jnp.int32).astype(float) * x,
      'cast bool': lambda x: x.astype(bool) * 2.,
      'cast uint8': lambda x: (10 * x).astype(jnp.uint8) * 1.,
      'cast f64': lambda x: x.astype(jnp.float64) + 1,
      'int convert': lambda x: lax.convert_element_type(x, jnp.int64) + x,
      'bitcast': lambda x: lax.bitcast_convert_type(
          x, jnp.int64 if is_x64() else jnp.int32) * 1.,
      'reduce precision': lambda x: lax.reduce_precision(x, 5, 2),
      'complex': lambda x: jnp.abs(x + 1j),
      'real part': lambda x: jnp.real(x * (1 + 2j)),
      # comparisons and selections
      'where': lambda x: jnp.where(x > .25, x, -x),
      'where2': lambda x: jnp.where(x > .25, x**2, 3.),
      'compare': lambda x: (x > .25) * x,
      'compare const': lambda x: jnp.where(jnp.array(True), x, x**2),
      'compare const2': lambda x: jnp.where(jnp.array([True, False]), x, x**2),
      'select': lambda x: lax.select(x > 0, x, 2 * x),
      'clamp': lambda x: lax.clamp(0., x, 1.),
      'clip': lambda x: jnp.clip(x, 0., 1.),
      'sign': lambda x: jnp.sign(x) * x,
      'relu': jax.nn.relu,
      'maximum': lambda x: jnp.maximum(x, .3),
      'minimum const': lambda x: jnp.minimum(2., 3.) * x,
      'abs diff': lambda x: jnp.abs(x - .5),
      'floor': lambda x: jnp.floor(x) + x,
      'round': lambda x: jnp.round(2 * x),
      'mod': lambda x: x % .7,
      'rem': lambda x: lax.rem(x, jnp.asarray(.7, x.dtype)),
      'floordiv': lambda x: x // .3,
      'isfinite': lambda x: jnp.isfinite(x) * x,
      'heaviside': lambda x: jnp.heaviside(x, .5),
      'sort': lambda x: jnp.sort(jnp.stack([x, .5 - x])),
      'argmax': lambda x: jnp.argmax(jnp.stack([x, .5 - x])) * x,
      'max reduce': lambda x: jnp.max(jnp.stack([x, .5 - x])),
      # control flow
      'cond': lambda x: lax.cond(x > .25, lambda v: v, lambda v: v * v, x),
      'cond const': lambda x: lax.cond(True, lambda v: v, lambda v: v * v, x),
      'switch': lambda x: lax.switch(1, [jnp.exp, jnp.negative], x),
      'fori': loop, 'unrolled': unrolled, 'scan': scan, 'while': wh,
      'map': lambda x: lax.map(lambda v: v * x, jnp.arange(3.)),
      'fori const trip': lambda x: lax.fori_loop(0, 1, lambda i, v: v, x),
      'scan const': lambda x: x * lax.scan(
          lambda c, a: (c + a, c), 0., jnp.arange(3.))[0],
      'while const': lambda x: x * lax.while_loop(
          lambda v: v < 3., lambda v: v + 1., 0.),
      'assoc scan': lambda x: lax.associative_scan(
          jnp.add, jnp.arange(3.) * x),
      # nested jit
      'jit': lambda x: inner(x) + inner(2 * x),
      'jit jit': lambda x: jit(lambda v: inner(v) * v)(x),
      'jit two': lambda x: two(x, jnp.exp(x))[0] - two(x, x)[1],
      'jit two swapped': lambda x: two(2., x)[1] * two(x, 3.)[0],
      'jit unused': lambda x: two(x, x)[1],
      'jit const': lambda x: const(1.) * x + const(2.),
      'jit mixed': lambda x: jit(lambda a, b: a - b * jnp.sin(b))(x, 2.),
      'jit closure': lambda x: jit(lambda v: v * x)(jnp.array([1., 2.])),
      'jit capture': lambda x: jit(lambda v: v + jnp.arange(3.))(x),
      'jit identity': lambda x: jit(lambda v: v)(x) + 1.,
      'jit swap': lambda x: jit(lambda a, b: (b, a))(x, 2 * x)[0],
      'jit const output': lambda x: jit(lambda a: (a, 3.))(x)[1] * x,
      'jit array const': lambda x: jit(
          lambda v: jnp.dot(jnp.array(V), v * jnp.array(V)))(x),
      'jit sin': lambda x: jit(jnp.sin)(x),
      'jit nonlinear': lambda x: jit(lambda v: v * v)(x),
      'jit exp': lambda x: jit(jnp.exp)(x) * 2,
      'jit static': lambda x: jit(
          lambda v, n: v**n, static_argnums=1)(x, 3),
      'jit inline': lambda x: jit(lambda v: v * v, inline=True)(x),
      'jit donate': lambda x: jit(lambda v: v + 1)(x),
      'jit softplus': lambda x: jit(jax.nn.softplus)(x) + jax.nn.softplus(-x),
      'jit swish': lambda x: jit(lambda v: jax.nn.swish(v) * v)(x),
      # custom derivatives and transformations
      'custom_jvp': custom, 'custom_vjp': customv,
      'custom jvp scaled': lambda x: custom(2 * x) + x,
      'grad': jax.grad(lambda x: jnp.sum(jnp.exp(x) * x)),
      'grad softplus': jax.grad(lambda x: jnp.sum(jax.nn.softplus(x))),
      'jvp': lambda x: jax.jvp(jnp.exp, (x,), (2. * x,))[1],
      'vmap': lambda x: jax.vmap(lambda a: a * x)(jnp.arange(3.)),
      'vmap jit': lambda x: jax.vmap(jit(lambda a: a * x))(jnp.arange(3.)),
      'remat': jax.checkpoint(lambda x: jnp.exp(x) * x),
      'stop gradient': lambda x: lax.stop_gradient(x) * x,
      'stop gradient exp': lambda x: jnp.exp(lax.stop_gradient(x)),
      'optimization barrier': lambda x: lax.optimization_barrier(x) * 2.,
      'linearize': lambda x: jax.linearize(jnp.exp, x)[1](x),
      # library functions built from many primitives
      'relu6': jax.nn.relu6, 'elu': jax.nn.elu, 'gelu': jax.nn.gelu,
      'gelu tanh': lambda x: jax.nn.gelu(x, approximate=True),
      'softmax': lambda x: jax.nn.softmax(jnp.array(V) * x),
      'log softmax': lambda x: jax.nn.log_softmax(jnp.array(V) * x),
      'log sigmoid': jax.nn.log_sigmoid, 'soft sign': jax.nn.soft_sign,
      'mish': lambda x: x * jnp.tanh(jax.nn.softplus(x)),
      'logsumexp': lambda x: jax.nn.logsumexp(jnp.array(V) * x),
      'logaddexp': lambda x: jnp.logaddexp(x, .3),
      'logaddexp 0': lambda x: jnp.logaddexp(x, 0.),
      'logaddexp 0 swapped': lambda x: jnp.logaddexp(0., x),
      'logaddexp 1': lambda x: jnp.logaddexp(x, 1.),
      'logaddexp x': lambda x: jnp.logaddexp(x, 2 * x),
      'log1p': lambda x: jnp.log1p(jnp.exp(x)),
      'softplus by hand': lambda x: jnp.log(1 + jnp.exp(x)),
      'sigmoid by hand': lambda x: 1 / (1 + jnp.exp(-x)),
      'silu by hand': lambda x: x * jax.nn.sigmoid(x),
      'silu variant': lambda x: x * jax.nn.sigmoid(2 * x),
      'silu other': lambda x: (x + 1) * jax.nn.sigmoid(x),
      'silu swapped': lambda x: jax.nn.sigmoid(x) * x,
      'tanh': jnp.tanh, 'sin': jnp.sin, 'expm1': jnp.expm1,
      'hypot': lambda x: jnp.hypot(x, 1.),
      'square fn': jnp.square, 'exp2': jnp.exp2, 'log10': lambda x: jnp.log10(
          x * x + 1.),
      # powers
      'x**x': lambda x: (x * x + 1)**x,
      '2**x': lambda x: 2.**x,
      'x**1.5': lambda x: (x * x + .5)**1.5,
      'x**arr': lambda x: (x * x + .5)**jnp.array([1.5, 2.]),
      'x**int array': lambda x: x**jnp.array([2, 3]),
      'x**f32': lambda x: (x * x + .5)**jnp.float32(1.5),
      'x**-2': lambda x: (x + 5.)**-2, 'x**7': lambda x: x**7,
      'lax pow int': lambda x: lax.pow(x, 3),
      'lax pow': lambda x: lax.pow(x * x + 1, jnp.asarray(.5, x.dtype)),
      'pow of const': lambda x: jnp.power(3., 2.) * x,
      # arrays
      'cumsum': lambda x: jnp.cumsum(jnp.array(V) * x),
      'cumprod': lambda x: jnp.cumprod(jnp.array(V) * x),
      'prod': lambda x: jnp.prod(jnp.array(V) * x),
      'rev': lambda x: jnp.flip(jnp.array(V) * x),
      'gather': lambda x: (jnp.array(V) * x)[jnp.array([2, 0])],
      'dynamic slice': lambda x: lax.dynamic_slice(jnp.array(V) * x, (1,), (2,)),
      'scatter': lambda x: jnp.zeros(3).at[1].set(jnp.sum(x)),
      'concatenate': lambda x: jnp.concatenate(
          [jnp.array(V) * x, jnp.array(V)]),
      'pad': lambda x: lax.pad(jnp.array(V) * x, jnp.asarray(0., x.dtype),
                               [(1, 0, 0)]),
      'pad x': lambda x: lax.pad(jnp.array(V), jnp.sum(x).astype(
          jnp.array(V).dtype), [(1, 0, 0)]),
      'iota': lambda x: lax.iota(x.dtype, 3) * x,
      'reduce window max': lambda x: lax.reduce_window(
          jnp.array(V) * x, -jnp.inf, lax.max, (2,), (1,), 'VALID'),
      'reduce max': lambda x: lax.reduce(
          jnp.array(V) * x, jnp.asarray(-jnp.inf, x.dtype), lax.max, (0,)),
      'reduce mul': lambda x: lax.reduce(
          jnp.array(V) * x, jnp.asarray(1., x.dtype), lax.mul, (0,)),
      'solve': lambda x: jnp.linalg.solve(
          jnp.array(M) + jnp.sum(x) * jnp.eye(3), jnp.array(V)),
      'cholesky': lambda x: jnp.linalg.cholesky(
          jnp.eye(3) * (jnp.sum(x)**2 + 1.)),
      'fft': lambda x: jnp.real(jnp.fft.fft(jnp.array(V) * x)),
      'triangular': lambda x: jnp.tril(jnp.array(M) * x),
      'empty const': lambda x: jnp.sum(jnp.zeros((0,))) + x,
      # results that do not depend on x, or barely
      'zero times': lambda x: 0. * x, 'const': lambda x: jnp.asarray(3.),
      'x-x': lambda x: x - x, 'x/x': lambda x: (x + 9) / (x + 9),
      'zeros_like': lambda x: jnp.zeros_like(x) + 2.,
      'shape dependent': lambda x: x * x.ndim + len(x.shape),
      'dtype dependent': lambda x: x * (2 if x.dtype == jnp.float32 else 3),
      'softplus const': lambda x: x * jax.nn.softplus(jnp.array(2.)),
      'swish const': lambda x: x + jax.nn.swish(jnp.zeros_like(x)),
  }
  return programs


def programs(ch):
  progs = hand_written()
  name = ch.pick(list(progs))
  ch.shard()
  f = progs[name]
  nd = ch.choose(2)
  if nd and ('cond' in name or 'while' in name or 'scan' == name):
    return
  if nd and name == 'grad':
    pass
  degree = ch.choose(4)
  prop = ch.flag()
  low = any(t in name for t in ('f16', 'bf16'))
  f32 = 'f32' in name
  rtol = .02 if low else 1e-5 if f32 and is_x64() else None
  for o in ('id', '3-y'):
    g = lambda x: OUTER[o](f(x))
    for region in REGIONS[nd]:
      try:
        jax.eval_shape(g, jnp.asarray(region[0]))
      except Exception:  # pylint: disable=broad-except
        return
      examine(ch, f'{name}:{o}:{nd}', g, region, degree, prop, rtol=rtol)


# --- unusual arguments ------------------------------------------------------


def parameters(ch):
  """Unusual dtypes of x, and unusual parameters of supported primitives."""
  kinds = {
      'python int': (lambda v: int(np.ceil(v)) if np.ndim(v) == 0 else None),
      'int32': lambda v: jnp.asarray(np.ceil(v), jnp.int32),
      'float16': lambda v: jnp.asarray(v, jnp.float16),
      'bfloat16': lambda v: jnp.asarray(v, jnp.bfloat16),
      'float32': lambda v: jnp.asarray(v, jnp.float32),
      'numpy': lambda v: np.asarray(v),
      'numpy scalar': lambda v: np.float32(v) if np.ndim(v) == 0 else None,
      'list': lambda v: v if np.ndim(v) == 0 else None,
      'matrix': lambda v: jnp.asarray(v).reshape(3, 1) if np.ndim(v) else None,
  }
  funs = {
      'x': lambda x: x * 1., 'x*x': lambda x: x * x,
      'exp': lambda x: jnp.exp(x), '2x+1': lambda x: 2 * x + 1,
      'x/3': lambda x: x / 3, 'x**2': lambda x: x**2,
      'sigmoid': lambda x: jax.nn.sigmoid(x), 'sum': lambda x: jnp.sum(x),
      'softplus': lambda x: jax.nn.softplus(x),
      'softplus 2x': lambda x: jax.nn.softplus(2 * x) - x,
      'floor div': lambda x: x // 2,
      'dot': lambda x: jnp.dot(jnp.array(V), jnp.array(V) * x),
      'dot f32': lambda x: jnp.dot(
          jnp.array(V, jnp.float32), jnp.asarray(jnp.array(V) * x),
          preferred_element_type=jnp.float32),
      'dot int': lambda x: jnp.dot(
          (jnp.array(V) * 4 * x), jnp.array([1., 2., 3.]),
          preferred_element_type=jnp.float64),
      'dot to int': lambda x: lax.dot_general(
          jnp.array([1, 2, 3]) * jnp.asarray(x, int), jnp.array([1, 2, 3]),
          (((0,), (0,)), ((), ()))),
      'integer_pow 1': lambda x: lax.integer_pow(x, 1),
      'integer_pow -1': lambda x: lax.integer_pow(x + 9., -1),
      'neg': lambda x: -x, 'abs': lambda x: abs(x),
      'mean': lambda x: jnp.mean(x), 'where': lambda x: jnp.where(x > 0, x, 0),
      'reshape': lambda x: jnp.reshape(x, (-1,)) * 2.,
      'reshape order': lambda x: jnp.reshape(
          jnp.array(M) * jnp.sum(x), (9,), order='F'),
      'transpose': lambda x: (jnp.array(M) * jnp.sum(x)).T,
      'sum int': lambda x: jnp.sum(jnp.array(V) * x, dtype=jnp.float32),
      'convert weak': lambda x: lax.convert_element_type(x, float) * 1.5,
  }
  kind = ch.pick(list(kinds))
  fname = ch.pick(list(funs))
  ch.shard()
  conv = kinds[kind]
  degree = ch.choose(4)
  prop = ch.flag()
  for nd in (0, 1):
    for region in REGIONS[nd]:
      if conv(region[0]) is None:
        continue
      x0, lo, hi = (np.asarray(conv(v)).astype(float) for v in region)
      low = kind in ('float16', 'bfloat16')
      rtol = .05 if low else 1e-4
      if kind in ('python int', 'int32'):
        if np.any(x0 != np.asarray(region[0])):
          x0, lo, hi = np.ceil(x0), np.ceil(x0) - 1, np.ceil(x0) + 1
      if kind == 'matrix':
        try:
          jax_bound.taylor_bounds(funs[fname], degree, prop)(
              conv(region[0]), (conv(region[1]), conv(region[2])))
        except Exception:  # pylint: disable=broad-except
          continue
        continue
      region = (x0, lo, hi)
      # values of f at points of the same dtype, in the region
      examine(ch, f'{kind}:{fname}:{nd}', funs[fname], region, degree, prop,
              conv=conv, convp=lambda v: conv_point(kind, v, lo, hi),
              rtol=rtol, eager=True)


def conv_point(kind, v, lo, hi):
  if kind in ('python int', 'int32'):
    # integer-typed reference points: f takes integers or floats
    return jnp.asarray(np.clip(np.round(v), lo, hi), jnp.int32)
  if kind == 'float16':
    return jnp.asarray(v, jnp.float16)
  if kind == 'bfloat16':
    return jnp.asarray(v, jnp.bfloat16)
  if kind in ('float32', 'numpy scalar'):
    return jnp.asarray(v, jnp.float32)
  return jnp.asarray(v)


SPACES = {'library': library, 'programs': programs, 'parameters': parameters}
