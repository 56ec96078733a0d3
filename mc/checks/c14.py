"""C14: results do not depend on history, and inputs are never modified."""

import os
import pickle
import subprocess
import sys
import time

from mc import core

ACTIVE = core.WORKER or '--reference' in sys.argv

if ACTIVE:
  import gc
  import numpy as np
  import jax
  import jax.numpy as jnp
  from autobound import (elementwise_functions, enclosure_arithmetic,
                         graph_editor, interval_arithmetic, polynomials,
                         primitive_enclosures)
  from autobound.jax import jax_bound, jaxpr_editor

BOUNDS = {
    'quick': '31 actions: 21 queries (bounds of shared and new bound '
             'functions on scalars, vectors of two lengths, float32 and '
             'float64, several degrees and modes, under jit; numpy enclosure, '
             'interval and polynomial arithmetic; jaxpr rewriting) and 10 '
             'events (precision switches, failing calls, registrations, '
             'garbage collection, cache clearing); every action first in a '
             'fresh process, followed by a history that contains every other '
             'action; all ordered pairs of actions occur next to each other; '
             'all sequences of two operations and a repetition of one on one '
             'arithmetic or bound object, with temporaries, arrays modified '
             'in place and exchanged operands',
    'thorough': 'every pair of actions in a fresh process, followed by all '
                'pairs',
}
ASSUMPTIONS = [
    'the reference of a query is its result in a fresh process in which '
    'nothing else was computed',
]


def tasks(tier):
  pure = []
  for name, n in (('pure_enclosures', 8), ('pure_unary', 4),
                  ('pure_intervals', 4), ('pure_functions', 4),
                  ('pure_bounds', 4), ('objects', 16)):
    pure += core.shards(name, n, tier=tier, cost=1.5)
  if tier == 'quick':
    return [dict(space='histories', first=[n], mode='x64fresh', tier=tier)
            for n in ALL_NAMES] + pure
  return [dict(space='histories', first=[a, b], mode='x64fresh', tier=tier)
          for a in ALL_NAMES for b in ALL_NAMES] + pure


def run_task(task, stats):
  global FIRST, TIER
  FIRST, TIER = task.get('first', []), task.get('tier', 'quick')
  core.simple_run_task(SPACES, task, stats)


QUERY_NAMES = ('shared scalar', 'shared vector', 'shared vector2',
               'shared float32', 'prop scalar', 'prop vector', 'swish',
               'dot', 'abs', 'pow', 'fresh bound', 'jit', 'registered',
               'constant', 'nested jit', 'np enclosures', 'np intervals',
               'polynomial', 'elementwise', 'primitive', 'rewrite')
EVENT_NAMES = ('x64 off', 'x64 on', 'fail sin', 'fail ndim', 'fail degree',
               'fail enclosure', 'register', 'override', 'gc', 'clear caches')
ALL_NAMES = QUERY_NAMES + EVENT_NAMES


if ACTIVE:

  def new_primitive(name, fun):
    p = jax.extend.core.Primitive(name)
    p.def_impl(fun)
    p.def_abstract_eval(lambda x: jax.core.ShapedArray(x.shape, x.dtype))
    return p

  MINE = new_primitive('mine', jnp.exp)
  OTHER = new_primitive('other', jnp.exp)
  jax_bound.register_elementwise_primitive(
      MINE, primitive_enclosures.exp_enclosure)

  # Bound functions that live as long as the process.
  SHARED = jax_bound.taylor_bounds(
      lambda x: jnp.exp(x) * x - jax.nn.sigmoid(2. * x), 2)
  PROPAGATED = jax_bound.taylor_bounds(
      lambda x: jax.nn.softplus(x * x - 1.) / (1. + x * x), 3, True)
  SWISH = jax_bound.taylor_bounds(
      lambda x: jax.nn.swish(jax.nn.swish(x) + jax.nn.sigmoid(x)), 3)
  MATRIX = np.array([[.5, -1., .25], [1.5, .25, -.5]])
  DOT = jax_bound.taylor_bounds(
      lambda x: jnp.sum(jnp.exp(jnp.asarray(MATRIX) @ x)), 2)
  ABS = jax_bound.taylor_bounds(lambda x: jnp.abs(x) * jnp.cbrt(x + 3.), 1)
  POW = jax_bound.taylor_bounds(lambda x: (x + 2.)**1.5 / (3. + x)**2, 4, True)
  JIT = jax.jit(lambda a, b, c: jax_bound.taylor_bounds(
      lambda x: jnp.log(1. + x * x), 2)(a, (b, c)).coefficients)
  BAD = lambda x: x + np.nan
  NP_REGION = (np.array([-.5, -1.]), np.array([1., .25]))
  NP_ARITHMETIC = enclosure_arithmetic.TaylorEnclosureArithmetic(
      2, NP_REGION, np)
  NP_INTERVALS = interval_arithmetic.IntervalArithmetic(np)
  INPUTS = {}

  def frozen(*arrays):
    """Arrays that must not change: read-only half of the time."""
    out = []
    for k, a in enumerate(arrays):
      a = np.array(a, float)
      if k % 2:
        a.flags.writeable = False
      INPUTS[id(a)] = (a, a.copy())
      out.append(a)
    return out

  # Inputs shared by all queries.
  X3, LO3, HI3 = frozen([.5, -.25, 1.], [-.5, -1., .25], [1.25, .75, 2.])
  X2, LO2, HI2 = frozen([.25, 1.], [-.5, .5], [.5, 2.])
  X0, LO0, HI0 = frozen(.5, -.25, 1.5)
  C0, C1, C2L, C2H = frozen([1., -2.], np.array([[1., 0.], [.5, -1.]]),
                            -np.ones((2, 2, 2)), 2 * np.ones((2, 2, 2)))
  D0, D1L, D1H = frozen([.5, 3.], -np.ones((2, 2)), np.ones((2, 2)) / 2)
  IL, IH, JL, JH = frozen([-1., 0., 2.], [.5, 1., 3.], [-2., -1., .25],
                          [-1., 2., .25])
  ENCLOSURE_A = (C0, C1, (C2L, C2H))
  ENCLOSURE_B = (D0, (D1L, D1H))

  def coefficients(bound):
    return bound.coefficients

  def float32(*arrays):
    return [jnp.asarray(a, jnp.float32) for a in arrays]

  def q_shared_scalar():
    return coefficients(SHARED(X0, (LO0, HI0)))

  def q_shared_vector():
    return coefficients(SHARED(X3, (LO3, HI3)))

  def q_shared_vector2():
    return coefficients(SHARED(X2, (LO2, HI2)))

  def q_shared_float32():
    a, b, c = float32(X0, LO0, HI0)
    return coefficients(SHARED(a, (b, c)))

  def q_prop_scalar():
    return coefficients(PROPAGATED(X0, (LO0, HI0)))

  def q_prop_vector():
    return coefficients(PROPAGATED(X2, (LO2, HI2)))

  def q_swish():
    return coefficients(SWISH(X0, (LO0, HI0)))

  def q_dot():
    return coefficients(DOT(X3, (LO3, HI3)))

  def q_abs():
    return coefficients(ABS(X2, (LO2, HI2)))

  def q_pow():
    return coefficients(POW(X0, (LO0, HI0)))

  def q_fresh_bound():
    f = lambda x: jax.nn.softplus(x) * jax.nn.swish(x) + jnp.sqrt(x + 2.)
    bound = jax_bound.taylor_bounds(f, 1)(X0, (LO0, HI0))
    return (bound.coefficients, bound.lower(HI0), bound.upper(LO0),
            bound.final_interval())

  def q_jit():
    return JIT(X0, LO0, HI0)

  def q_registered():
    f = lambda x: MINE.bind(x * x) - x
    return coefficients(jax_bound.taylor_bounds(f, 2, True)(X3, (LO3, HI3)))

  def q_constant():
    f = lambda x: x * jax.nn.softplus(jnp.asarray(MATRIX[0])) + jnp.sum(
        jax.nn.sigmoid(jnp.asarray(MATRIX)))
    return coefficients(jax_bound.taylor_bounds(f, 2)(X3, (LO3, HI3)))

  NESTED = jax.jit(lambda y: jax.nn.softplus(y) * y)

  def q_nested_jit():
    f = lambda x: NESTED(x) + NESTED(NESTED(2. * x))
    return coefficients(jax_bound.taylor_bounds(f, 2)(X0, (LO0, HI0)))

  def q_np_enclosures():
    a = NP_ARITHMETIC
    e = a.get_elementwise_fun(primitive_enclosures.sigmoid_enclosure)
    return (a.multiply(ENCLOSURE_A, ENCLOSURE_B), a.power(ENCLOSURE_A, 3),
            a.add(ENCLOSURE_B, ENCLOSURE_A), a.subtract(ENCLOSURE_A, ENCLOSURE_B),
            e(ENCLOSURE_A), a.negative(ENCLOSURE_B),
            enclosure_arithmetic.enclose_enclosure(
                ENCLOSURE_A, NP_REGION, 1, np))

  def q_np_intervals():
    a, i, j = NP_INTERVALS, (IL, IH), (JL, JH)
    return (a.add(i, j), a.subtract(i, JL), a.multiply(i, j), a.negative(i),
            a.power(i, 2), a.power(j, 3), a.outer_product(i, j),
            a.outer_power(i, 2), a.tensordot(i, j, 1),
            a.arbitrary_bilinear(i, j, np.outer))

  def q_polynomial():
    return (polynomials.eval_taylor_enclosure(ENCLOSURE_A, X2, np),
            polynomials.eval_taylor_enclosure(ENCLOSURE_B, NP_REGION, np),
            polynomials.integer_power((1., 2., -1.), 3),
            polynomials.arbitrary_bilinear((1., 2.), (3., -1., 2.)))

  def q_elementwise():
    out = []
    for f, k in (('SIGMOID', 2), ('SWISH', 3), ('SOFTPLUS', 1), ('EXP', 2)):
      fid = getattr(elementwise_functions, f).derivative_id(k)
      out.append(elementwise_functions.get_range(fid, (IL, IH), np))
    return out

  def q_primitive():
    return (primitive_enclosures.swish_enclosure(X3, (LO3, HI3), 3, np),
            primitive_enclosures.pow_enclosure(
                .5, X3 + 2., (LO3 + 2., HI3 + 2.), 2, np),
            primitive_enclosures.exp_enclosure(X2, (LO2, HI2), 4, np),
            primitive_enclosures.abs_enclosure(X2, (LO2, HI2), 1, np))

  def q_rewrite():
    to_jaxpr = lambda f: jax.make_jaxpr(f)(0.).jaxpr
    out = jaxpr_editor.replace(
        to_jaxpr(jax.nn.softplus), to_jaxpr(jnp.exp),
        to_jaxpr(lambda x: jax.nn.softplus(2. * x) + jax.nn.softplus(x) * x))
    graph = graph_editor.replace(
        [graph_editor.Operation('f', ['a'], ['b'])],
        [graph_editor.Operation('g', ['a'], ['t']),
         graph_editor.Operation('h', ['t'], ['b'])],
        graph_editor.ComputationGraph(
            ['x'], ['z'], [graph_editor.Operation('f', ['x'], ['y']),
                           graph_editor.Operation('f', ['y'], ['z'])]),
        lambda u, v: True)
    return (jax.core.eval_jaxpr(out, [], jnp.asarray(.5)),
            [len(out.eqns), len(graph.operations)])

  QUERIES = {n: globals()['q_' + n.replace(' ', '_')] for n in QUERY_NAMES}

  def refused(fun, *errors):
    try:
      fun()
    except errors:
      return
    raise AssertionError('call should fail')

  def failing_enclosure(x0, region, degree, np_like):
    raise KeyError('from the enclosure function')

  FAILING = new_primitive('failing', jnp.exp)
  jax_bound.register_elementwise_primitive(FAILING, failing_enclosure)

  def e_x64_off():
    jax.config.update('jax_enable_x64', False)

  def e_x64_on():
    jax.config.update('jax_enable_x64', True)

  def e_fail_sin():
    refused(lambda: jax_bound.taylor_bounds(
        lambda x: jax.nn.softplus(x) + jnp.sin(x), 2)(X3, (LO3, HI3)),
            NotImplementedError)

  def e_fail_ndim():
    refused(lambda: SHARED(MATRIX, (MATRIX - 1., MATRIX + 1.)),
            NotImplementedError)

  def e_fail_degree():
    refused(lambda: jax_bound.taylor_bounds(jnp.exp, -1), ValueError)
    # more derivatives of the absolute value than exist
    refused(lambda: jax_bound.taylor_bounds(
        lambda x: jax.nn.sigmoid(x) * jnp.abs(x), 3, True)(X2, (LO2, HI2)),
            NotImplementedError)

  def e_fail_enclosure():
    refused(lambda: jax_bound.taylor_bounds(
        lambda x: jnp.exp(x) * FAILING.bind(2. * x), 2, True)(X0, (LO0, HI0)),
            KeyError)

  def e_register():
    p = new_primitive('another', jnp.exp)
    jax_bound.register_elementwise_primitive(
        p, primitive_enclosures.sigmoid_enclosure)
    jax_bound.register_elementwise_primitive(
        jax.lax.sin_p if False else OTHER, primitive_enclosures.log_enclosure)

  def e_override():
    # Registering what is registered already changes nothing.
    jax_bound.register_elementwise_primitive(
        jax.lax.exp_p, primitive_enclosures.exp_enclosure)
    jax_bound.register_elementwise_primitive(
        MINE, primitive_enclosures.exp_enclosure)

  def e_gc():
    gc.collect()

  def e_clear_caches():
    jax.clear_caches()

  EVENTS = {n: globals()['e_' + n.replace(' ', '_')] for n in EVENT_NAMES}

  def leaves(obj):
    if isinstance(obj, (tuple, list)):
      return [x for o in obj for x in leaves(o)]
    return [obj]

  def skeleton(obj):
    if isinstance(obj, (tuple, list)):
      return tuple(skeleton(o) for o in obj)
    return None

  def snapshot(obj):
    """(structure, arrays) of a result, copied."""
    return skeleton(obj), [np.array(x) for x in leaves(obj)]


# --- references ---------------------------------------------------------------


def reference_main():
  """Computes one query in this (fresh) process and stores it."""
  _, name, path = sys.argv[1:4]
  result = snapshot(QUERIES[name]())
  with open(path + f'.{os.getpid()}', 'wb') as f:
    pickle.dump(result, f)
  os.replace(path + f'.{os.getpid()}', path)


def reference(name, x64):
  """The result of a query in a fresh process (shared between workers)."""
  key = (name, x64)
  if key not in REFERENCES:
    path = os.path.join(os.environ['HOME'],
                        f'ref_{QUERY_NAMES.index(name)}_{int(x64)}')
    try:
      fd = os.open(path + '.lock', os.O_CREAT | os.O_EXCL)
      os.close(fd)
      mine = True
    except FileExistsError:
      mine = False
    if mine:
      env = dict(os.environ, JAX_ENABLE_X64='1' if x64 else '0')
      r = subprocess.run([sys.executable, '-m', 'mc.checks.c14', '--reference',
                          name, path], cwd=core.VERIF, env=env,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
      if r.returncode:
        with open(path + '.tmp', 'wb') as f:
          pickle.dump(r.stderr.decode()[-1500:], f)
        os.replace(path + '.tmp', path)
    end = time.time() + 200
    while not os.path.exists(path):
      if time.time() > end:
        raise RuntimeError('no reference: ' + name)
      time.sleep(.05)
    with open(path, 'rb') as f:
      REFERENCES[key] = pickle.load(f)
  return REFERENCES[key]


REFERENCES = {}
FIRST = []
HISTORY = []
EARLIER = []   # (name, result object, snapshot)


def precision():
  return bool(jax.config.read('jax_enable_x64'))


def compare(ch, name, got, want, what):
  if isinstance(want, str):
    ch.fail(f'fresh:{name}', f'{name} fails in a fresh process: {want}')
  (gs, ga), (ws, wa) = got, want
  ch.check(gs == ws, f'{what}-structure:{name}',
           lambda: f'{name} after {HISTORY[-6:]}: structure {gs}, in a fresh '
           f'process {ws}')
  for a, b in zip(ga, wa):
    ok = a.shape == b.shape and a.dtype == b.dtype
    if ok:
      tol = 1e-12 if a.dtype == np.float64 else 1e-6
      with np.errstate(invalid='ignore'):
        ok = np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (a == b)
                    | (np.isnan(a) & np.isnan(b)))
    ch.check(ok, f'{what}:{name}',
             lambda: f'{name} after {HISTORY[-6:]}: {a!r}, in a fresh process '
             f'{b!r}')


def check_inputs(ch):
  for a, copy in INPUTS.values():
    ch.check(np.array_equal(a, copy), 'input-modified',
             lambda: f'after {HISTORY[-4:]}: {copy} became {a}')
  ch.check(np.array_equal(MATRIX, [[.5, -1., .25], [1.5, .25, -.5]]),
           'input-modified', lambda: f'{MATRIX}')


def perform(ch, name):
  HISTORY.append(name)
  ch.count(1)
  if name in EVENTS:
    EVENTS[name]()
    return
  result = QUERIES[name]()
  snap = snapshot(result)
  compare(ch, name, snap, reference(name, precision()), 'history')
  check_inputs(ch)
  EARLIER.append((name, result, snap))
  if len(EARLIER) > 12:
    del EARLIER[0]
  ch.outcome((name, precision(), [a.tobytes() for a in snap[1]]))


def histories(ch):
  if not ch.cache:
    ch.cache['started'] = True
    for name in FIRST:
      perform(ch, name)
  b = ch.pick(ALL_NAMES)
  if TIER == 'thorough':
    c = ch.pick(ALL_NAMES)
  else:
    # every ordered pair of actions follows some first action
    n = len(ALL_NAMES)
    c = ALL_NAMES[(ALL_NAMES.index(b) * 3 + ALL_NAMES.index(FIRST[0])) % n]
  ch.shard()
  for name in (b, c):
    perform(ch, name)
  ch.state((FIRST, b, c, precision()))
  # Results returned earlier have not changed.
  for name, result, snap in EARLIER:
    now = snapshot(result)
    ch.count(evaluations=1)
    ch.check(now[0] == snap[0] and all(
        np.array_equal(x, y, equal_nan=True)
        for x, y in zip(now[1], snap[1])), f'changed:{name}',
             lambda: f'a result of {name} changed after {HISTORY[-4:]}')


# --- arguments are never modified ---------------------------------------------

SHAPES = [((), ()), ((2,), ()), ((2, 2), ()), ((), (2,)), ((2,), (2,)),
          ((2, 2), (2,)), ((), (3,)), ((3, 2), (2,))]


def entries(shape, seed, positive=False):
  n = int(np.prod(shape, dtype=int))
  a = ((np.arange(n) * 7 + seed * 3) % 9 - (0 if positive else 4)) / 4. + (
      .5 if positive else 0.)
  return a.reshape(shape)


def operand(structure, shape, x_shape, seed):
  """Enclosure with the given coefficients: 'p' point, 'i' interval."""
  out = []
  for k, kind in enumerate(structure):
    a = entries(shape + x_shape * k, seed + k, positive=k == 0)
    out.append(a if kind == 'p' else (a - .25, a + .25))
  return tuple(out)


class Guard:
  """Remembers the contents of everything given to a call."""

  def __init__(self, *objs):
    self.objs, self.before = objs, snapshot(objs)
    self.ids = [id(x) for x in leaves(objs)]

  def verify(self, ch, key, what):
    now = snapshot(self.objs)
    ch.count(1, evaluations=1)
    ch.check(now[0] == self.before[0]
             and [id(x) for x in leaves(self.objs)] == self.ids and all(
                 a.dtype == b.dtype and a.shape == b.shape
                 and a.tobytes() == b.tobytes()
                 for a, b in zip(now[1], self.before[1])),
             f'argument-modified:{key}',
             lambda: f'{what}: arguments were {self.before[1]}, became '
             f'{now[1]}')


STRUCTURES = [''.join(t) for n in (1, 2, 3)
              for t in __import__('itertools').product('pi', repeat=n)]


def region_of(x_shape):
  a = entries(x_shape, 5)
  return (a * 0 - .5, a * 0 + 1.)


def pure_enclosures(ch):
  """Binary operations on enclosures."""
  shape, x_shape = ch.pick(SHAPES)
  ka, kb = ch.pick(STRUCTURES), ch.pick(STRUCTURES)
  ch.shard()
  D = ch.choose(4)
  same = ka == kb and ch.flag()
  a = operand(ka, shape, x_shape, 1)
  b = a if same else operand(kb, shape, x_shape, 2)
  region = region_of(x_shape)
  ar = enclosure_arithmetic.TaylorEnclosureArithmetic(D, region, np)
  ops = [('add', ar.add), ('subtract', ar.subtract), ('multiply', ar.multiply),
         ('compose', lambda u, v: ar.compose_enclosures(u, v))]
  if not isinstance(b[0], tuple) or D == 0:
    ops.append(('divide', ar.divide))
  if len(shape) == 1:
    ops.append(('bilinear', lambda u, v: ar.arbitrary_bilinear(
        u, v, lambda s, t, p, q: np.tensordot(s, t, (0, 0)))))
  for name, op in ops:
    if name == 'compose' and (x_shape or ka[:1] == 'i'):
      continue
    guard = Guard(a, b, region)
    with np.errstate(all='ignore'):
      result = op(a, b)
      guard.verify(ch, name, f'{name} of {ka}, {kb} shape {shape} x {x_shape} '
                   f'degree {D}')
      # The result, used as an operand together with what it was made from.
      again = Guard(result, a, b)
      if np.shape(leaves(result)[0]) == shape:
        ar.multiply(result, a)
        ar.add(a, result)
        ar.multiply(result, result)
        again.verify(ch, f'{name}-then', f'multiplication of the result of '
                     f'{name} of {ka}, {kb} shape {shape} x {x_shape}')
  ch.outcome((shape, x_shape, ka, kb, D, same))


def pure_unary(ch):
  """Operations on one enclosure."""
  shape, x_shape = ch.pick(SHAPES)
  ka = ch.pick(STRUCTURES)
  ch.shard()
  D = ch.choose(4)
  a = operand(ka, shape, x_shape, 1)
  region = region_of(x_shape)
  ar = enclosure_arithmetic.TaylorEnclosureArithmetic(D, region, np)
  ops = [('negative', ar.negative)]
  ops += [(f'power {p}', lambda u, p=p: ar.power(u, p))
          for p in (0, 1, 2, 3, 4) + ((-1, -2, .5, 1.5)
                                      if ka[0] == 'p' or D == 0 else ())]
  given = (np.zeros(shape) - 9., np.zeros(shape) + 9.)
  for f in ('abs', 'exp', 'log', 'sigmoid', 'softplus', 'swish'):
    if f == 'abs' and D > 1 or ka[0] == 'i' and D:
      continue
    g = ar.get_elementwise_fun(
        getattr(primitive_enclosures, f + '_enclosure'))
    ops += [(f, g)]
    if f != 'log':
      ops += [(f + ' given', lambda u, g=g: g(u, given))]
  ops += [(f'enclose {k}',
           lambda u, k=k: enclosure_arithmetic.enclose_enclosure(
               u, region, k, np)) for k in range(len(ka))]
  z = region[0] + .25
  ops += [('eval', lambda u: polynomials.eval_taylor_enclosure(u, z, np)),
          ('range', lambda u: polynomials.eval_taylor_enclosure(
              u, region, np))]
  if not x_shape:
    ops += [('eval elementwise',
             lambda u: polynomials.eval_elementwise_taylor_enclosure(
                 u, given if shape else z, np))]
  for name, op in ops:
    guard = Guard(a, region, given, z)
    with np.errstate(all='ignore'):
      op(a)
    guard.verify(ch, name, f'{name} of {ka} shape {shape} x {x_shape} degree '
                 f'{D}')
  ch.outcome((shape, x_shape, ka, D))


def pure_intervals(ch):
  ia = interval_arithmetic.IntervalArithmetic(np)
  sa = ch.pick([(), (1,), (2,), (2, 2), (2, 1), (3, 2)])
  ka, kb = ch.choose(2), ch.choose(2)
  sb = ch.pick([(), (1,), (2,), (2, 2), (2, 1), (3, 2)])
  ch.shard()
  make = lambda k, s, seed: (lambda v: (v - .5, v + .25) if k else v)(
      entries(s, seed))
  a, b = make(ka, sa, 1), make(kb, sb, 2)
  same = sa == sb and ka == kb and ch.flag()
  if same:
    b = a
  ops = []
  try:
    np.broadcast_shapes(sa, sb)
    ops += [('add', lambda: ia.add(a, b)), ('subtract', lambda: ia.subtract(
        a, b)), ('multiply', lambda: ia.multiply(a, b))]
  except ValueError:
    pass
  ops += [('outer_product', lambda: ia.outer_product(a, b)),
          ('bilinear', lambda: ia.arbitrary_bilinear(
              a, b, lambda u, v: np.tensordot(u, v, 0))),
          ('negative', lambda: ia.negative(a))]
  if sa and sb and sa[-1] == sb[0]:
    ops += [('tensordot', lambda: ia.tensordot(a, b, 1))]
  ops += [(f'power {p}', lambda p=p: ia.power(a, p)) for p in (0, 1, 2, 3, 4)]
  ops += [(f'outer_power {p}', lambda p=p: ia.outer_power(a, p))
          for p in (0, 1, 2, 3)]
  if len(sa) == 2:
    ops += [('batched outer', lambda: ia.outer_power(a, 2, 1))]
  for name, op in ops:
    guard = Guard(a, b)
    op()
    guard.verify(ch, name, f'{name} of {a}, {b}')
  ch.outcome((sa, sb, ka, kb, same))


def pure_functions(ch):
  """Primitive enclosures and the function library."""
  shape = ch.pick([(), (1,), (3,), (2, 2)])
  name = ch.pick(['abs', 'exp', 'log', 'sigmoid', 'softplus', 'swish', 'pow'])
  ch.shard()
  degree = ch.choose(5)
  if name == 'abs' and degree > 1 or name in ('sigmoid', 'swish') and (
      degree > 4):
    return
  width = ch.pick((0., .125, 2.))
  x0 = entries(shape, 3, positive=True)
  region = (x0 - min(width, .25), x0 + width)
  powers = (-1, 2, 3, .5) if name == 'pow' else (None,)
  for p in powers:
    if p is None:
      f = getattr(primitive_enclosures, name + '_enclosure')
      op = lambda: f(x0, region, degree, np)
    else:
      op = lambda: primitive_enclosures.pow_enclosure(p, x0, region, degree,
                                                      np)
    guard = Guard(x0, region)
    with np.errstate(all='ignore'):
      op()
    guard.verify(ch, name, f'{name} {p} enclosure of degree {degree} at {x0} '
                 f'over {region}')
  if name not in ('abs', 'pow'):
    data = getattr(elementwise_functions, name.upper())
    fid = data.derivative_id(min(degree, 3))
    guard = Guard(x0, region)
    with np.errstate(all='ignore'):
      elementwise_functions.get_function(fid, np)(x0)
      elementwise_functions.get_range(fid, region, np)
      elementwise_functions.get_taylor_polynomial_coefficients(
          data, min(degree, 3), x0, np)
    guard.verify(ch, name, f'function library: {name}, derivative {degree} at '
                 f'{x0} over {region}')
  ch.outcome((shape, name, degree, width))


def pure_bounds(ch):
  """taylor_bounds and its results, with NumPy arguments."""
  n = ch.choose(5)
  shape = ch.pick([(), (1,), (3,)])
  ch.shard()
  degree, prop = ch.choose(3), ch.flag()
  f = (lambda x: jnp.exp(x) * x, lambda x: x**3 - x,
       lambda x: jnp.sum(jax.nn.softplus(x)), lambda x: jnp.log(2. + x)**1.5,
       lambda x: x)[n]
  x0 = entries(shape, 3, positive=True)
  region = (x0 - .5, x0 + 1.)
  z = x0 + .25
  guard = Guard(x0, region, z)
  b = jax_bound.taylor_bounds(f, degree, prop)(x0, region)
  first = Guard(b.coefficients)
  values = (b(z), b.lower(z), b.upper(z), b.final_interval(), b.lower(x0))
  held = Guard(values)
  b.lower(region[0]), b.upper(region[1]), b(x0)
  guard.verify(ch, 'taylor_bounds', f'bounds of program {n} at {x0}')
  first.verify(ch, 'coefficients', f'evaluating bounds of program {n}')
  held.verify(ch, 'values', f'evaluating bounds of program {n}')
  ch.outcome((n, shape, degree, prop))


# --- objects that are used again and again ------------------------------------


def _interval_ops():
  """name -> function of (arithmetic, a, b): a, b of shape (2, 2)."""
  mul = lambda u, v: np.tensordot(u, v, 1)
  return {
      'add': lambda o, a, b: o.add(a, b),
      'subtract': lambda o, a, b: o.subtract(a, b),
      'multiply': lambda o, a, b: o.multiply(a, b),
      'negative': lambda o, a, b: o.negative(a),
      'power2': lambda o, a, b: o.power(a, 2),
      'power3': lambda o, a, b: o.power(a, 3),
      'outer2': lambda o, a, b: o.outer_power(a, 2),
      'outer3': lambda o, a, b: o.outer_power(b, 3),
      'batched2': lambda o, a, b: o.outer_power(a, 2, 1),
      'vector2': lambda o, a, b: o.outer_power(first_row(a), 2),
      'outer': lambda o, a, b: o.outer_product(a, b),
      'batched': lambda o, a, b: o.outer_product(a, b, 2),
      'dot': lambda o, a, b: o.tensordot(a, b, 1),
      'bilinear': lambda o, a, b: o.arbitrary_bilinear(a, b, mul),
      'as': lambda o, a, b: o.as_interval_or_ndarray(a),
  }


def first_row(a):
  return tuple(e[0] for e in a) if isinstance(a, tuple) else a[0]


def _enclosure_ops():
  exp, soft = (primitive_enclosures.exp_enclosure,
               primitive_enclosures.softplus_enclosure)
  ops = {
      'add': lambda o, a, b: o.add(a, b),
      'subtract': lambda o, a, b: o.subtract(a, b),
      'multiply': lambda o, a, b: o.multiply(a, b),
      'divide': lambda o, a, b: o.divide(a, b),
      'negative': lambda o, a, b: o.negative(a),
      'power2': lambda o, a, b: o.power(a, 2),
      'power3': lambda o, a, b: o.power(b, 3),
      'power.5': lambda o, a, b: o.power(a, .5),
      'exp': lambda o, a, b: o.get_elementwise_fun(exp)(a),
      'softplus': lambda o, a, b: o.get_elementwise_fun(soft)(b),
      'compose': lambda o, a, b: o.compose_enclosures(
          (np.ones(2), (np.zeros(2), np.ones(2))), a),
      'dot': lambda o, a, b: o.arbitrary_bilinear(
          a, b, lambda u, v, p, q: np.tensordot(u, v, (0, 0))),
      'enclose': lambda o, a, b: enclosure_arithmetic.enclose_enclosure(
          a, o.trust_region, 1, np),
      'eval': lambda o, a, b: polynomials.eval_taylor_enclosure(
          a, o.trust_region, np),
  }
  return ops


def _function_ops():
  """Functions of (nothing, x0, region end): primitives and the library."""
  region = lambda a, b: (np.minimum(a, b) - .25, np.maximum(a, b) + .5)
  ops = {}
  for name in ('exp', 'log', 'sigmoid', 'softplus', 'swish', 'abs', 'cbrt'):
    f = getattr(primitive_enclosures, name + '_enclosure')
    ops[name] = lambda o, a, b, f=f: f(a, region(a, b), 1, np)
  ops['sqrt'] = lambda o, a, b: primitive_enclosures.pow_enclosure(
      .5, a, region(a, b), 2, np)
  ops['inv'] = lambda o, a, b: primitive_enclosures.pow_enclosure(
      -1, a, region(a, b), 2, np)
  for name in ('SWISH', 'SIGMOID'):
    fid = getattr(elementwise_functions, name).derivative_id(2)
    ops['range ' + name] = lambda o, a, b, fid=fid: (
        elementwise_functions.get_range(fid, region(a, b), np))
    ops['coefficients ' + name] = lambda o, a, b, fid=fid: tuple(
        elementwise_functions.get_taylor_polynomial_coefficients(
            fid, 1, a, np))
  ops['polynomial'] = lambda o, a, b: polynomials.integer_power((a, b), 3)
  ops['eval'] = lambda o, a, b: (
      polynomials.eval_elementwise_taylor_enclosure((a, b, (a, a + b)), b, np))
  return ops


def _bound_ops():
  """Functions of a bound function and a bound object."""
  region = lambda a, b: (np.minimum(a, b) - .25, np.maximum(a, b) + .5)
  return {
      'bounds': lambda o, a, b: o[0](a, region(a, b)).coefficients,
      'call': lambda o, a, b: o[1](a),
      'lower': lambda o, a, b: o[1].lower(a),
      'upper': lambda o, a, b: o[1].upper(b),
      'final': lambda o, a, b: o[1].final_interval(),
  }


def objects(ch):
  """Every sequence of three calls on one object.

  The arguments of each call are temporaries that are freed before the next
  one (so that their addresses are used again), or the same arrays with new
  contents; each result must be that of a new object and new arrays.
  """
  kind = ch.pick(['interval', 'enclosure', 'vector', 'functions', 'bounds'])
  ops = {'interval': _interval_ops, 'enclosure': _enclosure_ops,
         'vector': _enclosure_ops, 'functions': _function_ops,
         'bounds': _bound_ops}[kind]()
  first = ch.pick(list(ops))
  ch.shard()
  second = ch.pick(list(ops))
  third = ch.pick([first, second] if TIER == 'quick' else list(ops))
  mode = ch.pick(['temporaries', 'in place', 'swapped'])
  structure = ch.pick(['p', 'i']) if kind not in ('functions', 'bounds') else 'p'
  x_shape = (2,) if kind == 'vector' else ()
  if x_shape and 'dot' in (first, second, third):
    return
  region = region_of(x_shape)

  def new_object():
    if kind == 'interval':
      return interval_arithmetic.IntervalArithmetic(np)
    if kind == 'functions':
      return None
    if kind == 'bounds':
      f = jax_bound.taylor_bounds(lambda x: jnp.exp(x) * x, 2)
      v = entries((2,), 1, True)
      return f, f(v, (v - .5, v + .5))
    return enclosure_arithmetic.TaylorEnclosureArithmetic(2, region, np)

  def arguments(step):
    """New arrays with the contents for this step."""
    if kind in ('functions', 'bounds'):
      return (entries((2,), step, True) + .5, entries((2,), step + 3, True))
    if kind == 'interval':
      a, b = (entries((2, 2), 2 * step + i) for i in (0, 1))
      return tuple((v - .5, v + .25) if structure == 'i' else v
                   for v in (a, b))
    return tuple(operand('p' + structure * 2, (2,), x_shape, 2 * step + i)
                 for i in (0, 1))

  def arrays_of(v):
    return [a for t in v for a in (arrays_of(t) if isinstance(t, tuple)
                                   else [t])]

  def call(o, op, args):
    with np.errstate(all='ignore'):
      return ops[op](o, *args)

  def fresh(step, op):
    key = kind, structure, step, op, mode == 'swapped'
    if key not in ch.cache:
      args = arguments(step)
      if mode == 'swapped' and step % 2:
        args = args[::-1]
      ch.cache[key] = snapshot(call(new_object(), op, args))
      # Keep the arrays: their addresses must not be used again.
      ch.cache[('keep',) + key] = args
    return ch.cache[key]

  o = new_object()
  buffers = arguments(0)
  held = []
  for step, op in enumerate((first, second, third)):
    want = fresh(step, op)
    if mode == 'in place':
      for t, v in zip(arrays_of(buffers), arrays_of(arguments(step))):
        t[...] = v
      got = call(o, op, buffers)
    elif mode == 'swapped':
      args = arguments(step)
      got = call(o, op, args[::-1] if step % 2 else args)
      del args
    else:
      got = call(o, op, arguments(step))
    ch.count(1, 1)
    ch.check(snapshot_equal(snapshot(got), want),
             f'object:{kind}:{first}:{second}:{third}:{mode}:{structure}:{step}',
             lambda: f'{kind} arithmetic, {mode}: call {step} of {first}, '
             f'{second}, {third} returned {got}, a new object {want[1]}')
    if mode != 'in place':
      held.append((got, want))
    del got
  for step, (got, want) in enumerate(held):
    ch.check(snapshot_equal(snapshot(got), want),
             f'result-changed:{kind}:{first}:{second}:{third}:{mode}:{step}',
             lambda: f'{kind} arithmetic, {mode}: the result of call {step} '
             f'of {first}, {second}, {third} changed later')
  ch.outcome((kind, first, second, third, mode, structure))


def snapshot_equal(a, b):
  return a[0] == b[0] and len(a[1]) == len(b[1]) and all(
      s.dtype == t.dtype and s.shape == t.shape
      and s.tobytes() == t.tobytes() for s, t in zip(a[1], b[1]))


SPACES = dict(histories=histories, objects=objects, pure_enclosures=pure_enclosures,
              pure_unary=pure_unary, pure_intervals=pure_intervals,
              pure_functions=pure_functions, pure_bounds=pure_bounds)


if __name__ == '__main__':
  reference_main()
