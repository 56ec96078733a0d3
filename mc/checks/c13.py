"""C13: jaxpr rewriting changes exactly the matched computations."""

import itertools

from mc import core

if core.WORKER:
  import numpy as np
  import jax
  import jax.numpy as jnp
  import jax.extend as jex
  from autobound.jax import jaxpr_editor
  from mc.lib import *  # pylint: disable=wildcard-import

BOUNDS = {
    'quick': '14 pattern/replacement families (literals, parameters, nested '
             'jit, custom derivatives, several inputs/outputs, unused outputs) '
             'x all chains of up to 3 blocks and all DAG templates over '
             '{pattern, near misses, filler}, x shapes (), (3,), (2,2) x 4 '
             'variable-counter histories x 4 orders of creation; 48 groups of '
             'functions that differ in a parameter of an equation, all pairs '
             'within each group; both precisions',
}
ASSUMPTIONS = ['jax.core.eval_jaxpr gives the meaning of an expression']


def tasks(tier):
  ts = core.shards('chains', 16)
  ts += core.shards('dags', 12)
  ts += core.shards('history', 6)
  ts += core.shards('matrix', 4)
  ts += core.shards('parameters', 12)
  ts += core.shards('parameters', 4, mode='x32')
  ts += core.shards('chains', 8, mode='x32')
  ts += core.shards('precision', 4) + core.shards('precision', 2, mode='x32')
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  core.simple_run_task(SPACES, task, stats)


if core.WORKER:

  def named(f, name):
    f.__name__ = name
    return f

  def g1(x):
    return jnp.log(x) + 1.

  def g2(x):
    return jnp.log(x) + 2.

  def custom(body):
    f = jax.custom_jvp(named(lambda x: body(x), 'cf'))
    f.defjvp(lambda p, t: (body(p[0]), t[0]))
    return f

  def jitted(body):
    return jax.jit(named(lambda x: body(x), 'jf'))

  C1, C2 = np.array([1., 2., 3.]), np.array([1., 2., 4.])

  # name -> (pattern, replacement, near misses); one argument each.
  UNARY = {
      'exp': (jnp.exp, lambda x: jnp.log(x) * 2.,
              [jnp.exp2, lambda x: jnp.log(x)]),
      'add1': (lambda x: x + 1., lambda x: x * 3.,
               [lambda x: x + 2., lambda x: 1. + x, lambda x: x - 1.]),
      'exp_add1': (lambda x: jnp.exp(x) + 1.,
                   lambda x: jnp.tanh(jnp.log(x) - 0.5),
                   [lambda x: jnp.exp(x) + 2., lambda x: jnp.exp(x) - 1.,
                    lambda x: 1. + jnp.exp(x)]),
      'square': (lambda x: x**2, lambda x: jnp.sqrt(jnp.exp(x)),
                 [lambda x: x**3, lambda x: x * x, lambda x: x**-2]),
      'self_mul': (lambda x: x * x, lambda x: jnp.exp(x),
                   [lambda x: x * 2., lambda x: x + x]),
      'jit': (jitted(g1), lambda x: jnp.cos(x) * 5.,
              [jitted(g2), g1, custom(g1)]),
      'jit_chain': (lambda x: jitted(g1)(jitted(g1)(x)),
                    lambda x: jnp.cos(x) * 5., [jitted(g2),
                                                lambda x: jitted(g1)(
                                                    jitted(g2)(x))]),
      'custom': (custom(g1), lambda x: jnp.cos(x),
                 [custom(g2), jitted(g1)]),
      'relu': (jax.nn.relu, lambda x: jnp.exp(x),
               [jax.nn.relu6, lambda x: jnp.maximum(x, 0.)]),
      'softplus': (jax.nn.softplus, lambda x: jnp.cos(x) - 3.,
                   [lambda x: jnp.logaddexp(x, 1.), jax.nn.sigmoid,
                    jax.nn.silu]),
      'where': (lambda x: jax.lax.select(x > 1., jnp.sin(x), jnp.cos(x)),
                lambda x: jnp.log(x),
                [lambda x: jax.lax.select(x > 2., jnp.sin(x), jnp.cos(x)),
                 lambda x: jax.lax.select(x < 1., jnp.sin(x), jnp.cos(x)),
                 lambda x: jax.lax.select(x > 1., jnp.cos(x), jnp.sin(x))]),
      'unused': (lambda x: (jnp.log(x), jnp.exp(x))[1], lambda x: jnp.cos(x),
                 [lambda x: (jnp.log(x), jnp.exp2(x))[1],
                  lambda x: (jnp.exp(x), jnp.log(x))[1]]),
      'shared': (lambda x: (lambda t: t * jnp.log(t))(jnp.exp(x)),
                 lambda x: (lambda t: t + t * x)(jnp.cos(x)),
                 [lambda x: jnp.exp(x) * jnp.log(x),
                  lambda x: (lambda t: jnp.log(t) * t)(jnp.exp(x))]),
      'exp_exp': (lambda x: jnp.exp(jnp.exp(x)), lambda x: jnp.log(x),
                  [lambda x: jnp.exp(jnp.log(x))]),
  }
  FILLER = lambda x: jnp.arctan(x) + 2.5


def trace(f, *args):
  return jax.make_jaxpr(f)(*args)


def burn(n):
  """Creates n variables and, if n is large, some traced expressions."""
  for _ in range(n):
    jex.core.Var(jax.core.ShapedArray((), np.dtype('float32')))
  if n > 10:
    for k in range(3):
      jax.make_jaxpr(lambda x: jnp.sin(x) * jnp.cos(x) + k)(1.)


def prims(jaxpr):
  return [e.primitive.name for e in jaxpr.eqns]


def well_formed(ch, jaxpr, what):
  defined = set()
  counts = {}
  def define(v):
    if v in defined:
      ch.fail(f'ill-formed:{what}', f'variable defined twice in {jaxpr}')
    defined.add(v)
  for v in list(jaxpr.constvars) + list(jaxpr.invars):
    define(v)
  for e in jaxpr.eqns:
    for v in e.invars:
      if isinstance(v, jex.core.Var) and v not in defined:
        ch.fail(f'ill-formed:{what}', f'variable used before definition in '
                f'{jaxpr}')
    for v in e.outvars:
      if type(v).__name__ == 'DropVar' or getattr(v, 'count', 0) == -1:
        continue
      define(v)
  for v in jaxpr.outvars:
    if isinstance(v, jex.core.Var) and v not in defined:
      ch.fail(f'ill-formed:{what}', f'output not defined in {jaxpr}')


def compare(ch, pattern, replacement, subject, args, want_fun, what):
  """subject: ClosedJaxpr; want_fun: function the result must compute."""
  before = str(subject.jaxpr)
  ch.count(1)
  r = jaxpr_editor.replace(pattern, replacement, subject.jaxpr)
  ch.check(str(subject.jaxpr) == before, 'mutated', 'subject modified')
  well_formed(ch, r, what)
  want_jaxpr = trace(want_fun, *args)
  got = jax.core.eval_jaxpr(r, subject.consts, *args)
  want = jax.core.eval_jaxpr(want_jaxpr.jaxpr, want_jaxpr.consts, *args)
  ch.check(len(got) == len(want), f'outputs:{what}')
  for g, w in zip(got, want):
    g, w = np.asarray(g), np.asarray(w)
    if g.shape != w.shape or not np.array_equal(g, w, equal_nan=True):
      if g.shape != w.shape or not np.allclose(g, w, 1e-12 if is_x64() else
                                               1e-5, equal_nan=True):
        ch.fail(f'meaning:{what}', f'got {g}, expected {w}\nsubject '
                f'{subject.jaxpr}\npattern {pattern}\nresult {r}')
  if prims(r) != prims(want_jaxpr.jaxpr):
    ch.fail(f'structure:{what}', f'{prims(r)} expected '
            f'{prims(want_jaxpr.jaxpr)}\nsubject {subject.jaxpr}')
  ch.outcome((what, prims(r), [np.asarray(g).tolist() for g in got]))
  return r


X = {'scalar': 1.7, 'vector': [0.3, 1.5, 2.25], 'matrix': [[0.5, 1.25],
                                                          [2., 3.]]}


def blocks(name):
  p, r, near = UNARY[name]
  # (function in the subject, function after replacement)
  return [(p, r), (FILLER, FILLER)] + [(n, n) for n in near]


def chains(ch):
  name = ch.pick(sorted(UNARY))
  n = ch.choose(3) + 1
  bs = blocks(name)
  idx = [ch.choose(len(bs)) for _ in range(min(n, 2))]
  ch.shard()
  idx += [ch.choose(len(bs)) for _ in range(n - 2)]
  shape = ch.pick(['scalar', 'vector'] if n < 3 else ['vector'])
  if name == 'exp_exp' and n == 3 and idx.count(0) > 1:
    return
  if name == 'jit_chain' and any(i >= 2 for i in idx) and 0 in idx:
    # near misses contain half of the pattern: other occurrences may arise
    return
  if name == 'exp_exp' and any(
      idx[i] == 0 and idx[i + 1] != 1 or idx[i + 1] == 0 and idx[i] != 1
      for i in range(n - 1)):
    return
  p, r, _ = UNARY[name]
  pattern, replacement = trace(p, 1.).jaxpr, trace(r, 1.).jaxpr
  x = jnp.asarray(X[shape])
  def subject_fun(x):
    for i in idx:
      x = bs[i][0](x)
    return x
  def want_fun(x):
    for i in idx:
      x = bs[i][1](x)
    return x
  compare(ch, pattern, replacement, trace(subject_fun, x), (x,), want_fun,
          name)


def dags(ch):
  name = ch.pick(sorted(UNARY))
  template = ch.pick(['pair', 'reuse', 'after', 'two_outputs', 'constants',
                      'input_output', 'three', 'same_twice', 'escape'])
  bs = blocks(name)
  i, j = ch.choose(len(bs)), ch.choose(len(bs))
  ch.shard()
  if template in ('same_twice', 'escape') and j:
    return
  if template == 'escape' and (i or name not in (
      'exp_add1', 'shared', 'exp_exp')):
    return
  if name == 'exp_exp' and template in ('reuse', 'after', 'input_output') and (
      i != 1 and j != 1):
    return
  if name == 'jit_chain' and (i >= 2 or j >= 2 or template in (
      'reuse', 'after')):
    return
  p, r, _ = UNARY[name]
  pattern, replacement = trace(p, 1.).jaxpr, trace(r, 1.).jaxpr
  x, y = jnp.asarray(X['vector']), jnp.asarray([0.7, 1.1, 4.])
  const = jnp.asarray([2., 3., 5.])
  def build(a, b):
    def pair(x, y):
      return jnp.arctan2(a(x), b(y))
    def reuse(x, y):
      t = a(x)
      return jnp.arctan2(b(t), t)
    def after(x, y):
      t = a(x)
      u = jnp.sin(t)
      v = b(u)
      return jnp.arctan2(jnp.arctan2(v, u), t)
    def two_outputs(x, y):
      t = a(x)
      return t, b(jnp.sin(t))
    def constants(x, y):
      return jnp.arctan2(a(jnp.arctan2(x, const)), b(const * 1.5 - y))
    def input_output(x, y):
      return x, b(a(y)), y
    def three(x, y):
      return jnp.arctan2(jnp.arctan2(a(x), a(y)), b(x))
    def same_twice(x, y):
      return jnp.arctan2(a(x), a(x))
    return locals()[template]
  if template == 'escape':
    # An inner result of the pattern is used elsewhere: left alone.
    def escape(x, y):
      t = jnp.exp(x)
      if name == 'exp_add1':
        return jnp.arctan2(t + 1., t)
      if name == 'exp_exp':
        return jnp.arctan2(jnp.exp(t), t)
      return jnp.arctan2(t * jnp.log(t), t)
    def escape_order(x, y):
      t = jnp.exp(x)
      if name == 'exp_add1':
        return t + 1., t
      if name == 'exp_exp':
        return jnp.exp(t), t
      s = t * jnp.log(t)
      return s, t
    for f in (escape, escape_order):
      compare(ch, pattern, replacement, trace(f, x, y), (x, y), f,
              f'{name}:escape')
    return
  compare(ch, pattern, replacement, trace(build(bs[i][0], bs[j][0]), x, y),
          (x, y), build(bs[i][1], bs[j][1]), f'{name}:{template}')


def history(ch):
  """Any number of variables and expressions created before, in any order."""
  name = ch.pick(['exp_add1', 'shared', 'jit', 'where', 'exp', 'unused'])
  order = ch.pick(list(itertools.permutations('prs')))
  burns = [ch.pick([0, 1, 2, 5, 1000]) for _ in range(2)]
  ch.shard()
  bs = blocks(name)
  x = jnp.asarray(X['vector'])
  p, r, _ = UNARY[name]
  made = {}
  for k, b in zip(order, burns + [3]):
    burn(b)
    if k == 'p':
      made[k] = trace(p, 1.).jaxpr
    elif k == 'r':
      made[k] = trace(r, 1.).jaxpr
    else:
      made[k] = trace(lambda x: p(FILLER(p(x))), x)
  want = lambda x: r(FILLER(r(x)))
  r1 = compare(ch, made['p'], made['r'], made['s'], (x,), want,
               f'{name}:history')
  # Replacing again in the result: nothing is left to replace, and the result
  # of the first call is not disturbed.
  s1 = str(r1)
  closed = jex.core.ClosedJaxpr(r1, made['s'].consts)
  compare(ch, made['p'], made['r'], closed, (x,), want, f'{name}:again')
  ch.check(str(r1) == s1, 'mutated')
  # The same pattern and replacement objects on another subject.
  other = trace(lambda x: jnp.arctan2(p(x), bs[2][0](x)), x)
  compare(ch, made['p'], made['r'], other, (x,),
          lambda x: jnp.arctan2(r(x), bs[2][0](x)), f'{name}:other')
  # And chained rules: the output of one rule is rewritten by the next.
  if name == 'exp':
    q, t = trace(jnp.log, 1.).jaxpr, trace(jnp.cos, 1.).jaxpr
    compare(ch, q, t, closed, (x,),
            lambda x: (lambda u: jnp.cos(u) * 2.)(
                FILLER(jnp.cos(x) * 2.)), 'chained')


if core.WORKER:
  two = lambda f: (lambda x, y: f(x, y))
  BINARY = {
      'exp_mul': (lambda x, y: jnp.exp(x) * y, lambda x, y: x + jnp.log(y),
                  [lambda x, y: y * jnp.exp(x), lambda x, y: jnp.exp(x) + y]),
      'sub': (lambda x, y: x - y, lambda x, y: jnp.exp(y) * x,
              [lambda x, y: x + y]),
      'pair': (lambda x, y: (jnp.exp(x), jnp.log(y)),
               lambda x, y: (x * 2., y * x),
               [lambda x, y: (jnp.exp(x), jnp.exp2(y))]),
      'pair_same': (lambda x, y: (lambda t: (t, t * y))(jnp.exp(x)),
                    lambda x, y: (lambda t: (t, t + y))(jnp.cos(x)),
                    [lambda x, y: (lambda t: (t, y * t))(jnp.exp(x))]),
      'dot': (lambda x, y: jax.lax.dot_general(x, y, (((1,), (0,)), ((), ()))),
              lambda x, y: x + y,
              [lambda x, y: jax.lax.dot_general(x, y,
                                                (((1,), (1,)), ((), ()))),
               lambda x, y: jax.lax.dot_general(x, y,
                                                (((0,), (0,)), ((), ())))]),
      'sum': (lambda x, y: jnp.sum(x, axis=0), lambda x, y: y[0] * 2.,
              [lambda x, y: jnp.sum(x, axis=1)]),
      'transpose': (lambda x, y: jnp.transpose(x, (1, 0)) - y,
                    lambda x, y: x * y,
                    [lambda x, y: jnp.transpose(x, (0, 1)) - y,
                     lambda x, y: y - jnp.transpose(x, (1, 0))]),
  }


def matrix(ch):
  """Patterns of two inputs and one or two outputs, on matrices."""
  name = ch.pick(sorted(BINARY))
  p, r, near = BINARY[name]
  bs = [(p, r)] + [(n, n) for n in near]
  i = ch.choose(len(bs))
  template = ch.pick(['xy', 'yx', 'xx', 'mixed', 'twice', 'feedback'])
  ch.shard()
  x = jnp.asarray(X['matrix'])
  y = jnp.asarray([[1.5, 0.25], [3., 0.75]])
  pattern, replacement = trace(p, x, y).jaxpr, trace(r, x, y).jaxpr
  # every variable of the pattern must occur in it
  def build(f):
    def xy(x, y):
      return f(x, y)
    def yx(x, y):
      return f(y, x)
    def xx(x, y):
      return f(x, x)
    def mixed(x, y):
      t = jnp.sin(x)
      return f(t, y), t
    def twice(x, y):
      return f(x, y), f(y, x), f(x, y)
    return locals()[template]
  if template == 'feedback':
    # An input of the pattern is produced by the occurrence itself.
    if name != 'exp_mul' or i:
      return
    def feedback(x, y):
      t = jnp.exp(x)
      return t * t
    compare(ch, pattern, replacement, trace(feedback, x, y), (x, y), feedback,
            'feedback')
    return
  if name in ('sum',) and template in ('xy', 'yx', 'xx', 'mixed', 'twice'):
    # y is not used by the pattern, so its binding is undetermined
    pattern = trace(lambda x: jnp.sum(x, axis=0), x).jaxpr
    replacement = trace(lambda x: x[0] * 2., x).jaxpr
    bs = [(lambda x, y: jnp.sum(x, axis=0), lambda x, y: x[0] * 2.),
          (near[0], near[0])]
  compare(ch, pattern, replacement, trace(build(bs[i][0]), x, y), (x, y),
          build(bs[i][1]), f'{name}:{template}')


if core.WORKER:

  def _marker_value(x, shape, dtype):
    return jnp.full(shape, jnp.cos(jnp.sum(x))).astype(dtype)

  MARKER = jex.core.Primitive('marker')
  MARKER.def_impl(_marker_value)
  MARKER.def_abstract_eval(
      lambda x, shape, dtype: jax.core.ShapedArray(shape, dtype))

  lax = jax.lax
  S3 = (2, 2, 2)
  DN = lambda c, b=((), ()): (lambda x: lax.dot_general(x, x, (c, b)))

  def nested(t, i, j):
    c = jnp.exp(t)
    values = (t, c, c + 1.)
    return values[i], values[j]

  def jit_returning(i, j):
    f = jax.jit(named(lambda t: nested(t, i, j), 'jr'))
    def g(x):
      u, v = f(x)
      return u - 2. * v
    return g

  def jit_given(i, j, k):
    body = ((lambda a, b: a - 2. * b), (lambda a, b: b - 2. * a))[i]
    f = jax.jit(named(lambda a, b: body(a, b) + (a, b)[k], 'jg'))
    def g(x):
      y = jnp.tan(x)
      return f(x, y) if j else f(y, x)
    return g

  # Groups of functions of one array that differ in one parameter each.
  CLOSE = (1., 1. + 2.**-20, 1. - 2.**-20, 1. + 2.**-40)
  PARAMETERS = {
      'dtype': [lambda x, t=t: lax.convert_element_type(x, t) for t in (
          jnp.float16, jnp.bfloat16, jnp.int32, jnp.int16, bool)],
      'integer_pow': [lambda x, y=y: lax.integer_pow(x, y)
                      for y in (2, 3, 4, -1, -2)],
      'reduce_sum': [lambda x, a=a: jnp.sum(x, a)
                     for a in (0, 1, 2, (0, 1), (1, 2), (0, 2))],
      'reduce_max': [lambda x, a=a: jnp.max(x, a)
                     for a in (0, 1, 2, (0, 1), (1, 2))],
      'transpose': [lambda x, a=a: lax.transpose(x, a)
                    for a in itertools.permutations(range(3))],
      'broadcast_in_dim': [
          lambda x, a=a: lax.broadcast_in_dim(x, *a)
          for a in (((2, 2, 2, 2), (0, 1, 2)), ((2, 2, 2, 2), (1, 2, 3)),
                    ((2, 2, 2, 2), (0, 2, 3)), ((3, 2, 2, 2), (1, 2, 3)))],
      'reshape': [lambda x, a=a: lax.reshape(x, a)
                  for a in ((8,), (4, 2), (2, 4), (1, 8), (2, 2, 2, 1))],
      'slice': [lambda x, a=a: lax.slice(x, *a) for a in (
          ((0, 0, 0), (1, 2, 2)), ((1, 0, 0), (2, 2, 2)),
          ((0, 0, 0), (2, 1, 2)), ((0, 0, 0), (2, 2, 2), (2, 1, 1)),
          ((0, 0, 0), (2, 2, 2), (1, 2, 1)))],
      'cumsum': [lambda x, a=a: lax.cumsum(x, *a)
                 for a in ((0, False), (1, False), (0, True), (2, True))],
      'dot_general': [DN(((0,), (0,))), DN(((0,), (1,))), DN(((1,), (0,))),
                      DN(((0, 1), (0, 1))), DN(((0, 1), (1, 0))),
                      DN(((1,), (1,)), ((0,), (0,))),
                      DN(((1,), (2,)), ((0,), (0,)))],
      'dot_precision': [
          lambda x, a=a: lax.dot_general(x, x, (((0,), (0,)), ((), ())),
                                         **a)
          for a in ({}, dict(precision=lax.Precision.HIGHEST),
                    dict(preferred_element_type=jnp.float32))],
      'rev': [lambda x, a=a: lax.rev(x, a) for a in ((0,), (1,), (0, 1))],
      'argmax': [lambda x, a=a: lax.argmax(x, *a) for a in (
          (0, jnp.int32), (1, jnp.int32), (0, jnp.int16))],
      'reduce_precision': [lambda x, a=a: lax.reduce_precision(x, *a)
                           for a in ((8, 3), (8, 7), (5, 3))],
      'sort': [lambda x, a=a: lax.sort(x, a) for a in (0, 1, 2)],
      'concatenate': [lambda x, a=a: lax.concatenate([x, x], a)
                      for a in (0, 1, 2)],
      'pad': [lambda x, a=a: lax.pad(x, np.asarray(a[0], x.dtype), a[1])
              for a in ((0., ((1, 0, 0), (0, 0, 0), (0, 0, 0))),
                        (1., ((1, 0, 0), (0, 0, 0), (0, 0, 0))),
                        (0., ((0, 1, 0), (0, 0, 0), (0, 0, 0))),
                        (0., ((0, 0, 0), (0, 0, 1), (0, 0, 0))))],
      'clamp': [lambda x, a=a: lax.clamp(a[0], x, a[1])
                for a in ((0., 1.), (0., 2.), (.5, 1.))],
      'iota': [lambda x, d=d: x + lax.broadcasted_iota(x.dtype, S3, d)
               for d in range(3)],
      'round': [lambda x, a=a: lax.round(x, a) for a in (
          lax.RoundingMethod.TO_NEAREST_EVEN,
          lax.RoundingMethod.AWAY_FROM_ZERO)],
      'expand_dims': [lambda x, a=a: lax.expand_dims(x, (a,))
                      for a in range(4)],
      'conv': [lambda x, a=a: lax.conv_general_dilated(x, x, *a) for a in (
          ((1,), 'VALID'), ((1,), 'SAME'), ((2,), 'SAME'),
          ((1,), ((1, 1),)), ((1,), ((2, 0),)))],
      'conv_dilation': [
          lambda x, a=a: lax.conv_general_dilated(
              x, x, (1,), ((2, 2),), **a) for a in (
                  {}, dict(lhs_dilation=(2,)), dict(rhs_dilation=(2,)))],
      'compare': [lambda x: x > 1., lambda x: x > 2., lambda x: x < 1.,
                  lambda x: x >= 1.],
      'literal': [lambda x, c=c: x * c for c in (
          0., 1., -1., 1.5, 1e-30, 1e30, 2.)],
      'literal_close': [lambda x, c=c: x * c for c in CLOSE],
      'jit_close': [jitted(lambda x, c=c: x * c) for c in CLOSE],
      'jit_zero': [jitted(lambda x, c=c: x + c)
                   for c in (0., 1e-9, -1e-9, 1e-30, -1e-12, 1e-6)],
      'jit_large': [jitted(lambda x, c=c: x - c)
                    for c in (2.**40, 2.**40 + 1, 2.**40 - 1)],
      'cond_close': [lambda x, c=c: lax.cond(
          x[0, 0, 0] > 0., lambda t: t * c, lambda t: t, x) for c in CLOSE],
      'scan_close': [lambda x, c=c: lax.scan(
          lambda t, u: (t + u * c, t), x[0], x)[0] for c in CLOSE],
      'array_shape_literal': [lambda x, c=c: x + c for c in (
          1., np.float32(1.5), 3.5, 2)],
      'leaky_relu': [lambda x, a=a: jax.nn.leaky_relu(x, a)
                     for a in (.01, .1, .2)],
      'elu': [lambda x, a=a: jax.nn.elu(x, a) for a in (1., .5)],
      'celu': [lambda x, a=a: jax.nn.celu(x, a) for a in (1., .5)],
      'gelu': [lambda x, a=a: jax.nn.gelu(x, a) for a in (True, False)],
      'activation': [jax.nn.relu, jax.nn.relu6, jax.nn.softplus, jax.nn.silu,
                     jax.nn.sigmoid, jax.nn.log_sigmoid, jax.nn.soft_sign,
                     jax.nn.hard_tanh],
      'softmax': [lambda x, a=a: jax.nn.softmax(x, a) for a in range(3)],
      'logsumexp': [lambda x, a=a: jax.nn.logsumexp(x, a) for a in range(3)],
      'clip': [lambda x, a=a: jnp.clip(x, *a) for a in (
          (0., 1.), (0., 2.), (1., 2.))],
      'loop': [lambda x, n=n, c=c: lax.fori_loop(
          0, n, lambda i, t: t * c, x) for n, c in (
              (2, 1.5), (3, 1.5), (2, 2.))],
      'scan': [lambda x, a=a: lax.scan(
          lambda c, t: (c + t * a[0], c), x[0], x, reverse=a[1])[0]
               for a in ((1.5, False), (1.5, True), (2., False))],
      'cond': [lambda x, a=a: lax.cond(x[0, 0, 0] > a[0], lambda t: t * a[1],
                                       lambda t: t - a[2], x)
               for a in ((0., 2., 1.), (1., 2., 1.), (0., 3., 1.),
                         (0., 2., 2.))],
      'remat': [jax.checkpoint(lambda x, a=a: jnp.exp(x) * a)
                for a in (2., 3.)],
      # Nested expressions that differ in what they return or are given.
      'jit_returns': [jit_returning(i, j) for i in range(3) for j in range(3)],
      'jit_swapped': [jit_given(i, j, k) for i in range(2) for j in range(2)
                      for k in range(2)],
      'cond_returns': [
          lambda x, i=i, j=j: (lambda r: r[0] - 2. * r[1])(lax.cond(
              x[0, 0, 0] > 1., lambda t: nested(t, i, j),
              lambda t: nested(t, 0, 1), x))
          for i in range(3) for j in range(3)],
      'scan_returns': [
          lambda x, i=i, j=j: (lambda r: r[0] - 2. * r[1][0])(lax.scan(
              lambda c, t: nested(c * t, i, j), x[0], x))
          for i in range(3) for j in range(3)],
      'remat_returns': [
          lambda x, i=i, j=j: (lambda r: r[0] - 2. * r[1])(
              jax.checkpoint(lambda t: nested(t, i, j))(x))
          for i in range(3) for j in range(3)],
      'jit_depth': [jitted(lambda x, a=a: jitted(lambda t: t * a)(x))
                    for a in (2., 3.)] + [
                        jitted(lambda x: jitted(jitted(lambda t: t * 2.))(x)),
                        lambda x: x * 2.],
  }


def parameters(ch):
  """A pattern is found exactly where every parameter is the same."""
  group = ch.pick(sorted(PARAMETERS))
  members = PARAMETERS[group]
  i = ch.choose(len(members))
  j = ch.choose(len(members))
  ch.shard()
  x = jnp.asarray((np.arange(8.).reshape(S3) * 5 % 8 + 1.) / 4.)
  y = jnp.asarray((np.arange(8.).reshape(S3) * 3 % 8 + 2.) / 8.)
  a, b = members[i], members[j]
  pattern = trace(a, x)
  if pattern.consts or not pattern.eqns:
    return
  if (i != j and not is_x64()
      and str(pattern.jaxpr) == str(trace(b, x).jaxpr)):
    return   # the same in single precision
  out = pattern.out_avals[0]
  marker = lambda t: MARKER.bind(t, shape=out.shape, dtype=out.dtype)
  replacement = trace(marker, x)
  wrap = lambda f: (lambda x, y: (f(jnp.arctan(x)), jnp.sin(x), f(y)))
  subject = lambda x, y: wrap(b)(x, y) + wrap(a)(y, x)
  c = marker if i == j else b
  want = lambda x, y: wrap(c)(x, y) + wrap(marker)(y, x)
  compare(ch, pattern.jaxpr, replacement.jaxpr, trace(subject, x, y), (x, y),
          want, f'{group}:{i}:{j}')


def precision(ch):
  """Nested expressions over another element type are other expressions."""
  kinds = ['float16', 'bfloat16', 'float32', 'float64', 'int8', 'int16',
           'int32', 'int64', 'uint8', 'uint32', 'bool']
  if not is_x64():
    kinds = [k for k in kinds if '64' not in k]
  funs = {
      'jit': jitted(lambda t: jnp.maximum(t, t[::-1])),
      'jit2': jitted(lambda t: jitted(lambda v: v[::-1])(t)),
      'jit sum': jitted(lambda t: (t[None] + jnp.stack([t[::-1]]))[0]),
      'cond': lambda t: lax.cond(True, lambda v: v[::-1], lambda v: v, t),
      'scan': lambda t: lax.scan(
          lambda c, v: (c, jnp.maximum(c, v)), t[0], t)[1],
      'remat': jax.checkpoint(lambda t: jnp.maximum(t[::-1], t)),
      'while': lambda t: lax.while_loop(
          lambda v: v[0] < v[1], lambda v: v[::-1], t),
  }
  name = ch.pick(list(funs))
  a, b = ch.pick(kinds), ch.pick(kinds)
  ch.shard()
  order = ch.choose(2)
  f = funs[name]
  base = np.array([1, 0, 3, 2]) if 'bool' not in (a, b) else np.array(
      [1, 0, 1, 1])
  x, y = jnp.asarray(base, a), jnp.asarray(base[::-1], b)
  pattern = trace(f, x)
  if pattern.consts:
    return
  marker = lambda t: MARKER.bind(t, shape=t.shape, dtype=t.dtype)
  replacement = trace(marker, x)
  g = marker if a == b else f
  if order:
    subject, want = lambda x, y: (f(y), f(x)), lambda x, y: (g(y), marker(x))
  else:
    subject, want = lambda x, y: (f(x), f(y)), lambda x, y: (marker(x), g(y))
  compare(ch, pattern.jaxpr, replacement.jaxpr, trace(subject, x, y), (x, y),
          want, f'precision:{name}:{a}:{b}')


SPACES = dict(precision=precision, parameters=parameters, chains=chains, dags=dags, history=history, matrix=matrix)
