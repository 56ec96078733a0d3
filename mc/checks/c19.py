"""C19: concurrent and re-entrant bound computations do not interfere."""

import os
import sys
import threading

from mc import core

if core.WORKER:
  import jax
  import jax.numpy as jnp
  import numpy as np
  import autobound
  from autobound import (elementwise_functions, enclosure_arithmetic,
                         graph_editor, interval_arithmetic, polynomials,
                         primitive_enclosures)
  from autobound.jax import jax_bound, jaxpr_editor
  LIBRARY = os.path.dirname(os.path.abspath(autobound.__file__)) + os.sep

BOUNDS = {
    'quick': 'pairs: 13 pairs of computations (8 of bounds, 5 of interval, '
             'enclosure, polynomial and graph operations on shared objects), '
             'preempted once at every executed line of library code (4 of the '
             'pairs: at every function entry), about 12000 schedules; preempted '
             'twice: 3 pairs, first thread at every function entry, second at '
             'every line or function entry; re-entry: 7 outer '
             'programs x 4 degrees and modes x 8 inner computations',
    'thorough': 'every pair preempted at every line, in both orders, and preempted twice '
                'at every pair of lines for 3 pairs, at every pair of function '
                'entries for the others',
}
ASSUMPTIONS = [
    'threads are switched between lines of library code (not between the '
    'bytecodes of a line, nor inside JAX or numpy)',
]


def tasks(tier):
  ts = []
  for name in PAIR_NAMES:
    n = 2 if name[:2] == 'np' else 4 if tier == 'quick' and name in COARSE else 8
    ts += [dict(space='pairs', pair=name, shard=[i, n], tier=tier,
                cost=4 - (n < 8)) for i in range(n)]
  for name in (TWICE if tier == 'quick' else PAIR_NAMES):
    n = 4 if tier == 'quick' else 32
    ts += [dict(space='twice', pair=name, shard=[i, n], tier=tier)
           for i in range(n)]
  ts += core.shards('reentrant', 14, tier=tier)
  return ts


def run_task(task, stats):
  global TIER, PAIR
  TIER, PAIR = task['tier'], task.get('pair')
  core.simple_run_task(SPACES, task, stats)


def deep():
  return TIER == 'thorough'


# --- the controlled scheduler -------------------------------------------------


TOOL = 3   # sys.monitoring tool identifier
BY_IDENT = {}


def library_code():
  """All code objects of the library."""
  import gc
  import types
  found = set()
  def add(code):
    if code not in found and code.co_filename.startswith(LIBRARY):
      found.add(code)
      for c in code.co_consts:
        if isinstance(c, types.CodeType):
          add(c)
  for obj in gc.get_objects():
    if isinstance(obj, types.FunctionType):
      add(obj.__code__)
  return found


def monitor():
  """Calls on_line / on_call for every line / call of library code."""
  if MONITORING:
    return
  MONITORING.append(True)
  m = sys.monitoring
  m.use_tool_id(TOOL, 'mc')
  def on_line(code, line):
    t = BY_IDENT.get(threading.get_ident())
    if t is not None and not t.calls:
      t.step()
  def on_call(code, offset):
    t = BY_IDENT.get(threading.get_ident())
    if t is not None and t.calls:
      t.step()
  m.register_callback(TOOL, m.events.LINE, on_line)
  m.register_callback(TOOL, m.events.PY_START, on_call)
  for code in library_code():
    m.set_local_events(TOOL, code, m.events.LINE | m.events.PY_START)


MONITORING = []


class Thread:
  """A computation that can be stopped after any number of steps.

  A step is the execution of one line of library code (or, with calls=True,
  the execution up to the next call of a library function).
  """

  def __init__(self, body, calls=False):
    monitor()
    self.body = body
    self.calls = calls
    self.result = None
    self.error = None
    self.finished = False
    self.go = threading.Semaphore(0)
    self.stopped = threading.Semaphore(0)
    self.steps = None       # steps left before stopping; None: never
    self.executed = 0
    self.thread = threading.Thread(target=self._main, daemon=True)
    self.thread.start()

  def _main(self):
    self.go.acquire()
    ident = threading.get_ident()
    BY_IDENT[ident] = self
    try:
      self.result = self.body()
    except BaseException as e:  # pylint: disable=broad-except
      self.error = e
    finally:
      del BY_IDENT[ident]
      self.finished = True
      self.stopped.release()

  def step(self):
    self.executed += 1
    if self.steps is not None:
      self.steps -= 1
      if self.steps < 0:
        self.stopped.release()
        self.go.acquire()
        if self.steps is None:
          BY_IDENT[threading.get_ident()] = Idle

  def run(self, steps=None, timeout=30.):
    """Runs until stopped; False if blocked by something another one holds."""
    if self.finished:
      return True
    self.steps = steps
    self.go.release()
    return self.stopped.acquire(timeout=timeout)


class Idle:
  """Stands for a thread that is not going to be stopped any more."""
  calls = False
  step = staticmethod(lambda: None)


def schedule(bodies, segments, calls=(False, False)):
  """Runs threads according to segments [(thread, steps), ...]."""
  threads = [Thread(b, c) for b, c in zip(bodies, calls)]
  blocked = []
  for t, steps in list(segments) + [(t, None) for t in range(len(bodies))]:
    if threads[t] in blocked:
      continue
    if not threads[t].run(steps, 1.):
      # It waits for a lock of a stopped thread, which a real scheduler would
      # run instead.
      blocked.append(threads[t])
  for t in blocked:
    if not t.stopped.acquire(timeout=30.):
      return threads, True
  return threads, False


def snapshot(obj):
  if isinstance(obj, (tuple, list)):
    return tuple(snapshot(o) for o in obj)
  if isinstance(obj, (str, type(None))):
    return obj
  return np.array(obj)


def equal(a, b):
  if isinstance(a, tuple) or isinstance(b, tuple):
    return (isinstance(a, tuple) and isinstance(b, tuple)
            and len(a) == len(b) and all(map(equal, a, b)))
  if isinstance(a, str) or a is None or isinstance(b, str) or b is None:
    return isinstance(a, type(b)) and a == b
  if a.shape != b.shape or a.dtype != b.dtype:
    return False
  with np.errstate(invalid='ignore'):
    return bool(np.all((np.abs(a - b) <= 1e-12 * (1 + np.abs(b))) | (a == b)
                       | (np.isnan(a) & np.isnan(b))))


# --- computations -------------------------------------------------------------

SCALAR = (.5, (-.5, 1.5))
VECTOR = ((.5, -1.), ((-.5, -1.5), (1.5, .25)))


def bounds(make, where):
  x0, (lo, hi) = where
  conv = np.asarray
  return lambda: make(conv(x0), (conv(lo), conv(hi))).coefficients


def new_primitive(name, fun):
  p = jax.extend.core.Primitive(name)
  p.def_impl(fun)
  p.def_abstract_eval(lambda x: jax.core.ShapedArray(x.shape, x.dtype))
  return p


def register_and_bound():
  """Registers a new primitive and bounds it."""
  p = new_primitive('concurrent', jnp.exp)
  jax_bound.register_elementwise_primitive(
      p, primitive_enclosures.exp_enclosure)
  NEW.append(p)
  return bounds(jax_bound.taylor_bounds(lambda x: p.bind(x), 1), SCALAR)()


NEW = []


def forget():
  """Undoes the registrations, so that the tables don't keep growing."""
  for table in list(vars(jax_bound).values()):
    if isinstance(table, dict):
      for p in NEW:
        table.pop(p, None)
  NEW.clear()


def np_enclosures(kind):
  if kind:
    return ((np.array([1., -2.]), np.array([[1., 0.], [.5, -1.]]),
             (-np.ones((2, 2, 2)), 2 * np.ones((2, 2, 2)))),
            (np.array([.5, 3.]), (-np.ones((2, 2)), np.ones((2, 2)))))
  return ((np.float64(1.), np.float64(-2.), (np.float64(-1.), np.float64(.5))),
          (np.float64(.5), (np.float64(-1.), np.float64(2.))))


def pair(name):
  """(first, second): computations that share fresh objects."""
  tb = jax_bound.taylor_bounds
  if name == 'jax shared':
    # one bound function, used for scalars and vectors
    make = tb(lambda x: jnp.exp(x) * x, 1)
    return bounds(make, SCALAR), bounds(make, VECTOR)
  if name == 'jax shared prop':
    make = tb(lambda x: x / (3. + x), 2, True)
    return (bounds(make, SCALAR), bounds(make, (1., (.75, 2.))))
  if name == 'jax degrees':
    return (bounds(tb(lambda x: x * x + x, 2), SCALAR),
            bounds(tb(lambda x: jnp.exp(x) - x, 3, True), (1., (.5, 1.5))))
  if name == 'jax rewrite':
    return (bounds(tb(lambda x: jax.nn.softplus(x), 1), SCALAR),
            bounds(tb(lambda x: x * jax.nn.sigmoid(2. * x), 2), VECTOR))
  if name == 'jax rewrite2':
    return (bounds(tb(lambda x: jax.nn.swish(x), 0), SCALAR),
            bounds(tb(lambda x: jax.nn.swish(x + 1.), 2), (1., (.5, 1.5))))
  if name == 'jax register':
    return bounds(tb(lambda x: -x, 1), SCALAR), register_and_bound
  if name == 'jax vector':
    m = np.array([[1., 2.], [-.5, .25]])
    return (bounds(tb(lambda x: jnp.asarray(m) @ x, 1), VECTOR),
            bounds(tb(lambda x: jnp.sum(x * x), 2), ((1., 0., 2.), (
                (0., -1., 1.), (2., 1., 2.5)))))
  if name == 'jax jit':
    g = jax.jit(lambda y: y * y)
    return (bounds(tb(lambda x: g(x), 1), SCALAR),
            bounds(tb(lambda x: g(g(x)), 2, True), SCALAR))
  # Operations on objects shared between threads.
  region = (np.array([-.5, -1.]), np.array([1., .25]))
  a, b = np_enclosures(1)
  if name == 'np multiply':
    arithmetic = enclosure_arithmetic.TaylorEnclosureArithmetic(2, region, np)
    return (lambda: arithmetic.multiply(a, b),
            lambda: (arithmetic.power(b, 2), arithmetic.add(a, b)))
  if name == 'np elementwise':
    arithmetic = enclosure_arithmetic.TaylorEnclosureArithmetic(
        1, (np.float64(-.5), np.float64(1.)), np)
    c, d = np_enclosures(0)
    f = arithmetic.get_elementwise_fun(primitive_enclosures.exp_enclosure)
    return lambda: f(c[:2]), lambda: (f(d), arithmetic.multiply(c, d))
  if name == 'np intervals':
    ia = interval_arithmetic.IntervalArithmetic(np)
    i = (np.array([-1., 0., 2.]), np.array([.5, 1., 3.]))
    j = (np.array([-2., .5]), np.array([1., 2.]))
    return (lambda: (ia.multiply(i, i), ia.outer_power(j, 2), ia.power(i, 2),
                     ia.subtract(i, i)),
            lambda: (ia.outer_product(i, j), ia.tensordot(j, j, 1),
                     ia.power(j, 3), ia.negative(i), ia.add(j, j)))
  if name == 'np functions':
    i = (np.array([-1., 0., 2.]), np.array([.5, 1., 3.]))
    f = elementwise_functions
    return (lambda: f.get_range(f.SWISH.derivative_id(2), i, np),
            lambda: (f.get_range(f.SIGMOID.derivative_id(1), i, np),
                     polynomials.integer_power((1., 2., -1.), 3),
                     polynomials.eval_taylor_enclosure(
                         np_enclosures(0)[0], np.float64(.5), np)))
  if name == 'np graphs':
    op = graph_editor.Operation
    g1 = graph_editor.ComputationGraph(
        ['x'], ['z'], [op('f', ['x'], ['y']), op('f', ['y'], ['z'])])
    g2 = graph_editor.ComputationGraph(
        ['x'], ['z'], [op('f', ['x'], ['y']), op('g', ['y', 'x'], ['z'])])
    run = lambda p, r, g: repr(graph_editor.replace(
        p, r, g, lambda u, v: True).operations)
    return (lambda: run([op('f', ['a'], ['b'])],
                        [op('g', ['a', 'a'], ['b'])], g1),
            lambda: run([op('f', ['a'], ['b']), op('g', ['b', 'a'], ['c'])],
                        [op('h', ['a'], ['c'])], g2))
  raise ValueError(name)


PAIR_NAMES = ('jax shared', 'jax shared prop', 'jax degrees', 'jax rewrite',
              'jax rewrite2', 'jax register', 'jax vector', 'jax jit',
              'np multiply', 'np elementwise', 'np intervals', 'np functions',
              'np graphs')
# Pairs whose schedules only switch at function entries in the quick tier.
COARSE = ('jax shared prop', 'jax degrees', 'jax rewrite', 'jax jit')
TWICE = ('np multiply', 'np intervals', 'np graphs')


def solo(ch, name):
  """What each computation returns alone, and the number of its steps."""
  key = ('solo', name)
  if key not in ch.cache:
    results, steps = [], []
    for t in (0, 1):
      pair(name)[t]()    # warm up
      results.append(snapshot(pair(name)[t]()))
      forget()
      counts = []
      for calls in (False, True):
        thread = Thread(pair(name)[t], calls)
        thread.run()
        if thread.error is not None:
          raise thread.error
        forget()
        counts.append(thread.executed)
      steps.append(counts)
    ch.cache[key] = results, steps
  return ch.cache[key]


def examine(ch, name, results, threads, deadlock, segments):
  what = f'{name}, schedule {segments}'
  ch.check(not deadlock, f'deadlock:{name}', what)
  forget()
  for t, (thread, want) in enumerate(zip(threads, results)):
    if thread.error is not None:
      ch.fail(f'exception:{name}:{t}', f'{what}: computation {t} raised '
              f'{type(thread.error).__name__}: {thread.error}')
    got = snapshot(thread.result)
    ch.check(equal(got, want), f'result:{name}:{t}',
             lambda: f'{what}: computation {t} returned {got}, alone {want}')
  ch.outcome((name, segments))


def pairs(ch):
  """One thread is stopped at a step; the other one runs completely."""
  results, steps = solo(ch, PAIR)
  first = ch.choose(2) if deep() else 0
  calls = not deep() and PAIR in COARSE
  k = ch.choose(steps[first][1 if calls else 0] + 1)
  ch.shard()
  segments = [(first, k), (1 - first, None)]
  threads, deadlock = schedule(pair(PAIR), segments, (calls, calls))
  ch.count(1)
  examine(ch, PAIR, results, threads, deadlock, segments)


def twice(ch):
  """The second thread is stopped, too, and the first one completes."""
  results, steps = solo(ch, PAIR)
  fine = deep() and PAIR in TWICE
  fine2 = fine or (PAIR in TWICE and PAIR != 'np multiply')
  a = ch.choose(steps[0][0 if fine else 1] + 1)
  ch.shard()
  b = ch.choose(steps[1][0 if fine2 else 1] + 1)
  segments = [(0, a), (1, b), (0, None)]
  threads, deadlock = schedule(pair(PAIR), segments,
                               (not fine, not fine2))
  ch.count(1)
  examine(ch, PAIR, results, threads, deadlock, segments)


# --- re-entry -------------------------------------------------------------------

OUTER = {
    'R(x)': lambda R, x: R(x),
    'R(x)*x': lambda R, x: R(x) * x,
    'R(R(x))': lambda R, x: R(.5 * R(x)),
    'softplus(R(x))': lambda R, x: jax.nn.softplus(R(x)) - x,
    'R(softplus(x))': lambda R, x: R(jax.nn.softplus(x)),
    'R(x)/(2+x^2)': lambda R, x: R(x) / (2. + x * x),
    'exp(R(x))+R(-x)': lambda R, x: jnp.exp(.25 * R(x)) + R(-x),
}
INNER_NAMES = ('same', 'same vector', 'other', 'other prop', 'fails',
               'registers', 'numpy', 'jit')


def inner(name, make):
  """A computation made from within an enclosure function."""
  tb = jax_bound.taylor_bounds
  if name == 'same':
    return bounds(make, (.25, (0., 1.)))
  if name == 'same vector':
    return bounds(make, VECTOR)
  if name == 'other':
    return bounds(tb(lambda x: jax.nn.swish(x) * x, 1), SCALAR)
  if name == 'other prop':
    return bounds(tb(lambda x: jax.nn.sigmoid(x) / (2. + x), 3, True), VECTOR)
  if name == 'fails':
    def fails():
      try:
        tb(lambda x: jnp.exp(x) + jnp.sin(x), 2)(.5, (0., 1.))
      except NotImplementedError:
        return 'refused'
    return fails
  if name == 'registers':
    return register_and_bound
  if name == 'numpy':
    def run():
      arithmetic = enclosure_arithmetic.TaylorEnclosureArithmetic(
          3, (np.float64(-1.), np.float64(2.)), np)
      a, b = np_enclosures(0)
      return arithmetic.multiply(arithmetic.power(a, 2), b)
    return run
  if name == 'jit':
    return lambda: jax.jit(lambda a: tb(lambda x: jnp.log(2. + x * x), 2)(
        a, (a - 1., a + 1.)).coefficients)(jnp.asarray(.5))
  raise ValueError(name)


def reentrant(ch):
  name = ch.pick(list(OUTER))
  ch.shard()
  degree, prop = ch.pick([(0, False), (1, False), (2, True), (3, False)])
  what = ch.pick(INNER_NAMES)
  where = ch.pick((SCALAR, VECTOR))
  hook = [None]
  log = []
  depth = [0]
  def enclosure(x0, region, d, np_like):
    if hook[0] is not None and not depth[0]:
      depth[0] += 1
      log.append(snapshot(hook[0]()))
      depth[0] -= 1
    return primitive_enclosures.exp_enclosure(x0, region, d, np_like)
  p = new_primitive('reentrant', jnp.exp)
  NEW.append(p)
  jax_bound.register_elementwise_primitive(p, enclosure)
  f = lambda x: OUTER[name](lambda u: p.bind(jnp.asarray(u)), x)
  make = jax_bound.taylor_bounds(f, degree, prop)
  run = bounds(make, where)
  want = snapshot(run())
  nested = inner(what, make)
  nested_want = snapshot(nested())
  hook[0] = nested
  got = snapshot(run())
  hook[0] = None
  again = snapshot(run())
  ch.count(4)
  label = f'{name}:{what}:{degree}'
  ch.check(log, f'not-called:{label}', 'the enclosure function was not called')
  for g in log:
    ch.check(equal(g, nested_want), f'inner:{label}',
             lambda: f'{label}: inner computation returned {g}, alone '
             f'{nested_want}')
  ch.check(equal(got, want), f'outer:{label}',
           lambda: f'{label}: {got} with re-entry, {want} without')
  ch.check(equal(again, want), f'after:{label}',
           lambda: f'{label}: {again} afterwards, {want} before')
  # The function being bounded may itself use bounds while it is traced.
  if what in ('other', 'numpy', 'other prop'):
    def g(x):
      c = inner(what, make)()
      c0 = c[0] if not isinstance(c[0], tuple) else c[0][0]
      return f(x) + 0. * jnp.sum(c0)
    within = snapshot(bounds(jax_bound.taylor_bounds(g, degree, prop),
                             where)())
    ch.count(1)
    ch.check(equal(within, want), f'within:{label}',
             lambda: f'{label}: {within} when f computes bounds, {want} '
             'otherwise')
  forget()
  ch.outcome((label, where == SCALAR))


SPACES = {'pairs': pairs, 'twice': twice, 'reentrant': reentrant}
