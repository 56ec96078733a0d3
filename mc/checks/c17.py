"""C17: registered elementwise primitives are bounded with what was registered."""

import itertools

from mc import core

if core.WORKER:
  import numpy as np
  import jax
  import jax.numpy as jnp
  from autobound import primitive_enclosures
  from autobound.jax import jax_bound
  from mc.lib import *  # pylint: disable=wildcard-import

BOUNDS = {
    'quick': 'all 27 programs (one to three uses of two user-defined '
             'primitives) x 6 registered enclosure functions x degree 0..3 '
             'x propagation x scalar and vector x; '
             '18 primitives of JAX, with and without a rule of their own, '
             'registered twice: 6 programs x degree 0..3; '
             'all histories of up to 3 of 9 registrations (of 3 new '
             'primitives and the built-in exp), bounds of 9 programs '
             'after every step, with bound functions created before and after',
    'thorough': 'as quick with degree 0..4, 3 regions, both orders of '
                'registration and creation; all histories of up to 4 '
                'registrations, both propagation modes after every step',
}
ASSUMPTIONS = [
    'registered enclosure functions are themselves correct (checked by C08 '
    'for the built-in ones; the harness\'s own ones are textbook Lagrange '
    'bounds)',
    'softplus and swish are recognised as a whole: registering primitives they '
    'are made of does not change their bounds',
]


def tasks(tier):
  ts = core.shards('programs', 40, tier=tier)
  ts += core.shards('programs', 8, mode='x32', tier=tier)
  ts += core.shards('equivalence', 16, tier=tier)
  ts += core.shards('builtins', 9, mode='x64fresh', tier=tier)
  ts += core.shards('histories', 48 if tier == 'quick' else 128, tier=tier,
                    cost=2)
  return ts


def run_task(task, stats):
  global TIER
  TIER = task.get('tier', 'quick')
  core.simple_run_task(SPACES, task, stats)


def deep():
  return TIER == 'thorough'


# --- user-defined functions and enclosure functions -------------------------


def factorial(k):
  return float(np.prod(np.arange(1, k + 1))) if k else 1.


def impl(name):
  return {'exp': jnp.exp, 'sin': jnp.sin, 'quad': lambda u: u * u + u}[name]


def lagrange(name, widen=0., style='jnp', log=None):
  """An enclosure function: Lagrange remainder over the trust region."""
  def get_enclosure(x0, trust_region, degree, np_like):
    if log is not None:
      log.append((name, widen, np.asarray(x0), tuple(
          np.asarray(e) for e in trust_region), degree, np_like))
    a, b = trust_region
    if name == 'quad':
      return quad(x0, a, b, degree, np_like, widen)
    def derivative(k, u):
      if name == 'exp':
        return np_like.exp(u)
      return (np_like.sin, np_like.cos, lambda v: -np_like.sin(v),
              lambda v: -np_like.cos(v))[k % 4](u)
    coeffs = [derivative(k, x0) / factorial(k) for k in range(degree)]
    if name == 'exp':
      lo, hi = np_like.exp(a), np_like.exp(b)
    else:
      lo, hi = -np_like.ones_like(a), np_like.ones_like(a)
    lo, hi = (lo - widen) / factorial(degree), (hi + widen) / factorial(degree)
    if style == 'intervals' and coeffs:
      # A legitimate enclosure may use an interval for any coefficient but
      # the first.
      coeffs[1:] = [(c - .125, c + .125) for c in coeffs[1:]]
    return tuple(coeffs) + ((lo, hi),)
  return get_enclosure


def quad(x0, a, b, degree, np_like, widen):
  """u**2 + u; exact (and shorter than the maximum degree) from degree 2."""
  if degree == 0:
    straddles = (a <= 0) & (b >= 0)
    lo = np_like.where(straddles, 0., np_like.minimum(a * a, b * b))
    hi = np_like.maximum(a * a, b * b)
    return ((lo + a - widen, hi + b + widen),)
  if degree == 1:
    return (x0 * x0 + x0, (a + x0 + 1. - widen, b + x0 + 1. + widen))
  if widen:
    one = np_like.ones_like(x0)
    return (x0 * x0 + x0, 2. * x0 + 1., (one - widen, one + widen))
  return (x0 * x0 + x0, 2. * x0 + 1., np_like.ones_like(x0))


# id: (function, enclosure arguments)
KINDS = {
    'exp': ('exp', {}), 'exp+': ('exp', {'widen': .25}),
    'sin': ('sin', {}), 'sin+': ('sin', {'widen': .5}),
    'quad': ('quad', {}), 'exp[]': ('exp', {'style': 'intervals'}),
}


def new_primitive(name, fun):
  p = jax.extend.core.Primitive(name)
  p.def_impl(lambda x, **unused_params: fun(x))
  p.def_abstract_eval(
      lambda x, **unused_params: jax.core.ShapedArray(x.shape, x.dtype))
  return p


# --- programs ----------------------------------------------------------------

W = ((.5, -1., .25), (1.5, .25, -.5))
# name: (kind of x, function of P, Q and x)
PROGRAMS = {
    'P(x)': ('sv', lambda P, Q, x: P(x)),
    'P(2x+1)': ('sv', lambda P, Q, x: P(2. * x + 1.)),
    'P(1-x/2)': ('sv', lambda P, Q, x: P(1. - x / 2.)),
    'P(P(x))': ('sv', lambda P, Q, x: P(.5 * P(x))),
    'P(P(P(x)))': ('s', lambda P, Q, x: P(.25 * P(.5 * P(x)))),
    'P(x)*exp(x)': ('sv', lambda P, Q, x: P(x) * jnp.exp(x)),
    'exp(x)*P(-x)': ('s', lambda P, Q, x: jnp.exp(x) * P(-x)),
    'P(x)-P(2x)': ('sv', lambda P, Q, x: P(x) - P(2. * x)),
    'P(x)*P(x)': ('s', lambda P, Q, x: P(x) * P(x)),
    'P(x)**2': ('sv', lambda P, Q, x: P(x)**2),
    'P(x**2)': ('sv', lambda P, Q, x: P(x**2 - x)),
    'sum(P(Wx))': ('v', lambda P, Q, x: jnp.sum(P(jnp.array(W) @ x))),
    'P(Wx)': ('v', lambda P, Q, x: P(jnp.array(W) @ x)),
    'sum(P(x))': ('v', lambda P, Q, x: jnp.sum(P(x))),
    'P(sum(x))': ('v', lambda P, Q, x: P(jnp.sum(x))),
    'W@P(x)': ('v', lambda P, Q, x: jnp.array(W) @ P(x)),
    'P(v*x)': ('s', lambda P, Q, x: P(jnp.array([.5, -1., 2.]) * x)),
    'P(P(v*x)+x)': ('s', lambda P, Q, x: P(
        .25 * P(jnp.array([.5, -1.]) * x) + x)),
    'softplus(P(x))': ('sv', lambda P, Q, x: jax.nn.softplus(P(x))),
    'P(softplus(x))': ('s', lambda P, Q, x: P(jax.nn.softplus(x) - 1.)),
    'P(swish(x))': ('s', lambda P, Q, x: P(jax.nn.swish(x))),
    'jit(P)': ('sv', lambda P, Q, x: jax.jit(lambda y: P(y + .5))(x)),
    'jit2(P)': ('s', lambda P, Q, x: (lambda g: g(g(x)))(
        jax.jit(lambda y: .5 * P(y)))),
    'P(x)+Q(x)': ('sv', lambda P, Q, x: P(x) + Q(x)),
    'Q(P(x))': ('sv', lambda P, Q, x: Q(.5 * P(x))),
    'P(Q(P(x)))': ('s', lambda P, Q, x: P(.5 * Q(.5 * P(x)))),
    'P(1.)*x': ('sv', lambda P, Q, x: P(jnp.ones(())) * x + P(x)),
}
REGIONS = {
    's': [(.5, -.25, 1.25), (-.75, -.75, .5), (1., .25, 1.)],
    'v': [([.5, -.25, 1.], [-.5, -1., .25], [1.25, .75, 1.5]),
          ([0., .5, -1.], [0., 0., -1.5], [.75, .5, -.25]),
          ([.25, .25, .25], [-.5, -.5, -.5], [1., 1., 1.])],
}


def bind(p, **params):
  # Python scalars are not valid arguments of a primitive.
  return lambda u: p.bind(jnp.asarray(u), **params)


def points(region):
  x0, lo, hi = (np.asarray(t, float) for t in region)
  xs = [x0]
  xs += [lo + (hi - lo) * t for t in (0., .125, .3, .5, .8, 1.)]
  if x0.ndim:
    xs += [np.where(np.array(m), lo, hi) for m in np.ndindex(*(2,) * x0.size)]
  return xs


def bounds_of(f, degree, prop, region):
  x0, lo, hi = region
  return jax_bound.taylor_bounds(f, degree, prop)(
      jnp.asarray(x0), (jnp.asarray(lo), jnp.asarray(hi)))


def arrays(bound):
  return tuple(tuple(np.asarray(e) for e in c) if isinstance(c, tuple)
               else np.asarray(c) for c in bound.coefficients)


def evaluate(prog, pname, qname, x):
  """(value, arguments of P, arguments of Q) using only JAX."""
  seen = {'P': [], 'Q': []}
  def rec(which, fun):
    def g(u):
      u = jnp.asarray(u)
      if not isinstance(u, jax.core.Tracer):
        seen[which].append(np.asarray(u))
      return fun(u)
    return g
  with jax.disable_jit():
    v = prog(rec('P', impl(pname)), rec('Q', impl(qname)), jnp.asarray(x))
  return np.asarray(v), seen['P'], seen['Q']


def sound(ch, name, coeffs, prog, pname, qname, region):
  x0 = np.asarray(region[0], float)
  rtol = 1e-9 if is_x64() else 3e-4
  for x in points(region):
    v, _, _ = evaluate(prog, pname, qname, x)
    l, h = eval_enclosure(coeffs, x - x0, x0.ndim)
    tol = rtol * (1 + magnitude(coeffs, x - x0, x0.ndim))
    good = (l <= v + tol) & (v <= h + tol)
    ch.count(evaluations=int(np.size(good)))
    ch.check(np.all(good), f'sound:{name}',
             lambda: f'{name}: f({x}) = {v} not in [{l}, {h}]')


def check_calls(ch, name, log, prog, pname, qname, region, degree, kind_of):
  """Every use is enclosed by the registered function, called properly."""
  tol = 1e-9 if is_x64() else 2e-4
  xs = points(region)
  evals = [evaluate(prog, pname, qname, x) for x in xs]
  for which, index in (('P', 1), ('Q', 2)):
    uses = [[e[index][k] for e in evals] for k in range(len(evals[0][index]))]
    mine = [c for c in log if c[0] == kind_of[which]]
    matched = [False] * len(mine)
    for k, values in enumerate(uses):
      if all(np.array_equal(v, values[0]) for v in values):
        continue  # does not depend on x
      found = False
      for m, (_, _, c_x0, (a, b), d, np_like) in enumerate(mine):
        if c_x0.shape != values[0].shape:
          continue
        if d != degree and d != 0:
          continue
        if degree == 0:
          # the reference value is not available
          ok_x0 = True
        elif d == 0:
          ok_x0 = True
        else:
          ok_x0 = np.allclose(c_x0, values[0], rtol=tol, atol=tol)
        inside = all(np.all(a <= v + tol) and np.all(v <= b + tol)
                     for v in values)
        if ok_x0 and inside:
          matched[m] = True
          found = found or d == degree
      ch.check(found, f'call:{name}',
               lambda: f'{name}: {which} is applied to {values[0]} (range '
               f'{np.min(values, 0)}..{np.max(values, 0)}), but its enclosure '
               f'function was called with {[c[2:5] for c in mine]}')
    for m, (_, _, c_x0, (a, b), d, np_like) in enumerate(mine):
      ch.check(d in (0, degree), f'degree:{name}',
               lambda: f'{name}: called with degree {d}, expected {degree}')
      ch.check(isinstance(d, int), f'degree-type:{name}', lambda: repr(d))
      ch.check(np_like is jnp, f'backend:{name}', lambda: repr(np_like))
      ch.check(np.shape(a) == np.shape(b) == c_x0.shape or
               np.broadcast_shapes(np.shape(a), c_x0.shape) == c_x0.shape,
               f'region-shape:{name}', lambda: f'{np.shape(a)} {c_x0.shape}')
      with np.errstate(invalid='ignore'):
        ch.check(np.all(a <= c_x0 + tol) and np.all(c_x0 <= b + tol),
                 f'region:{name}',
                 lambda: f'{name}: reference value {c_x0} outside [{a}, {b}]')
      ch.check(matched[m], f'spurious:{name}',
               lambda: f'{name}: called with reference value {c_x0}, region '
               f'[{a}, {b}], degree {d}, which is not the argument of a use')


def programs(ch):
  name = ch.pick(list(PROGRAMS))
  kind = ch.pick(list(KINDS))
  ch.shard()
  letters, prog = PROGRAMS[name]
  letter = ch.pick(list(letters))
  n = P_hash(name) + P_hash(kind)
  regions = REGIONS[letter]
  region = ch.pick(regions if deep() else [regions[n % 3]])
  degree = ch.choose(5 if deep() else 4)
  prop = ch.flag() if degree else False
  if not is_x64() and degree > 2:
    return
  if letter == 'v' and degree > 3:
    return
  fun, kwargs = KINDS[kind]
  other = {'exp': 'sin', 'sin': 'quad', 'quad': 'exp'}[fun]
  log = []
  how = ch.choose(2) if deep() else (n // 3 + degree) % 2
  with_params = {'tag': 'x', 'n': 3} if degree % 2 else {}
  P = new_primitive('p', impl(fun))
  Q = new_primitive('q', impl(other))
  f = lambda x: prog(bind(P, **with_params), bind(Q), x)
  if how == 0:
    jax_bound.register_elementwise_primitive(Q, lagrange(other, log=log))
    jax_bound.register_elementwise_primitive(
        P, lagrange(fun, log=log, **kwargs))
    bound = bounds_of(f, degree, prop, region)
  else:
    # Registered after the bound function was created, and registered twice.
    make = jax_bound.taylor_bounds(f, degree, prop)
    wrong = lambda *a: (_ for _ in ()).throw(AssertionError('wrong function'))
    jax_bound.register_elementwise_primitive(P, wrong)
    jax_bound.register_elementwise_primitive(
        P, lagrange(fun, log=log, **kwargs))
    jax_bound.register_elementwise_primitive(Q, lagrange(other, log=log))
    x0, lo, hi = (jnp.asarray(t) for t in region)
    bound = make(x0, (lo, hi))
  ch.count(1)
  label = f'{name}:{kind}:{letter}{degree}{int(prop)}'
  coeffs = arrays(bound)
  sound(ch, label, coeffs, prog, fun, other, region)
  check_calls(ch, label, log, prog, fun, other, region, degree,
              {'P': fun, 'Q': other})
  if name == 'P(x)' and not np.ndim(region[0]):
    # The bounds are the registered enclosure itself.
    expected = lagrange(fun, **kwargs)(
        jnp.asarray(region[0]), tuple(map(jnp.asarray, region[1:])), degree,
        jnp)
    same = len(expected) == len(coeffs) and all(
        is_interval(e) == is_interval(c) and np.allclose(
            ends(e), ends(c), rtol=1e-6, atol=1e-7)
        for e, c in zip(expected, coeffs))
    ch.check(same, f'value:{label}', lambda: f'{coeffs} != {expected}')
  ch.outcome((label, region, [np.asarray(c).tobytes() for c in coeffs]))


def same(a, b, rtol=1e-9):
  """Same structure and values."""
  if len(a) != len(b):
    return False
  for c, d in zip(a, b):
    if is_interval(c) != is_interval(d):
      return False
    for e, g in zip(ends(c), ends(d)):
      if e.shape != g.shape:
        return False
      if not np.all(close(e, g, rtol, 1e-12)):
        return False
  return True


def equivalence(ch):
  """A primitive registered like a built-in one is bounded like it."""
  builtin = ch.pick(['exp', 'logistic', 'log', 'cbrt', 'abs', 'sqrt']
                    if deep() else ['exp', 'logistic', 'log'])
  name = ch.pick(list(PROGRAMS))
  ch.shard()
  letters, prog = PROGRAMS[name]
  if 'Q' in name:
    return
  letter = ch.pick(list(letters))
  degree = ch.choose(4)
  prop = ch.flag() if degree else False
  fun = {'exp': jnp.exp, 'logistic': jax.lax.logistic, 'cbrt': jnp.cbrt,
         'abs': jnp.abs, 'sqrt': jnp.sqrt, 'log': jnp.log}[builtin]
  import functools
  enclosure = {
      'exp': primitive_enclosures.exp_enclosure,
      'logistic': primitive_enclosures.sigmoid_enclosure,
      'cbrt': primitive_enclosures.cbrt_enclosure,
      'abs': primitive_enclosures.abs_enclosure,
      'sqrt': functools.partial(primitive_enclosures.pow_enclosure, .5),
      'log': primitive_enclosures.log_enclosure}[builtin]
  P = new_primitive('p_like_' + builtin, fun)
  jax_bound.register_elementwise_primitive(P, enclosure)
  region = REGIONS[letter][P_hash(name) % 3]
  a, b = (outcome_of(jax_bound.taylor_bounds(
      lambda x, g=g: prog(g, None, x), degree, prop), region)
          for g in (bind(P), fun))
  ch.count(2)
  if isinstance(a, str) or isinstance(b, str):
    ch.check(a is b, f'equivalent:{name}:{builtin}:{degree}', f'{a} {b}')
    return
  nan = any(np.isnan(e).any() for c in b for e in ends(c))
  ch.check(nan or same(a, b, 1e-9 if is_x64() else 1e-5),
           f'equivalent:{name}:{builtin}:{degree}:{int(prop)}',
           lambda: f'{a} != {b}')
  ch.outcome((name, builtin, degree, prop, [np.asarray(c).tobytes() for c in a]))


def P_hash(name):
  return sum(map(ord, name))


# --- histories of registrations ---------------------------------------------

# Three primitives that start unregistered (None) and one built-in one.
EVENTS = [('P', 'exp'), ('P', 'exp+'), ('Q', 'sin'), ('Q', 'sin+'),
          ('S', 'sin'), ('S', 'sin+'), ('E', 'exp+'), ('E', None),
          ('P', 'exp[]')]
HISTORY_PROGRAMS = {
    'P(x)': ('P', lambda P, Q, S, x: P(2. * x + 1.)),
    'P(x)+Q(x)': ('PQ', lambda P, Q, S, x: P(x) + Q(x)),
    'Q(P(x))': ('PQ', lambda P, Q, S, x: Q(P(x))),
    'S(x)*P(x)': ('SP', lambda P, Q, S, x: S(x) * P(x)),
    'exp(P(x))': ('PE', lambda P, Q, S, x: jnp.exp(-P(x))),
    'exp(x)*S': ('ES', lambda P, Q, S, x: jnp.exp(x) * S(jnp.exp(x))),
    'exp': ('E', lambda P, Q, S, x: jnp.exp(x) + x**2),
    'softplus': ('', lambda P, Q, S, x: jax.nn.softplus(x) / (2. + x**2)),
    'P(1)*log': ('', lambda P, Q, S, x: P(jnp.ones(())) * jnp.log(x + 2.)),
}
HISTORY_REGION = (.5, -.25, 1.25)


def with_events(events, degree, prop):
  """Fresh primitives after a list of events, and bounds after each step."""
  P = new_primitive('p', jnp.exp)
  Q = new_primitive('q', jnp.sin)
  S = new_primitive('s', jnp.sin)
  table = {'P': P, 'Q': Q, 'S': S, 'E': jax.lax.exp_p}
  funs = {name: (lambda x, g=g: g(bind(P), bind(Q), bind(S), x))
          for name, (_, g) in HISTORY_PROGRAMS.items()}
  early = {name: jax_bound.taylor_bounds(f, degree, prop)
           for name, f in funs.items()}
  return table, funs, early


def register(table, event):
  which, kind = event
  if kind is None:
    enclosure = primitive_enclosures.exp_enclosure
  else:
    fun, kwargs = KINDS[kind]
    enclosure = lagrange(fun, **kwargs)
  jax_bound.register_elementwise_primitive(table[which], enclosure)


def outcome_of(make, region):
  x0, lo, hi = (jnp.asarray(t) for t in region)
  try:
    return arrays(make(x0, (lo, hi)))
  except NotImplementedError:
    return 'refused'


def expected(ch, name, state, degree, prop):
  """Bounds after registering exactly what the state says, once."""
  needs = HISTORY_PROGRAMS[name][0]
  relevant = tuple((w, state[w]) for w in sorted(needs))
  key = (name, relevant, degree, prop)
  if key not in ch.cache:
    if any(kind is None and w != 'E' for w, kind in relevant):
      ch.cache[key] = 'refused'
    else:
      table, funs, _ = with_events((), degree, prop)
      register(table, ('E', None))
      for event in relevant:
        register(table, event)
      ch.cache[key] = outcome_of(
          jax_bound.taylor_bounds(funs[name], degree, prop), HISTORY_REGION)
      register(table, ('E', None))
  return ch.cache[key]


def histories(ch):
  depth = 4 if deep() else 3
  events = []
  first = ch.choose(len(EVENTS) + 1)
  if first:
    events.append(EVENTS[first - 1])
    second = ch.choose(len(EVENTS) + 1)
    if second:
      events.append(EVENTS[second - 1])
  ch.shard()
  while events and len(events) >= 2 and len(events) < depth:
    k = ch.choose(len(EVENTS) + 1)
    if not k:
      break
    events.append(EVENTS[k - 1])
  n = sum(EVENTS.index(e) * (i + 2) for i, e in enumerate(events))
  degree = 1 + n % 2
  prop = ch.flag() if deep() else bool(n % 4 < 2)
  # What each step computes: expected values first, from a clean registry.
  state = {'P': None, 'Q': None, 'S': None, 'E': None}
  states = [dict(state)]
  for which, kind in events:
    state[which] = kind
    states.append(dict(state))
  # Programs evaluated at the intermediate steps are the last step of another
  # history; here only those that can be affected by stale state.
  try:
    wanted = [{name: expected(ch, name, s, degree, prop)
               for name in HISTORY_PROGRAMS} for s in states]
    table, funs, early = with_events((), degree, prop)
    register(table, ('E', None))
    for step, s in enumerate(states):
      if step:
        register(table, events[step - 1])
      last = step == len(states) - 1
      for k, name in enumerate(HISTORY_PROGRAMS):
        if not last and (k + n + step) % 3:
          continue
        make = early[name] if (k + step) % 2 else jax_bound.taylor_bounds(
            funs[name], degree, prop)
        got = outcome_of(make, HISTORY_REGION)
        ch.count(1)
        want = wanted[step][name]
        ok = (got == want if isinstance(got, str) or isinstance(want, str)
              else same(got, want))
        ch.check(ok, f'history:{name}:{events[:step]}',
                 lambda: f'{name} after {events[:step]}, degree {degree}, '
                 f'propagate={prop}: {got}, expected {want}')
      ch.state((tuple(sorted(s.items(), key=str))))
  finally:
    jax_bound.register_elementwise_primitive(
        jax.lax.exp_p, primitive_enclosures.exp_enclosure)
  ch.outcome((events, degree, prop))


# --- primitives that JAX or autobound already know ---------------------------

# name: (primitive, function); some have a rule of their own, some are
# registered, some are not supported.
BUILTINS = ('neg', 'integer_pow', 'exp', 'log', 'abs', 'logistic', 'sqrt',
            'cbrt', 'sin', 'tanh', 'log1p', 'square', 'sign', 'floor', 'copy',
            'expm1', 'rsqrt', 'exp2')
BUILTIN_PROGRAMS = {
    'g(2x+1)': lambda g, x: g(2. * x + 1.),
    'g(x)*x': lambda g, x: g(x) * x,
    'g(g(x))': lambda g, x: g(1. + g(x)),
    'g(x)+g(2x)': lambda g, x: g(x) + g(x + x),
    'g([x,x])': lambda g, x: jnp.sum(g(jnp.ones(3) * x) * jnp.arange(3.)),
    'jit g': lambda g, x: x + jax.jit(g)(x),
}
OTHER = (lambda x: x * (x + 2.), lambda x: jnp.exp(x) * jnp.log(x),
         lambda x: -x, lambda x: x**3, lambda x: jnp.sin(x))


def builtin(name):
  lax = jax.lax
  if name == 'integer_pow':
    return lax.integer_pow_p, lambda x: lax.integer_pow(x, 3)
  if name == 'sqrt':
    return lax.sqrt_p, jnp.sqrt
  if name == 'copy':
    return lax.copy_p, lambda x: lax.copy_p.bind(jnp.asarray(x))
  return getattr(lax, name + '_p'), getattr(lax, name)


def smooth(fun, width):
  """An enclosure function with a wide last coefficient."""
  def derivative(f):
    return lambda u: jax.jvp(f, (u,), (jnp.ones_like(u),))[1]
  def get_enclosure(x0, trust_region, degree, np_like):
    del trust_region
    coeffs, f, scale = [], fun, 1.
    for k in range(degree + 1):
      coeffs.append(f(x0) / scale)
      f, scale = derivative(f), scale * (k + 1)
    last = coeffs.pop()
    return tuple(coeffs) + ((last - width, last + width),)
  return get_enclosure


def builtins(ch):
  """Registering a primitive that has a rule replaces the rule."""
  name = ch.pick(BUILTINS)
  ch.shard()
  program = ch.pick(list(BUILTIN_PROGRAMS))
  degree = ch.choose(4)
  prop = ch.flag() if deep() else bool((degree + len(program)) % 2)
  prim, fun = builtin(name)
  like = new_primitive(f'like_{name}', fun)
  prog = BUILTIN_PROGRAMS[program]
  region = (1.25, .5, 2.)
  f = lambda x: prog(fun, x)
  g = lambda x: prog(bind(like), x)
  early = jax_bound.taylor_bounds(f, degree, prop)
  def others():
    return [outcome_of(jax_bound.taylor_bounds(
        lambda x, h=h: h(x), degree, prop), region) for h in OTHER]
  before = others()
  for width in (2., .5):
    enclosure = smooth(fun, width)
    jax_bound.register_elementwise_primitive(prim, enclosure)
    jax_bound.register_elementwise_primitive(like, enclosure)
    want = outcome_of(jax_bound.taylor_bounds(g, degree, prop), region)
    for k, make in enumerate(
        (early, jax_bound.taylor_bounds(f, degree, prop))):
      got = outcome_of(make, region)
      ch.count(1)
      ok = (got == want if isinstance(got, str) or isinstance(want, str)
            else same(got, want))
      ch.check(ok, f'builtin:{name}:{program}:{degree}:{int(prop)}',
               lambda: f'{program} with g={name} (width {width}, created '
               f'{("before", "after")[k]} the registration): {got}, expected '
               f'{want}')
  uses = {'exp': (1,), 'log': (1,), 'neg': (2,), 'integer_pow': (3,),
          'sin': (4,)}.get(name, ())
  for k, (a, b) in enumerate(zip(before, others())):
    if k not in uses:
      ok = a == b if isinstance(a, str) or isinstance(b, str) else same(a, b)
      ch.check(ok, f'builtin-other:{name}:{k}', lambda: f'{a} != {b}')
  ch.outcome((name, program, degree, prop))


SPACES = {'builtins': builtins, 'programs': programs, 'equivalence': equivalence,
          'histories': histories}
